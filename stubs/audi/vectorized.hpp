#include <audi/gdual.hpp>
