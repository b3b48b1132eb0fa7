// The function wrapper, summarised through small uses of it.
#include "spec/fun.hpp"
