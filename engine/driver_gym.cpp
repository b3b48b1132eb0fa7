// The reference data sets, summarised next to those of the library.
#include "spec/gym.hpp"
