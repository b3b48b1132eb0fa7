// The reference functions of the algorithms, summarised next to the library's.
#include "driver_opt.cpp"

namespace vspec
{
using uvec = std::vector<unsigned>;
using dvec = std::vector<double>;
using svec = std::vector<std::string>;
} // namespace vspec

#include "spec/algo.hpp"
