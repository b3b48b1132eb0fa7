#ifndef DCGP_VERIF_STUB_AUDI_HPP
#define DCGP_VERIF_STUB_AUDI_HPP
#include <algorithm>
#include <numeric>
#include <audi/back_compatibility.hpp>
#include <audi/functions.hpp>
#include <audi/gdual.hpp>
#include <audi/io.hpp>
#endif
