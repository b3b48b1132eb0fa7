#ifndef DCGP_VERIF_STUB_AUDI_BC_HPP
#define DCGP_VERIF_STUB_AUDI_BC_HPP
#include <type_traits>
#endif
