// Optimisation layer: the symbolic regression problem and the five evolutionary / gradient algorithms, plus the
// vectorised-gdual instantiation of the expression used for derivatives.
#include <initializer_list>
#include <string>
#include <vector>

#include <dcgp/dcgp.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include "driver_archive.hpp"

namespace dcgp_facts
{
template <typename T>
void s11n(T &x)
{
    out_archive o;
    in_archive i;
    access::call(o, x);
    access::call(i, x);
}
void use(dcgp::symbolic_regression p, dcgp::es4cgp a, dcgp::gd4cgp b, dcgp::mes4cgp c, dcgp::moes4cgp d,
         dcgp::momes4cgp e)
{
    s11n(p);
    s11n(a);
    s11n(b);
    s11n(c);
    s11n(d);
    s11n(e);
}
} // namespace dcgp_facts
