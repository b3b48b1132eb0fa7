// Translation unit handed to clang so that every template of the core headers is instantiated and type-checked
// (nothing is linked or run). The archive is a stand-in that only has the interface of a boost archive.
#include <initializer_list>
#include <string>
#include <vector>

#include <dcgp/dcgp.hpp>
#include <dcgp/gym.hpp>
#include <dcgp/rng.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>

#include "driver_archive.hpp"

namespace dcgp
{
using dfun = function<double(const std::vector<double> &)>;
template class function<double(const std::vector<double> &)>;
template class kernel<double>;
template class kernel<audi::gdual_d>;
template class kernel<audi::gdual_v>;
template class kernel_set<double>;
template class kernel_set<audi::gdual_d>;
template class kernel_set<audi::gdual_v>;
template class expression<double>;
template class expression_weighted<double>;
} // namespace dcgp

namespace dcgp_facts
{
template <typename T>
void s11n(T &x)
{
    out_archive o;
    in_archive i;
    access::call(o, x);
    access::call(i, x);
}
template <typename E, typename T>
void use_expr(E &e, const E &ce, std::vector<T> v, std::vector<std::string> s)
{
    (void)ce(v);
    (void)ce(s);
    (void)ce.loss(v, v, E::loss_type::MSE);
    (void)ce.loss(std::vector<std::vector<T>>{}, std::vector<std::vector<T>>{}, std::string("MSE"), 0u);
    e.set(std::vector<unsigned>{});
    e.set_f_gene(0u, 0u);
    e.set_eph_val(v);
    e.set_eph_symb(s);
    e.mutate(0u);
    e.mutate(std::vector<unsigned>{});
    e.mutate_random(1u);
    e.mutate_inactive(1u);
    e.mutate_active(1u);
    e.mutate_active_fgene(1u);
    e.mutate_active_cgene(1u);
    e.mutate_ogene(1u);
    (void)ce.get_arity(0u);
}
void use(std::vector<double> vd, std::vector<unsigned> vu, std::vector<std::string> vs)
{
    {
        dcgp::expression<double> e;
        use_expr<dcgp::expression<double>, double>(e, e, vd, vs);
        e.set_from_range(vu.begin(), vu.end());
        e.set_from_range(vd.begin(), vd.end());
        (void)e(std::initializer_list<double>{1.});
        (void)e(std::initializer_list<std::string>{"x"});
        s11n(e);
    }
    {
        dcgp::expression_weighted<double> e;
        e.set(vu);
        (void)e(vd);
        (void)e(vs);
        s11n(e);
    }
    {
        dcgp::expression_ann e;
        e.set(vu);
        (void)e(vd);
        (void)e(vs);
        (void)e(std::initializer_list<double>{1.});
        (void)e(std::initializer_list<std::string>{"x"});
        s11n(e);
    }
    {
        dcgp::kernel<double> k;
        dcgp::kernel_set<double> ks;
        s11n(k);
        s11n(ks);
        dcgp::dfun f{[](const std::vector<double> &) { return 0.; }};
        (void)f.extract<double (*)(const std::vector<double> &)>();
        s11n(f);
        dcgp::detail::function_inner<dcgp::my_sum_func<double>, double, const std::vector<double> &> fi;
        s11n(fi);
    }
}
} // namespace dcgp_facts
