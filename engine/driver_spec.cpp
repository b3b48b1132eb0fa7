// The reference functions, summarised next to the library's.
#include "driver_core.cpp"

#include "spec/expr.hpp"
#include "spec/chrom.hpp"

namespace vspec
{
template uvec reach<double>(const dcgp::expression<double> &, const uvec &);
template uvec active_nodes<double>(const dcgp::expression<double> &);
template uvec active_genes<double>(const dcgp::expression<double> &, const uvec &);
template dvec eval_num<double>(const dcgp::expression<double> &, const dvec &);
template svec eval_str<double>(const dcgp::expression<double> &, const svec &);
template dvec eval_weighted<double, dcgp::expression_weighted<double>>(const dcgp::expression_weighted<double> &,
                                                                       const dvec &, const dvec &);
template svec eval_weighted_str<double, dcgp::expression_weighted<double>>(const dcgp::expression_weighted<double> &,
                                                                           const svec &, const svec &);
template double mse<double>(const dvec &, const dvec &);
template double ce<double>(dvec, const dvec &);
template double sample_loss<double>(const dcgp::expression<double> &, const dvec &, const dvec &,
                                    dcgp::expression<double>::loss_type);
template double batch_loss<double>(const dcgp::expression<double> &, const std::vector<dvec> &, const std::vector<dvec> &,
                                   dcgp::expression<double>::loss_type, unsigned);
} // namespace vspec

#include "spec/kern.hpp"

namespace vspec
{
#define VSPEC_KERNELS(T)                                                                                               \
    template T probe_value<T>(const std::string &, const std::vector<T> &);                                            \
    template std::string probe_text<T>(const std::string &, const svec &);                                             \
    template std::string probe_name<T>(const std::string &);                                                           \
    template T probe_list<T>(const std::string &, const std::string &, const std::vector<T> &, unsigned);              \
    template double probe_count<T>(const std::string &, const std::string &);                                          \
    template T probe_pushed<T>(const std::string &, const std::string &, const std::vector<T> &);                      \
    template std::string probe_pushed_name<T>(const std::string &, const std::string &);                               \
    template T ref_value<T>(const std::string &, const std::vector<T> &);
VSPEC_KERNELS(double)
VSPEC_KERNELS(audi::gdual_d)
VSPEC_KERNELS(audi::gdual_v)
} // namespace vspec
