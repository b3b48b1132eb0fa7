// What objects print about themselves, next to what their public interface says about them.
#include <sstream>
#include <string>
#include <vector>

namespace vspec
{
using uvec = std::vector<unsigned>;
using dvec = std::vector<double>;
using svec = std::vector<std::string>;

template <typename E>
std::string printed(const E &x)
{
    std::ostringstream ss;
    ss << x;
    return ss.str();
}
// one labelled value
template <typename E>
void line(std::ostringstream &ss, const std::string &label, const E &x)
{
    ss << " " << label << " ";
    audi::stream(ss, x);
    ss << " ";
}
template <typename E>
void common(std::ostringstream &ss, const E &x, bool idx)
{
    ss << "d-CGP Expression: ";
    line(ss, "Number of inputs:", x.get_n());
    line(ss, "Number of outputs:", x.get_m());
    line(ss, "Number of rows:", x.get_r());
    line(ss, "Number of columns:", x.get_c());
    line(ss, "Number of levels-back allowed:", x.get_l());
    line(ss, "Basis function arity:", x.get_arity());
    if (idx) {
        line(ss, "Start of the gene expressing the node:", x.get_gene_idx());
    }
    line(ss, "Resulting lower bounds:", x.get_lb());
    line(ss, "Resulting upper bounds:", x.get_ub());
    line(ss, "Current expression (encoded):", x.get());
    line(ss, "Active nodes:", x.get_active_nodes());
    line(ss, "Active genes:", x.get_active_genes());
    line(ss, "Function set:", x.get_f());
}

std::string probe_expression_double(const dcgp::expression<double> &x)
{
    return printed(x);
}
std::string ref_expression_double(const dcgp::expression<double> &x)
{
    std::ostringstream ss;
    common(ss, x, true);
    line(ss, "Number of ephemeral constants:", x.get_eph_val().size());
    line(ss, "Ephemeral constants names:", x.get_eph_symb());
    line(ss, "Ephemeral constants values:", x.get_eph_val());
    return ss.str();
}
std::string probe_weighted_double(const dcgp::expression_weighted<double> &x)
{
    return printed(x);
}
std::string ref_weighted_double(const dcgp::expression_weighted<double> &x)
{
    std::ostringstream ss;
    common(ss, x, false);
    line(ss, "Weights:", x.get_weights());
    return ss.str();
}
std::string probe_kernel_double(const dcgp::kernel<double> &x)
{
    return printed(x);
}
std::string ref_kernel_double(const dcgp::kernel<double> &x)
{
    return x.get_name();
}
std::string probe_kernel_set_double(const dcgp::kernel_set<double> &x)
{
    return printed(x);
}
std::string ref_kernel_set_double(const dcgp::kernel_set<double> &x)
{
    std::ostringstream ss;
    audi::stream(ss, x());
    return ss.str();
}

std::string probe_expression_gdual(const dcgp::expression<audi::gdual<double>> &x)
{
    return printed(x);
}
std::string ref_expression_gdual(const dcgp::expression<audi::gdual<double>> &x)
{
    std::ostringstream ss;
    common(ss, x, true);
    line(ss, "Number of ephemeral constants:", x.get_eph_val().size());
    line(ss, "Ephemeral constants names:", x.get_eph_symb());
    line(ss, "Ephemeral constants values:", x.get_eph_val());
    return ss.str();
}
std::string probe_weighted_gdual(const dcgp::expression_weighted<audi::gdual<double>> &x)
{
    return printed(x);
}
std::string ref_weighted_gdual(const dcgp::expression_weighted<audi::gdual<double>> &x)
{
    std::ostringstream ss;
    common(ss, x, false);
    line(ss, "Weights:", x.get_weights());
    return ss.str();
}
std::string probe_kernel_gdual(const dcgp::kernel<audi::gdual<double>> &x)
{
    return printed(x);
}
std::string ref_kernel_gdual(const dcgp::kernel<audi::gdual<double>> &x)
{
    return x.get_name();
}
std::string probe_kernel_set_gdual(const dcgp::kernel_set<audi::gdual<double>> &x)
{
    return printed(x);
}
std::string ref_kernel_set_gdual(const dcgp::kernel_set<audi::gdual<double>> &x)
{
    std::ostringstream ss;
    audi::stream(ss, x());
    return ss.str();
}

std::string probe_ann(const dcgp::expression_ann &x)
{
    return printed(x);
}
std::string ref_ann(const dcgp::expression_ann &x)
{
    std::ostringstream ss;
    common(ss, x, false);
    line(ss, "Weights:", x.get_weights());
    line(ss, "Biases:", x.get_biases());
    return ss.str();
}

std::string probe_list_of_double(const std::vector<double> &x)
{
    std::ostringstream ss;
    ::operator<<(ss, x);
    return ss.str();
}
std::string ref_list_of_double(const std::vector<double> &x)
{
    std::string inside;
    for (std::vector<double>::size_type i = 0u; i < x.size(); ++i) {
        std::ostringstream one;
        one << " " << x[i];
        inside += one.str();
    }
    return "[" + inside + " ]";
}

std::string probe_list_of_unsigned(const std::vector<unsigned> &x)
{
    std::ostringstream ss;
    ::operator<<(ss, x);
    return ss.str();
}
std::string ref_list_of_unsigned(const std::vector<unsigned> &x)
{
    std::string inside;
    for (std::vector<unsigned>::size_type i = 0u; i < x.size(); ++i) {
        std::ostringstream one;
        one << " " << x[i];
        inside += one.str();
    }
    return "[" + inside + " ]";
}

std::string probe_list_of_string(const std::vector<std::string> &x)
{
    std::ostringstream ss;
    ::operator<<(ss, x);
    return ss.str();
}
std::string ref_list_of_string(const std::vector<std::string> &x)
{
    std::string inside;
    for (std::vector<std::string>::size_type i = 0u; i < x.size(); ++i) {
        std::ostringstream one;
        one << " " << x[i];
        inside += one.str();
    }
    return "[" + inside + " ]";
}

#define VSPEC_SR const std::vector<dvec> &points, const std::vector<dvec> &labels, unsigned r, unsigned c, unsigned l, unsigned arity, \
    const std::vector<dcgp::kernel<double>> &f, unsigned n_eph, bool mo, unsigned parallel, const std::string &loss, unsigned seed
std::string probe_problem(VSPEC_SR)
{
    return dcgp::symbolic_regression(points, labels, r, c, l, arity, f, n_eph, mo, parallel, loss, seed).get_extra_info();
}
std::string ref_problem(VSPEC_SR)
{
    std::ostringstream ss;
    line(ss, "Data dimension (points):", points[0].size());
    line(ss, "Data dimension (labels):", labels[0].size());
    line(ss, "Data size:", points.size());
    line(ss, "Kernels:", f);
    line(ss, "Loss:", loss);
    return ss.str();
}

std::string probe_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.get_extra_info();
}
std::string ref_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    std::ostringstream ss;
    line(ss, "Maximum number of generations:", gen);
    line(ss, "Maximum number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Learn constants?:", learn);
    line(ss, "Verbosity:", level);
    line(ss, "Using bfe:", "no");
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_batch_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level, const pagmo::bfe &b)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.set_bfe(b);
    return a.get_extra_info();
}
std::string ref_batch_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level, const pagmo::bfe &b)
{
    std::ostringstream ss;
    line(ss, "Maximum number of generations:", gen);
    line(ss, "Maximum number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Learn constants?:", learn);
    line(ss, "Verbosity:", level);
    line(ss, "Using bfe:", "yes");
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.get_extra_info();
}
std::string ref_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    std::ostringstream ss;
    line(ss, "Number of generations:", gen);
    line(ss, "Maximum number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Learn constants?:", learn);
    line(ss, "Verbosity:", level);
    line(ss, "Using bfe:", "no");
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_batch_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level, const pagmo::bfe &b)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.set_bfe(b);
    return a.get_extra_info();
}
std::string ref_batch_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level, const pagmo::bfe &b)
{
    std::ostringstream ss;
    line(ss, "Number of generations:", gen);
    line(ss, "Maximum number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Learn constants?:", learn);
    line(ss, "Verbosity:", level);
    line(ss, "Using bfe:", "yes");
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.get_extra_info();
}
std::string ref_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    std::ostringstream ss;
    line(ss, "Maximum number of generations:", gen);
    line(ss, "Number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Verbosity:", level);
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.get_extra_info();
}
std::string ref_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    std::ostringstream ss;
    line(ss, "Maximum number of generations:", gen);
    line(ss, "Maximum number of active mutations:", max_mut);
    line(ss, "Exit condition of the final loss (ftol):", ftol);
    line(ss, "Verbosity:", level);
    line(ss, "Seed:", seed);
    return ss.str();
}

std::string probe_gd4cgp(unsigned iter, double lr, double lr_min, unsigned level)
{
    dcgp::gd4cgp a(iter, lr, lr_min);
    a.set_verbosity(level);
    return a.get_extra_info();
}
std::string ref_gd4cgp(unsigned iter, double lr, double lr_min, unsigned level)
{
    std::ostringstream ss;
    line(ss, "Maximum number of iterations:", iter);
    line(ss, "Initial learning rate:", lr);
    line(ss, "Minimum learning rate:", lr_min);
    line(ss, "Verbosity:", level);
    return ss.str();
}
} // namespace vspec
