// Reference definitions for the symbolic regression problem: what each member returns, in terms of the public interface
// of the expressions it is built from.
namespace vspec
{
using dvecs = std::vector<std::vector<double>>;
using dkernels = std::vector<dcgp::kernel<double>>;
using vkernels = std::vector<dcgp::kernel<audi::gdual_v>>;

#define VSPEC_SR_PARAMS                                                                                                \
    const dvecs &points, const dvecs &labels, unsigned r, unsigned c, unsigned l, unsigned arity, dkernels f,          \
        unsigned n_eph, bool mo, unsigned batches, std::string loss, unsigned seed
#define VSPEC_SR_ARGS points, labels, r, c, l, arity, f, n_eph, mo, batches, loss, seed

inline uvec genes(const dvec &x, unsigned n_eph)
{
    uvec out;
    for (auto i = static_cast<decltype(x.size())>(n_eph); i < x.size(); ++i) {
        out.push_back(boost::numeric_cast<unsigned>(x[i]));
    }
    return out;
}
inline dvec constants(const dvec &x, unsigned n_eph)
{
    dvec out;
    for (auto i = 0u; i < n_eph; ++i) {
        out.push_back(x[i]);
    }
    return out;
}
inline void encode(dcgp::expression<double> &ex, const dvec &x, unsigned n_eph)
{
    ex.set(genes(x, n_eph));
    ex.set_eph_val(constants(x, n_eph));
}
inline dcgp::expression<double> model(VSPEC_SR_PARAMS)
{
    return dcgp::expression<double>(static_cast<unsigned>(points[0].size()), static_cast<unsigned>(labels[0].size()), r, c,
                                    l, arity, f, n_eph, seed);
}


// ------------------------------------------------------------------------------- what a model computes
dvec probe_fitness(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.fitness(x);
}
dvec ref_fitness(VSPEC_SR_PARAMS, const dvec &x)
{
    auto ex = model(VSPEC_SR_ARGS);
    encode(ex, x, n_eph);
    dvec out;
    out.push_back(ex.loss(points, labels, loss, batches));
    if (mo) {
        out.push_back(static_cast<double>(ex.get_active_genes().size()));
    }
    return out;
}
dvec probe_predict(VSPEC_SR_PARAMS, const dvec &x, const dvec &point)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.predict(point, x);
}
dvec ref_predict(VSPEC_SR_PARAMS, const dvec &x, const dvec &point)
{
    auto ex = model(VSPEC_SR_ARGS);
    encode(ex, x, n_eph);
    return ex(point);
}
dvecs probe_predicts(VSPEC_SR_PARAMS, const dvec &x, const dvecs &more)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.predict(more, x);
}
dvecs ref_predicts(VSPEC_SR_PARAMS, const dvec &x, const dvecs &more)
{
    auto ex = model(VSPEC_SR_ARGS);
    encode(ex, x, n_eph);
    dvecs out;
    for (auto i = 0u; i < more.size(); ++i) {
        out.push_back(ex(more[i]));
    }
    return out;
}
std::string probe_pretty(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.pretty(x);
}
std::string ref_pretty(VSPEC_SR_PARAMS, const dvec &x)
{
    auto ex = model(VSPEC_SR_ARGS);
    encode(ex, x, n_eph);
    svec names;
    for (auto i = 0u; i < points[0].size(); ++i) {
        names.push_back("x" + std::to_string(i));
    }
    std::ostringstream ss;
    pagmo::stream(ss, ex(names));
    return ss.str();
}
std::string probe_prettier(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.prettier(x);
}
std::string ref_prettier(VSPEC_SR_PARAMS, const dvec &x)
{
    auto ex = model(VSPEC_SR_ARGS);
    encode(ex, x, n_eph);
    svec names;
    for (auto i = 0u; i < points[0].size(); ++i) {
        names.push_back("x" + std::to_string(i));
    }
    auto raws = ex(names);
    std::vector<SymEngine::Expression> out;
    for (auto i = 0u; i < raws.size(); ++i) {
        out.push_back(SymEngine::Expression(raws[i]));
    }
    std::ostringstream ss;
    pagmo::stream(ss, out);
    return ss.str();
}
uvec probe_cgp(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    p.set_cgp(x);
    return p.get_cgp().get();
}
uvec ref_cgp(VSPEC_SR_PARAMS, const dvec &x)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)f, (void)mo, (void)batches, (void)loss,
        (void)seed;
    return genes(x, n_eph);
}
dvec probe_eph(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    p.set_cgp(x);
    return p.get_cgp().get_eph_val();
}
dvec ref_eph(VSPEC_SR_PARAMS, const dvec &x)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)f, (void)mo, (void)batches, (void)loss,
        (void)seed;
    return constants(x, n_eph);
}

// ------------------------------------------------------------------------------- the declared shape
dvec probe_lb(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.get_bounds().first;
}
dvec probe_ub(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.get_bounds().second;
}
inline dvec bounds_of(const uvec &b, unsigned n_eph, double eph)
{
    dvec out;
    for (auto i = 0u; i < n_eph; ++i) {
        out.push_back(eph);
    }
    for (auto i = 0u; i < b.size(); ++i) {
        out.push_back(static_cast<double>(b[i]));
    }
    return out;
}
dvec ref_lb(VSPEC_SR_PARAMS)
{
    auto ex = model(VSPEC_SR_ARGS);
    return bounds_of(ex.get_lb(), n_eph, -10.);
}
dvec ref_ub(VSPEC_SR_PARAMS)
{
    auto ex = model(VSPEC_SR_ARGS);
    return bounds_of(ex.get_ub(), n_eph, 10.);
}
unsigned long probe_nix(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.get_nix();
}
unsigned long ref_nix(VSPEC_SR_PARAMS)
{
    auto ex = model(VSPEC_SR_ARGS);
    return ex.get_lb().size();
}
unsigned long probe_nobj(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.get_nobj();
}
unsigned long ref_nobj(VSPEC_SR_PARAMS)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)f, (void)n_eph, (void)batches, (void)loss,
        (void)seed;
    return mo ? 2u : 1u;
}
// ------------------------------------------------------------------------------- derivatives
inline audi::gdual_v column(const dvecs &rows, unsigned long j)
{
    dvec out;
    for (auto i = 0u; i < rows.size(); ++i) {
        out.push_back(rows[i][j]);
    }
    return audi::gdual_v(audi::vectorized<double>(out));
}
inline std::vector<audi::gdual_v> columns(const dvecs &rows)
{
    std::vector<audi::gdual_v> out;
    for (auto j = 0u; j < rows[0].size(); ++j) {
        out.push_back(column(rows, j));
    }
    return out;
}
inline double mean(const audi::vectorized<double> &v)
{
    return std::accumulate(v.begin(), v.end(), 0.) / static_cast<double>(v.size());
}
inline dcgp::expression<audi::gdual_v> dmodel(VSPEC_SR_PARAMS)
{
    dcgp::kernel_set<audi::gdual_v> g;
    for (auto i = 0u; i < f.size(); ++i) {
        if (f[i].get_name() == "pdiv") {
            g.push_back("div");
        } else {
            g.push_back(f[i].get_name());
        }
    }
    return dcgp::expression<audi::gdual_v>(static_cast<unsigned>(points[0].size()),
                                           static_cast<unsigned>(labels[0].size()), r, c, l, arity, g(), n_eph, seed);
}
inline audi::gdual_v series(VSPEC_SR_PARAMS, const dvec &x, unsigned order)
{
    auto de = dmodel(VSPEC_SR_ARGS);
    de.set(genes(x, n_eph));
    std::vector<audi::gdual_v> e;
    for (auto i = 0u; i < n_eph; ++i) {
        e.push_back(audi::gdual_v(x[i], de.get_eph_symb()[i], order));
    }
    de.set_eph_val(e);
    auto out = de.loss(columns(points), columns(labels),
                       loss == "MSE" ? dcgp::expression<audi::gdual_v>::loss_type::MSE
                                     : dcgp::expression<audi::gdual_v>::loss_type::CE);
    svec ds;
    for (auto i = 0u; i < n_eph; ++i) {
        ds.push_back("d" + de.get_eph_symb()[i]);
    }
    out.extend_symbol_set(ds);
    return out;
}
dvec probe_gradient(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.gradient(x);
}
dvec ref_gradient(VSPEC_SR_PARAMS, const dvec &x)
{
    auto s = series(VSPEC_SR_ARGS, x, 1u);
    dvec out(n_eph, 0.);
    if (s.get_order() != 0u) {
        for (auto i = 0u; i < n_eph; ++i) {
            uvec d(n_eph, 0u);
            d[i] = 1u;
            out[i] = mean(s.get_derivative(d));
        }
    }
    return out;
}
std::vector<dvec> probe_hessians(VSPEC_SR_PARAMS, const dvec &x)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.hessians(x);
}
using pattern = pagmo::sparsity_pattern;
pattern probe_gradient_sparsity(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.gradient_sparsity();
}
pattern ref_gradient_sparsity(VSPEC_SR_PARAMS)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)f, (void)mo, (void)batches, (void)loss,
        (void)seed;
    pattern out;
    for (auto i = 0u; i < n_eph; ++i) {
        out.push_back(pattern::value_type(0u, i));
    }
    return out;
}
pattern probe_hessian_sparsity(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.hessians_sparsity()[0];
}
pattern ref_hessian_sparsity(VSPEC_SR_PARAMS)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)f, (void)mo, (void)batches, (void)loss,
        (void)seed;
    pattern out;
    for (auto i = 0u; i < n_eph; ++i) {
        for (auto j = 0u; j <= i; ++j) {
            out.push_back(pattern::value_type(i, j));
        }
    }
    return out;
}
std::vector<dvec> ref_hessians(VSPEC_SR_PARAMS, const dvec &x)
{
    auto s = series(VSPEC_SR_ARGS, x, 2u);
    auto pairs = ref_hessian_sparsity(VSPEC_SR_ARGS);
    dvec h(pairs.size(), 0.);
    if (s.get_order() != 0u) {
        for (auto k = 0u; k < pairs.size(); ++k) {
            uvec d(n_eph, 0u);
            d[pairs[k].first] = 1u;
            d[pairs[k].second] += 1u;
            h[k] = mean(s.get_derivative(d));
        }
    }
    std::vector<dvec> out;
    out.push_back(h);
    if (mo) {
        out.push_back(dvec(1u, 0.));
    }
    return out;
}
unsigned long probe_hessian_count(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.hessians_sparsity().size();
}
unsigned long ref_hessian_count(VSPEC_SR_PARAMS)
{
    return ref_nobj(VSPEC_SR_ARGS);
}
// ------------------------------------------------------------------------------- histories
inline bool protected_division(const dkernels &f)
{
    for (auto i = 0u; i < f.size(); ++i) {
        if (f[i].get_name() == "pdiv") {
            return true;
        }
    }
    return false;
}
// the fitness after derivatives at another vector
dvec probe_after_other(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    p.gradient(y);
    return p.fitness(x);
}
dvec ref_after_other(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    auto s = series(VSPEC_SR_ARGS, y, 1u);
    if (x == y && !protected_division(f)) {
        auto ex = model(VSPEC_SR_ARGS);
        encode(ex, x, n_eph);
        dvec out;
        out.push_back(mean(s.constant_cf()));
        if (mo) {
            out.push_back(static_cast<double>(ex.get_active_genes().size()));
        }
        return out;
    }
    return ref_fitness(VSPEC_SR_ARGS, x);
}
dvec probe_after_predict(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    p.fitness(y);
    p.pretty(y);
    p.predict(points[0], y);
    return p.fitness(x);
}
dvec ref_after_predict(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    (void)y;
    return ref_fitness(VSPEC_SR_ARGS, x);
}
dvec probe_gradient_after(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    p.fitness(y);
    p.hessians(y);
    return p.gradient(x);
}
dvec ref_gradient_after(VSPEC_SR_PARAMS, const dvec &x, const dvec &y)
{
    (void)y;
    return ref_gradient(VSPEC_SR_ARGS, x);
}
// ------------------------------------------------------------------------------- rejected arguments
void probe_build(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
}
void ref_build(VSPEC_SR_PARAMS)
{
    (void)n_eph, (void)mo, (void)batches, (void)seed;
    if (points.size() == 0u || points.size() != labels.size()) throw std::invalid_argument("");
    for (auto i = 0u; i < points.size(); ++i) {
        if (points[i].size() != points[0].size()) throw std::invalid_argument("");
    }
    for (auto i = 0u; i < labels.size(); ++i) {
        if (labels[i].size() != labels[0].size()) throw std::invalid_argument("");
    }
    if (points[0].size() + n_eph == 0u || labels[0].size() == 0u) throw std::invalid_argument("");
    if (r == 0u || c == 0u || l == 0u || arity < 2u) throw std::invalid_argument("");
    if (f.size() == 0u) throw std::invalid_argument("");
    // every kernel must have a counterpart for series
    dcgp::kernel_set<audi::gdual_v> g;
    for (auto i = 0u; i < f.size(); ++i) {
        if (f[i].get_name() != "pdiv") {
            g.push_back(f[i].get_name());
        }
    }
    if (loss != "MSE" && loss != "CE") throw std::invalid_argument("");
}
pagmo::thread_safety probe_safety(VSPEC_SR_PARAMS)
{
    dcgp::symbolic_regression p(VSPEC_SR_ARGS);
    return p.get_thread_safety();
}
pagmo::thread_safety ref_safety(VSPEC_SR_PARAMS)
{
    (void)points, (void)labels, (void)r, (void)c, (void)l, (void)arity, (void)mo, (void)batches, (void)loss, (void)seed,
        (void)n_eph;
    auto it = std::min_element(f.begin(), f.end(), [](const dcgp::kernel<double> &a, const dcgp::kernel<double> &b) {
        return a.get_thread_safety() < b.get_thread_safety();
    });
    return it->get_thread_safety() < pagmo::thread_safety::basic ? it->get_thread_safety() : pagmo::thread_safety::basic;
}
template <typename T>
pagmo::thread_safety probe_kernel_safety(const dcgp::function<T(const std::vector<T> &)> &f,
                                         const dcgp::function<std::string(const svec &)> &pf, std::string name)
{
    dcgp::kernel<T> k(f, pf, name);
    return k.get_thread_safety();
}
template <typename T>
pagmo::thread_safety ref_kernel_safety(const dcgp::function<T(const std::vector<T> &)> &f,
                                       const dcgp::function<std::string(const svec &)> &pf, std::string name)
{
    (void)name;
    return pf.get_thread_safety() < f.get_thread_safety() ? pf.get_thread_safety() : f.get_thread_safety();
}
template pagmo::thread_safety probe_kernel_safety<double>(const dcgp::function<double(const std::vector<double> &)> &,
                                                          const dcgp::function<std::string(const svec &)> &, std::string);
template pagmo::thread_safety ref_kernel_safety<double>(const dcgp::function<double(const std::vector<double> &)> &,
                                                        const dcgp::function<std::string(const svec &)> &, std::string);
template pagmo::thread_safety
probe_kernel_safety<audi::gdual_v>(const dcgp::function<audi::gdual_v(const std::vector<audi::gdual_v> &)> &,
                                   const dcgp::function<std::string(const svec &)> &, std::string);
template pagmo::thread_safety
ref_kernel_safety<audi::gdual_v>(const dcgp::function<audi::gdual_v(const std::vector<audi::gdual_v> &)> &,
                                 const dcgp::function<std::string(const svec &)> &, std::string);
} // namespace vspec
