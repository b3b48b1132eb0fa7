// Reference meanings of everything that changes an expression.
#ifndef VSPEC_CHROM_HPP
#define VSPEC_CHROM_HPP

namespace vspec
{
using gen_t = dcgp::detail::random_engine_type;
using expr_t = dcgp::expression<double>;

inline void refresh(const expr_t &e, const uvec &x, uvec &nodes, uvec &genes)
{
    nodes = reach(e, x);
    genes = genes_of(e, x, nodes);
}
inline void admit(const expr_t &e, const uvec &xu)
{
    if (xu.size() != e.get_lb().size()) throw std::invalid_argument("");
    for (unsigned i = 0u; i < xu.size(); ++i) {
        if (xu[i] > e.get_ub()[i] || xu[i] < e.get_lb()[i]) throw std::invalid_argument("");
    }
}
inline void set_x(const expr_t &e, const uvec &xu, uvec &x, uvec &nodes, uvec &genes)
{
    admit(e, xu);
    x = xu;
    refresh(e, x, nodes, genes);
}
inline void set_range_u(const expr_t &e, const uvec &xu, uvec &x, uvec &nodes, uvec &genes)
{
    admit(e, xu);
    for (unsigned i = 0u; i < xu.size(); ++i) x[i] = xu[i];
    refresh(e, x, nodes, genes);
}
inline void set_range_d(const expr_t &e, const dvec &xu, uvec &x, uvec &nodes, uvec &genes)
{
    if (xu.size() != e.get_lb().size()) throw std::invalid_argument("");
    for (unsigned i = 0u; i < xu.size(); ++i) {
        if (!(xu[i] <= e.get_ub()[i] && xu[i] >= e.get_lb()[i])) throw std::invalid_argument("");
    }
    for (unsigned i = 0u; i < xu.size(); ++i) x[i] = static_cast<unsigned>(xu[i]);
    refresh(e, x, nodes, genes);
}
inline void f_gene(const expr_t &e, unsigned node, unsigned f, uvec &x)
{
    if (f > e.get_f().size() - 1u) throw std::invalid_argument("");
    if (node < e.get_n() || node > e.get_n() + e.get_c() * e.get_r() - 1u) throw std::invalid_argument("");
    x[e.get_gene_idx()[node]] = f;
}
// a new value for gene i, different from the present one, when its bounds leave a choice
inline bool redraw(const expr_t &e, std::size_t i, uvec &x, gen_t &g)
{
    if (e.get_lb()[i] < e.get_ub()[i]) {
        unsigned v;
        do {
            v = std::uniform_int_distribution<unsigned>(e.get_lb()[i], e.get_ub()[i])(g);
        } while (v == x[i]);
        x[i] = v;
        return true;
    }
    return false;
}
inline void mut_one(const expr_t &e, unsigned i, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    if (i >= x.size()) throw std::invalid_argument("");
    if (redraw(e, i, x, g)) refresh(e, x, nodes, genes);
}
inline void mut_many(const expr_t &e, const uvec &is, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    for (unsigned k = 0u; k < is.size(); ++k) {
        if (is[k] >= x.size()) throw std::invalid_argument("");
    }
    bool changed = false;
    for (unsigned k = 0u; k < is.size(); ++k) {
        if (redraw(e, is[k], x, g)) changed = true;
    }
    if (changed) refresh(e, x, nodes, genes);
}
inline void mut_random(const expr_t &e, unsigned N, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    bool changed = false;
    for (unsigned k = 0u; k < N; ++k) {
        auto i = std::uniform_int_distribution<uvec::size_type>(0, e.get_lb().size() - 1u)(g);
        if (redraw(e, i, x, g)) changed = true;
    }
    if (changed) refresh(e, x, nodes, genes);
}
inline void mut_inactive(const expr_t &e, unsigned N, uvec &x, const uvec &genes, gen_t &g)
{
    for (unsigned k = 0u; k < N; ++k) {
        auto i = std::uniform_int_distribution<uvec::size_type>(0, e.get_lb().size() - 1u)(g);
        if (std::find(genes.begin(), genes.end(), static_cast<unsigned>(i)) == genes.end()) redraw(e, i, x, g);
    }
}
inline void mut_active(const expr_t &e, unsigned N, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    uvec is(N, 0u);
    for (unsigned k = 0u; k < N; ++k) {
        is[k] = genes[std::uniform_int_distribution<unsigned>(0, static_cast<unsigned>(genes.size() - 1u))(g)];
    }
    mut_many(e, is, x, nodes, genes, g);
}
inline unsigned some_active_node(const expr_t &e, const uvec &nodes, gen_t &g)
{
    unsigned node = 0u;
    while (node < e.get_n()) {
        node = nodes[std::uniform_int_distribution<unsigned>(0, static_cast<unsigned>(nodes.size() - 1u))(g)];
    }
    return node;
}
inline void mut_fgene(const expr_t &e, unsigned N, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    if (genes.size() > e.get_m()) {
        for (unsigned k = 0u; k < N; ++k) {
            unsigned node = some_active_node(e, nodes, g);
            mut_one(e, e.get_gene_idx()[node], x, nodes, genes, g);
        }
    }
}
inline void mut_cgene(const expr_t &e, unsigned N, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    if (genes.size() > e.get_m()) {
        for (unsigned k = 0u; k < N; ++k) {
            unsigned node = some_active_node(e, nodes, g);
            mut_one(e, e.get_gene_idx()[node] + std::uniform_int_distribution<unsigned>(1, arity_of(e, node))(g), x, nodes,
                    genes, g);
        }
    }
}
inline void mut_ogene(const expr_t &e, unsigned N, uvec &x, uvec &nodes, uvec &genes, gen_t &g)
{
    if (e.get_m() > 1u) {
        for (unsigned k = 0u; k < N; ++k) {
            unsigned i = std::uniform_int_distribution<unsigned>(static_cast<unsigned>(genes.size() - e.get_m()),
                                                                 static_cast<unsigned>(genes.size() - 1u))(g);
            mut_one(e, genes[i], x, nodes, genes, g);
        }
    } else {
        unsigned i = genes[static_cast<unsigned>(genes.size() - 1u)];
        for (unsigned k = 0u; k < N; ++k) {
            mut_one(e, i, x, nodes, genes, g);
        }
    }
}
inline void new_constants(const expr_t &, const dvec &v, dvec &c)
{
    if (v.size() != c.size()) throw std::invalid_argument("");
    c = v;
}
inline void new_names(const expr_t &, const svec &v, svec &c)
{
    if (v.size() != c.size()) throw std::invalid_argument("");
    c = v;
}
inline unsigned node_arity(const expr_t &e, unsigned node)
{
    if (node >= e.get_r() * e.get_c() + e.get_n() || node < e.get_n()) throw std::invalid_argument("");
    return e.get_arity()[(node - e.get_n()) / e.get_r()];
}
inline bool member(const expr_t &, unsigned i, const uvec &v)
{
    return std::find(v.begin(), v.end(), i) != v.end();
}
// weights: one per connection, node after node
inline unsigned weight_pos(const expr_t &e, unsigned node, unsigned input)
{
    if (node < e.get_n() || node >= e.get_n() + e.get_r() * e.get_c()) throw std::invalid_argument("");
    if (input >= e.get_arity()[(node - e.get_n()) / e.get_r()]) throw std::invalid_argument("");
    return e.get_gene_idx()[node] - (node - e.get_n()) + input;
}
inline void put_weight(const expr_t &e, unsigned node, unsigned input, const double &v, dvec &w)
{
    w[weight_pos(e, node, input)] = v;
}
inline double at_weight(const expr_t &e, unsigned node, unsigned input, const dvec &w)
{
    return w[weight_pos(e, node, input)];
}
inline void put_at(const expr_t &, std::size_t i, const double &v, dvec &w)
{
    w[i] = v;
}
inline double get_at(const expr_t &, std::size_t i, const dvec &w)
{
    return w[i];
}
inline void gaussian(const expr_t &, double mean, double sd, std::random_device::result_type seed, dvec &w)
{
    std::mt19937 gen(seed);
    std::normal_distribution<double> nd(mean, sd);
    for (unsigned i = 0u; i < w.size(); ++i) w[i] = nd(gen);
}
inline unsigned weights_in_use(const expr_t &e, bool unique)
{
    unsigned s = 0u;
    for (auto node : e.get_active_nodes()) {
        if (node < e.get_n()) continue;
        if (unique) {
            unsigned g = e.get_gene_idx()[node];
            uvec c(e.get().begin() + g + 1u, e.get().begin() + g + 1u + arity_of(e, node));
            std::sort(c.begin(), c.end());
            s += static_cast<unsigned>(std::unique(c.begin(), c.end()) - c.begin());
        } else {
            s += arity_of(e, node);
        }
    }
    return s;
}
inline void output_f(const expr_t &e, const std::string &name, const std::vector<kind_t> &kd, uvec &x)
{
    kind_t k;
    if (name == "sig") k = kind_t::SIG;
    else if (name == "tanh") k = kind_t::TANH;
    else if (name == "ReLu") k = kind_t::RELU;
    else if (name == "ELU") k = kind_t::ELU;
    else if (name == "ISRU") k = kind_t::ISRU;
    else if (name == "sum") k = kind_t::SUM;
    else if (name == "sin_nu") k = kind_t::SIN_NU;
    else if (name == "cos_nu") k = kind_t::COS_NU;
    else if (name == "gaussian_nu") k = kind_t::GAUSSIAN_NU;
    else if (name == "inv_sum") k = kind_t::INV_SUM;
    else if (name == "abs") k = kind_t::ABS;
    else if (name == "step") k = kind_t::STEP;
    else throw std::invalid_argument("");
    auto it = std::find(kd.begin(), kd.end(), k);
    if (it == kd.end()) throw std::invalid_argument("");
    unsigned f = static_cast<unsigned>(it - kd.begin());
    for (unsigned i = 0u; i < e.get_m(); ++i) {
        if (x[x.size() - 1u - i] < e.get_n()) throw std::invalid_argument("");
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) f_gene(e, x[x.size() - 1u - i], f, x);
}
// ------------------------------------------------------------------------------------------- data
inline void admit_point(const expr_t &e, std::size_t len)
{
    if (len + e.get_eph_val().size() != e.get_n()) throw std::invalid_argument("");
}
inline void admit_sample(const expr_t &e, const dvec &in, const dvec &out)
{
    admit_point(e, in.size());
    if (out.size() != e.get_m()) throw std::invalid_argument("");
}
inline void admit_batch(const expr_t &e, const std::vector<dvec> &in, const std::vector<dvec> &out, const std::string &loss,
                        unsigned parallel)
{
    if (in.size() != out.size() || in.size() == 0u) throw std::invalid_argument("");
    if (loss != "MSE" && loss != "CE") throw std::invalid_argument("");
    if (parallel > 0u && in.size() % parallel != 0u) throw std::invalid_argument("");
    for (std::size_t i = 0u; i < in.size(); ++i) admit_sample(e, in[i], out[i]);
}
inline void admit_epoch(const expr_t &e, const std::vector<dvec> &in, const std::vector<dvec> &out, double lr, unsigned batch,
                        const std::string &loss, unsigned parallel)
{
    if (in.size() != out.size() || in.size() == 0u) throw std::invalid_argument("");
    if (lr <= 0.) throw std::invalid_argument("");
    if (loss != "MSE" && loss != "CE") throw std::invalid_argument("");
    if (batch == 0u) throw std::invalid_argument("");
    if (parallel > 0u && in.size() >= batch && batch % parallel != 0u) throw std::invalid_argument("");
    if (parallel > 0u && (in.size() % batch) % parallel != 0u) throw std::invalid_argument("");
    for (std::size_t i = 0u; i < in.size(); ++i) admit_sample(e, in[i], out[i]);
}
// ------------------------------------------------------------------------------------------- construction
inline void admit_shape(unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const uvec &arity, std::size_t nf)
{
    if (n == 0u || m == 0u || r == 0u || c == 0u || l == 0u) throw std::invalid_argument("");
    if (arity.size() != c) throw std::invalid_argument("");
    for (auto a : arity) {
        if (a == 0u) throw std::invalid_argument("");
    }
    if (nf == 0u) throw std::invalid_argument("");
}
inline bool ann_kernel(const dcgp::kernel<double> &k)
{
    const std::string s = k.get_name();
    return s == "tanh" || s == "sig" || s == "ReLu" || s == "ELU" || s == "ISRU" || s == "sin_nu" || s == "cos_nu"
           || s == "gaussian_nu" || s == "sum" || s == "inv_sum" || s == "abs" || s == "step";
}
inline void admit_ann(unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const uvec &arity,
                      const std::vector<dcgp::kernel<double>> &f)
{
    admit_shape(n, m, r, c, l, arity, f.size());
    for (const auto &k : f) {
        if (!ann_kernel(k)) throw std::invalid_argument("");
    }
}
// genes first, then the constants, from one stream
inline void first_values(const uvec &lb, const uvec &ub, unsigned n_eph, unsigned seed, uvec &x, dvec &c)
{
    gen_t g(seed);
    for (unsigned i = 0u; i < x.size(); ++i) x[i] = std::uniform_int_distribution<unsigned>(lb[i], ub[i])(g);
    for (unsigned i = 0u; i < n_eph; ++i) c.push_back(std::uniform_real_distribution<double>(-10., 10.)(g));
}
inline svec first_names(unsigned n_eph)
{
    svec s;
    for (unsigned i = 1u; i <= n_eph; ++i) s.push_back("c" + std::to_string(i));
    return s;
}
} // namespace vspec
#endif
