// Reference meanings. Nothing here is compiled to code or run: the analyser summarises these functions and the
// library's with the same abstract interpreter and compares the two summaries.
#ifndef VSPEC_EXPR_HPP
#define VSPEC_EXPR_HPP

namespace vspec
{
using uvec = std::vector<unsigned>;
using dvec = std::vector<double>;
using svec = std::vector<std::string>;

// ------------------------------------------------------------------------------------------- encoding layout
// The chromosome lists, node after node (column by column), the function gene and the connection genes of the node;
// the output genes come last.
inline unsigned sum_arity(const uvec &arity, unsigned upto)
{
    unsigned s = 0u;
    for (unsigned i = 0u; i < upto; ++i) s += arity[i];
    return s;
}
inline unsigned n_genes(unsigned m, unsigned r, unsigned c, const uvec &arity)
{
    unsigned s = 0u;
    for (unsigned i = 0u; i < arity.size(); ++i) s += arity[i];
    return r * c + r * s + m;
}
inline uvec lower(unsigned n, unsigned m, unsigned r, unsigned c, unsigned l, const uvec &arity, unsigned)
{
    uvec lb(n_genes(m, r, c, arity), 0u);
    unsigned k = 0u;
    for (unsigned i = 0u; i < c; ++i) {
        for (unsigned j = 0u; j < r; ++j) {
            k++;
            for (unsigned a = 0u; a < arity[i]; ++a) {
                if (i >= l) lb[k] = n + r * (i - l);
                k++;
            }
        }
    }
    for (unsigned i = 0u; i < m; ++i) {
        if (l <= c) lb[n_genes(m, r, c, arity) - m + i] = n + r * (c - l);
    }
    return lb;
}
inline uvec upper(unsigned n, unsigned m, unsigned r, unsigned c, unsigned, const uvec &arity, unsigned n_f)
{
    uvec ub(n_genes(m, r, c, arity), 0u);
    unsigned k = 0u;
    for (unsigned i = 0u; i < c; ++i) {
        for (unsigned j = 0u; j < r; ++j) {
            ub[k] = n_f - 1u;
            k++;
            for (unsigned a = 0u; a < arity[i]; ++a) {
                ub[k] = n + i * r - 1u;
                k++;
            }
        }
    }
    for (unsigned i = 0u; i < m; ++i) ub[n_genes(m, r, c, arity) - m + i] = n + r * c - 1u;
    return ub;
}
inline uvec gene_idx(unsigned n, unsigned, unsigned r, unsigned c, unsigned, const uvec &arity, unsigned)
{
    uvec g(r * c + n, 0u);
    for (unsigned i = 0u; i < g.size(); ++i) {
        if (i >= n) {
            unsigned col = (i - n) / r;
            unsigned row = (i - n) % r;
            g[i] = r * sum_arity(arity, col) + row * arity[col] + (i - n);
        }
    }
    return g;
}

// ------------------------------------------------------------------------------------------- active nodes and genes
template <typename T>
unsigned arity_of(const dcgp::expression<T> &e, unsigned node)
{
    return e.get_arity()[(node - e.get_n()) / e.get_r()];
}
template <typename T>
uvec reach(const dcgp::expression<T> &e, const uvec &x)
{
    uvec frontier(e.get_m()), next, act;
    for (unsigned i = 0u; i < e.get_m(); ++i) frontier[i] = x[x.size() - e.get_m() + i];
    do {
        act.insert(act.end(), frontier.begin(), frontier.end());
        for (auto node : frontier) {
            if (node >= e.get_n()) {
                for (unsigned i = 1u; i <= arity_of(e, node); ++i) next.push_back(x[e.get_gene_idx()[node] + i]);
            } else {
                act.push_back(node);
            }
        }
        std::sort(next.begin(), next.end());
        next.erase(std::unique(next.begin(), next.end()), next.end());
        frontier = next;
        next.clear();
    } while (frontier.size() > 0);
    std::sort(act.begin(), act.end());
    act.erase(std::unique(act.begin(), act.end()), act.end());
    return act;
}
template <typename T>
uvec active_nodes(const dcgp::expression<T> &e)
{
    return reach(e, e.get());
}
// the genes of the given active nodes, followed by the output genes
template <typename T>
uvec genes_of(const dcgp::expression<T> &e, const uvec &x, const uvec &nodes)
{
    uvec g;
    for (unsigned i = 0u; i < nodes.size(); ++i) {
        auto node = nodes[i];
        if (node >= e.get_n()) {
            for (unsigned j = 0u; j <= arity_of(e, node); ++j) g.push_back(e.get_gene_idx()[node] + j);
        }
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) g.push_back(static_cast<unsigned>(x.size()) - e.get_m() + i);
    return g;
}
template <typename T>
uvec active_genes(const dcgp::expression<T> &e, const uvec &nodes)
{
    return genes_of(e, e.get(), nodes);
}

// ------------------------------------------------------------------------------------------- evaluation
// node[i] of an input node is the input; node[i] of a function node is its kernel on the nodes its connection genes
// name; output i is the node the i-th output gene names. U is the type of the values (numbers or strings).
template <typename U, typename E>
std::vector<U> eval_plain(const E &e, const std::vector<U> &in, const std::vector<U> &constants)
{
    std::vector<U> all(in);
    all.insert(all.end(), constants.begin(), constants.end());
    if (all.size() != e.get_n()) throw std::invalid_argument("");
    std::vector<U> out(e.get_m());
    std::vector<U> node(e.get_n() + e.get_r() * e.get_c());
    std::vector<U> args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = all[i];
        } else {
            args.resize(arity_of(e, i));
            for (unsigned j = 0u; j < arity_of(e, i); ++j) args[j] = node[e.get()[e.get_gene_idx()[i] + j + 1u]];
            node[i] = e.get_f()[e.get()[e.get_gene_idx()[i]]](args);
        }
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) out[i] = node[e.get()[e.get().size() - e.get_m() + i]];
    return out;
}
template <typename T>
std::vector<T> eval_num(const dcgp::expression<T> &e, const std::vector<T> &in)
{
    return eval_plain<T>(e, in, e.get_eph_val());
}
template <typename T>
svec eval_str(const dcgp::expression<T> &e, const svec &in)
{
    return eval_plain<std::string>(e, in, e.get_eph_symb());
}

// one weight per connection, in the order in which the connection genes appear in the chromosome
template <typename T, typename E>
std::vector<T> eval_weighted(const E &e, const std::vector<T> &in, const std::vector<T> &w)
{
    if (in.size() != e.get_n()) throw std::invalid_argument("");
    std::vector<T> out(e.get_m());
    std::vector<T> node(e.get_n() + e.get_r() * e.get_c());
    std::vector<T> args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = in[i];
        } else {
            args.resize(arity_of(e, i));
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of(e, i); ++j) args[j] = node[e.get()[g + j + 1u]];
            for (unsigned j = 0u; j < arity_of(e, i); ++j) args[j] = args[j] * w[g - (i - e.get_n()) + j];
            node[i] = e.get_f()[e.get()[g]](args);
        }
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) out[i] = node[e.get()[e.get().size() - e.get_m() + i]];
    return out;
}
template <typename T, typename E>
svec eval_weighted_str(const E &e, const svec &in, const svec &w)
{
    if (in.size() != e.get_n()) throw std::invalid_argument("");
    svec out(e.get_m());
    svec node(e.get_n() + e.get_r() * e.get_c());
    svec args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = in[i];
        } else {
            args.resize(arity_of(e, i));
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of(e, i); ++j) args[j] = node[e.get()[g + j + 1u]];
            for (unsigned j = 0u; j < arity_of(e, i); ++j) args[j] = "(" + w[g - (i - e.get_n()) + j] + "*" + args[j] + ")";
            node[i] = e.get_f()[e.get()[g]](args);
        }
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) out[i] = node[e.get()[e.get().size() - e.get_m() + i]];
    return out;
}
// a network: weighted connections, the bias of the node added to its first weighted input
inline dvec ann_nodes(const dcgp::expression_ann &e, const dvec &in, const dvec &w, const dvec &b)
{
    if (in.size() != e.get_n()) throw std::invalid_argument("");
    dvec node(e.get_n() + e.get_r() * e.get_c());
    dvec args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = in[i];
        } else {
            args.resize(arity_of<double>(e, i));
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = node[e.get()[g + j + 1u]];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = args[j] * w[g - (i - e.get_n()) + j];
            args[0] += b[i - e.get_n()];
            node[i] = e.get_f()[e.get()[g]](args);
        }
    }
    return node;
}
inline dvec eval_ann(const dcgp::expression_ann &e, const dvec &in, const dvec &w, const dvec &b)
{
    dvec out(e.get_m());
    auto node = ann_nodes(e, in, w, b);
    for (unsigned i = 0u; i < e.get_m(); ++i) out[i] = node[e.get()[e.get().size() - e.get_m() + i]];
    return out;
}
inline svec eval_ann_str(const dcgp::expression_ann &e, const svec &in, const svec &w, const svec &b)
{
    if (in.size() != e.get_n()) throw std::invalid_argument("");
    svec node(e.get_n() + e.get_r() * e.get_c());
    svec args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = in[i];
        } else {
            args.resize(arity_of<double>(e, i));
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = node[e.get()[g + j + 1u]];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = w[g - (i - e.get_n()) + j] + "*" + args[j];
            args[0] = b[i - e.get_n()] + "+" + args[0];
            node[i] = e.get_f()[e.get()[g]](args);
        }
    }
    svec out(e.get_m());
    for (unsigned i = 0u; i < e.get_m(); ++i) out[i] = node[e.get()[e.get().size() - e.get_m() + i]];
    return out;
}
// names of the weights and biases
inline svec weight_symbols(unsigned n, unsigned r, unsigned c, const uvec &arity)
{
    svec s;
    for (unsigned i = n; i < r * c + n; ++i) {
        for (unsigned j = 0u; j < arity[(i - n) / r]; ++j) s.push_back("w" + std::to_string(i) + "_" + std::to_string(j));
    }
    return s;
}
inline svec bias_symbols(unsigned n, unsigned r, unsigned c)
{
    svec s;
    for (unsigned i = n; i < r * c + n; ++i) s.push_back("b" + std::to_string(i));
    return s;
}
inline dvec unit_weights(unsigned r, const uvec &arity)
{
    unsigned s = 0u;
    for (unsigned i = 0u; i < arity.size(); ++i) s += arity[i];
    return dvec(s * r, 1.);
}
inline dvec zero_biases(unsigned r, unsigned c)
{
    return dvec(r * c, 0.);
}

// ------------------------------------------------------------------------------------------- losses
template <typename T>
T mse(const std::vector<T> &out, const std::vector<T> &y)
{
    T s(0.);
    for (unsigned i = 0u; i < out.size(); ++i) s += (out[i] - y[i]) * (out[i] - y[i]);
    s /= static_cast<double>(out.size());
    return s;
}
template <typename T>
T ce(std::vector<T> out, const std::vector<T> &y)
{
    auto mx = *std::max_element(out.begin(), out.end());
    for (unsigned i = 0u; i < out.size(); ++i) out[i] = audi::exp(out[i] - mx);
    T z(0.);
    for (unsigned i = 0u; i < out.size(); ++i) z += out[i];
    T s(0.);
    for (unsigned i = 0u; i < out.size(); ++i) s += audi::log(out[i] / z) * y[i];
    return -s;
}
template <typename T>
T sample_loss(const dcgp::expression<T> &e, const std::vector<T> &x, const std::vector<T> &y,
              typename dcgp::expression<T>::loss_type kind)
{
    if (x.size() != e.get_n() - e.get_eph_val().size()) throw std::invalid_argument("");
    if (y.size() != e.get_m()) throw std::invalid_argument("");
    auto out = e(x);
    if (kind == dcgp::expression<T>::loss_type::MSE) return mse<T>(out, y);
    return ce<T>(out, y);
}
template <typename T>
T batch_loss(const dcgp::expression<T> &e, const std::vector<std::vector<T>> &x, const std::vector<std::vector<T>> &y,
             typename dcgp::expression<T>::loss_type kind, unsigned parallel)
{
    if (x.size() != y.size()) throw std::invalid_argument("");
    if (x.size() == 0u) throw std::invalid_argument("");
    unsigned n = static_cast<unsigned>(x.size());
    T s(0.);
    if (parallel > 0u) {
        if (n % parallel != 0u) throw std::invalid_argument("");
        unsigned part = n / parallel;
        for (unsigned c = 0u; c < parallel; ++c) {
            T p(0.);
            for (unsigned j = 0u; j < part; ++j) p += sample_loss<T>(e, x[c * part + j], y[c * part + j], kind);
            s += p;
        }
    } else {
        for (unsigned i = 0u; i < n; ++i) s += sample_loss<T>(e, x[i], y[i], kind);
    }
    return s / n;
}

// ------------------------------------------------------------------------------------------- networks: gradients
using kind_t = dcgp::expression_ann::kernel_type;
using links_t = std::vector<std::vector<std::pair<unsigned, unsigned>>>;

// who consumes each node: (consumer, index of the weight); outputs are consumers numbered after the nodes
inline links_t consumers(const dcgp::expression_ann &e)
{
    links_t l;
    l.resize(e.get_n() + e.get_m() + e.get_r() * e.get_c());
    for (auto i : e.get_active_nodes()) {
        if (i >= e.get_n()) {
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) {
                if (e.is_active_node(e.get()[g + 1u + j])) {
                    l[e.get()[g + 1u + j]].push_back({i, g - (i - e.get_n()) + j});
                }
            }
        }
    }
    for (unsigned i = 0u; i < e.get_m(); ++i) {
        l[e.get()[e.get().size() - e.get_m() + i]].push_back({e.get_n() + e.get_r() * e.get_c() + i, 0u});
    }
    return l;
}
inline std::vector<kind_t> kinds(const std::vector<dcgp::kernel<double>> &f)
{
    std::vector<kind_t> k(f.size());
    for (unsigned i = 0u; i < f.size(); ++i) {
        if (f[i].get_name() == "sig") k[i] = kind_t::SIG;
        else if (f[i].get_name() == "tanh") k[i] = kind_t::TANH;
        else if (f[i].get_name() == "ReLu") k[i] = kind_t::RELU;
        else if (f[i].get_name() == "ELU") k[i] = kind_t::ELU;
        else if (f[i].get_name() == "ISRU") k[i] = kind_t::ISRU;
        else if (f[i].get_name() == "sum") k[i] = kind_t::SUM;
        else if (f[i].get_name() == "sin_nu") k[i] = kind_t::SIN_NU;
        else if (f[i].get_name() == "cos_nu") k[i] = kind_t::COS_NU;
        else if (f[i].get_name() == "gaussian_nu") k[i] = kind_t::GAUSSIAN_NU;
        else if (f[i].get_name() == "inv_sum") k[i] = kind_t::INV_SUM;
        else if (f[i].get_name() == "abs") k[i] = kind_t::ABS;
        else if (f[i].get_name() == "step") k[i] = kind_t::STEP;
    }
    return k;
}
// derivative of a nonlinearity at total input s, where it takes the value y
inline double slope(kind_t k, double y, double s, double other)
{
    switch (k) {
        case kind_t::SIG: return y * (1. - y);
        case kind_t::TANH: return 1. - y * y;
        case kind_t::SUM: return 1.;
        case kind_t::RELU: return y > 0. ? 1. : 0.;
        case kind_t::ELU: return y > 0. ? 1. : y + 1.;
        case kind_t::ISRU: return 1. / std::sqrt(1. + s * s) * (1. / std::sqrt(1. + s * s)) * (1. / std::sqrt(1. + s * s));
        case kind_t::SIN_NU: return std::cos(s);
        case kind_t::COS_NU: return -std::sin(s);
        case kind_t::GAUSSIAN_NU: return -2 * s * y;
        case kind_t::INV_SUM: return -1.;
        case kind_t::ABS: return s < 0. ? -1 : 1;
        case kind_t::STEP: return 0.;
    }
    return other;
}
inline void forward(const dcgp::expression_ann &e, const dvec &in, const dvec &w, const dvec &b,
                    const std::vector<kind_t> &kd, dvec &node, dvec &d)
{
    if (in.size() != e.get_n()) throw std::invalid_argument("");
    dvec args;
    for (auto i : e.get_active_nodes()) {
        if (i < e.get_n()) {
            node[i] = in[i];
            d[i] = 0.;
        } else {
            args.resize(arity_of<double>(e, i));
            unsigned g = e.get_gene_idx()[i];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = node[e.get()[g + j + 1u]];
            for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) args[j] = args[j] * w[g - (i - e.get_n()) + j];
            args[0] += b[i - e.get_n()];
            node[i] = e.get_f()[e.get()[g]](args);
            double s = 0.;
            for (unsigned j = 0u; j < args.size(); ++j) s += args[j];
            d[i] = slope(kd[e.get()[g]], node[i], s, d[i]);
        }
    }
}
inline void grad(const dcgp::expression_ann &e, double &value, dvec &gw, dvec &gb, const dvec &x, const dvec &y,
                 dcgp::expression<double>::loss_type kind, const dvec &w, const dvec &b, const std::vector<kind_t> &kd,
                 const links_t &links)
{
    if (x.size() != e.get_n()) throw std::invalid_argument("");
    if (y.size() != e.get_m()) throw std::invalid_argument("");
    if (gw.size() != w.size()) throw std::invalid_argument("");
    if (gb.size() != b.size()) throw std::invalid_argument("");
    unsigned nn = e.get_n() + e.get_r() * e.get_c();
    dvec node(nn, 0.), d(nn, 0.);
    forward(e, x, w, b, kd, node, d);
    if (kind == dcgp::expression<double>::loss_type::MSE) {
        for (unsigned i = 0u; i < e.get_m(); ++i) {
            double err = node[e.get()[e.get().size() - e.get_m() + i]] - y[i];
            d.push_back(2. * err / static_cast<double>(y.size()));
            value += err * err / static_cast<double>(y.size());
        }
    } else {
        dvec p(e.get_m(), 0.);
        for (unsigned i = 0u; i < e.get_m(); ++i) p[i] = node[e.get()[e.get().size() - e.get_m() + i]];
        auto mx = *std::max_element(p.begin(), p.end());
        for (unsigned i = 0u; i < p.size(); ++i) p[i] = std::exp(p[i] - mx);
        double z = 0.;
        for (unsigned i = 0u; i < p.size(); ++i) z += p[i];
        for (unsigned i = 0u; i < p.size(); ++i) p[i] = p[i] / z;
        for (unsigned i = 0u; i < p.size(); ++i) d.push_back(p[i] - y[i]);
        double s = 0.;
        for (unsigned i = 0u; i < p.size(); ++i) s += std::log(p[i]) * y[i];
        value += -s;
    }
    for (auto it = e.get_active_nodes().rbegin(); it != e.get_active_nodes().rend(); ++it) {
        if (*it < e.get_n()) continue;
        auto i = *it;
        unsigned g = e.get_gene_idx()[i];
        double up = 0.;
        for (unsigned j = 0u; j < links[i].size(); ++j) {
            if (links[i][j].first < nn) {
                up += w[links[i][j].second] * d[links[i][j].first];
            } else {
                up += d[d.size() - e.get_m() + (links[i][j].first - nn)];
            }
        }
        d[i] *= up;
        for (unsigned j = 0u; j < arity_of<double>(e, i); ++j) {
            gw[g - (i - e.get_n()) + j] += d[i] * node[e.get()[g + 1u + j]];
        }
        gb[i - e.get_n()] += d[i];
    }
}

using batch_t = std::vector<std::vector<double>>;
// mean loss and mean gradients over the samples lo .. hi-1 (labels from llo on)
inline double batch_grad(const dcgp::expression_ann &e, const batch_t &x, const batch_t &y, std::size_t lo, std::size_t hi,
                         std::size_t llo, dcgp::expression<double>::loss_type kind, unsigned parallel, const dvec &w,
                         const dvec &b, const std::vector<kind_t> &kd, const links_t &links, dvec &gw, dvec &gb)
{
    unsigned n = static_cast<unsigned>(hi - lo);
    double v = 0.;
    if (parallel > 0u) {
        if (n % parallel != 0u) throw std::invalid_argument("");
        unsigned part = n / parallel;
        for (unsigned c = 0u; c < parallel; ++c) {
            double v2 = 0.;
            dvec gw2(w.size(), 0.), gb2(b.size(), 0.);
            for (unsigned j = 0u; j < part; ++j) {
                grad(e, v2, gw2, gb2, x[lo + c * part + j], y[llo + c * part + j], kind, w, b, kd, links);
            }
            v += v2;
            for (unsigned k = 0u; k < gw.size(); ++k) gw[k] = gw[k] + gw2[k];
            for (unsigned k = 0u; k < gb.size(); ++k) gb[k] = gb[k] + gb2[k];
        }
    } else {
        for (unsigned i = 0u; i < n; ++i) grad(e, v, gw, gb, x[lo + i], y[llo + i], kind, w, b, kd, links);
    }
    for (unsigned k = 0u; k < gw.size(); ++k) gw[k] = gw[k] / n;
    for (unsigned k = 0u; k < gb.size(); ++k) gb[k] = gb[k] / n;
    return v / n;
}
inline std::tuple<double, dvec, dvec> batch_grad_all(const dcgp::expression_ann &e, const batch_t &x, const batch_t &y,
                                                     dcgp::expression<double>::loss_type kind, unsigned parallel,
                                                     const dvec &w, const dvec &b, const std::vector<kind_t> &kd,
                                                     const links_t &links)
{
    if (x.size() != y.size()) throw std::invalid_argument("");
    if (x.size() == 0u) throw std::invalid_argument("");
    dvec gw(w.size(), 0.), gb(b.size(), 0.);
    double v = batch_grad(e, x, y, 0u, x.size(), 0u, kind, parallel, w, b, kd, links, gw, gb);
    return std::make_tuple(v, gw, gb);
}
// gradient step on the samples lo .. hi-1
inline double step(const dcgp::expression_ann &e, const batch_t &x, const batch_t &y, std::size_t lo, std::size_t hi,
                   std::size_t llo, double lr, dcgp::expression<double>::loss_type kind, unsigned parallel, dvec &w, dvec &b,
                   const std::vector<kind_t> &kd, const links_t &links)
{
    dvec gw(w.size(), 0.), gb(b.size(), 0.);
    double v = batch_grad(e, x, y, lo, hi, llo, kind, parallel, w, b, kd, links, gw, gb);
    for (unsigned k = 0u; k < w.size(); ++k) w[k] = w[k] - lr * gw[k];
    for (unsigned k = 0u; k < b.size(); ++k) b[k] = b[k] - lr * gb[k];
    return v;
}
// one epoch of mini-batch gradient descent in the given order; w and b become the new parameters
inline double epoch(const dcgp::expression_ann &e, const batch_t &x, const batch_t &y, double lr, unsigned batch,
                    dcgp::expression<double>::loss_type kind, unsigned parallel, dvec &w, dvec &b,
                    const std::vector<kind_t> &kd, const links_t &links)
{
    if (x.size() != y.size()) throw std::invalid_argument("");
    if (x.size() == 0u) throw std::invalid_argument("");
    if (lr <= 0) throw std::invalid_argument("");
    double total = 0., count = 0.;
    std::size_t lo = 0u, llo = 0u;
    while (lo != x.size()) {
        if (lo + batch > x.size()) {
            total += step(e, x, y, lo, x.size(), llo, lr, kind, parallel, w, b, kd, links);
            lo = x.size();
        } else {
            total += step(e, x, y, lo, lo + batch, llo, lr, kind, parallel, w, b, kd, links);
            lo += batch;
            llo += batch;
        }
        count += 1.;
    }
    return total / count;
}

} // namespace vspec
#endif
