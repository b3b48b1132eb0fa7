// Reference definitions for the evolutionary strategies and the gradient descent: one run of each, written from the
// documentation. The problem is reached through its public interface only.
namespace vspec
{
using pop_t = pagmo::population;
using random_engine = dcgp::detail::random_engine_type;
using index_t = dvec::size_type;

inline void set_genes(dvec &x, index_t n_eph, const uvec &genes)
{
    for (index_t i = 0u; i < genes.size(); ++i) {
        x[n_eph + i] = static_cast<double>(genes[i]);
    }
}
inline uvec genes_of(const dvec &x, index_t n_eph)
{
    uvec out;
    for (index_t i = n_eph; i < x.size(); ++i) {
        out.push_back(boost::numeric_cast<unsigned>(x[i]));
    }
    return out;
}

// --------------------------------------------------------------------------------------------- es4cgp
#define VSPEC_ES unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop
pop_t probe_es4cgp(VSPEC_ES)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    return a.evolve(pop);
}
// the mutants of the last generation that improve on the individual in their place, then the best one for the worst
inline void renew(pop_t &pop, const std::vector<dvec> &x, const dvec &f, const dvec &best_x, double best_f)
{
    for (index_t i = 0u; i < x.size(); ++i) {
        if (pagmo::detail::less_than_f(f[i], pop.get_f()[i][0])) {
            pop.set_xf(i, x[i], dvec(1u, f[i]));
        }
    }
    const auto worst = pop.worst_idx();
    if (pagmo::detail::less_than_f(best_f, pop.get_f()[worst][0])) {
        pop.set_xf(worst, best_x, dvec(1u, best_f));
    }
}
inline pop_t run_es4cgp(VSPEC_ES, const pagmo::bfe *batch)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() > 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto n_eph = prob.get_ncx();
    auto ex = udp->get_cgp();
    const auto NP = pop.size();
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    std::normal_distribution<> normal(0., 1.);
    dvec best_x = pop.get_x()[pop.best_idx()];
    double best_f = pop.get_f()[pop.best_idx()][0];
    std::vector<dvec> x(NP, dvec(prob.get_nx(), 0.));
    dvec f(NP, 0.);
    for (unsigned g = 1u; g <= gen; ++g) {
        for (index_t i = 0u; i < NP; ++i) {
            ex.set(genes_of(best_x, n_eph));
            ex.mutate_random(times(e));
            set_genes(x[i], n_eph, ex.get());
            for (index_t j = 0u; j < n_eph; ++j) {
                x[i][j] = learn ? best_x[j] + 10. * normal(e) : best_x[j];
            }
        }
        if (batch) {
            dvec all;
            for (index_t i = 0u; i < NP; ++i) {
                all.insert(all.end(), x[i].begin(), x[i].end());
            }
            f = (*batch)(prob, all);
        } else {
            for (index_t i = 0u; i < NP; ++i) {
                f[i] = prob.fitness(x[i])[0];
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            if (!pagmo::detail::greater_than_f(f[i], best_f)) {
                best_f = f[i];
                best_x = x[i];
            }
        }
        if (pagmo::detail::greater_than_f(ftol, best_f)) {
            renew(pop, x, f, best_x, best_f);
            return pop;
        }
    }
    renew(pop, x, f, best_x, best_f);
    return pop;
}
pop_t ref_es4cgp(VSPEC_ES)
{
    return run_es4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr);
}
pop_t probe_batch_es4cgp(VSPEC_ES, pagmo::bfe b)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_bfe(b);
    return a.evolve(pop);
}
pop_t ref_batch_es4cgp(VSPEC_ES, pagmo::bfe b)
{
    return run_es4cgp(gen, max_mut, ftol, learn, seed, pop, &b);
}

// --------------------------------------------------------------------------------------------- moes4cgp
pop_t probe_moes4cgp(VSPEC_ES)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    return a.evolve(pop);
}
inline pop_t run_moes4cgp(VSPEC_ES, const pagmo::bfe *batch)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() == 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto n_eph = prob.get_ncx();
    auto ex = udp->get_cgp();
    const auto NP = pop.size();
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    std::normal_distribution<> normal(0., 1.);
    for (unsigned g = 1u; g <= gen; ++g) {
        if (pagmo::detail::greater_than_f(ftol, pagmo::ideal(pop.get_f())[0])) {
            return pop;
        }
        // the mutants, each of its own parent, then the parents
        std::vector<dvec> x(2u * NP, dvec(prob.get_nx(), 0.));
        std::vector<dvec> f(2u * NP);
        for (index_t i = 0u; i < NP; ++i) {
            ex.set(genes_of(pop.get_x()[i], n_eph));
            ex.mutate_random(times(e));
            set_genes(x[i], n_eph, ex.get());
            for (index_t j = 0u; j < n_eph; ++j) {
                x[i][j] = learn ? pop.get_x()[i][j] + 10. * normal(e) : pop.get_x()[i][j];
            }
        }
        if (batch) {
            dvec all;
            for (index_t i = 0u; i < NP; ++i) {
                all.insert(all.end(), x[i].begin(), x[i].end());
            }
            const dvec fs = (*batch)(prob, all);
            const auto n_obj = prob.get_nobj();
            for (index_t i = 0u; i < NP; ++i) {
                f[i] = dvec(n_obj, 0.);
                for (index_t k = 0u; k < n_obj; ++k) {
                    f[i][k] = fs[i * n_obj + k];
                }
            }
        } else {
            for (index_t i = 0u; i < NP; ++i) {
                f[i] = prob.fitness(x[i]);
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            x[NP + i] = pop.get_x()[i];
            f[NP + i] = pop.get_f()[i];
        }
        const auto keep = pagmo::select_best_N_mo(f, NP);
        for (index_t i = 0u; i < keep.size(); ++i) {
            pop.set_xf(i, x[keep[i]], f[keep[i]]);
        }
    }
    return pop;
}
pop_t ref_moes4cgp(VSPEC_ES)
{
    return run_moes4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr);
}
pop_t probe_batch_moes4cgp(VSPEC_ES, pagmo::bfe b)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_bfe(b);
    return a.evolve(pop);
}
pop_t ref_batch_moes4cgp(VSPEC_ES, pagmo::bfe b)
{
    return run_moes4cgp(gen, max_mut, ftol, learn, seed, pop, &b);
}

// --------------------------------------------------------------------------------------------- mes4cgp, momes4cgp
#define VSPEC_MES unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop
inline Eigen::Index ei(index_t n)
{
    return static_cast<Eigen::Index>(n);
}
// One Newton step on the constants the loss depends on; the others are drawn anew.
inline void newton(const pagmo::problem &prob, dvec &x, index_t n_eph, const std::vector<dvec> &hess, const dvec &grad,
                   random_engine &e)
{
    if (n_eph == 1u) {
        if (hess[0][0] != 0. && std::isfinite(grad[0]) && std::isfinite(hess[0][0])) {
            x[0] = x[0] - grad[0] / hess[0][0];
        }
        return;
    }
    std::vector<index_t> act;
    for (index_t j = 0u; j < grad.size(); ++j) {
        if (grad[j] != 0.) {
            act.push_back(j);
        } else {
            x[j] = std::uniform_real_distribution<double>(-10., 10.)(e);
        }
    }
    if (act.size() == 1u) {
        const auto j = act[0];
        const auto d = hess[0][j * (j + 1u) / 2u + j];
        if (d != 0. && std::isfinite(grad[j]) && std::isfinite(d)) {
            x[j] = x[j] - grad[j] / d;
        }
        return;
    }
    if (act.size() > 1u) {
        const auto hs = prob.hessians_sparsity();
        Eigen::MatrixXd full = Eigen::MatrixXd::Zero(ei(n_eph), ei(n_eph));
        Eigen::MatrixXd H = Eigen::MatrixXd::Zero(ei(act.size()), ei(act.size()));
        Eigen::MatrixXd G = Eigen::MatrixXd::Zero(ei(act.size()), 1u);
        Eigen::MatrixXd C = Eigen::MatrixXd::Zero(ei(act.size()), 1u);
        for (index_t j = 0u; j < hess[0].size(); ++j) {
            full(ei(hs[0][j].first), ei(hs[0][j].second)) = hess[0][j];
            full(ei(hs[0][j].second), ei(hs[0][j].first)) = hess[0][j];
        }
        for (index_t i = 0u; i < act.size(); ++i) {
            for (index_t j = 0u; j < act.size(); ++j) {
                H(ei(i), ei(j)) = full(ei(act[i]), ei(act[j]));
            }
        }
        for (index_t j = 0u; j < act.size(); ++j) {
            G(ei(j), 0) = grad[act[j]];
            C(ei(j), 0) = x[act[j]];
        }
        if (G.array().isFinite().all()) {
            Eigen::FullPivLU<Eigen::MatrixXd> lu;
            lu.compute(H);
            if (lu.isInvertible() && (lu.matrixLU().diagonal().array() >= 0.).all()) {
                auto inv = lu.inverse();
                if (inv.array().isFinite().all()) {
                    C = C - inv * G;
                    for (index_t j = 0u; j < act.size(); ++j) {
                        x[act[j]] = C(ei(j), 0);
                    }
                }
            }
        }
    }
}
pop_t probe_mes4cgp(VSPEC_MES)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    return a.evolve(pop);
}
pop_t ref_mes4cgp(VSPEC_MES)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() > 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto n_eph = prob.get_ncx();
    auto ex = udp->get_cgp();
    const auto NP = pop.size();
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    const auto best = pop.best_idx();
    const auto worst = pop.worst_idx();
    dvec best_x = pop.get_x()[best];
    dvec best_f = pop.get_f()[best];
    for (unsigned g = 1u; g <= gen; ++g) {
        std::vector<dvec> x(NP, best_x);
        std::vector<dvec> f(NP, best_f);
        for (index_t i = 0u; i < NP; ++i) {
            ex.set(genes_of(best_x, n_eph));
            ex.mutate_random(times(e));
            set_genes(x[i], n_eph, ex.get());
        }
        for (index_t i = 0u; i < NP; ++i) {
            const auto hess = prob.hessians(x[i]);
            const auto grad = prob.gradient(x[i]);
            newton(prob, x[i], n_eph, hess, grad, e);
            f[i] = prob.fitness(x[i]);
        }
        for (index_t i = 0u; i < NP; ++i) {
            if (pagmo::detail::less_than_f(f[i][0], best_f[0])) {
                best_f = f[i];
                best_x = x[i];
            }
        }
        if (pagmo::detail::greater_than_f(ftol, best_f[0])) {
            if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best][0])) {
                pop.set_xf(worst, best_x, best_f);
            }
            return pop;
        }
    }
    if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best][0])) {
        pop.set_xf(worst, best_x, best_f);
    }
    return pop;
}
pop_t probe_momes4cgp(VSPEC_MES)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    return a.evolve(pop);
}
pop_t ref_momes4cgp(VSPEC_MES)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() == 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto n_eph = prob.get_ncx();
    auto ex = udp->get_cgp();
    const auto NP = pop.size();
    for (unsigned g = 1u; g <= gen; ++g) {
        if (pagmo::detail::greater_than_f(ftol, pagmo::ideal(pop.get_f())[0])) {
            return pop;
        }
        std::uniform_int_distribution<unsigned> times(0u, max_mut);
        uvec n_mut;
        for (index_t i = 0u; i < NP; ++i) {
            n_mut.push_back(times(e));
        }
        std::vector<dvec> x = pop.get_x();
        for (index_t i = 0u; i < NP; ++i) {
            ex.set(genes_of(x[i], n_eph));
            ex.mutate_random(n_mut[i]);
            set_genes(x[i], n_eph, ex.get());
        }
        pop_t all(pop);
        for (index_t i = 0u; i < NP; ++i) {
            const auto hess = prob.hessians(x[i]);
            const auto grad = prob.gradient(x[i]);
            newton(prob, x[i], n_eph, hess, grad, e);
            const auto f = prob.fitness(x[i]);
            const auto known = all.get_f();
            if (std::find(known.begin(), known.end(), f) == known.end() && std::isfinite(f[0])) {
                all.push_back(x[i], f);
            }
        }
        const auto keep = pagmo::select_best_N_mo(all.get_f(), NP);
        for (index_t i = 0u; i < NP; ++i) {
            pop.set_xf(i, all.get_x()[keep[i]], all.get_f()[keep[i]]);
        }
    }
    return pop;
}


// --------------------------------------------------------------------- the same runs, on the storage the library uses
// (flat vectors of decision vectors, a second copy of the genes of the best individual, matrices kept across generations)
inline void flat_update(pop_t &pop, const dvec &xs, const dvec &fs, double best_f, const dvec &best_x, index_t NP, index_t dim)
{
    for (index_t i = 0u; i < NP; ++i) {
        if (pagmo::detail::less_than_f(fs[i], pop.get_f()[i][0])) {
            pop.set_xf(i, dvec(xs.data() + i * dim, xs.data() + (i + 1u) * dim), dvec(1u, fs[i]));
        }
    }
    const auto worst = pop.worst_idx();
    if (pagmo::detail::less_than_f(best_f, pop.get_f()[worst][0])) {
        pop.set_xf(worst, best_x, dvec(1u, best_f));
    }
}
// one line of a report: every `level` generations, the state before the generation
inline bool due(unsigned g, unsigned level)
{
    if (level > 0u) {
        return g % level == 1u || level == 1u;
    }
    return false;
}
inline dvec constants(const dvec &x, index_t n_eph)
{
    return dvec(x.data(), x.data() + n_eph);
}
inline pop_t flat_run_es4cgp(VSPEC_ES, const pagmo::bfe *batch, unsigned level, dcgp::es4cgp::log_type &log)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() > 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto dim = prob.get_nx();
    const auto NP = pop.size();
    auto ex = udp->get_cgp();
    const auto n_eph = prob.get_ncx();
    const auto best = pop.best_idx();
    dvec best_x = pop.get_x()[best];
    double best_f = pop.get_f()[best][0];
    dvec consts(n_eph, 0.);
    std::normal_distribution<> normal(0., 1.);
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    dvec xs(NP * dim);
    dvec fs(NP * prob.get_nobj());
    unsigned long long fevals = 0u;
    for (unsigned g = 1u; g <= gen; ++g) {
        if (due(g, level)) {
            log.emplace_back(g - 1u, fevals, best_f, constants(best_x, n_eph), udp->prettier(best_x));
        }
        for (index_t i = 0u; i < NP; ++i) {
            ex.set_from_range(best_x.begin() + static_cast<long>(n_eph), best_x.end());
            ex.mutate_random(times(e));
            const uvec genes = ex.get();
            std::transform(genes.begin(), genes.end(), xs.data() + i * dim + n_eph, [](unsigned a) { return static_cast<double>(a); });
            if (learn) {
                for (auto j = 0u; j < n_eph; ++j) {
                    consts[j] = best_x[j] + 10. * normal(e);
                }
                std::copy(consts.begin(), consts.end(), xs.data() + i * dim);
            } else {
                std::copy(best_x.data(), best_x.data() + n_eph, xs.data() + i * dim);
            }
        }
        if (batch) {
            fs = (*batch)(prob, xs);
        } else {
            for (index_t i = 0u; i < NP; ++i) {
                dvec x(dim);
                std::copy(xs.data() + i * dim, xs.data() + (i + 1u) * dim, x.begin());
                fs[i] = prob.fitness(x)[0];
                ++fevals;
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            if (!pagmo::detail::greater_than_f(fs[i], best_f)) {
                best_f = fs[i];
                std::copy(xs.data() + i * dim, xs.data() + (i + 1u) * dim, best_x.begin());
            }
        }
        if (pagmo::detail::greater_than_f(ftol, best_f)) {
            if (level > 0u) {
                log.emplace_back(g, fevals, best_f, constants(best_x, n_eph), udp->prettier(best_x));
            }
            flat_update(pop, xs, fs, best_f, best_x, NP, dim);
            return pop;
        }
    }
    if (level > 0u) {
        log.emplace_back(gen, fevals, best_f, constants(best_x, n_eph), udp->prettier(best_x));
    }
    flat_update(pop, xs, fs, best_f, best_x, NP, dim);
    return pop;
}
pop_t flat_es4cgp(VSPEC_ES)
{
    dcgp::es4cgp::log_type log;
    return flat_run_es4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr, 0u, log);
}
pop_t flat_batch_es4cgp(VSPEC_ES, pagmo::bfe b)
{
    dcgp::es4cgp::log_type log;
    return flat_run_es4cgp(gen, max_mut, ftol, learn, seed, pop, &b, 0u, log);
}
dcgp::es4cgp::log_type flat_log_es4cgp(VSPEC_ES, unsigned level)
{
    dcgp::es4cgp::log_type log;
    flat_run_es4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr, level, log);
    return log;
}
dcgp::es4cgp::log_type probe_log_es4cgp(VSPEC_ES, unsigned level)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.evolve(pop);
    return a.get_log();
}
inline void front_line(dcgp::moes4cgp::log_type &log, unsigned g, unsigned long long fevals, const pop_t &pop)
{
    const auto best = pagmo::ideal(pop.get_f())[0];
    const auto front = pagmo::non_dominated_front_2d(pop.get_f()).size();
    const auto complexity = pagmo::nadir(pop.get_f())[1];
    log.emplace_back(g, fevals, best, front, complexity);
}
inline pop_t flat_run_moes4cgp(VSPEC_ES, const pagmo::bfe *batch, unsigned level, dcgp::moes4cgp::log_type &log)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() == 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto dim = prob.get_nx();
    const auto n_obj = prob.get_nobj();
    const auto NP = pop.size();
    auto ex = udp->get_cgp();
    const auto n_eph = prob.get_ncx();
    std::normal_distribution<> normal(0., 1.);
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    dvec xs(NP * dim);
    dvec fs(NP * n_obj);
    std::vector<dvec> all_x(2u * NP, dvec(dim, 0.));
    std::vector<dvec> all_f(2u * NP, dvec(n_obj, std::numeric_limits<double>::infinity()));
    unsigned long long fevals = 0u;
    for (unsigned g = 1u; g <= gen; ++g) {
        if (due(g, level)) {
            front_line(log, g - 1u, fevals, pop);
        }
        if (pagmo::detail::greater_than_f(ftol, pagmo::ideal(pop.get_f())[0])) {
            return pop;
        }
        for (index_t i = 0u; i < NP; ++i) {
            ex.set_from_range(pop.get_x()[i].begin() + static_cast<long>(n_eph), pop.get_x()[i].end());
            ex.mutate_random(times(e));
            std::transform(ex.get().begin(), ex.get().end(), xs.data() + i * dim + n_eph, [](unsigned a) { return static_cast<double>(a); });
            if (learn) {
                for (auto j = 0u; j < n_eph; ++j) {
                    xs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(e);
                }
            } else {
                for (auto j = 0u; j < n_eph; ++j) {
                    xs[i * dim + j] = pop.get_x()[i][j];
                }
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            std::copy(xs.data() + i * dim, xs.data() + (i + 1u) * dim, all_x[i].begin());
        }
        if (batch) {
            fs = (*batch)(prob, xs);
            for (index_t i = 0u; i < NP; ++i) {
                std::copy(fs.data() + i * n_obj, fs.data() + (i + 1u) * n_obj, all_f[i].begin());
            }
        } else {
            for (index_t i = 0u; i < NP; ++i) {
                all_f[i] = prob.fitness(all_x[i]);
                ++fevals;
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            all_f[i + NP] = pop.get_f()[i];
            all_x[i + NP] = pop.get_x()[i];
        }
        const auto keep = pagmo::select_best_N_mo(all_f, NP);
        for (index_t i = 0u; i < keep.size(); ++i) {
            pop.set_xf(i, all_x[keep[i]], all_f[keep[i]]);
        }
    }
    if (level > 0u) {
        front_line(log, gen, fevals, pop);
    }
    return pop;
}
pop_t flat_moes4cgp(VSPEC_ES)
{
    dcgp::moes4cgp::log_type log;
    return flat_run_moes4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr, 0u, log);
}
dcgp::moes4cgp::log_type flat_log_moes4cgp(VSPEC_ES, unsigned level)
{
    dcgp::moes4cgp::log_type log;
    flat_run_moes4cgp(gen, max_mut, ftol, learn, seed, pop, nullptr, level, log);
    return log;
}
dcgp::moes4cgp::log_type probe_log_moes4cgp(VSPEC_ES, unsigned level)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.evolve(pop);
    return a.get_log();
}
pop_t flat_batch_moes4cgp(VSPEC_ES, pagmo::bfe b)
{
    dcgp::moes4cgp::log_type log;
    return flat_run_moes4cgp(gen, max_mut, ftol, learn, seed, pop, &b, 0u, log);
}
inline pop_t flat_run_mes4cgp(VSPEC_MES, unsigned level, dcgp::mes4cgp::log_type &log)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() > 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto NP = pop.size();
    auto ex = udp->get_cgp();
    const auto n_eph = prob.get_ncx();
    const auto best = pop.best_idx();
    const auto worst = pop.worst_idx();
    dvec best_x = pop.get_x()[best];
    dvec best_f = pop.get_f()[best];
    uvec genes(best_x.size() - n_eph);
    std::transform(best_x.data() + n_eph, best_x.data() + best_x.size(), genes.begin(), [](double a) { return boost::numeric_cast<unsigned>(a); });
    auto hs = prob.hessians_sparsity();
    Eigen::MatrixXd full;
    Eigen::MatrixXd H;
    Eigen::MatrixXd G;
    Eigen::MatrixXd C;
    Eigen::FullPivLU<Eigen::MatrixXd> lu;
    std::uniform_int_distribution<unsigned> times(1u, max_mut);
    unsigned long long fevals = 0u;
    for (unsigned g = 1u; g <= gen; ++g) {
        if (due(g, level)) {
            log.emplace_back(g - 1u, fevals, best_f[0], constants(best_x, n_eph), udp->prettier(best_x));
        }
        std::vector<dvec> x(NP, best_x);
        std::vector<dvec> f(NP, best_f);
        for (index_t i = 0u; i < NP; ++i) {
            ex.set(genes);
            ex.mutate_random(times(e));
            const uvec u = ex.get();
            std::transform(u.begin(), u.end(), x[i].data() + n_eph, [](unsigned a) { return static_cast<double>(a); });
        }
        for (index_t i = 0u; i < NP; ++i) {
            auto hess = prob.hessians(x[i]);
            auto grad = prob.gradient(x[i]);
            if (n_eph == 1u) {
                if (hess[0][0] != 0. && std::isfinite(grad[0]) && std::isfinite(hess[0][0])) {
                    x[i][0] = x[i][0] - grad[0] / hess[0][0];
                }
                f[i] = prob.fitness(x[i]);
                ++fevals;
            } else {
                std::vector<index_t> act;
                for (index_t j = 0u; j < grad.size(); ++j) {
                    if (grad[j] != 0.) {
                        act.push_back(j);
                    } else {
                        x[i][j] = std::uniform_real_distribution<double>(-10., 10.)(e);
                    }
                }
                const auto n_act = act.size();
                if (n_act == 1u) {
                    const auto d = act[0] * (act[0] + 1u) / 2u + act[0];
                    if (hess[0][d] != 0. && std::isfinite(grad[act[0]]) && std::isfinite(hess[0][d])) {
                        x[i][act[0]] = x[i][act[0]] - grad[act[0]] / hess[0][d];
                    }
                } else if (n_act > 1u) {
                    full = Eigen::MatrixXd::Zero(ei(n_eph), ei(n_eph));
                    H = Eigen::MatrixXd::Zero(ei(n_act), ei(n_act));
                    G = Eigen::MatrixXd::Zero(ei(n_act), 1u);
                    C = Eigen::MatrixXd::Zero(ei(n_act), 1u);
                    for (index_t j = 0u; j < hess[0].size(); ++j) {
                        full(ei(hs[0][j].first), ei(hs[0][j].second)) = hess[0][j];
                        full(ei(hs[0][j].second), ei(hs[0][j].first)) = hess[0][j];
                    }
                    for (index_t r = 0u; r < act.size(); ++r) {
                        for (index_t c = 0u; c < act.size(); ++c) {
                            H(ei(r), ei(c)) = full(ei(act[r]), ei(act[c]));
                        }
                    }
                    for (index_t j = 0u; j < n_act; ++j) {
                        G(ei(j), 0) = grad[act[j]];
                        C(ei(j), 0) = x[i][act[j]];
                    }
                    if (G.array().isFinite().all()) {
                        lu.compute(H);
                        if (lu.isInvertible() && (lu.matrixLU().diagonal().array() >= 0.).all()) {
                            auto inv = lu.inverse();
                            if (inv.array().isFinite().all()) {
                                C = C - inv * G;
                                for (index_t j = 0u; j < act.size(); ++j) {
                                    x[i][act[j]] = C(ei(j), 0);
                                }
                            }
                        }
                    }
                }
                f[i] = prob.fitness(x[i]);
                ++fevals;
            }
        }
        for (index_t i = 0u; i < NP; ++i) {
            if (pagmo::detail::less_than_f(f[i][0], best_f[0])) {
                best_f = f[i];
                best_x = x[i];
                std::copy(x[i].data() + n_eph, x[i].data() + x[i].size(), genes.begin());
            }
        }
        if (pagmo::detail::greater_than_f(ftol, best_f[0])) {
            if (level > 0u) {
                log.emplace_back(g, fevals, best_f[0], constants(best_x, n_eph), udp->prettier(best_x));
            }
            if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best][0])) {
                pop.set_xf(worst, best_x, best_f);
            }
            return pop;
        }
    }
    if (level > 0u) {
        log.emplace_back(gen, fevals, best_f[0], constants(best_x, n_eph), udp->prettier(best_x));
    }
    if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best][0])) {
        pop.set_xf(worst, best_x, best_f);
    }
    return pop;
}
pop_t flat_mes4cgp(VSPEC_MES)
{
    dcgp::mes4cgp::log_type log;
    return flat_run_mes4cgp(gen, max_mut, ftol, seed, pop, 0u, log);
}
dcgp::mes4cgp::log_type flat_log_mes4cgp(VSPEC_MES, unsigned level)
{
    dcgp::mes4cgp::log_type log;
    flat_run_mes4cgp(gen, max_mut, ftol, seed, pop, level, log);
    return log;
}
dcgp::mes4cgp::log_type probe_log_mes4cgp(VSPEC_MES, unsigned level)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    a.evolve(pop);
    return a.get_log();
}
inline pop_t flat_run_momes4cgp(VSPEC_MES, unsigned level, dcgp::momes4cgp::log_type &log)
{
    const auto &prob = pop.get_problem();
    auto udp = dcgp::details::extract_sr_cpp_py(prob);
    if (!udp || prob.get_nobj() == 1u || pop.size() < 2u || max_mut == 0u || ftol < 0.) {
        throw std::invalid_argument("");
    }
    if (gen == 0u) {
        return pop;
    }
    random_engine e(seed);
    const auto NP = pop.size();
    auto ex = udp->get_cgp();
    const auto n_eph = prob.get_ncx();
    auto hs = prob.hessians_sparsity();
    Eigen::MatrixXd full;
    Eigen::MatrixXd H;
    Eigen::MatrixXd G;
    Eigen::MatrixXd C;
    Eigen::FullPivLU<Eigen::MatrixXd> lu;
    unsigned long long fevals = 0u;
    for (unsigned g = 1u; g <= gen; ++g) {
        if (due(g, level)) {
            front_line(log, g - 1u, fevals, pop);
        }
        if (pagmo::detail::greater_than_f(ftol, pagmo::ideal(pop.get_f())[0])) {
            return pop;
        }
        pop_t all(pop);
        uvec n_mut(NP);
        std::uniform_int_distribution<unsigned> times(0u, max_mut);
        for (auto &m : n_mut) {
            m = times(e);
        }
        std::vector<dvec> x(NP);
        for (index_t i = 0u; i < NP; ++i) {
            x[i] = pop.get_x()[i];
            uvec u(x[i].size() - n_eph);
            std::transform(x[i].data() + n_eph, x[i].data() + x[i].size(), u.begin(), [](double a) { return boost::numeric_cast<unsigned>(a); });
            ex.set(u);
            ex.mutate_random(n_mut[i]);
            u = ex.get();
            std::transform(u.begin(), u.end(), x[i].data() + n_eph, [](unsigned a) { return static_cast<double>(a); });
        }
        for (index_t i = 0u; i < NP; ++i) {
            auto hess = prob.hessians(x[i]);
            auto grad = prob.gradient(x[i]);
            if (n_eph == 1u) {
                if (hess[0][0] != 0. && std::isfinite(grad[0]) && std::isfinite(hess[0][0])) {
                    x[i][0] = x[i][0] - grad[0] / hess[0][0];
                }
                
            } else {
                std::vector<index_t> act;
                for (index_t j = 0u; j < grad.size(); ++j) {
                    if (grad[j] != 0.) {
                        act.push_back(j);
                    } else {
                        x[i][j] = std::uniform_real_distribution<double>(-10., 10.)(e);
                    }
                }
                const auto n_act = act.size();
                if (n_act == 1u) {
                    const auto d = act[0] * (act[0] + 1u) / 2u + act[0];
                    if (hess[0][d] != 0. && std::isfinite(grad[act[0]]) && std::isfinite(hess[0][d])) {
                        x[i][act[0]] = x[i][act[0]] - grad[act[0]] / hess[0][d];
                    }
                } else if (n_act > 1u) {
                    full = Eigen::MatrixXd::Zero(ei(n_eph), ei(n_eph));
                    H = Eigen::MatrixXd::Zero(ei(n_act), ei(n_act));
                    G = Eigen::MatrixXd::Zero(ei(n_act), 1u);
                    C = Eigen::MatrixXd::Zero(ei(n_act), 1u);
                    for (index_t j = 0u; j < hess[0].size(); ++j) {
                        full(ei(hs[0][j].first), ei(hs[0][j].second)) = hess[0][j];
                        full(ei(hs[0][j].second), ei(hs[0][j].first)) = hess[0][j];
                    }
                    for (index_t r = 0u; r < act.size(); ++r) {
                        for (index_t c = 0u; c < act.size(); ++c) {
                            H(ei(r), ei(c)) = full(ei(act[r]), ei(act[c]));
                        }
                    }
                    for (index_t j = 0u; j < n_act; ++j) {
                        G(ei(j), 0) = grad[act[j]];
                        C(ei(j), 0) = x[i][act[j]];
                    }
                    if (G.array().isFinite().all()) {
                        lu.compute(H);
                        if (lu.isInvertible() && (lu.matrixLU().diagonal().array() >= 0.).all()) {
                            auto inv = lu.inverse();
                            if (inv.array().isFinite().all()) {
                                C = C - inv * G;
                                for (index_t j = 0u; j < act.size(); ++j) {
                                    x[i][act[j]] = C(ei(j), 0);
                                }
                            }
                        }
                    }
                }
                
            }
            auto f = prob.fitness(x[i]);
            ++fevals;
            auto known = all.get_f();
            if (std::find(known.begin(), known.end(), f) == known.end() && std::isfinite(f[0])) {
                all.push_back(x[i], f);
            }
        }
        const auto keep = pagmo::select_best_N_mo(all.get_f(), NP);
        for (index_t i = 0u; i < NP; ++i) {
            pop.set_xf(i, all.get_x()[keep[i]], all.get_f()[keep[i]]);
        }
    }
    if (level > 0u) {
        front_line(log, gen, fevals, pop);
    }
    return pop;
}
pop_t flat_momes4cgp(VSPEC_MES)
{
    dcgp::momes4cgp::log_type log;
    return flat_run_momes4cgp(gen, max_mut, ftol, seed, pop, 0u, log);
}
dcgp::momes4cgp::log_type flat_log_momes4cgp(VSPEC_MES, unsigned level)
{
    dcgp::momes4cgp::log_type log;
    flat_run_momes4cgp(gen, max_mut, ftol, seed, pop, level, log);
    return log;
}
dcgp::momes4cgp::log_type probe_log_momes4cgp(VSPEC_MES, unsigned level)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    a.evolve(pop);
    return a.get_log();
}

// --------------------------------------------------------------------------------------------- gd4cgp
#define VSPEC_GD unsigned iter, double lr, double lr_min, pop_t pop
pop_t probe_gd4cgp(VSPEC_GD)
{
    dcgp::gd4cgp a(iter, lr, lr_min);
    return a.evolve(pop);
}
struct descent : pagmo::not_population_based {
    pop_t run(VSPEC_GD, unsigned level, dcgp::gd4cgp::log_type &log) const
    {
        const auto &prob = pop.get_problem();
        auto udp = dcgp::details::extract_sr_cpp_py(prob);
        if (!udp || udp->get_cgp().get_eph_val().size() == 0u || prob.get_nobj() > 1u || lr_min <= 0. || lr_min >= lr) {
            throw std::invalid_argument("");
        }
        if (iter == 0u) {
            return pop;
        }
        auto xf = select_individual(pop);
        dvec x = xf.first, f = xf.second;
        if (!std::isfinite(f[0])) {
            return pop;
        }
        unsigned long long fevals = 0u, gevals = 0u;
        double norm = 0.;
        for (unsigned k = 1u; k <= iter; ++k) {
            if (due(k, level)) {
                log.emplace_back(k - 1u, fevals, gevals, norm, lr, f[0]);
            }
            const dvec g = prob.gradient(x);
            ++gevals;
            norm = 0.;
            for (auto c : g) {
                norm += c * c;
            }
            norm = std::sqrt(norm);
            if (norm < 1e-13 || !std::isfinite(norm)) {
                if (level > 0u) {
                    log.emplace_back(k, fevals, gevals, norm, lr, f[0]);
                }
                replace_individual(pop, x, f);
                return pop;
            }
            dvec y = x;
            for (index_t j = 0u; j < g.size(); ++j) {
                y[j] = x[j] - g[j] / norm * lr;
            }
            const dvec fy = prob.fitness(y);
            ++fevals;
            if (pagmo::detail::less_than_f(fy[0], f[0])) {
                x = y;
                f = fy;
                lr = lr * 1.5;
            } else {
                lr = lr / 4.;
                if (lr < lr_min) {
                    if (level > 0u) {
                        log.emplace_back(k, fevals, gevals, norm, lr, f[0]);
                    }
                    replace_individual(pop, x, f);
                    return pop;
                }
            }
        }
        if (level > 0u) {
            log.emplace_back(iter, fevals, gevals, norm, lr, f[0]);
        }
        replace_individual(pop, x, f);
        return pop;
    }
};
pop_t ref_gd4cgp(VSPEC_GD)
{
    dcgp::gd4cgp::log_type log;
    return descent().run(iter, lr, lr_min, pop, 0u, log);
}
dcgp::gd4cgp::log_type flat_log_gd4cgp(VSPEC_GD, unsigned level)
{
    dcgp::gd4cgp::log_type log;
    descent().run(iter, lr, lr_min, pop, level, log);
    return log;
}
dcgp::gd4cgp probe_built_gd4cgp(unsigned iter, double lr, double lr_min)
{
    dcgp::gd4cgp a(iter, lr, lr_min);
    return a;
}
dcgp::gd4cgp::log_type probe_log_gd4cgp(VSPEC_GD, unsigned level)
{
    dcgp::gd4cgp a(iter, lr, lr_min);
    a.set_verbosity(level);
    a.evolve(pop);
    return a.get_log();
}

// --------------------------------------------------------------------------------------------- what all of them share
pop_t probe_idle_es4cgp(unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    dcgp::es4cgp a(0u, max_mut, ftol, learn, seed);
    return a.evolve(pop);
}
pop_t ref_idle_es4cgp(unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    return ref_es4cgp(0u, max_mut, ftol, learn, seed, pop);
}
pop_t probe_loud_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.evolve(pop);
}
pop_t probe_hushed_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.set_verbosity(0u);
    return a.evolve(pop);
}
dcgp::es4cgp::log_type probe_quietlog_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.evolve(pop);
    return a.get_log();
}
dcgp::es4cgp::log_type ref_quietlog_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    return dcgp::es4cgp::log_type();
}
unsigned probe_level_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.get_verbosity();
}
unsigned ref_level_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    return level;
}
dcgp::es4cgp probe_built_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return dcgp::es4cgp(gen, max_mut, ftol, learn, seed);
}
dcgp::es4cgp probe_reseeded_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned other)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, other);
    a.set_seed(seed);
    return a;
}
unsigned probe_seed_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return dcgp::es4cgp(gen, max_mut, ftol, learn, seed).get_seed();
}
unsigned probe_seed2_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned other)
{
    dcgp::es4cgp a(gen, max_mut, ftol, learn, other);
    a.set_seed(seed);
    return a.get_seed();
}
unsigned ref_seed_es4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return seed;
}
pop_t probe_idle_moes4cgp(unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    dcgp::moes4cgp a(0u, max_mut, ftol, learn, seed);
    return a.evolve(pop);
}
pop_t ref_idle_moes4cgp(unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    return ref_moes4cgp(0u, max_mut, ftol, learn, seed, pop);
}
pop_t probe_loud_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.evolve(pop);
}
pop_t probe_hushed_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    a.set_verbosity(0u);
    return a.evolve(pop);
}
dcgp::moes4cgp::log_type probe_quietlog_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.evolve(pop);
    return a.get_log();
}
dcgp::moes4cgp::log_type ref_quietlog_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, pop_t pop)
{
    return dcgp::moes4cgp::log_type();
}
unsigned probe_level_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, seed);
    a.set_verbosity(level);
    return a.get_verbosity();
}
unsigned ref_level_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned level)
{
    return level;
}
dcgp::moes4cgp probe_built_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return dcgp::moes4cgp(gen, max_mut, ftol, learn, seed);
}
dcgp::moes4cgp probe_reseeded_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned other)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, other);
    a.set_seed(seed);
    return a;
}
unsigned probe_seed_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return dcgp::moes4cgp(gen, max_mut, ftol, learn, seed).get_seed();
}
unsigned probe_seed2_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed, unsigned other)
{
    dcgp::moes4cgp a(gen, max_mut, ftol, learn, other);
    a.set_seed(seed);
    return a.get_seed();
}
unsigned ref_seed_moes4cgp(unsigned gen, unsigned max_mut, double ftol, bool learn, unsigned seed)
{
    return seed;
}
pop_t probe_idle_mes4cgp(unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    dcgp::mes4cgp a(0u, max_mut, ftol, seed);
    return a.evolve(pop);
}
pop_t ref_idle_mes4cgp(unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    return ref_mes4cgp(0u, max_mut, ftol, seed, pop);
}
pop_t probe_loud_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.evolve(pop);
}
pop_t probe_hushed_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    a.set_verbosity(0u);
    return a.evolve(pop);
}
dcgp::mes4cgp::log_type probe_quietlog_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.evolve(pop);
    return a.get_log();
}
dcgp::mes4cgp::log_type ref_quietlog_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    return dcgp::mes4cgp::log_type();
}
unsigned probe_level_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.get_verbosity();
}
unsigned ref_level_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    return level;
}
dcgp::mes4cgp probe_built_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return dcgp::mes4cgp(gen, max_mut, ftol, seed);
}
dcgp::mes4cgp probe_reseeded_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned other)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, other);
    a.set_seed(seed);
    return a;
}
unsigned probe_seed_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return dcgp::mes4cgp(gen, max_mut, ftol, seed).get_seed();
}
unsigned probe_seed2_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned other)
{
    dcgp::mes4cgp a(gen, max_mut, ftol, other);
    a.set_seed(seed);
    return a.get_seed();
}
unsigned ref_seed_mes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return seed;
}
pop_t probe_idle_momes4cgp(unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    dcgp::momes4cgp a(0u, max_mut, ftol, seed);
    return a.evolve(pop);
}
pop_t ref_idle_momes4cgp(unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    return ref_momes4cgp(0u, max_mut, ftol, seed, pop);
}
pop_t probe_loud_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.evolve(pop);
}
pop_t probe_hushed_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop, unsigned level)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    a.set_verbosity(0u);
    return a.evolve(pop);
}
dcgp::momes4cgp::log_type probe_quietlog_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.evolve(pop);
    return a.get_log();
}
dcgp::momes4cgp::log_type ref_quietlog_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, pop_t pop)
{
    return dcgp::momes4cgp::log_type();
}
unsigned probe_level_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, seed);
    a.set_verbosity(level);
    return a.get_verbosity();
}
unsigned ref_level_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned level)
{
    return level;
}
dcgp::momes4cgp probe_built_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return dcgp::momes4cgp(gen, max_mut, ftol, seed);
}
dcgp::momes4cgp probe_reseeded_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned other)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, other);
    a.set_seed(seed);
    return a;
}
unsigned probe_seed_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return dcgp::momes4cgp(gen, max_mut, ftol, seed).get_seed();
}
unsigned probe_seed2_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed, unsigned other)
{
    dcgp::momes4cgp a(gen, max_mut, ftol, other);
    a.set_seed(seed);
    return a.get_seed();
}
unsigned ref_seed_momes4cgp(unsigned gen, unsigned max_mut, double ftol, unsigned seed)
{
    return seed;
}
pop_t probe_idle_gd4cgp(double lr, double lr_min, pop_t pop)
{
    dcgp::gd4cgp a(0u, lr, lr_min);
    return a.evolve(pop);
}
pop_t ref_idle_gd4cgp(double lr, double lr_min, pop_t pop)
{
    return ref_gd4cgp(0u, lr, lr_min, pop);
}
pop_t probe_loud_gd4cgp(unsigned gen, double lr, double lr_min, pop_t pop, unsigned level)
{
    dcgp::gd4cgp a(gen, lr, lr_min);
    a.set_verbosity(level);
    return a.evolve(pop);
}
pop_t probe_hushed_gd4cgp(unsigned gen, double lr, double lr_min, pop_t pop, unsigned level)
{
    dcgp::gd4cgp a(gen, lr, lr_min);
    a.set_verbosity(level);
    a.set_verbosity(0u);
    return a.evolve(pop);
}
dcgp::gd4cgp::log_type probe_quietlog_gd4cgp(unsigned gen, double lr, double lr_min, pop_t pop)
{
    dcgp::gd4cgp a(gen, lr, lr_min);
    a.evolve(pop);
    return a.get_log();
}
dcgp::gd4cgp::log_type ref_quietlog_gd4cgp(unsigned gen, double lr, double lr_min, pop_t pop)
{
    return dcgp::gd4cgp::log_type();
}
unsigned probe_level_gd4cgp(unsigned gen, double lr, double lr_min, unsigned level)
{
    dcgp::gd4cgp a(gen, lr, lr_min);
    a.set_verbosity(level);
    return a.get_verbosity();
}
unsigned ref_level_gd4cgp(unsigned gen, double lr, double lr_min, unsigned level)
{
    return level;
}
} // namespace vspec
