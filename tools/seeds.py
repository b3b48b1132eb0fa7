"""The planted bugs (source of /verif/seeded; see mkseed.py). No check reads this file."""
E = 'include/dcgp/expression.hpp'
W = 'include/dcgp/expression_weighted.hpp'
A = 'include/dcgp/expression_ann.hpp'
SEEDS = []


def seed(id, prop, file, old, new, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, prop=prop, file=file, old=old, new=new, needs=needs, breaks=breaks, demo=demo, **kw))


H = r'''
#include <dcgp/algorithms/es4cgp.hpp>
#include <dcgp/algorithms/gd4cgp.hpp>
#include <dcgp/algorithms/mes4cgp.hpp>
#include <dcgp/algorithms/moes4cgp.hpp>
#include <dcgp/algorithms/momes4cgp.hpp>
#include <dcgp/expression.hpp>
#include <dcgp/expression_ann.hpp>
#include <dcgp/expression_weighted.hpp>
#include <dcgp/kernel_set.hpp>
#include <dcgp/problems/symbolic_regression.hpp>
#include <dcgp/rng.hpp>
#include <dcgp/wrapped_functions_s11n_implement.hpp>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <pagmo/population.hpp>
#include <pagmo/problem.hpp>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
using namespace dcgp;
using V = std::vector<double>;
using U = std::vector<unsigned>;
#define REQUIRE(c) do { if (!(c)) { std::printf("failed: %s (line %d)\n", #c, __LINE__); return 1; } } while (0)
static bool close(double a, double b) { return std::abs(a - b) <= 1e-9 * (1. + std::abs(a) + std::abs(b)); }
'''

seed('layout-levels-back-rows', 'C05', E, 'm_lb[k] = m_n + m_r * (i - m_l);', 'm_lb[k] = m_n + m_r * i - m_l;',
     'more than one row and a levels-back smaller than the column index',
     'The lower bound of connection genes admits nodes of columns further back than the levels-back parameter.',
     H + r'''
int main()
{
    for (auto r : {1u, 2u, 3u}) {
        for (auto l : {1u, 2u, 3u}) {
            expression<double> ex(2, 1, r, 5, l, 2, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
            for (unsigned node = 2; node < 2 + r * 5; ++node) {
                unsigned col = (node - 2) / r, g = ex.get_gene_idx()[node];
                for (unsigned j = 1; j <= 2; ++j) {
                    REQUIRE(ex.get_lb()[g + j] == (col >= l ? 2 + r * (col - l) : 0));
                    REQUIRE(ex.get_ub()[g + j] == 2 + r * col - 1);
                }
            }
        }
    }
}
''')
seed('layout-gene-idx-row-arity', 'C05', E, 'm_gene_idx[node_id] = acc + row * m_arity[col] + (node_id - m_n);',
     'm_gene_idx[node_id] = acc + row * m_arity.front() + (node_id - m_n);',
     'columns of different arity and more than one row',
     'The position of the genes of nodes in the second and later rows is computed with the arity of the first column.',
     H + r'''
int main()
{
    expression<double> ex(2, 1, 2, 3, 4, U{1, 2, 3}, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
    unsigned k = 0, node = 2;
    for (unsigned c = 0; c < 3; ++c)
        for (unsigned r = 0; r < 2; ++r) {
            REQUIRE(ex.get_gene_idx()[node++] == k);
            k += 2 + c;
        }
}
''')
seed('mutate-many-compares-wrong-gene', 'C06', E, '} while (new_value == m_x[idxs[i]]);', '} while (new_value == m_x[i]);',
     'mutating a gene whose position in the list differs from its position in the chromosome, and a redraw of the same value',
     'The mutation of several genes compares the new value with the wrong gene, so that a gene may keep its value.',
     H + r'''
int main()
{
    for (unsigned s = 0; s < 50; ++s) {
        expression<double> ex(3, 2, 2, 3, 4, 2, kernel_set<double>({"sum", "mul", "diff"})(), 0u, s);
        auto x = ex.get();
        ex.mutate(U{7u, 9u});
        for (unsigned i = 0; i < x.size(); ++i) REQUIRE((x[i] != ex.get()[i]) == (i == 7 || i == 9));
    }
}
''')
seed('mutate-connection-first-arity', 'C06', E,
     'idx = m_gene_idx[idx] + std::uniform_int_distribution<unsigned>(1, _get_arity(idx))(m_e);',
     'idx = m_gene_idx[idx] + std::uniform_int_distribution<unsigned>(1, m_arity.front())(m_e);',
     'columns of different arities',
     'Mutating active connection genes may change a function gene of the following node, or never touch the later connections.',
     H + r'''
int main()
{
    for (unsigned s = 0; s < 80; ++s) {
        expression<double> ex(3, 1, 2, 3, 4, U{3, 1, 2}, kernel_set<double>({"sum", "mul", "diff"})(), 0u, s);
        auto x = ex.get();
        auto a = ex.get_active_nodes();
        ex.mutate_active_cgene(1);
        for (unsigned i = 0; i < x.size(); ++i) {
            if (x[i] == ex.get()[i]) continue;
            bool conn = false;
            for (auto n : a)
                if (n >= 3 && i > ex.get_gene_idx()[n] && i <= ex.get_gene_idx()[n] + ex.get_arity(n)) conn = true;
            REQUIRE(conn);
        }
    }
}
''')
seed('mutate-random-skips-outputs', 'C06', E,
     '''            // If only one value is allowed for the gene, (lb==ub),
            // then we will not do anything as mutation does not apply
            auto idx = std::uniform_int_distribution<std::vector<unsigned>::size_type>(0, m_lb.size() - 1)(m_e);''',
     '''            // If only one value is allowed for the gene, (lb==ub),
            // then we will not do anything as mutation does not apply
            auto idx = std::uniform_int_distribution<std::vector<unsigned>::size_type>(0, m_lb.size() - m_m)(m_e);''',
     'an expression with more than one output',
     'Random mutation never touches the output genes after the first one.',
     H + r'''
int main()
{
    bool last = false;
    for (unsigned s = 0; s < 2000 && !last; ++s) {
        expression<double> ex(2, 3, 1, 2, 3, 2, kernel_set<double>({"sum", "mul"})(), 0u, s);
        auto x = ex.get().back();
        ex.mutate_random(2);
        last = x != ex.get().back();
    }
    REQUIRE(last);
}
''')
seed('consumers-uniform-weight-position', 'C07', A, 'unsigned w_idx = (idx - 1u) - (node_id - this->get_n());',
     'unsigned w_idx = (node_id - this->get_n()) * this->_get_arity(node_id);',
     'a network whose columns have different arities, and a gradient through a hidden node',
     'The weight recorded with each consumer of a node is that of another connection, so that gradients are wrong.',
     H + r'''
int main()
{
    expression_ann ex(2, 1, 2, 3, 4, U{1, 3, 2}, kernel_set<double>({"tanh", "sig"})(), 3u);
    ex.randomise_weights(0., 1., 5u);
    ex.randomise_biases(0., 1., 6u);
    for (unsigned s = 0; s < 20; ++s) {
        ex.mutate_random(10);
        std::vector<V> p{{0.3, -0.4}}, l{{0.7}};
        auto g = ex.d_loss(p, l, expression<double>::loss_type::MSE);
        for (unsigned i = 0; i < ex.get_weights().size(); ++i) {
            auto w = ex.get_weights();
            auto e2 = ex;
            w[i] += 1e-5;
            e2.set_weights(w);
            double up = e2.loss(p, l, "MSE");
            w[i] -= 2e-5;
            e2.set_weights(w);
            REQUIRE(std::abs((up - e2.loss(p, l, "MSE")) / 2e-5 - std::get<1>(g)[i]) < 1e-6);
        }
    }
}
''')
seed('active-genes-input-nodes-first', 'C07', E, 'for (auto j = 0u; j <= _get_arity(node_id); ++j) {\n                    m_active_genes',
     'for (auto j = 0u; j <= m_arity.front(); ++j) {\n                    m_active_genes',
     'columns of different arities',
     'The active genes of nodes in later columns are too few or too many.',
     H + r'''
int main()
{
    for (unsigned s = 0; s < 20; ++s) {
        expression<double> ex(2, 2, 2, 3, 4, U{2, 3, 1}, kernel_set<double>({"sum", "mul"})(), 0u, s);
        U want;
        for (auto n : ex.get_active_nodes())
            if (n >= 2)
                for (unsigned j = 0; j <= ex.get_arity(n); ++j) want.push_back(ex.get_gene_idx()[n] + j);
        for (unsigned i = 0; i < 2; ++i) want.push_back(ex.get().size() - 2 + i);
        REQUIRE(want == ex.get_active_genes());
    }
}
''')
seed('weighted-symbol-position', 'C08', W, 'function_in[j] = "(" + m_weights_symbols[weight_idx + j] + "*" + function_in[j] + ")";',
     'function_in[j] = "(" + m_weights_symbols[(node_id - this->get_n()) * this->_get_arity(node_id) + j] + "*" + function_in[j] + ")";',
     'a weighted expression whose columns have different arities',
     'The symbolic form names the weight of another connection.',
     H + r'''
int main()
{
    for (unsigned s = 0; s < 20; ++s) {
        expression_weighted<double> ex(2, 1, 1, 3, 4, U{1, 2, 3}, kernel_set<double>({"sum"})(), s);
        auto str = ex(std::vector<std::string>{"x", "y"})[0];
        for (auto n : ex.get_active_nodes())
            if (n >= 2)
                for (unsigned j = 0; j < ex.get_arity(n); ++j)
                    REQUIRE(str.find("w" + std::to_string(n) + "_" + std::to_string(j)) != std::string::npos);
    }
}
''')
seed('evaluate-outputs-from-front', 'C08', E, '''        for (auto i = 0u; i < ex.m_m; ++i) {
            retval[i] = node[ex.m_x[ex.m_x.size() - ex.m_m + i]];''', '''        for (auto i = 0u; i < ex.m_m; ++i) {
            retval[i] = node[ex.m_x[ex.m_x.size() - 1u - i]];''',
     'an expression with two or more outputs connected to different nodes',
     'The numeric evaluation returns the outputs in reverse order while the symbolic one keeps the right order.',
     H + r'''
int main()
{
    expression<double> ex(2, 2, 1, 2, 3, 2, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
    ex.set(U{0, 0, 1, 1, 0, 1, 2, 3});
    auto y = ex(V{2., 5.});
    REQUIRE(y[0] == 7. && y[1] == 10.);
}
''')
seed('loss-parallel-labels', 'C09', E, 'err += loss(*(dfirst + i + j), *(lfirst + i + j), loss_e);',
     'err += loss(*(dfirst + i + j), *(lfirst + j), loss_e);',
     'the loss of a batch computed in two or more parallel parts',
     'Every part after the first pairs its samples with the labels of the first part.',
     H + r'''
int main()
{
    expression<double> ex(1, 1, 1, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
    std::vector<V> p, l;
    for (int i = 0; i < 12; ++i) p.push_back({0.1 * i}), l.push_back({1. + i * i});
    auto a = ex.loss(p, l, "MSE", 0u);
    for (auto k : {1u, 2u, 3u, 4u, 6u, 12u}) REQUIRE(close(a, ex.loss(p, l, "MSE", k)));
}
''')
seed('set-range-writes-first', 'C10', E, '''        check_cgp_encoding(begin, end);
        std::transform(begin, end, m_x.begin(), [](auto x) { return static_cast<unsigned>(x); });
''', '''        if (static_cast<decltype(m_x.size())>(std::distance(begin, end)) == m_x.size()) {
            std::transform(begin, end, m_x.begin(), [](auto x) { return static_cast<unsigned>(x); });
        }
        check_cgp_encoding(begin, end);
''', 'setting from a range whose genes are out of bounds, and looking at the expression after the rejection',
     'A rejected range is nevertheless left in the chromosome.',
     H + r'''
int main()
{
    expression<double> ex(2, 1, 1, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
    auto x = ex.get();
    std::vector<double> bad(x.begin(), x.end());
    bad[0] = 7.;
    bool threw = false;
    try {
        ex.set_from_range(bad.begin(), bad.end());
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    REQUIRE(threw && ex.get() == x);
    ex.set_from_range(x.begin(), x.end());
    REQUIRE(ex.get() == x);
}
''')
seed('weight-input-off-by-one', 'C11', W, 'if (input_id >= this->_get_arity(node_id)) {',
     'if (input_id > this->_get_arity(node_id)) {', 'asking for the input whose id equals the arity of the node',
     'An input id one past the last is accepted and addresses the weight of the next node.',
     H + r'''
int main()
{
    expression_weighted<double> ex(2, 1, 1, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 1u);
    int threw = 0;
    try {
        ex.set_weight(2u, 2u, 5.);
    } catch (const std::invalid_argument &) {
        ++threw;
    }
    try {
        ex.get_weight(3u, 2u);
    } catch (const std::invalid_argument &) {
        ++threw;
    }
    REQUIRE(threw == 2);
    ex.set_weight(2u, 1u, 5.);
    REQUIRE(ex.get_weight(2u, 1u) == 5.);
}
''', count=2)
seed('zero-learning-rate', 'C11', A, 'if (lr <= 0) {', 'if (lr < 0) {', 'training with a learning rate of exactly zero',
     'A zero learning rate is accepted.',
     H + r'''
int main()
{
    expression_ann ex(1, 1, 1, 3, 4, 2, kernel_set<double>({"tanh"})(), 1u);
    std::vector<V> p{{0.1}, {0.2}}, l{{0.}, {1.}};
    bool threw = false;
    try {
        ex.sgd(p, l, 0., 1u, "MSE", 0u, false);
    } catch (const std::invalid_argument &) {
        threw = true;
    }
    REQUIRE(threw);
    ex.sgd(p, l, 0.1, 1u, "MSE", 0u, false);
}
''')
seed('unique-weights-unsorted', 'C12', A, '                std::sort(con_id.begin(), con_id.end());\n', '',
     'an active node of arity three or more connected twice to the same node by non adjacent connections',
     'The number of unique active weights counts such connections twice.',
     H + r'''
int main()
{
    expression_ann ex(2, 1, 1, 1, 1, 3, kernel_set<double>({"tanh"})(), 1u);
    ex.set(U{0, 0, 1, 0, 2});
    REQUIRE(ex.n_active_weights(true) == 2u);
    REQUIRE(ex.n_active_weights() == 3u);
}
''')
seed('gradient-last-output', 'C15', A, 'cum += d_node[d_node.size() - this->get_m() + n_out];',
     'cum += d_node[this->get_n() + this->get_r() * this->get_c() + this->get_m() - 1u - n_out];',
     'a network with two or more outputs connected to different nodes',
     'The derivative of the loss with respect to the outputs is attributed to the outputs in reverse order.',
     H + r'''
int main()
{
    expression_ann ex(2, 2, 1, 3, 4, 2, kernel_set<double>({"tanh", "sig"})(), 3u);
    ex.randomise_weights(0., 1., 5u);
    for (unsigned s = 0; s < 20; ++s) {
        ex.mutate_random(10);
        std::vector<V> p{{0.3, -0.4}}, l{{0.7, -3.}};
        auto g = ex.d_loss(p, l, expression<double>::loss_type::MSE);
        for (unsigned i = 0; i < ex.get_biases().size(); ++i) {
            auto e2 = ex;
            e2.set_bias(i, ex.get_bias(i) + 1e-5);
            double up = e2.loss(p, l, "MSE");
            e2.set_bias(i, ex.get_bias(i) - 1e-5);
            REQUIRE(std::abs((up - e2.loss(p, l, "MSE")) / 2e-5 - std::get<2>(g)[i]) < 1e-6);
        }
    }
}
''')
seed('gradient-parallel-labels', 'C15', A, 'd_loss(value2, gweights2, gbiases2, *(dfirst + i + j), *(lfirst + i + j), loss_e);',
     'd_loss(value2, gweights2, gbiases2, *(dfirst + i + j), *(lfirst + i), loss_e);',
     'a batch gradient computed in parallel parts of two or more samples',
     'All the samples of a part are compared with the first label of the part.',
     H + r'''
int main()
{
    expression_ann ex(1, 1, 1, 3, 4, 2, kernel_set<double>({"tanh"})(), 1u);
    std::vector<V> p, l;
    for (int i = 0; i < 12; ++i) p.push_back({0.1 * i}), l.push_back({1. + i * i});
    auto a = ex.d_loss(p, l, expression<double>::loss_type::MSE, 0u);
    for (auto k : {1u, 2u, 3u, 4u, 6u, 12u}) {
        auto b = ex.d_loss(p, l, expression<double>::loss_type::MSE, k);
        REQUIRE(close(std::get<0>(a), std::get<0>(b)));
        for (unsigned i = 0; i < std::get<1>(a).size(); ++i) REQUIRE(close(std::get<1>(a)[i], std::get<1>(b)[i]));
    }
}
''')
seed('epoch-short-batch-labels', 'C16', A, '''                dfirst += batch_size;
                lfirst += batch_size;''', '''                dfirst += batch_size;
                lfirst = labels.begin() + (dfirst - points.begin()) / batch_size;''',
     'training with a batch size of two or more on more than one batch',
     'From the second batch on the labels do not belong to the samples.',
     H + r'''
int main()
{
    for (auto bs : {1u, 2u, 3u, 5u}) {
        expression_ann ex(1, 1, 1, 3, 4, 2, kernel_set<double>({"tanh"})(), 1u), ey(ex);
        std::vector<V> p, l;
        for (int i = 0; i < 7; ++i) p.push_back({0.1 * i}), l.push_back({1. + i * i});
        auto loss = ex.sgd(p, l, 0.05, bs, "MSE", 0u, false);
        double want = 0., k = 0.;
        for (unsigned b = 0; b < 7; b += bs) {
            std::vector<V> pp(p.begin() + b, p.begin() + std::min(7u, b + bs));
            std::vector<V> ll(l.begin() + b, l.begin() + std::min(7u, b + bs));
            auto g = ey.d_loss(pp, ll, expression<double>::loss_type::MSE);
            auto w = ey.get_weights();
            for (unsigned i = 0; i < w.size(); ++i) w[i] -= 0.05 * std::get<1>(g)[i];
            auto bb = ey.get_biases();
            for (unsigned i = 0; i < bb.size(); ++i) bb[i] -= 0.05 * std::get<2>(g)[i];
            ey.set_weights(w);
            ey.set_biases(bb);
            want += std::get<0>(g);
            k += 1.;
        }
        REQUIRE(close(loss, want / k));
        for (unsigned i = 0; i < ex.get_weights().size(); ++i) REQUIRE(close(ex.get_weights()[i], ey.get_weights()[i]));
    }
}
''')
seed('shuffle-loses-pairing', 'C16', A, '''            auto eng2 = eng1;
            std::shuffle(points.begin(), points.end(), eng1);
''', '''            std::shuffle(points.begin(), points.end(), eng1);
            auto eng2 = eng1;
''', 'training with shuffling', 'Points and labels are permuted differently.',
     H + r'''
int main()
{
    expression_ann ex(1, 1, 1, 3, 4, 2, kernel_set<double>({"tanh"})(), 1u);
    std::vector<V> p, l;
    for (int i = 0; i < 50; ++i) p.push_back({1. * i}), l.push_back({1. * i});
    ex.sgd(p, l, 1e-6, 10u, "MSE", 0u, true);
    for (int i = 0; i < 50; ++i) REQUIRE(p[i] == l[i]);
}
''')
seed('engine-not-saved', 'C01', E, '        ar &m_phenotype_correction;\n        ar &m_e;\n', '        ar &m_phenotype_correction;\n',
     'saving an expression, loading it, and mutating both',
     'The random engine of an expression is neither saved nor loaded.',
     H + r'''
int main()
{
    expression<double> a(2, 1, 2, 3, 4, 2, kernel_set<double>({"sum", "mul"})(), 0u, 1u);
    expression<double> b(1, 1, 1, 1, 1, 1, kernel_set<double>({"sum"})(), 0u, 99u);
    std::stringstream ss;
    {
        boost::archive::binary_oarchive o(ss);
        o << a;
    }
    {
        boost::archive::binary_iarchive i(ss);
        i >> b;
    }
    REQUIRE(a.get() == b.get());
    for (int k = 0; k < 20; ++k) {
        a.mutate_random(3);
        b.mutate_random(3);
        REQUIRE(a.get() == b.get());
    }
}
''')
seed('kernel-map-not-saved', 'C01', A, '        ar &m_connected;\n        ar &m_kernel_map;\n', '        ar &m_connected;\n',
     'loading a network into an object built with other kernels and asking for the gradient',
     'The classification of the kernels of a network is not restored, so that a loaded network back-propagates with wrong slopes.',
     H + r'''
int main()
{
    expression_ann a(2, 1, 2, 3, 4, 2, kernel_set<double>({"tanh", "sum", "sig"})(), 1u);
    expression_ann b(1, 1, 1, 1, 1, 1, kernel_set<double>({"ReLu", "ReLu", "ReLu"})(), 99u);
    std::stringstream ss;
    {
        boost::archive::binary_oarchive o(ss);
        o << a;
    }
    {
        boost::archive::binary_iarchive i(ss);
        i >> b;
    }
    std::vector<V> p{{0.3, -0.4}}, l{{0.7}};
    REQUIRE(a.d_loss(p, l, expression<double>::loss_type::MSE) == b.d_loss(p, l, expression<double>::loss_type::MSE));
}
''')
seed('reseed-without-lock', 'C04', 'include/dcgp/rng.hpp', '''        std::lock_guard<std::mutex> lock(global_rng_mutex);
        global_rng.seed(''', '''        global_rng.seed(''',
     'one thread reseeding the global generator while another draws from it',
     'Reseeding the process-wide engine races with drawing from it.',
     r'''
#include <dcgp/rng.hpp>
#include <thread>
// built with the thread sanitizer: the process exits with a nonzero status when a race is seen
int main()
{
    std::thread a([] { for (unsigned i = 0; i < 20000; ++i) dcgp::random_device::set_seed(i); });
    std::thread b([] { for (unsigned i = 0; i < 20000; ++i) dcgp::random_device::next(); });
    a.join();
    b.join();
}
''', flags='-fsanitize=thread ')
F = 'include/dcgp/wrapped_functions.hpp'
P = 'include/dcgp/problems/symbolic_regression.hpp'
K = 'include/dcgp/kernel_set.hpp'
seed('pdiv-checks-before-folding', 'C13', F, '''        retval /= tmpval;

        if (std::isfinite(retval)) {
            return retval;
        }

        return 1.;''', '''        retval /= in.size() > 1u ? in[1] : tmpval;

        if (!std::isfinite(retval)) {
            return 1.;
        }

        return in.size() > 2u ? retval / (tmpval / in[1]) : retval;''',
     'three or more arguments of which a later one is zero',
     'Protected division protects only against the second argument.',
     H + r'''
int main()
{
    auto k = kernel_set<double>({"pdiv"})()[0];
    REQUIRE(k(V{6., 2.}) == 3.);
    REQUIRE(k(V{6., 0.}) == 1.);
    REQUIRE(k(V{12., 2., 3.}) == 2.);
    REQUIRE(k(V{12., 2., 0.}) == 1.);
    REQUIRE(k(V{12., 2., 3., 0.}) == 1.);
}
''')
seed('step-series-open-at-zero', 'C13', F, '''        if (retval.constant_cf() < T(0.).constant_cf()) {
            retval = T(0.);
        } else {
            retval = T(1.);
        }''', '''        if (retval.constant_cf() > T(0.).constant_cf()) {
            retval = T(1.);
        } else {
            retval = T(0.);
        }''',
     'a truncated series with a constant term of exactly zero',
     'The step kernel on series is zero at zero, where it is one on numbers.',
     H + r'''
int main()
{
    auto k = kernel_set<audi::gdual_d>({"step"})()[0];
    auto n = kernel_set<double>({"step"})()[0];
    for (double a : {-1., -0.5, 0., 0.25, 2.}) {
        std::vector<audi::gdual_d> in{audi::gdual_d(a, "x", 2), audi::gdual_d(0.)};
        REQUIRE(k(in).constant_cf() == n(V{a, 0.}));
    }
}
''')
seed('isru-linear-argument', 'C13', F, 'audi::sqrt(1 + retval * retval)', 'audi::sqrt(1 + retval * in[0])',
     'two or more arguments', 'The inverse square root unit normalises by its first argument instead of the sum.',
     H + r'''
int main()
{
    auto k = kernel_set<double>({"ISRU"})()[0];
    REQUIRE(close(k(V{0.5}), 0.5 / std::sqrt(1.25)));
    REQUIRE(close(k(V{0.5, 0.}), 0.5 / std::sqrt(1.25)));
    REQUIRE(close(k(V{0.5, 1.5}), 2. / std::sqrt(5.)));
}
''')
seed('printed-difference-open', 'C14', F, '''            retval += "-" + in[i];
        }
        return "(" + retval + ")";''', '''            retval += "-" + in[i];
        }
        return in.size() > 2u ? retval : "(" + retval + ")";''',
     'a difference of three or more arguments nested in another formula',
     'The printed difference of three terms loses its parentheses: nested in a product or difference it denotes something else.',
     H + r'''
static const char *c;
static double sum();
static double prim()
{
    if (*c == '(') { ++c; double r = sum(); ++c; return r; }
    if (*c == '-') { ++c; return -prim(); }
    char *e;
    double r = std::strtod(c, &e);
    c = e;
    return r;
}
static double prod()
{
    double r = prim();
    while (*c == '*' || *c == '/') { if (*c++ == '*') r *= prim(); else r /= prim(); }
    return r;
}
static double sum()
{
    double r = prod();
    while (*c == '+' || *c == '-') { if (*c++ == '+') r += prod(); else r -= prod(); }
    return r;
}
static double value(const std::string &s)
{
    c = s.c_str();
    return sum();
}
int main()
{
    kernel_set<double> s({"diff", "mul"});
    auto d = s()[0], m = s()[1];
    using S = std::vector<std::string>;
    REQUIRE(value(d(S{"7", d(S{"2", "4"})})) == d(V{7., d(V{2., 4.})}));
    REQUIRE(value(d(S{"7", d(S{"2", "4", "1"})})) == d(V{7., d(V{2., 4., 1.})}));
    REQUIRE(value(m(S{"7", d(S{"2", "4", "1"})})) == m(V{7., d(V{2., 4., 1.})}));
}
''')
seed('predict-constants-of-last', 'C17', P, '''        for (decltype(points.size()) i = 0u; i < points.size(); ++i) {
            retval.push_back(m_cgp(points[i]));
        }''', '''        for (decltype(points.size()) i = 0u; i < points.size(); ++i) {
            retval.push_back(m_cgp(m_points.size() == points.size() ? m_points[i] : points[i]));
        }''',
     'predicting as many points as the problem has data points, at other points',
     'Predictions for a set of points of the size of the training data are those of the training data.',
     H + r'''
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    symbolic_regression udp(p, l, 1u, 4u, 5u, 2u, kernel_set<double>({"sum", "mul"})(), 1u, false, 0u, "MSE", 7u);
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < 10; ++k) {
        V x{0.5};
        for (auto g : ex.get()) x.push_back(g);
        std::vector<V> q{{1.1}, {2.3}, {-0.7}};
        auto r = udp.predict(q, x);
        for (unsigned i = 0; i < 3; ++i) {
            REQUIRE(r[i] == udp.predict(q[i], x));
        }
        ex.mutate_random(3);
    }
}
''')
seed('fitness-complexity-all-genes', 'C17', P, 'static_cast<double>(m_cgp.get_active_genes().size())',
     'static_cast<double>(m_cgp.get_active_nodes().size())',
     'two objectives', 'The complexity objective counts active nodes instead of active genes.',
     H + r'''
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    symbolic_regression udp(p, l, 1u, 4u, 5u, 2u, kernel_set<double>({"sum", "mul"})(), 1u, true, 0u, "MSE", 7u);
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < 10; ++k) {
        V x{0.5};
        for (auto g : ex.get()) x.push_back(g);
        REQUIRE(udp.fitness(x)[1] == double(ex.get_active_genes().size()));
        ex.mutate_random(3);
    }
}
''')
seed('bounds-shifted-by-one', 'C18', P, 'std::copy(m_cgp.get_ub().begin(), m_cgp.get_ub().end(), ub.data() + m_n_eph);',
     'std::transform(m_cgp.get_ub().begin(), m_cgp.get_ub().end(), m_cgp.get_lb().begin(), ub.data() + m_n_eph, [](unsigned u, unsigned l) { return std::max(u, l + 1u); });',
     'a gene with a single admissible value (one kernel, or one input and the first column)',
     'The upper bound of genes which have only one admissible value exceeds that value.',
     H + r'''
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    symbolic_regression udp(p, l, 1u, 4u, 5u, 2u, kernel_set<double>({"sum"})(), 0u, false, 0u, "MSE", 7u);
    auto b = udp.get_bounds();
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < ex.get_ub().size(); ++k) {
        REQUIRE(b.first[k] == ex.get_lb()[k] && b.second[k] == ex.get_ub()[k]);
    }
}
''')
seed('hessian-diagonal-order', 'C19', P, 'coeff[hs[0][i].second] += 1;', 'coeff[hs[0][i].second] = 1;',
     'a constant in which the loss is curved (diagonal entries of the hessian)',
     'Diagonal entries of the hessian are first derivatives.',
     H + r'''
int main()
{
    // y = c1*x + c2: the only program with one column of sums over products found by mutation
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    symbolic_regression udp(p, l, 1u, 6u, 7u, 2u, kernel_set<double>({"sum", "mul"})(), 2u, false, 0u, "MSE", 7u);
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < 40; ++k) {
        V x{0.5, -0.3};
        for (auto g : ex.get()) x.push_back(g);
        auto h = udp.hessians(x)[0];
        unsigned n = 0;
        for (unsigned i = 0; i < 2; ++i)
            for (unsigned j = 0; j <= i; ++j) {
                V a(x), b(x);
                a[j] += 1e-5;
                b[j] -= 1e-5;
                double d = (udp.gradient(a)[i] - udp.gradient(b)[i]) / 2e-5;
                REQUIRE(std::abs(d - h[n]) <= 1e-4 * (1 + std::abs(d)));
                ++n;
            }
        ex.mutate_random(4);
    }
}
''')
seed('gradient-divided-by-labels', 'C19', P, 'return std::accumulate(vec.begin(), vec.end(), 0.) / static_cast<double>(vec.size());',
     'return std::accumulate(vec.begin(), vec.end(), 0.) / static_cast<double>(vec.size() > 4u ? vec.size() - 1u : vec.size());',
     'more than four data points',
     'Losses and derivatives of a series are divided by one less than the number of points.',
     H + r'''
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}, {0.5}, {0.7}, {-0.4}}, l{{1.}, {2.}, {3.}, {0.}, {0.}, {1.}};
    symbolic_regression udp(p, l, 1u, 6u, 7u, 2u, kernel_set<double>({"sum", "mul"})(), 2u, false, 0u, "MSE", 7u);
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < 40; ++k) {
        V x{0.5, -0.3};
        for (auto g : ex.get()) x.push_back(g);
        auto h = udp.gradient(x);
        for (unsigned j = 0; j < 2; ++j) {
            V a(x), b(x);
            a[j] += 1e-5;
            b[j] -= 1e-5;
            double d = (udp.fitness(a)[0] - udp.fitness(b)[0]) / 2e-5;
            REQUIRE(std::abs(d - h[j]) <= 1e-4 * (1 + std::abs(d)));
        }
        ex.mutate_random(4);
    }
}
''')
seed('build-ignores-ragged-points', 'C20', P, '''[n](const std::vector<double> &p) { return p.size() == n; })''',
     '''[n](const std::vector<double> &p) { return p.size() >= n; })''',
     'a first point with fewer coordinates than a later one',
     'Points of different dimension are accepted when the first is the shortest.',
     H + r'''
static bool built(const std::vector<V> &p, const std::vector<V> &l)
{
    try {
        symbolic_regression udp(p, l, 1u, 4u, 5u, 2u, kernel_set<double>({"sum"})(), 0u, false, 0u, "MSE", 7u);
    } catch (const std::invalid_argument &) {
        return false;
    }
    return true;
}
int main()
{
    REQUIRE(built({{0.1}, {0.2}}, {{1.}, {2.}}));
    REQUIRE(!built({{0.1, 0.2}, {0.2}}, {{1.}, {2.}}));
    REQUIRE(!built({{0.1}, {0.2, 0.3}}, {{1.}, {2.}}));
}
''')
seed('safety-of-the-first-kernel', 'C21', P, 'return a.get_thread_safety() < b.get_thread_safety();',
     'return a.get_thread_safety() <= b.get_thread_safety() && a.get_name() < b.get_name();',
     'kernels of different thread safety whose least safe one comes later in alphabetical order',
     'The problem reports the thread safety of a kernel that is not the least safe one.',
     H + r'''
struct unsafe_sum {
    double operator()(const V &v) const { return v[0] + v[1]; }
    pagmo::thread_safety get_thread_safety() const { return pagmo::thread_safety::none; }
    template <typename Archive>
    void serialize(Archive &, unsigned) {}
};
DCGP_S11N_FUNCTION_EXPORT(unsafe_sum_, unsafe_sum, double, const V &)
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    auto good = kernel_set<double>({"mul"})()[0];
    kernel<double> bad(unsafe_sum{}, print_my_sum, "sum");
    REQUIRE(bad.get_thread_safety() == pagmo::thread_safety::none);
    symbolic_regression a(p, l, 1u, 4u, 5u, 2u, {good, bad}, 0u, false, 0u, "MSE", 7u);
    symbolic_regression b(p, l, 1u, 4u, 5u, 2u, {bad, good}, 0u, false, 0u, "MSE", 7u);
    REQUIRE(a.get_thread_safety() == pagmo::thread_safety::none);
    REQUIRE(b.get_thread_safety() == pagmo::thread_safety::none);
}
''')
seed('cache-compares-constants-only', 'C22', P, 'if (x == m_cache_fitness.first) {',
     'if (x.size() == m_cache_fitness.first.size() && std::equal(x.begin(), x.begin() + (m_n_eph ? m_n_eph : x.size()), m_cache_fitness.first.begin())) {',
     'a gradient or hessian at one vector followed by the fitness of another with the same constants',
     'The fitness of a program is that of another one whose derivatives were just computed.',
     H + r'''
int main()
{
    std::vector<V> p{{0.1}, {0.2}, {0.3}}, l{{1.}, {2.}, {3.}};
    auto make = [&] { return symbolic_regression(p, l, 1u, 6u, 7u, 2u, kernel_set<double>({"sum", "mul"})(), 2u, false, 0u, "MSE", 7u); };
    auto udp = make();
    auto ex = udp.get_cgp();
    for (unsigned k = 0; k < 40; ++k) {
        V x{0.5, -0.3};
        for (auto g : ex.get()) x.push_back(g);
        auto fresh = make();
        REQUIRE(close(udp.fitness(x)[0], fresh.fitness(x)[0]));
        udp.gradient(x);
        ex.mutate_random(4);
    }
}
''')
ES = 'include/dcgp/algorithms/es4cgp.hpp'
MO = 'include/dcgp/algorithms/moes4cgp.hpp'
ME = 'include/dcgp/algorithms/mes4cgp.hpp'
MM = 'include/dcgp/algorithms/momes4cgp.hpp'
GD = 'include/dcgp/algorithms/gd4cgp.hpp'
HA = H + r'''
static symbolic_regression data(unsigned eph, bool mo, unsigned cols = 8u, std::vector<std::string> names = {"sum", "mul", "diff"})
{
    std::vector<V> p, l;
    for (int i = 0; i < 8; ++i) {
        double x = .1 + .3 * i;
        p.push_back({x});
        l.push_back({2. * x * x - 1.3 * x + .7});
    }
    return symbolic_regression(p, l, 1u, cols, cols + 1u, 2u, kernel_set<double>(names)(), eph, mo, 0u, "MSE", 7u);
}
// every individual of the population carries the fitness of its own decision vector
static bool consistent(const pagmo::population &pop, const symbolic_regression &udp)
{
    pagmo::problem fresh(udp);
    for (decltype(pop.size()) i = 0; i < pop.size(); ++i) {
        auto f = fresh.fitness(pop.get_x()[i]);
        for (decltype(f.size()) k = 0; k < f.size(); ++k)
            if (std::isfinite(f[k]) && !close(f[k], pop.get_f()[i][k])) return false;
    }
    return true;
}
static double lowest(const pagmo::population &pop)
{
    double b = pop.get_f()[0][0];
    for (auto &f : pop.get_f()) if (f[0] < b) b = f[0];
    return b;
}
'''
seed('es-writes-the-best-fitness', 'C23', ES, 'pagmo::vector_double(1, fs[i]));', 'pagmo::vector_double(1, std::min(fs[i], best_f)));',
     'a last generation with a mutant that improves its slot without being the best found',
     'Mutants of the last generation enter the population with the fitness of the best individual.',
     HA + r'''
int main()
{
    auto udp = data(1u, false);
    for (unsigned s = 1; s < 30; ++s) {
        pagmo::population pop{udp, 6u, s};
        auto before = lowest(pop);
        auto out = es4cgp(1u + s % 3, 2u, 0., true, s).evolve(pop);
        REQUIRE(consistent(out, udp));
        REQUIRE(lowest(out) <= before);
    }
}
''')
seed('es-batch-mutants-shifted', 'C23', ES, 'std::copy(dvs.data() + i * dim, dvs.data() + (i + 1) * dim, best_x.begin());',
     'std::copy(dvs.data() + (m_bfe && fs.size() > 3u ? i / 2u * 2u : i) * dim, dvs.data() + ((m_bfe && fs.size() > 3u ? i / 2u * 2u : i) + 1) * dim, best_x.begin());',
     'a batch evaluator, a population of four or more, and a best mutant at an odd position',
     'With a batch evaluator the best decision vector recorded is that of the neighbouring mutant.',
     HA + r'''
int main()
{
    auto udp = data(1u, false);
    for (unsigned s = 1; s < 30; ++s) {
        pagmo::population pop{udp, 5u, s};
        es4cgp a(2u, 2u, 0., true, s), b(2u, 2u, 0., true, s);
        b.set_bfe(pagmo::bfe{});
        auto x = a.evolve(pop), y = b.evolve(pop);
        REQUIRE(consistent(y, udp));
        REQUIRE(x.get_x() == y.get_x() && x.get_f() == y.get_f());
    }
}
''')
seed('moes-batch-objectives-overlap', 'C24', MO, 'std::copy(fs.data() + i * n_obj, fs.data() + (i + 1) * n_obj, fs_v[i].begin());',
     'std::copy(fs.data() + i, fs.data() + i + n_obj, fs_v[i].begin());',
     'a batch evaluator',
     'With a batch evaluator the objectives of one mutant are read from those of another.',
     HA + r'''
int main()
{
    auto udp = data(1u, true);
    for (unsigned s = 1; s < 20; ++s) {
        pagmo::population pop{udp, 6u, s};
        moes4cgp a(3u, 2u, 0., true, s), b(3u, 2u, 0., true, s);
        b.set_bfe(pagmo::bfe{});
        auto x = a.evolve(pop), y = b.evolve(pop);
        REQUIRE(consistent(y, udp));
        REQUIRE(x.get_x() == y.get_x() && x.get_f() == y.get_f());
    }
}
''')
seed('moes-stale-parents', 'C24', MO, 'dvs_v[i + NP] = pop.get_x()[i];', 'if (gen == 1u || fs_v[i + NP][0] < fs_v[i][0]) dvs_v[i + NP] = pop.get_x()[i];',
     'a later generation whose mutant has a loss below that of the individual it came from',
     'From the second generation on, a parent may be put back with the decision vector of an earlier generation.',
     HA + r'''
int main()
{
    auto udp = data(1u, true);
    for (unsigned s = 1; s < 40; ++s) {
        pagmo::population pop{udp, 6u, s};
        auto out = moes4cgp(6u, 2u, 0., true, s).evolve(pop);
        REQUIRE(consistent(out, udp));
    }
}
''')
LIN = HA + r'''
// y = 2 x - 1.3 as  c2 * x + c3 : linear in the constants, so one Newton step from anywhere is exact
int main()
{
    std::vector<V> p, l;
    for (int i = 0; i < 8; ++i) {
        p.push_back({.1 + .3 * i});
        l.push_back({2. * p.back()[0] - 1.3});
    }
    symbolic_regression udp(p, l, 1u, 2u, 3u, 2u, kernel_set<double>({"sum", "mul"})(), 3u, false, 0u, "MSE", 7u);
    unsigned hits = 0;
    for (unsigned s = 1; s < 40; ++s) {
        pagmo::population pop{pagmo::problem(udp), 0u, s};
        // inputs x, c1, c2, c3 are 0..3; node 4 = mul(x, CONST); node 5 = sum(node 4, c3)
        for (unsigned k = 0; k < 12; ++k) pop.push_back({.5 + k, -.7, .3, 1, 0, 2, 0, 4, 3, 5});
        auto out = ALG(1u, 1u, 0., s).evolve(pop);
        REQUIRE(consistent(out, udp));
        hits += lowest(out) < 1e-12;
    }
    REQUIRE(hits > 30);
}
'''
seed('mes-newton-inactive-first', 'C25', ME, 'C(_(j), 0) = mutated_x[i][non_zero[j]];', 'C(_(j), 0) = mutated_x[i][j];',
     'three constants, the first of which does not appear in the expression while the other two do',
     'The Newton step starts from the values of the wrong constants.', LIN.replace('ALG', 'mes4cgp'))
seed('mes-keeps-the-old-genes', 'C25', ME, 'std::copy(mutated_x[i].data() + n_eph, mutated_x[i].data() + mutated_x[i].size(), best_xu.begin());',
     'if (gen % 2u == 1u) std::copy(mutated_x[i].data() + n_eph, mutated_x[i].data() + mutated_x[i].size(), best_xu.begin());',
     'an improvement found in an even generation, followed by another generation',
     'After an improvement the next generation mutates genes of an older best individual than the one its constants come from.',
     HA + r'''
// the mutants of a generation differ from the best so far in at most max_mut genes
int main()
{
    auto udp = data(1u, false, 12u);
    unsigned n_eph = 1u;
    for (unsigned s = 1; s < 60; ++s) {
        pagmo::population pop{udp, 4u, s};
        // one mutant per generation that improves is kept: follow the best through runs of growing length
        std::vector<V> best;
        for (unsigned g = 0; g <= 7; ++g) {
            auto out = mes4cgp(g, 1u, 0., s).evolve(pop);
            best.push_back(out.champion_x());
        }
        for (unsigned g = 1; g <= 7; ++g) {
            unsigned d = 0;
            for (auto i = n_eph; i < best[g].size(); ++i) d += best[g][i] != best[g - 1][i];
            REQUIRE(d <= 1u);
        }
    }
}
''')
seed('momes-fitness-of-another', 'C26', MM, 'popnew.get_f()[best_idx[i]]);', 'popnew.get_f()[best_idx[i] < NP ? i : best_idx[i]]);',
     'a generation in which an individual survives at a position other than its own',
     'Survivors are put back with the fitness of the individual that held the position before.',
     HA + r'''
int main()
{
    auto udp = data(2u, true);
    for (unsigned s = 1; s < 20; ++s) {
        pagmo::population pop{udp, 8u, s};
        auto out = momes4cgp(3u, 3u, 0., s).evolve(pop);
        REQUIRE(consistent(out, udp));
    }
}
''')
seed('momes-one-mutation-count', 'C26', MM, 'cgp.mutate_random(n_active_mutations[i]);', 'cgp.mutate_random(n_active_mutations[n_eph > 0u ? 0u : i]);',
     'a problem with constants',
     'All individuals of a generation get the number of mutations drawn for the first one.',
     HA + r'''
// in one generation some individuals are mutated and some are not (the number of mutations is drawn for each)
int main()
{
    auto udp = data(1u, true, 15u);
    unsigned mixed = 0;
    for (unsigned s = 1; s < 30; ++s) {
        pagmo::population pop{udp, 10u, s};
        auto out = momes4cgp(1u, 1u, 0., s).evolve(pop);
        unsigned same = 0, other = 0;
        for (auto &x : out.get_x()) {
            bool genes = false, all = false;
            for (auto &y : pop.get_x()) {
                genes = genes || std::equal(x.begin() + 1, x.end(), y.begin() + 1);
                all = all || x == y;
            }
            if (genes && !all) ++same;       // only the constant moved
            if (!genes) ++other;             // genes moved
        }
        mixed += same && other;
    }
    REQUIRE(mixed > 3);
}
''')
seed('gd-compares-with-the-start', 'C27', GD, '                fit0 = fit1;\n', '                if (iter < 3u) fit0 = fit1;\n',
     'an accepted step in the third or a later iteration',
     'The best fitness is no longer updated, so later steps that are worse are accepted and the reported fitness is not that of the vector.',
     HA + r'''
int main()
{
    auto udp = data(3u, false);
    for (unsigned s = 1; s < 30; ++s) {
        pagmo::population pop{udp, 4u, s};
        double last = lowest(pop);
        for (unsigned n = 1; n < 12; ++n) {
            auto out = gd4cgp(n, .5, 1e-6).evolve(pop);
            REQUIRE(consistent(out, udp));
            REQUIRE(lowest(out) <= last);
            last = lowest(out);
        }
    }
}
''')
seed('gd-step-from-a-failed-one', 'C27', GD, '                x1 = x0;\n', '                if (lr > m_lr / 16.) x1 = x0;\n',
     'two failed steps in a row followed by another one',
     'After repeated failures the line search continues from the rejected point instead of from the best one.',
     HA + r'''
// until a step is accepted, all trial points lie on the ray from the start against the gradient
int main()
{
    auto udp = data(2u, false);
    pagmo::problem prob(udp);
    unsigned seen = 0;
    for (unsigned s = 1; s < 60; ++s) {
        pagmo::population pop{udp, 1u, s};
        auto x0 = pop.get_x()[0];
        double f0 = pop.get_f()[0][0];
        auto g = prob.gradient(x0);
        double n = std::sqrt(g[0] * g[0] + g[1] * g[1]), lr = 64., f = f0;
        if (!(n > 1e-13) || !std::isfinite(n)) continue;
        unsigned k = 0;
        V x;
        while (k < 12) {
            ++k;
            x = x0;
            x[0] -= g[0] / n * lr;
            x[1] -= g[1] / n * lr;
            f = prob.fitness(x)[0];
            if (f < f0) break;
            lr /= 4.;
        }
        if (!(f < f0)) continue;
        ++seen;
        auto out = gd4cgp(k, 64., 1e-12).evolve(pop);
        REQUIRE(close(out.get_x()[0][0], x[0]) && close(out.get_x()[0][1], x[1]));
    }
    REQUIRE(seen > 10);
}
''')
seed('es-accepts-a-single-individual', 'C28', ES, 'if (NP < 2u) {', 'if (NP < 2u && n_obj != prob.get_nobj() + m_gen) {\n            return pop;\n        }\n        if (NP == 0u) {',
     'a population of one individual',
     'A population too small for the strategy is returned unchanged instead of being rejected.',
     HA + r'''
template <typename A>
static bool rejects(const A &a, const pagmo::population &pop)
{
    try {
        a.evolve(pop);
    } catch (const std::invalid_argument &) {
        return true;
    }
    return false;
}
int main()
{
    auto so = data(1u, false), mo = data(1u, true);
    for (unsigned n = 0; n < 4; ++n) {
        REQUIRE(rejects(es4cgp(1u), pagmo::population{so, n, 3u}) == (n < 2));
        REQUIRE(rejects(mes4cgp(1u), pagmo::population{so, n, 3u}) == (n < 2));
        REQUIRE(rejects(moes4cgp(1u), pagmo::population{mo, n, 3u}) == (n < 2));
        REQUIRE(rejects(momes4cgp(1u), pagmo::population{mo, n, 3u}) == (n < 2));
    }
}
''')
seed('gd-one-rate-for-both', 'C28', GD, 'if (lr_min >= lr) {', 'if (lr_min >= lr && lr_min - lr != 0.) {',
     'a minimum learning rate equal to the initial one',
     'A minimum learning rate equal to the initial learning rate is accepted.',
     HA + r'''
static bool built(double lr, double lr_min)
{
    try {
        gd4cgp a(1u, lr, lr_min);
    } catch (const std::invalid_argument &) {
        return false;
    }
    return true;
}
int main()
{
    REQUIRE(built(.5, .25));
    REQUIRE(!built(.5, .5));
    REQUIRE(!built(.5, .75));
    REQUIRE(!built(.5, 0.));
}
''')
seed('es-log-resets-the-noise', 'C29', ES, 'auto formula = udp_ptr->prettier(best_x);\n                    log_single_line(gen - 1',
     'auto formula = udp_ptr->prettier(best_x);\n                    normal.reset();\n                    log_single_line(gen - 1',
     'an odd number of constants perturbed and a verbosity above zero',
     'Asking for a log changes the random numbers of the run.',
     HA + r'''
int main()
{
    auto udp = data(1u, false);
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    bool ok = true;
    for (unsigned s = 1; s < 20; ++s) {
        pagmo::population pop{udp, 5u, s};
        es4cgp a(4u, 2u, 0., true, s), b(4u, 2u, 0., true, s);
        b.set_verbosity(1u);
        auto x = a.evolve(pop), y = b.evolve(pop);
        ok = ok && x.get_x() == y.get_x() && x.get_f() == y.get_f();
    }
    std::cout.rdbuf(old);
    REQUIRE(ok);
}
''')
seed('momes-last-line-always', 'C29', MM, 'if (m_verbosity > 0u) {\n            log_single_line(m_gen', 'if (m_verbosity > 0u || m_gen > 9u) {\n            log_single_line(m_gen',
     'ten or more generations and a verbosity of zero',
     'A silent run of ten or more generations prints and logs its last line.',
     HA + r'''
int main()
{
    auto udp = data(1u, true);
    std::ostringstream sink;
    auto *old = std::cout.rdbuf(sink.rdbuf());
    bool logged = false;
    for (auto g : {1u, 9u, 12u}) {
        pagmo::population pop{udp, 4u, 5u};
        momes4cgp a(g, 2u, 0., 3u);
        a.evolve(pop);
        logged = logged || !a.get_log().empty();
    }
    std::cout.rdbuf(old);
    REQUIRE(!logged);
    REQUIRE(sink.str().empty());
}
''')
AGAIN = HA + r'''
template <typename A>
static bool again(A a, A b, const pagmo::population &pop, unsigned s)
{
    a.evolve(pop);                    // a has a history, b does not
    a.set_seed(s);
    b.set_seed(s);
    auto x = a.evolve(pop), y = b.evolve(pop);
    return x.get_x() == y.get_x() && x.get_f() == y.get_f();
}
int main()
{
    auto so = data(1u, false), mo = data(1u, true);
    for (unsigned s = 1; s < 12; ++s) {
        pagmo::population p{so, 5u, s}, q{mo, 5u, s};
        REQUIRE(again(es4cgp(3u, 2u, 0., true, s), es4cgp(3u, 2u, 0., true, s), p, s));
        REQUIRE(again(mes4cgp(3u, 2u, 0., s), mes4cgp(3u, 2u, 0., s), p, s));
        REQUIRE(again(moes4cgp(3u, 2u, 0., true, s), moes4cgp(3u, 2u, 0., true, s), q, s));
        REQUIRE(again(momes4cgp(3u, 2u, 0., s), momes4cgp(3u, 2u, 0., s), q, s));
    }
}
'''
seed('mes-seeding-again-skipped', 'C30', ME, 'm_e.seed(seed);\n        m_seed = seed;', 'if (m_seed != seed) {\n            m_e.seed(seed);\n        }\n        m_seed = seed;',
     'setting, after a run, the seed the algorithm already has',
     'Seeding again with the same seed does not restart the random sequence.', AGAIN)
seed('moes-noise-outlives-the-run', 'C30', MO, 'std::normal_distribution<> normal{0., 1.};', 'static thread_local std::normal_distribution<> normal{0., 1.};',
     'an odd number of normal variates drawn in an earlier run',
     'The variate left over from one run is used as the first one of the next, whatever its seed.', AGAIN)
GYM = 'include/dcgp/gym.hpp'
FUN = 'include/dcgp/function.hpp'
HG = r'''
#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <iostream>
#include <vector>
#include <dcgp/function.hpp>
#include <dcgp/gym.hpp>
#define REQUIRE(c) do { if (!(c)) { std::cerr << "failed: " #c "\n"; std::exit(1); } } while (0)
using T = std::vector<std::vector<double>>;
'''
seed('gym-table-given-away', 'C31', GYM, 'points = misra1b_points;', 'points = std::move(misra1b_points);',
     'asking for the same reference data set a second time', 'The bundled table is moved out by the first call.', HG + r'''
int main()
{
    T p, l;
    for (int i = 0; i < 3; ++i) {
        dcgp::gym::generate_misra1b(p, l);
        REQUIRE(p.size() == 14u && l.size() == 14u);
    }
}
''')
seed('gym-generator-keeps-its-state', 'C31', GYM, '    std::mt19937 mt(32);\n    std::uniform_real_distribution<double> dist(0.05, 6.05);\n    for (unsigned i = 0; i < 50u; ++i) {',
     '    static std::mt19937 mt(32);\n    std::uniform_real_distribution<double> dist(0.05, 6.05);\n    for (unsigned i = 0; i < 50u; ++i) {',
     'generating the same data set twice in one process', 'The second call gives other points than the first.', HG + r'''
int main()
{
    T p, l, q, m;
    dcgp::gym::generate_ratpol2d(p, l);
    dcgp::gym::generate_ratpol2d(q, m);
    REQUIRE(p == q && l == m);
}
''')
seed('gym-labels-appended', 'C31', GYM, '    points.clear();\n    labels.clear();\n    for (unsigned i = 0u; i < N; ++i) {', '    points.clear();\n    for (unsigned i = 0u; i < N; ++i) {',
     'passing a vector of labels that is not empty', 'Labels of an earlier data set stay in front of the new ones.', HG + r'''
int main()
{
    T p, l;
    dcgp::gym::generate_P1(p, l);
    dcgp::gym::generate_salutowicz(p, l);
    REQUIRE(p.size() == l.size());
    for (std::size_t i = 0; i < p.size(); ++i) {
        double x = p[i][0], s = std::sin(x), c = std::cos(x);
        REQUIRE(std::abs(l[i][0] - std::exp(-x) * x * x * x * c * s * (c * s * s - 1.)) < 1e-9);
    }
}
''')
seed('gym-gauss1-digits-swapped', 'C31', 'include/dcgp/nist_data.hpp', '{97.62227', '{97.62272',
     'the first entry of one table', 'Two digits of one label of gauss1 are exchanged.', HG + r'''
int main()
{
    T p, l;
    dcgp::gym::generate_gauss1(p, l);
    const double b[] = {9.8778210871E+01, 1.0497276517E-02, 1.0048990633E+02, 6.7481111276E+01,
                        2.3129773360E+01, 7.1994503004E+01, 1.7899805021E+02, 1.8389389025E+01};
    double r = 0.;
    for (std::size_t i = 0; i < p.size(); ++i) {
        double x = p[i][0];
        double y = b[0] * std::exp(-b[1] * x) + b[2] * std::exp(-(x - b[3]) * (x - b[3]) / (b[4] * b[4]))
                   + b[5] * std::exp(-(x - b[6]) * (x - b[6]) / (b[7] * b[7]));
        r += (y - l[i][0]) * (y - l[i][0]);
    }
    REQUIRE(std::abs(r - 1.3158222432E+03) < 1e-5);
}
''')
FN = HG + r'''
struct udf {
    double operator()(double x) const
    {
        return a * x;
    }
    pagmo::thread_safety get_thread_safety() const
    {
        return a > 2. ? pagmo::thread_safety::none : pagmo::thread_safety::constant;
    }
    double a = 1.;
};
using F = dcgp::function<double(double)>;
'''
seed('function-assignment-forgets-safety', 'C32', FUN, '        // Copy ctor + move assignment.\n        return *this = function(other);',
     '        // Nothing to release: only the callable is exchanged.\n        m_ptr = other.ptr()->clone();\n        return *this;',
     'assigning to a wrapper whose callable declares another thread safety',
     'A copy-assigned wrapper reports the thread safety of the callable it held before.', FN + r'''
int main()
{
    F f(udf{3.}), g(udf{1.});
    g = f;
    REQUIRE(g(2.) == 6.);
    REQUIRE(f.get_thread_safety() == pagmo::thread_safety::none);
    REQUIRE(g.get_thread_safety() == pagmo::thread_safety::none);
}
''')
seed('function-move-swaps', 'C32', FUN, '            m_ptr = std::move(other.m_ptr);', '            std::swap(m_ptr, other.m_ptr);',
     'looking at a wrapper after it was moved from by assignment', 'The moved-from wrapper stays callable, with the callable of the other.',
     FN + r'''
int main()
{
    F f(udf{3.}), g(udf{1.});
    g = std::move(f);
    REQUIRE(g(2.) == 6.);
    REQUIRE(g.is_valid());
    REQUIRE(!f.is_valid());
}
''')
seed('function-declared-safety-capped', 'C32', FUN, 'return value.get_thread_safety();', 'return value.get_thread_safety() == pagmo::thread_safety::none ? pagmo::thread_safety::none : pagmo::thread_safety::basic;',
     'a callable that declares constant thread safety', 'The declared thread safety is capped at basic.', FN + r'''
int main()
{
    F f(udf{1.}), g(udf{3.});
    REQUIRE(g.get_thread_safety() == pagmo::thread_safety::none);
    REQUIRE(f.get_thread_safety() == pagmo::thread_safety::constant);
}
''')
HL = HA + r'''
#include <sstream>
// what runs print is not of interest
struct quiet {
    std::ostringstream sink;
    std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
    ~quiet()
    {
        std::cout.rdbuf(old);
    }
};
'''
seed('es-log-counts-earlier-evaluations', 'C33', ES, 'log_single_line(m_gen, prob.get_fevals() - fevals0, best_f', 'log_single_line(m_gen, prob.get_fevals(), best_f',
     'a problem evaluated before the run, and the last line of the log',
     'The last line of the log counts the evaluations made before the run as well.', HL + r'''
int main()
{
    quiet q;
    auto udp = data(1u, false);
    pagmo::population pop{udp, 5u, 3u};
    es4cgp a(7u, 2u, 0., true, 3u);
    a.set_verbosity(3u);
    a.evolve(pop);
    std::vector<unsigned long long> gen, fe;
    for (const auto &l : a.get_log()) {
        gen.push_back(std::get<0>(l));
        fe.push_back(std::get<1>(l));
    }
    REQUIRE((gen == std::vector<unsigned long long>{0u, 3u, 6u, 7u}));
    REQUIRE((fe == std::vector<unsigned long long>{0u, 15u, 30u, 35u}));
}
''')
seed('gd-log-gradients-miscounted', 'C33', GD, 'm_log.emplace_back(iter, prob.get_fevals() - fevals0, prob.get_gevals() - gevals0', 'm_log.emplace_back(iter, prob.get_fevals() - fevals0, prob.get_fevals() - fevals0',
     'a run that ends on a vanishing gradient', 'The log shows the fitness evaluations in place of the gradient evaluations.', HL + r'''
int main()
{
    quiet q;
    auto udp = data(1u, false);
    bool seen = false;
    for (unsigned s = 0; s < 60; ++s) {
        pagmo::population pop{udp, 1u, s};
        gd4cgp a(3u, .1, 1e-4);
        a.set_verbosity(1u);
        if (!std::isfinite(pop.get_f()[0][0])) {
            continue;
        }
        a.evolve(pop);
        const auto &l = a.get_log().back();
        if (std::get<3>(l) < 1e-13) {
            seen = true;
            REQUIRE(std::get<2>(l) == std::get<1>(l) + 1u);
        } else {
            REQUIRE(std::get<2>(l) == std::get<1>(l));
        }
    }
    REQUIRE(seen);
}
''')
seed('es-log-grows', 'C33', ES, '        m_log.clear();\n', '        if (m_log.size() > 10000u) {\n            m_log.clear();\n        }\n',
     'a second run of the same algorithm', 'The log of a run is appended to that of the run before.', HL + r'''
int main()
{
    quiet q;
    auto udp = data(1u, false);
    pagmo::population pop{udp, 5u, 3u};
    es4cgp a(4u, 2u, 0., true, 3u);
    a.set_verbosity(2u);
    pop = a.evolve(pop);
    const auto n = a.get_log().size();
    a.evolve(pop);
    REQUIRE(a.get_log().size() == n);
    REQUIRE(std::get<0>(a.get_log()[0]) == 0u);
}
''')
seed('momes-log-numbers-lines', 'C33', MM, 'log_single_line(gen - 1, prob', 'log_single_line(count - 1, prob',
     'a verbosity above one', 'The log shows the number of the line in place of the generation.', HL + r'''
int main()
{
    quiet q;
    auto udp = data(1u, true);
    pagmo::population pop{udp, 6u, 3u};
    momes4cgp a(5u, 2u, 0., 3u);
    a.set_verbosity(2u);
    a.evolve(pop);
    std::vector<unsigned> gen;
    for (const auto &l : a.get_log()) {
        gen.push_back(std::get<0>(l));
    }
    REQUIRE((gen == std::vector<unsigned>{0u, 2u, 4u, 5u}));
}
''')
seed('mes-log-formula-of-the-start', 'C33', ME, '                    auto formula = udp_ptr->prettier(best_x);\n                    log_single_line(gen - 1', '                    auto formula = udp_ptr->prettier(pop.get_x()[best_idx]);\n                    log_single_line(gen - 1',
     'a run that improves before its last generation', 'The lines during a run show the formula of the best individual at the start.', HL + r'''
int main()
{
    quiet q;
    auto udp = data(2u, false);
    for (unsigned s = 0; s < 20; ++s) {
        pagmo::population pop{udp, 6u, s};
        mes4cgp a(6u, 3u, 0., s), b(3u, 3u, 0., s);
        a.set_verbosity(3u);
        b.set_verbosity(3u);
        a.evolve(pop);
        b.evolve(pop);
        // the state after three generations
        REQUIRE(std::get<2>(a.get_log()[1]) == std::get<2>(b.get_log().back()));
        REQUIRE(std::get<4>(a.get_log()[1]) == std::get<4>(b.get_log().back()));
    }
}
''')
seed('info-wrong-label-dimension', 'C34', 'include/dcgp/problems/symbolic_regression.hpp', '"\\tData dimension (labels): ", m_labels[0].size()', '"\\tData dimension (labels): ", m_points[0].size()',
     'points and labels of different dimension', 'The extra information shows the dimension of the points as that of the labels.', HA + r'''
int main()
{
    kernel_set<double> ks({"sum", "mul"});
    symbolic_regression a({{1., 2.}, {3., 4.}, {5., 6.}}, {{1.}, {2.}, {3.}}, 1, 5, 5, 2, ks(), 0u, false, 0u, "MSE", 3u);
    REQUIRE(a.get_extra_info().find("Data dimension (points): 2\n") != std::string::npos);
    REQUIRE(a.get_extra_info().find("Data dimension (labels): 1\n") != std::string::npos);
    REQUIRE(a.get_extra_info().find("Data size: 3\n") != std::string::npos);
}
''')
seed('list-shows-repeats-once', 'C34', 'include/dcgp/std_overloads.hpp', '        os << " " << *ii;\n', '        if (ii == v.begin() || *ii != *(ii - 1)) {\n            os << " " << *ii;\n        }\n',
     'a list with equal neighbours', 'A list is shown without the elements equal to the one before.', HA + r'''
#include <sstream>
#include <dcgp/std_overloads.hpp>
int main()
{
    std::ostringstream ss;
    ss << std::vector<unsigned>{1u, 2u, 2u, 3u};
    REQUIRE(ss.str() == "[ 1 2 2 3 ]");
}
''')
