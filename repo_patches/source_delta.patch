From ae7802cf322833bb5968694c4f8356de85afeced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 01/24] fix: keep the thread safety of a kernel through
 serialization

---
 include/dcgp/kernel.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index cdc2164..e7a9003 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -157,6 +157,7 @@ public:
         ar &m_f;
         ar &m_pf;
         ar &m_name;
+        ar &m_thread_safety;
     }
 
 private:
-- 
2.43.0


From 0918b4a1f551d52ad91e6458d5d3181133e07917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:29 +0000
Subject: [PATCH 02/24] fix: a default constructed kernel has a defined thread
 safety

---
 include/dcgp/kernel.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/kernel.hpp b/include/dcgp/kernel.hpp
index e7a9003..377f173 100644
--- a/include/dcgp/kernel.hpp
+++ b/include/dcgp/kernel.hpp
@@ -168,7 +168,7 @@ private:
     /// Its name
     std::string m_name;
     // Thread safety.
-    pagmo::thread_safety m_thread_safety;
+    pagmo::thread_safety m_thread_safety = pagmo::thread_safety::basic;
 };
 
 } // end of namespace dcgp
-- 
2.43.0


From afef9b569b2e7f9e91bab6551f4220186525b6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 03/24] fix: keep the stopping tolerance of moes4cgp through
 serialization

---
 include/dcgp/algorithms/moes4cgp.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 897c64e..3a31e52 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -366,6 +366,7 @@ public:
     {
         ar &m_gen;
         ar &m_max_mut;
+        ar &m_ftol;
         ar &m_learn_constants;
         ar &m_e;
         ar &m_seed;
-- 
2.43.0


From a511571a6b1d1094804463689cfacf2ef3108d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:40 +0000
Subject: [PATCH 04/24] fix: a default constructed symbolic_regression has a
 defined loss

---
 include/dcgp/problems/symbolic_regression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index b9991fb..3e5d344 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -51,7 +51,8 @@ public:
      */
     symbolic_regression()
         : m_points(1), m_labels(1), m_r(1), m_c(1), m_l(1), m_arity(2), m_f(kernel_set<double>({"sum"})()), m_n_eph(0),
-          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE")
+          m_multi_objective(true), m_parallel_batches(0u), m_loss_s("MSE"),
+          m_loss_e(dcgp::expression<audi::gdual_v>::loss_type::MSE)
     {
     }
 
-- 
2.43.0


From 8702c7cdb5903cadbd65245461d96c2fc150e1e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 05/24] fix: reject chromosomes with NaN components

---
 include/dcgp/expression.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index f684e92..8896c1a 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -1107,7 +1107,8 @@ private:
         auto lb_iter = m_lb.begin();
         auto ub_iter = m_ub.begin();
         while (begin != end) {
-            if ((*begin > *ub_iter) || (*begin < *lb_iter)) {
+            // NOTE: written so that a NaN component is rejected too
+            if (!((*begin <= *ub_iter) && (*begin >= *lb_iter))) {
                 throw std::invalid_argument("Inconsistent chromosome: out of bounds. A component of the chromosome is "
                                             + std::to_string(*begin) + " while the bounds are: ["
                                             + std::to_string(*lb_iter) + " " + ", " + std::to_string(*ub_iter) + "]");
-- 
2.43.0


From 350ca77311b55356f278d268e4ae8d52a0bc7a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 06/24] fix: a rejected expression::mutate leaves the
 chromosome unchanged

---
 include/dcgp/expression.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index 8896c1a..cfc3bf5 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -678,10 +678,13 @@ public:
     void mutate(std::vector<unsigned> idxs)
     {
         bool flag = false;
+        // All indexes are checked before any gene is changed
         for (auto i = 0u; i < idxs.size(); ++i) {
             if (idxs[i] >= m_x.size()) {
                 throw std::invalid_argument("idx of gene to be mutated is out of bounds");
             }
+        }
+        for (auto i = 0u; i < idxs.size(); ++i) {
             // If only one value is allowed for the gene, (lb==ub),
             // then we will not do anything as mutation does not apply
             if (m_lb[idxs[i]] < m_ub[idxs[i]]) {
-- 
2.43.0


From 1d0d12b9ecd8834dafd58813850bbcf8e6b6ca9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 07/24] fix: expression_ann::set_output_f rejects unknown
 nonlinearities

---
 include/dcgp/expression_ann.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 28cf15b..3a6b23b 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -530,7 +530,7 @@ public:
      */
     void set_output_f(const std::string &name)
     {
-        typename std::vector<kernel_type>::iterator it;
+        auto it = m_kernel_map.end();
         if (name == "sig") {
             it = std::find(m_kernel_map.begin(), m_kernel_map.end(), kernel_type::SIG);
         } else if (name == "tanh") {
-- 
2.43.0


From 3cb7168d90f7e2a77311d8bd86d34ca5a92569ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:22 +0000
Subject: [PATCH 08/24] fix: a rejected set_output_f leaves the chromosome
 unchanged

---
 include/dcgp/expression_ann.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 3a6b23b..c1fa0ff 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -561,6 +561,13 @@ public:
             throw std::invalid_argument("The nonlinearity " + name + " is not a Kernel for this dCGP expression");
         } else {
             unsigned f_id = static_cast<unsigned>(it - m_kernel_map.begin());
+            // All output genes are checked before any function gene is changed
+            for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
+                if (this->get()[this->get().size() - 1 - i] < this->get_n()) {
+                    throw std::invalid_argument("The output " + std::to_string(this->get_m() - 1 - i)
+                                                + " is connected to an input node and has no nonlinearity");
+                }
+            }
             for (decltype(this->get_m()) i = 0u; i < this->get_m(); ++i) {
                 this->set_f_gene(this->get()[this->get().size() - 1 - i], f_id);
             }
-- 
2.43.0


From 2ff3be169a27880beae869ffb4aa437fc9f24664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:11 +0000
Subject: [PATCH 09/24] fix: a rejected sgd leaves the network and the data
 unchanged

---
 include/dcgp/expression_ann.hpp | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index c1fa0ff..71ff134 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -457,8 +457,9 @@ public:
      * @return The average error across the batches. Note: this will not be equal to the error on the whole data set
      * as weights get updated after each batch. It is an indicator, though, and its free to compute.
      *
-     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, or if *lr* is not
-     * positive.
+     * @throws std::invalid_argument if the *data* and *label* size do not match or is zero, if *lr* is not
+     * positive, if *loss_s* is not valid, if *batch_size* is zero, if a batch cannot be divided into *parallel* parts
+     * or if the dimensions of some data point are wrong.
      */
     double sgd(std::vector<std::vector<double>> &points, std::vector<std::vector<double>> &labels, double lr,
                unsigned batch_size, const std::string &loss_s, unsigned parallel = 0u, bool shuffle = true)
@@ -486,6 +487,24 @@ public:
             throw std::invalid_argument("The requested loss was: " + loss_s + " while only MSE and CE are allowed");
         }
 
+        // Everything that can be rejected is rejected here, before the weights, the biases or the data are touched
+        if (batch_size == 0u) {
+            throw std::invalid_argument("The batch size cannot be zero");
+        }
+        if (parallel > 0u
+            && ((points.size() >= batch_size && batch_size % parallel != 0u)
+                || (points.size() % batch_size) % parallel != 0u)) {
+            throw std::invalid_argument("The data (" + std::to_string(points.size()) + ") and the batch size ("
+                                        + std::to_string(batch_size) + ") result in batches that cannot be divided into "
+                                        + std::to_string(parallel) + " parts.");
+        }
+        for (decltype(points.size()) i = 0u; i < points.size(); ++i) {
+            if (points[i].size() != this->get_n() || labels[i].size() != this->get_m()) {
+                throw std::invalid_argument("The dimensions of the data point number " + std::to_string(i)
+                                            + " are not compatible with the number of inputs and outputs");
+            }
+        }
+
         if (shuffle) {
             // Creating a shuffle
             // Create two random engines with the same state
-- 
2.43.0


From d235f5521983ec63112817bfc8fd79708b72dca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:41 +0000
Subject: [PATCH 10/24] fix: the printed gaussian kernel squares its whole
 argument

---
 include/dcgp/wrapped_functions.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 0817174..1ca3206 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -775,7 +775,7 @@ struct print_my_gaussian_func {
     /// Call operator
     std::string operator()(const std::vector<std::string> &in) const
     {
-        return "exp(-" + in[0] + "**2)";
+        return "exp(-(" + in[0] + ")**2)";
     }
     DCGP_S11N_EMPTY_SERIALIZE_MEMFN()
 };
-- 
2.43.0


From 8258bda26bfb41a387f96cd7cca0f94d105d9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 11/24] fix: symbolic_regression rejects missing labels before
 reading the first one

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 3e5d344..733e756 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -571,14 +571,14 @@ private:
         if (m_points.size() == 0) {
             throw std::invalid_argument("The size of the input data (points) is zero.");
         }
-        n = static_cast<unsigned>(m_points[0].size());
-        m = static_cast<unsigned>(m_labels[0].size());
         // 2 - We check labels and points have the same (non-empty) size
         if (m_points.size() != m_labels.size()) {
             throw std::invalid_argument("The number of input data (points) is " + std::to_string(m_points.size())
                                         + " while the number of labels is " + std::to_string(m_labels.size())
                                         + ". They should be equal.");
         }
+        n = static_cast<unsigned>(m_points[0].size());
+        m = static_cast<unsigned>(m_labels[0].size());
         // 3 - We check that all p in points have the same size
         if (!std::all_of(m_points.begin(), m_points.end(),
                          [n](const std::vector<double> &p) { return p.size() == n; })) {
-- 
2.43.0


From 69d8c53efa5a8d738ac6fadbc102b1af0fb0d1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 12/24] fix: the fitness does not depend on derivatives
 computed without protection

---
 include/dcgp/problems/symbolic_regression.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 733e756..821d8ce 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -199,9 +199,7 @@ public:
         // TODO: make this work also when m_parallel_batches does not divide exactly the data size.
         auto loss = m_dcgp.loss(m_dpoints, m_dlabels, m_loss_e);
         // Now we extract fitness and gradient and store the values in the caches or in the return value
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
 
         loss.extend_symbol_set(m_deph_symb);
         if (!(loss.get_order() == 0u)) { // this happens when input terminals of the eph constants are inactive
@@ -276,9 +274,7 @@ public:
         loss.extend_symbol_set(m_deph_symb);
 
         // Now we extract fitness, gradient and hessians from the gdual and store the values (retval or cache)
-        m_cache_fitness.first = x;
-        m_cache_fitness.second.resize(get_nobj());
-        m_cache_fitness.second[0] = collapse(loss.constant_cf());
+        cache_fitness(x, collapse(loss.constant_cf()));
         // We compute the gradient and the hessian only if
         // the loss depends on at least one ephemeral constant.
         // Otherwise the initialization values will be returned, that is zeros.
@@ -538,6 +534,17 @@ public:
     }
 
 private:
+    // Stores the loss computed along with the derivatives so that the fitness needs not to recompute it. The derivatives
+    // use "div" in place of "pdiv", so that with protected divisions their loss can be different from the fitness.
+    void cache_fitness(const pagmo::vector_double &x, double loss) const
+    {
+        if (std::none_of(m_f.begin(), m_f.end(), [](const kernel<double> &k) { return k.get_name() == "pdiv"; })) {
+            m_cache_fitness.first = x;
+            m_cache_fitness.second.resize(get_nobj());
+            m_cache_fitness.second[0] = loss;
+        }
+    }
+
     // Collapses a vectorized cf into one (taking the mean)
     static inline double collapse(const audi::vectorized<double> &vec)
     {
-- 
2.43.0


From 47620b70623b5c4b57d51056a5386f961eb39afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:26 +0000
Subject: [PATCH 13/24] fix: changing the phenotype correction forgets the
 cached fitness

---
 include/dcgp/problems/symbolic_regression.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index 821d8ce..bce9fa2 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -524,6 +524,8 @@ public:
     {
         m_cgp.set_phenotype_correction(pc);
         m_dcgp.set_phenotype_correction(dpc);
+        // What was computed without the correction is no longer the fitness.
+        m_cache_fitness.first.clear();
     }
 
     /// Unsets the phenotype correction
@@ -531,6 +533,8 @@ public:
     {
         m_cgp.unset_phenotype_correction();
         m_dcgp.unset_phenotype_correction();
+        // What was computed with the correction is no longer the fitness.
+        m_cache_fitness.first.clear();
     }
 
 private:
-- 
2.43.0


From d590e8e692b2be43a56d0f82f24fc23cad8ac4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 14/24] fix: es4cgp and moes4cgp zeroed the constants of the
 mutants when not learning them

---
 include/dcgp/algorithms/es4cgp.hpp   | 3 +++
 include/dcgp/algorithms/moes4cgp.hpp | 5 +++++
 2 files changed, 8 insertions(+)

diff --git a/include/dcgp/algorithms/es4cgp.hpp b/include/dcgp/algorithms/es4cgp.hpp
index 0c83b66..7bbd0f6 100644
--- a/include/dcgp/algorithms/es4cgp.hpp
+++ b/include/dcgp/algorithms/es4cgp.hpp
@@ -185,6 +185,9 @@ public:
                         mutated_eph_val[j] = best_x[j] + 10. * normal(m_e);
                     }
                     std::copy(mutated_eph_val.begin(), mutated_eph_val.end(), dvs.data() + i * dim);
+                } else {
+                    // Otherwise the mutant inherits the constants of its parent.
+                    std::copy(best_x.data(), best_x.data() + n_eph, dvs.data() + i * dim);
                 }
             }
 
diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index 3a31e52..b005e97 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -186,6 +186,11 @@ public:
                     for (auto j = 0u; j < n_eph; ++j) {
                         dvs[i * dim + j] = pop.get_x()[i][j] + 10. * normal(m_e);
                     }
+                } else {
+                    // Otherwise the mutant inherits the constants of its parent.
+                    for (auto j = 0u; j < n_eph; ++j) {
+                        dvs[i * dim + j] = pop.get_x()[i][j];
+                    }
                 }
             }
 
-- 
2.43.0


From e659ff8d505021d365bb1baaf9db715c7a88a027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 15/24] fix: moes4cgp and momes4cgp checked ftol only in the
 generations they logged

---
 include/dcgp/algorithms/moes4cgp.hpp  | 14 +++++++-------
 include/dcgp/algorithms/momes4cgp.hpp | 14 +++++++-------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/include/dcgp/algorithms/moes4cgp.hpp b/include/dcgp/algorithms/moes4cgp.hpp
index b005e97..4592b41 100644
--- a/include/dcgp/algorithms/moes4cgp.hpp
+++ b/include/dcgp/algorithms/moes4cgp.hpp
@@ -164,15 +164,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
             // 1 - We generate new NP individuals mutating the best and we write on the dvs for pagmo::bfe to evaluate
             // their fitnesses.
             for (decltype(NP) i = 0u; i < NP; ++i) {
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 16c2467..7b5692f 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -152,15 +152,15 @@ public:
                     }
                     log_single_line(gen - 1, prob.get_fevals() - fevals0, pop);
                     ++count;
-                    // Check for ftol stopping condition
-                    if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
-                        if (m_verbosity > 0u) {
-                            pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
-                        }
-                        return pop;
-                    }
                 }
             }
+            // Check for ftol stopping condition
+            if (pagmo::detail::greater_than_f(m_ftol, pagmo::ideal(pop.get_f())[0])) {
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
+                return pop;
+            }
 
             // At each generation we need a copy of the population
             pagmo::population popnew(pop);
-- 
2.43.0


From ff7a52a00db9df0918ffaef82ba2b26da4d6286d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 16/24] fix: mes4cgp logged and printed at verbosity zero when
 stopping at ftol

---
 include/dcgp/algorithms/mes4cgp.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index c76a1eb..15ddaad 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -289,12 +289,16 @@ public:
             }
             // 4 - Exit if ftol is reached
             if (pagmo::detail::greater_than_f(m_ftol, best_f[0])) {
-                auto formula = udp_ptr->prettier(best_x);
-                log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                if (m_verbosity > 0u) {
+                    auto formula = udp_ptr->prettier(best_x);
+                    log_single_line(gen, prob.get_fevals() - fevals0, best_f[0], formula, best_x, n_eph);
+                }
                 if (pagmo::detail::less_than_f(best_f[0], pop.get_f()[best_idx][0])) {
                     pop.set_xf(worst_idx, best_x, best_f);
                 }
-                pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                if (m_verbosity > 0u) {
+                    pagmo::print("Exit condition -- ftol < ", m_ftol, "\n");
+                }
                 return pop;
             }
         }
-- 
2.43.0


From 3118e8f7d26201c48e7d5d5b1e09b69b7e99369c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:23 +0000
Subject: [PATCH 17/24] fix: mes4cgp and momes4cgp divided by the wrong entry
 of the hessian for a lone active constant

---
 include/dcgp/algorithms/mes4cgp.hpp   | 8 +++++---
 include/dcgp/algorithms/momes4cgp.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/dcgp/algorithms/mes4cgp.hpp b/include/dcgp/algorithms/mes4cgp.hpp
index 15ddaad..8114472 100644
--- a/include/dcgp/algorithms/mes4cgp.hpp
+++ b/include/dcgp/algorithms/mes4cgp.hpp
@@ -214,10 +214,12 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // Its second derivative sits on the diagonal of the lower triangular hessian.
+                        const auto hidx = non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0];
+                        if (hess[0][hidx] != 0. && std::isfinite(grad[non_zero[0]])
+                            && std::isfinite(hess[0][hidx])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][hidx];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
diff --git a/include/dcgp/algorithms/momes4cgp.hpp b/include/dcgp/algorithms/momes4cgp.hpp
index 7b5692f..078226e 100644
--- a/include/dcgp/algorithms/momes4cgp.hpp
+++ b/include/dcgp/algorithms/momes4cgp.hpp
@@ -220,10 +220,12 @@ public:
                     if (n_non_zero == 1u) {
                         // Only one ephemeral constant is in the expression, as above, we avoid to call the
                         // Eigen machinery. This makes the code more readable.
-                        if (hess[0][non_zero[0]] != 0. && std::isfinite(grad[non_zero[0]])
-                            && std::isfinite(hess[0][non_zero[0]])) {
+                        // Its second derivative sits on the diagonal of the lower triangular hessian.
+                        const auto hidx = non_zero[0] * (non_zero[0] + 1u) / 2u + non_zero[0];
+                        if (hess[0][hidx] != 0. && std::isfinite(grad[non_zero[0]])
+                            && std::isfinite(hess[0][hidx])) {
                             mutated_x[i][non_zero[0]]
-                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][non_zero[0]];
+                                = mutated_x[i][non_zero[0]] - grad[non_zero[0]] / hess[0][hidx];
                         }
                     } else if (n_non_zero > 1u) {
                         // The full Hessian
-- 
2.43.0


From fdb6eb7a4842a6299d81649e20ba9595d8a0ff43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 18/24] fix: sinecosine computed 6*cos(x1*sin(x2)) instead of
 6*sin(x1)*cos(x2)

---
 include/dcgp/gym.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index 835ba55..fe8697d 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -101,7 +101,7 @@ inline double ratpol3d(const std::vector<double> &x)
 
 inline double sinecosine(const std::vector<double> &x)
 {
-    return 6. * std::cos(x[0] * std::sin(x[1]));
+    return 6. * std::sin(x[0]) * std::cos(x[1]);
 }
 
 inline double ripple(const std::vector<double> &x)
-- 
2.43.0


From 0abc4220d1836e61e04c2b8584d087ed3a186299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 19/24] fix: uball5d multiplied the squared distances instead
 of adding them

---
 include/dcgp/gym.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/gym.hpp b/include/dcgp/gym.hpp
index fe8697d..c1cc1a5 100644
--- a/include/dcgp/gym.hpp
+++ b/include/dcgp/gym.hpp
@@ -90,8 +90,8 @@ inline double uball5d(const std::vector<double> &x)
 {
     return 10.
            / (5.
-              + std::pow((x[0] - 3.), 2) * std::pow((x[1] - 3.), 2) * std::pow((x[2] - 3.), 2)
-                    * std::pow((x[3] - 3.), 2) * std::pow((x[4] - 3.), 2));
+              + std::pow((x[0] - 3.), 2) + std::pow((x[1] - 3.), 2) + std::pow((x[2] - 3.), 2)
+              + std::pow((x[3] - 3.), 2) + std::pow((x[4] - 3.), 2));
 }
 
 inline double ratpol3d(const std::vector<double> &x)
-- 
2.43.0


From 65833ed618d781764658551284acf4cab41e32a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:19 +0000
Subject: [PATCH 20/24] fix: lanczos2 held the labels of the five digit data
 set (lanczos3)

---
 include/dcgp/nist_data.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/dcgp/nist_data.hpp b/include/dcgp/nist_data.hpp
index ccf7344..02f5a4e 100644
--- a/include/dcgp/nist_data.hpp
+++ b/include/dcgp/nist_data.hpp
@@ -243,9 +243,10 @@ inline std::vector<std::vector<double>> lanczos2_points
        {6.00000E-01}, {6.50000E-01}, {7.00000E-01}, {7.50000E-01}, {8.00000E-01}, {8.50000E-01},
        {9.00000E-01}, {9.50000E-01}, {1.00000E+00}, {1.05000E+00}, {1.10000E+00}, {1.15000E+00}};
 inline std::vector<std::vector<double>> lanczos2_labels
-    = {{2.5134E+00}, {2.0443E+00}, {1.6684E+00}, {1.3664E+00}, {1.1232E+00}, {0.9269E+00}, {0.7679E+00}, {0.6389E+00},
-       {0.5338E+00}, {0.4479E+00}, {0.3776E+00}, {0.3197E+00}, {0.2720E+00}, {0.2325E+00}, {0.1997E+00}, {0.1723E+00},
-       {0.1493E+00}, {0.1301E+00}, {0.1138E+00}, {0.1000E+00}, {0.0883E+00}, {0.0783E+00}, {0.0698E+00}, {0.0624E+00}};
+    = {{2.51340E+00}, {2.04433E+00}, {1.66840E+00}, {1.36642E+00}, {1.12323E+00}, {9.26890E-01},
+       {7.67934E-01}, {6.38878E-01}, {5.33784E-01}, {4.47936E-01}, {3.77585E-01}, {3.19739E-01},
+       {2.72013E-01}, {2.32497E-01}, {1.99659E-01}, {1.72270E-01}, {1.49341E-01}, {1.30070E-01},
+       {1.13812E-01}, {1.00042E-01}, {8.83321E-02}, {7.83354E-02}, {6.97669E-02}, {6.23931E-02}};
 
 // misra1b
 inline std::vector<std::vector<double>> misra1b_points
-- 
2.43.0


From 27fdda8eddec284c5b1ffbd00ddc30c5df1baf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:08 +0000
Subject: [PATCH 21/24] fix: symbolic_regression reported constant thread
 safety although its const methods change mutable members

---
 include/dcgp/problems/symbolic_regression.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/problems/symbolic_regression.hpp b/include/dcgp/problems/symbolic_regression.hpp
index bce9fa2..198b556 100644
--- a/include/dcgp/problems/symbolic_regression.hpp
+++ b/include/dcgp/problems/symbolic_regression.hpp
@@ -500,14 +500,16 @@ public:
 
     /// Thread safety for this udp
     /**
-     * This is set to none as pitonic kernels could be in the inner expression
+     * This is the thread safety of the least safe kernel (pythonic kernels could be in the inner expression),
+     * but never more than basic as const methods change mutable members.
      */
     pagmo::thread_safety get_thread_safety() const
     {
-        return (*std::min_element(
+        const auto kernels_safety = (*std::min_element(
                     m_f.begin(), m_f.end(),
                     [](const auto &a, const auto &b) { return a.get_thread_safety() < b.get_thread_safety(); }))
             .get_thread_safety();
+        return std::min(kernels_safety, pagmo::thread_safety::basic);
     }
 
     /// Sets the phenotype correction
-- 
2.43.0


From 07a3e6aaccc5478eb6a0f7540f10ff17f77e2292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 22/24] fix: the derivative of the ISRU kernel was NaN when the
 inputs of a node sum to zero

---
 include/dcgp/expression_ann.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression_ann.hpp b/include/dcgp/expression_ann.hpp
index 71ff134..8a73eb8 100644
--- a/include/dcgp/expression_ann.hpp
+++ b/include/dcgp/expression_ann.hpp
@@ -987,7 +987,8 @@ private:
                         break;
                     case kernel_type::ISRU: {
                         auto cumin = std::accumulate(function_in.begin(), function_in.end(), 0.);
-                        d_node[node_id] = node[node_id] * node[node_id] * node[node_id] / cumin / cumin / cumin;
+                        auto inv_root = 1. / std::sqrt(1. + cumin * cumin);
+                        d_node[node_id] = inv_root * inv_root * inv_root;
                         break;
                     }
                     case kernel_type::SIN_NU: {
-- 
2.43.0


From 4de747a2da8310eaa8f540d64f5ee12a4792ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 23/24] fix: the protected division read past the end of a
 single argument

---
 include/dcgp/wrapped_functions.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/dcgp/wrapped_functions.hpp b/include/dcgp/wrapped_functions.hpp
index 1ca3206..e73458c 100644
--- a/include/dcgp/wrapped_functions.hpp
+++ b/include/dcgp/wrapped_functions.hpp
@@ -154,9 +154,9 @@ struct my_pdiv_func {
     T operator()(const std::vector<T> &in) const
     {
         T retval(in[0]);
-        T tmpval(in[1]);
+        T tmpval(1.);
 
-        for (auto i = 2u; i < in.size(); ++i) {
+        for (auto i = 1u; i < in.size(); ++i) {
             tmpval *= in[i];
         }
 
-- 
2.43.0


From b9806a1e36b1987d6bd0f0fc375aec958dfc6f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:37 +0000
Subject: [PATCH 24/24] fix: mutate_ogene ignored the number of mutations when
 there is a single output

---
 include/dcgp/expression.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/dcgp/expression.hpp b/include/dcgp/expression.hpp
index cfc3bf5..79cf0b4 100644
--- a/include/dcgp/expression.hpp
+++ b/include/dcgp/expression.hpp
@@ -836,7 +836,9 @@ public:
         } else {
             idx = static_cast<unsigned>(m_active_genes.size() - 1u);
             idx = m_active_genes[idx];
-            mutate(idx);
+            for (auto i = 0u; i < N; ++i) {
+                mutate(idx);
+            }
         }
     }
 
-- 
2.43.0

