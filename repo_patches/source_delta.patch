From ed75e3dcff73f04f89849bc35aa804fb3370cdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:04 +0000
Subject: [PATCH 01/15] fix: advance the generation counter before the metrics
 and the callback of the new generation

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..20ad099 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -529,12 +529,12 @@ namespace gapp
         });
 
         updatePopulation(std::move(children));
+        generation_cntr_++;
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 4c490801cb6622bef341787a14d1c68515799719 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 02/15] fix: keep deducing the default mutation rate in every
 run

Setting the deduced rate through the public setter cleared the flag that asks for
the default, so a GA solving a second problem kept the rate of the first one.
---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 20ad099..17b8eab 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -349,7 +349,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From cbc64456070b5893e5991b1bf1790bf08d01354c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:48 +0000
Subject: [PATCH 03/15] fix: use the default algorithm in every constructor
 that is not given one

The constructor taking operators by value left the single-objective algorithm in
place for multi-objective problems, and the one taking an algorithm pointer did
the same for a null pointer, which is documented to select the default.
---
 src/core/ga_base.impl.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 17b8eab..9e8f9f5 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
@@ -83,7 +82,6 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From a8a69867ca3f77f8c8ffb463451a5695cf7b259b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:25 +0000
Subject: [PATCH 04/15] fix: wait for the submitted tasks when a parallel loop
 is left by an exception

An exception thrown by the calling thread's share of the iterations (or by the
submission of a task) left execute_loop while the tasks already submitted were
still using its local variables.
---
 src/utility/thread_pool.hpp | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..61fcc57 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -49,23 +49,34 @@ namespace gapp::detail
 
             detail::latch remaining_tasks(task_count - 1);
 
-            for (size_t i = 0; i < task_count - 1; i++)
-            {
-                Iter block_last  = std::next(first, step_size + (i < remainder));
-                Iter block_first = std::exchange(first, block_last);
+            size_t submitted_tasks = 0;
 
-                auto task = [&, block_first, block_last]() mutable noexcept
+            GAPP_TRY
+            {
+                for (; submitted_tasks < task_count - 1; submitted_tasks++)
                 {
-                    GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }
-                    GAPP_CATCH (...) { thread_guard(); }
-                    remaining_tasks.count_down();
-                };
+                    Iter block_last  = std::next(first, step_size + (submitted_tasks < remainder));
+                    Iter block_first = std::exchange(first, block_last);
+
+                    auto task = [&, block_first, block_last]() mutable noexcept
+                    {
+                        GAPP_TRY { while (block_first != block_last) { std::invoke(unary_op, *block_first++); } }
+                        GAPP_CATCH (...) { thread_guard(); }
+                        remaining_tasks.count_down();
+                    };
+
+                    bool success = scheduled_worker_queue().emplace(std::move(task));
+                    if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                }
 
-                bool success = scheduled_worker_queue().emplace(std::move(task));
-                if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                while (first != last) { std::invoke(unary_op, *first++); }
+            }
+            GAPP_CATCH (...)
+            {
+                // The submitted tasks use the local variables of this function, they must be finished before leaving.
+                thread_guard();
+                remaining_tasks.count_down(task_count - 1 - submitted_tasks);
             }
-
-            while (first != last) { std::invoke(unary_op, *first++); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From 61448f71eaefb7ee4d935b4c656442657ba081c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 05/15] fix: let combined stop conditions be parts of other
 combined stop conditions

initialize was private in the composites, and OR did not evaluate its second
part when the first one was met, which does not imply that the run ends when
the OR is itself part of another composite.
---
 src/stop_condition/composite.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..15a2ce2 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -20,17 +20,18 @@ namespace gapp::stopping::dtl
             left_(std::move(left)), right_(std::move(right))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             left_.initialize(ga);
             right_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated, since the GA is not necessarily stopped if left_ returns true
+            // (this might be a part of another composite), and the stop conditions might rely on side effects of operator().
+            return std::invoke(left_, ga) | std::invoke(right_, ga);
         }
 
         Left left_;
@@ -45,13 +46,13 @@ namespace gapp::stopping::dtl
             left_(std::move(left)), right_(std::move(right))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             left_.initialize(ga);
             right_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
             // Both of the stop conditions should be evaluated, so avoid short circuits with logical ops
@@ -71,12 +72,12 @@ namespace gapp::stopping::dtl
             base_(std::move(base))
         {}
 
-    private:
         void initialize(const GaInfo& ga) override
         {
             base_.initialize(ga);
         }
 
+    private:
         bool stop_condition(const GaInfo& ga) override
         {
             return !std::invoke(base_, ga);
-- 
2.43.0


From 84f166f5229e60680b71131fff0460e8b89dbe3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:22 +0000
Subject: [PATCH 06/15] fix: negate negated stop conditions

Deducing the template argument of NOT from another NOT copied it instead of
wrapping it, so !!condition was the same as !condition.
---
 src/stop_condition/composite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 15a2ce2..947b935 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -103,7 +103,7 @@ namespace gapp::stopping
 
     constexpr auto operator!(std::derived_from<StopCondition> auto base) noexcept
     {
-        return dtl::NOT{ std::move(base) };
+        return dtl::NOT<decltype(base)>{ std::move(base) };
     }
 
 } // namespace gapp::stopping
-- 
2.43.0


From ab49ac85552f55056d407e71ca873f56de894f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 07/15] fix: do not look up solutions in the cache when the
 fitness function is dynamic

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 9e8f9f5..00936a0 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -461,10 +461,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From 06eafb24d02075db5c2845d46043422ca167fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:36 +0000
Subject: [PATCH 08/15] fix: use the scale parameter of the sigma scaling
 selection

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..ca50d59 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From ef9685bdc35a625b3998044f638a3bd712a9cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 09/15] fix: check the given selection and replacement methods
 for nullptr

---
 src/algorithm/single_objective.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/single_objective.cpp b/src/algorithm/single_objective.cpp
index 491b0cc..ae26d0b 100644
--- a/src/algorithm/single_objective.cpp
+++ b/src/algorithm/single_objective.cpp
@@ -29,7 +29,7 @@ namespace gapp::algorithm
 
     void SingleObjective::selection_method(std::unique_ptr<selection::Selection> selection)
     {
-        GAPP_ASSERT(selection_, "The selection method can't be a nullptr.");
+        GAPP_ASSERT(selection, "The selection method can't be a nullptr.");
 
         selection_ = std::move(selection);
     }
@@ -41,7 +41,7 @@ namespace gapp::algorithm
 
     void SingleObjective::replacement_method(std::unique_ptr<replacement::Replacement> replacement)
     {
-        GAPP_ASSERT(replacement_, "The population replacement method can't be a nullptr.");
+        GAPP_ASSERT(replacement, "The population replacement method can't be a nullptr.");
 
         replacement_ = std::move(replacement);
     }
-- 
2.43.0


From 6fb6b12b5ca9bfbde1030769db956320361a277c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:28 +0000
Subject: [PATCH 10/15] fix: refuse NaN in the bounded value types

---
 src/utility/bounded_value.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utility/bounded_value.hpp b/src/utility/bounded_value.hpp
index da91540..aa8be13 100644
--- a/src/utility/bounded_value.hpp
+++ b/src/utility/bounded_value.hpp
@@ -19,8 +19,8 @@ namespace gapp::detail
 
         constexpr bool contains(const T& value) const noexcept
         {
-            if (value < left_  || (!left_inclusive_  && value == left_))  return false;
-            if (value > right_ || (!right_inclusive_ && value == right_)) return false;
+            if (!(value >= left_)  || (!left_inclusive_  && value == left_))  return false;
+            if (!(value <= right_) || (!right_inclusive_ && value == right_)) return false;
             return true;
         }
 
-- 
2.43.0


From 0ce1f680123ba7d308dfe6fdf3402a0721ff2fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:39 +0000
Subject: [PATCH 11/15] fix: do not use a reference to a tree node after new
 nodes were added

---
 src/utility/cone_tree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..cfea4ed 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -162,8 +162,9 @@ namespace gapp::detail
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
 
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
+                /* The node reference may have been invalidated by the insertions. */
+                nodes_[i].left = nodes_.size() - 2;
+                nodes_[i].right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 10f66339965cc06c4afa084b066304c3b81b0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:34 +0000
Subject: [PATCH 12/15] fix: NSGA2: keep the crowding distances in the order of
 the new population

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..2f80214 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const auto crowding_distances = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = crowding_distances[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From 3af6166d6efee0466c63c8a9083f0aecdfb63f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:38 +0000
Subject: [PATCH 13/15] fix: perm::Shift: leave room for another position when
 the whole chromosome may be shifted

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..2e31c5c 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() <= mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1);
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From 698f5bbab96415ae2b5a540fe7c9eea073cb08ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 14/15] fix: sort by exact fitness in the elitist replacements

The comparison within a tolerance isn't transitive, so it isn't a valid ordering for the sort, and
candidates could be dropped in favour of ones that are worse by more than the tolerance.
---
 src/algorithm/soga_replacement.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/soga_replacement.cpp b/src/algorithm/soga_replacement.cpp
index 710ef58..c06700c 100644
--- a/src/algorithm/soga_replacement.cpp
+++ b/src/algorithm/soga_replacement.cpp
@@ -26,7 +26,7 @@ namespace gapp::replacement
         const auto sorted_parent_indices = detail::partial_argsort(fmat.begin(), fmat.begin() + elite_count, fmat.begin() + ga.population_size(),
         [](const auto& lhs, const auto& rhs) noexcept
         {
-            return math::paretoCompareLess(rhs, lhs); // descending
+            return lhs[0] > rhs[0]; // descending
         });
 
         small_vector<size_t> indices(ga.population_size());
@@ -43,7 +43,7 @@ namespace gapp::replacement
         auto sorted_indices = detail::partial_argsort(fmat.begin(), fmat.begin() + ga.population_size(), fmat.end(),
         [](const auto& lhs, const auto& rhs) noexcept
         {
-            return math::paretoCompareLess(rhs, lhs); // descending
+            return lhs[0] > rhs[0]; // descending
         });
         sorted_indices.resize(ga.population_size());
 
-- 
2.43.0


From 7c38bff9cbf2e384c3303bd1fc9da00f0f3c3f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:08 +0000
Subject: [PATCH 15/15] fix: record the drawn number when sampling without
 replacement from large ranges

The candidate was recorded instead of the number that was used in its place, so the same number could be returned twice.
---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..1c1b335 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -467,7 +467,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0

