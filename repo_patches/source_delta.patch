From 0aa6e9505bc4fb959de2d603405182f72bb022be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 01/51] fix: do not read random booleans from bits which the
 generator does not provide

The bound was computed in a signed int which overflowed, so that bit 31
(always 0) and a repeated bit 0 were returned as random booleans.
---
 src/common/random.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index e31dd0e..fd35d3a 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -73,12 +73,12 @@ Random::Random()
     next_bit_in_bool_base_ = 0;
 
     max_bit_in_bool_base_ = 0;
-    int max_bool_base_value = 1;
+    unsigned int max_bool_base_value = 1;
 
     for (std::size_t i = 0; i < sizeof(int) * 8; i++)
     {
         max_bool_base_value *= 2;
-        if (max_bool_base_value > RAND_MAX)
+        if (max_bool_base_value > static_cast<unsigned int>(RAND_MAX))
         {
             break;
         }
-- 
2.43.0


From 52363570c559443a024ff36f0dd1c494584fae43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 02/51] fix: an event of probability 0 never happens

---
 src/common/random.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index fd35d3a..34f2e21 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -61,7 +61,9 @@ bool Random::CheckEventOutcome(double event_probability)
 {
     ValidateProbability(event_probability);
 
-    return GetBaseRandomQuantity() <= event_probability;
+    double base = GetBaseRandomQuantity();
+    //The base quantity can be exactly 0, but an impossible event must not happen
+    return event_probability > 0 && base <= event_probability;
 }
 
 Random::Random()
-- 
2.43.0


From 3993446556243c9fd1f7941f9531774efd4f54f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:24 +0000
Subject: [PATCH 03/51] fix: keep the continuous random quantity within the
 requested interval

base * (max - min) + min could exceed max by rounding, e.g. on [-3, 0.7].
---
 src/common/random.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index 34f2e21..dc595a0 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -4,6 +4,7 @@
 #include <cstdlib>
 #include <time.h>
 #include <cmath>
+#include <algorithm>
 #include <stdexcept>
 
 namespace k52
@@ -33,7 +34,9 @@ double Random::GetBaseRandomQuantity()
 double Random::GetContinuousRandomQuantity(double min_value, double max_value)
 {
     double base = GetBaseRandomQuantity();
-    return base * (max_value - min_value) + min_value;
+    double quantity = base * (max_value - min_value) + min_value;
+    //Rounding must not carry the quantity out of the interval
+    return std::min(std::max(min_value, max_value), std::max(std::min(min_value, max_value), quantity));
 }
 
 std::vector<double> Random::GenerateRandomVector(size_t vector_size, double min_value, double max_value)
-- 
2.43.0


From 138b815cc6757c820a4b12ee438848fb08233f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:04 +0000
Subject: [PATCH 04/51] fix: merge settings whose names contain dots

Keys of the trees were used as paths, so merging a name like "x.y" threw
bad_path or created another property.
---
 include/k52/common/settings_manager.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/k52/common/settings_manager.h b/include/k52/common/settings_manager.h
index a47208e..d825b39 100644
--- a/include/k52/common/settings_manager.h
+++ b/include/k52/common/settings_manager.h
@@ -112,11 +112,12 @@ protected:
             if (merged_tree.end() != found)
             {
                 // Do not overload value of existed property, just add subtrees
-                merged_tree.get_child(it->first) = Merge(found->second, it->second);
+                found->second = Merge(found->second, it->second);
             }
             else
             {
-                merged_tree.put_child(it->first, it->second);
+                // The key is a name and not a path, even if it contains dots
+                merged_tree.push_back(*it);
             }
         }
         return merged_tree;
-- 
2.43.0


From badf81ab2006af20469ab1e724a25abb2730bf38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:44 +0000
Subject: [PATCH 05/51] fix: report a failing task to the caller of the thread
 pool instead of hanging

---
 src/parallel/thread/thread_worker_pool.cpp     | 12 +++++++++++-
 .../thread/thread_worker_pool_task.cpp         | 18 ++++++++++++++----
 src/parallel/thread/thread_worker_pool_task.h  |  8 +++++++-
 3 files changed, 32 insertions(+), 6 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool.cpp b/src/parallel/thread/thread_worker_pool.cpp
index 050ea44..0531ecd 100644
--- a/src/parallel/thread/thread_worker_pool.cpp
+++ b/src/parallel/thread/thread_worker_pool.cpp
@@ -20,14 +20,24 @@ std::vector< ITaskResult::shared_ptr > ThreadWorkerPool::DoTasks (
     CheckAvailableWorkers();
 
     std::vector< ITaskResult::shared_ptr > results(tasks.size());
+    std::vector< boost::exception_ptr > failures(tasks.size());
     std::queue<ThreadWorkerPoolTask> tasks_queue;
 
     for(size_t i=0; i<tasks.size(); i++)
     {
-        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i])) );
+        tasks_queue.push( ThreadWorkerPoolTask(tasks[i], &(results[i]), &(failures[i])) );
     }
 
     worker_pool_.DoTasks(tasks_queue);
+
+    for(size_t i=0; i<failures.size(); i++)
+    {
+        if(failures[i])
+        {
+            boost::rethrow_exception(failures[i]);
+        }
+    }
+
     return results;
 }
 
diff --git a/src/parallel/thread/thread_worker_pool_task.cpp b/src/parallel/thread/thread_worker_pool_task.cpp
index 46174b3..1a10205 100644
--- a/src/parallel/thread/thread_worker_pool_task.cpp
+++ b/src/parallel/thread/thread_worker_pool_task.cpp
@@ -8,16 +8,26 @@ namespace thread
 {
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask()
-    :task_to_do_(NULL), result_to_be_written_(NULL) {}
+    :task_to_do_(NULL), result_to_be_written_(NULL), failure_to_be_written_(NULL) {}
 
 ThreadWorkerPoolTask::ThreadWorkerPoolTask(
     const ITask* task_to_do,
-    ITaskResult::shared_ptr* result_to_be_written)
-        :task_to_do_(task_to_do), result_to_be_written_(result_to_be_written) {}
+    ITaskResult::shared_ptr* result_to_be_written,
+    boost::exception_ptr* failure_to_be_written)
+        :task_to_do_(task_to_do),
+         result_to_be_written_(result_to_be_written),
+         failure_to_be_written_(failure_to_be_written) {}
 
 void ThreadWorkerPoolTask::DoTask()
 {
-    (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    try
+    {
+        (*result_to_be_written_) = ITaskResult::shared_ptr ( task_to_do_->Perform() );
+    }
+    catch(...)
+    {
+        (*failure_to_be_written_) = boost::current_exception();
+    }
 }
 
 } /* namespace thread */
diff --git a/src/parallel/thread/thread_worker_pool_task.h b/src/parallel/thread/thread_worker_pool_task.h
index 868dadf..19e4efc 100644
--- a/src/parallel/thread/thread_worker_pool_task.h
+++ b/src/parallel/thread/thread_worker_pool_task.h
@@ -1,6 +1,8 @@
 #ifndef THREADWORKERPOOLTASK_H_
 #define THREADWORKERPOOLTASK_H_
 
+#include <boost/exception_ptr.hpp>
+
 #include <k52/parallel/i_worker_pool.h>
 
 namespace k52
@@ -17,13 +19,17 @@ public:
 
     ThreadWorkerPoolTask(
         const ITask* task_to_do,
-        ITaskResult::shared_ptr* result_to_be_written);
+        ITaskResult::shared_ptr* result_to_be_written,
+        boost::exception_ptr* failure_to_be_written);
 
+    ///Performs the task. Failure of the task is not thrown, but written for the
+    ///thread that waits for the results.
     void DoTask();
 
 private:
     const ITask* task_to_do_;
     ITaskResult::shared_ptr* result_to_be_written_;
+    boost::exception_ptr* failure_to_be_written_;
 };
 
 } /* namespace thread */
-- 
2.43.0


From 86e8218f23919cb1dc1aa8eb098399f436602cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 06/51] fix: refuse NaN as argument of the Akima spline instead
 of reading out of bounds

---
 src/dsp/akima_spline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 1c5401d..5eb0d34 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -120,7 +120,8 @@ std::size_t AkimaSpline::ResolveInterval(double x) const
 {
     std::vector<double>::const_iterator upper_bound = std::upper_bound(train_x_.begin(), train_x_.end(), x);
 
-    if (upper_bound == train_x_.begin())
+    // NaN compares false with every knot, so it does not belong to any interval
+    if (upper_bound == train_x_.begin() || x != x)
     {
         throw std::out_of_range("X value is out of range in Akima spline");
     }
-- 
2.43.0


From 2cbf8467cecf8b877e0796bc7ba663d7c9647a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:21 +0000
Subject: [PATCH 07/51] fix: refuse to build a spline based wavelet from no
 points

---
 src/dsp/spline_based_wavelet_function.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index 37f38e3..b8b9bf7 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -2,6 +2,7 @@
 
 // standart headers
 #include <algorithm>
+#include <stdexcept>
 #include <stdint.h>
 #include <vector>
 
@@ -17,6 +18,11 @@ std::complex<double> SplineBased::GetValue(double t)
 
 void SplineBased::Init(const std::vector<double> &real, const std::vector<double> &imaj)
 {
+    if (real.empty())
+    {
+        throw std::invalid_argument("At least one point is required to build a spline based wavelet");
+    }
+
     std::vector<double> points(real.size() + 2);
     double delta = 8. / real.size();
     for (size_t i = 0; i < real.size(); ++i)
-- 
2.43.0


From ea15c31da6b595639aaba3ae5e93aec9c7f8e7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:55 +0000
Subject: [PATCH 08/51] fix: let spline based wavelets have a value at the
 right end of their support

---
 src/dsp/spline_based_wavelet_function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dsp/spline_based_wavelet_function.cpp b/src/dsp/spline_based_wavelet_function.cpp
index b8b9bf7..14f5f31 100644
--- a/src/dsp/spline_based_wavelet_function.cpp
+++ b/src/dsp/spline_based_wavelet_function.cpp
@@ -36,7 +36,8 @@ void SplineBased::Init(const std::vector<double> &real, const std::vector<double
     points[0] = points[1] - (points[2] - points[1]);
     values[0] = 0;
     int size(points.size());
-    points[size - 1] = points[size - 2] - (points[size - 3] - points[size - 2]);
+    // exactly the right end of effective part, otherwise rounding could leave it outside of the spline
+    points[size - 1] = 4;
     values[size - 1] = 0;
 
     spline_->Initialize(points, values);
-- 
2.43.0


From 513cbc3a175f9a0bc518441f9574891e74a187e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:07 +0000
Subject: [PATCH 09/51] fix: give every value of an integer parameter a
 chromosome

---
 src/optimization/params/int_parameter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/int_parameter.cpp b/src/optimization/params/int_parameter.cpp
index 50f83ee..76fc5b3 100644
--- a/src/optimization/params/int_parameter.cpp
+++ b/src/optimization/params/int_parameter.cpp
@@ -87,10 +87,11 @@ void IntParameter::Initialize(int value, int min_value, int max_value)
 
 size_t IntParameter::CountChromosomeSize(int min_value, int max_value)
 {
-    int x = 1;
-    int target = max_value - min_value;
+    //All of the (max_value - min_value + 1) values must have a code
+    long long x = 1;
+    long long target = (long long)max_value - min_value;
     size_t power = 0;
-    while(target>x)
+    while(target>=x)
     {
         x*=2;
         power++;
-- 
2.43.0


From 98694905fb34593c55f712881a83b216cba5e1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:17 +0000
Subject: [PATCH 10/51] fix: let every chromosome of a real parameter mean a
 value of its interval, up to the maximum

---
 src/optimization/params/double_parameter.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index cab781e..503e79e 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -92,12 +92,20 @@ void DoubleParameter::SetFromChromosome(ChromosomeType::const_iterator from, Chr
 
 double DoubleParameter::GetValue() const
 {
-    return  base_int_parameter_->get_value() * precision_ + min_value_;
+    int int_value = base_int_parameter_->get_value();
+
+    //Rounding must not carry the value out of the interval
+    if (int_value == base_int_parameter_->get_max_value())
+    {
+        return max_value_;
+    }
+    return int_value * precision_ + min_value_;
 }
 
 void DoubleParameter::SetValue(double value)
 {
-    int int_value = (int)((value - min_value_)/precision_);
+    //Rounded to the nearest, so that GetValue() can be set without a change
+    int int_value = (int)std::floor((value - min_value_)/precision_ + 0.5);
     base_int_parameter_->set_value(int_value);
 }
 
@@ -128,11 +136,12 @@ int DoubleParameter::GetMaxInt(double min_value, double max_value, double precis
 
 int DoubleParameter::CountBestMaxInt(int initial_max_int)
 {
+    //2^n - 1, so that the chromosomes represent exactly the values from 0 to best_max_int
     int best_max_int = 1;
 
     while(initial_max_int>best_max_int)
     {
-        best_max_int *= 2;
+        best_max_int = best_max_int * 2 + 1;
     }
 
     return best_max_int;
-- 
2.43.0


From 1cbd569d78e97a223fa8c3dca17c2483ffdf6eb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:36 +0000
Subject: [PATCH 11/51] fix: check the values of a parameters array themselves
 and do not keep refused ones

---
 src/optimization/params/double_parameters_array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 1e11e75..69ac54e 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -46,8 +46,8 @@ bool DoubleParametersArray::CheckConstraints() const
 {
     for(size_t i=0; i<values_.size(); i++)
     {
-        sample_parameter_->SetValue(values_[i]);
-        if(!sample_parameter_->CheckConstraints())
+        //The value itself, sample_parameter_ would round it
+        if(!(values_[i] >= get_min_value() && values_[i] <= get_max_value()))
         {
             return false;
         }
@@ -102,10 +102,12 @@ void DoubleParametersArray::SetValues(const std::vector<double>& values)
         throw std::invalid_argument("Values has incorrect size.");
     }
 
+    std::vector<double> previous_values = values_;
     values_ = values;
 
     if (!CheckConstraints())
     {
+        values_ = previous_values;
         throw std::invalid_argument("One of the values does not satisfy constraints.");
     }
 }
-- 
2.43.0


From 855599c6173da51ff40b1602cb262f86c8783f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:32 +0000
Subject: [PATCH 12/51] fix: refuse a wrong number of initial parameters
 instead of reading past them

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 3ac508a..446a2a2 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -144,9 +144,10 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(population_size_);
+    //The number of initial parameters is checked when the population is initialized
+    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
 
-    for (std::size_t i = 0; i < population_size_; ++i)
+    for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
         initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
-- 
2.43.0


From 5128a3cda3e486930d3b032345aac651883319b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 13/51] fix: do not use fitness values cached for another
 objective function

---
 .../genetic_algorithm/genetic_algorithm.cpp            |  2 ++
 src/optimization/objective_function_counter.cpp        | 10 ++++++++--
 src/optimization/objective_function_counter.h          |  5 +++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 446a2a2..c14c6c2 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -128,6 +128,8 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
         throw std::invalid_argument("GeneticAlgorithm currently can only maximize function.");
     }
 
+    fitness_counter_->ResetCache();
+
     Initialize(parameters_to_optimize);
 
     if(!population_file_name_.empty())
diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index 02f0abb..f5dee16 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -15,9 +15,9 @@ namespace optimization
 
 ObjectiveFunctionCounter::ObjectiveFunctionCounter(double cache_data_limit_in_megabytes)
 {
-    cache_hits_ = 0;
     objective_function_counts_ = 0;
-    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes);
+    cache_data_limit_in_megabytes_ = cache_data_limit_in_megabytes;
+    ResetCache();
 
 #ifdef BUILD_WITH_MPI
     CountObjectiveFunctionTask task;
@@ -65,6 +65,12 @@ vector<double> ObjectiveFunctionCounter::CountObjectiveFunctionValues(
     return counted_values;
 }
 
+void ObjectiveFunctionCounter::ResetCache()
+{
+    cache_ = FitnessCache::Create(cache_data_limit_in_megabytes_);
+    cache_hits_ = 0;
+}
+
 void ObjectiveFunctionCounter::ResetCacheHits()
 {
     cache_hits_ = 0;
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index 231687c..eb6e916 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -37,6 +37,10 @@ public:
         const std::vector<const IParameters*>& parameters_to_count,
         const IObjectiveFunction& objective_function);
 
+    ///Forgets all cached values and cache hits. Must be used before counting of
+    ///another objective function, for which the cached values are not valid
+    void ResetCache();
+
     void ResetCacheHits();
     int get_cache_hits() const;
     int get_objective_function_counts() const;
@@ -63,6 +67,7 @@ protected:
 
 private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
+    double cache_data_limit_in_megabytes_;
     FitnessCache::shared_ptr cache_;
     boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
-- 
2.43.0


From b25cd49ac56751748a3ccf29f64b41af45194bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 14/51] fix: do not report invalid chromosomes of a previous
 run of the genetic algorithm

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index c14c6c2..7f313f6 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -188,6 +188,7 @@ void GeneticAlgorithm::Initialize(const IDiscreteParameters* parameters_to_optim
 {
     population_ = vector<Individual::shared_ptr>(population_size_);
     population_statistics_ = vector<IndividualStatistics>(population_size_);
+    invalid_chromosomes_ = 0;
 
     if (were_initial_parameters_set_)
     {
-- 
2.43.0


From 75bca6b071653973a961df57e6511ac4957111fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 15/51] fix: mutation probability of a single generation is not
 a number

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 8294f67..3575311 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -25,6 +25,11 @@ double LinearMutator::GetCurrentGenMutationProbability()
 {
     double current = get_mutation_context().current_generation;
     double max = get_mutation_context().max_number_of_generations - 1;
+    if (max <= 0)
+    {
+        //There is only one generation
+        return start_mutation_value_;
+    }
     return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
 }
 }/* namespace optimization */
-- 
2.43.0


From ab56efef4f20579fd9afe626e4390e4677b61255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 16/51] fix: Nelder-Mead returns the best vertex of the final
 polygon, not the worst

---
 src/optimization/bounded_nelder_mead.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index b49c05b..777628c 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -161,7 +161,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     } while (GetTerminationCriteria(r, function_values, polygon));
 
 
-    size_t best_index = std::distance(function_values.begin(), std::max_element(function_values.begin(), function_values.end()));
+    size_t best_index = std::distance(function_values.begin(), std::min_element(function_values.begin(), function_values.end()));
     return polygon[best_index];
 }
 
-- 
2.43.0


From 7ab875d243650109d2b4805586689ddb17a4405a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 17/51] fix: count the values of the polygon after its
 reduction

---
 src/optimization/bounded_nelder_mead.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 777628c..f382678 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -147,6 +147,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 if (contraction_point_value > highest_value)
                 {
                     Reduction(&polygon, min_index);
+                    function_values = CountObjectiveFunctionValues(polygon);
                     continue;
                 }
                 else
-- 
2.43.0


From 4662be0c5852d667973219a568dac3aa1f5607f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:10 +0000
Subject: [PATCH 18/51] fix: do not compare polygons of different Nelder-Mead
 runs

---
 src/optimization/bounded_nelder_mead.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index f382678..163cf01 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -74,6 +74,9 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     //Iteration index
     size_t r = 0;
 
+    //Polygons of a previous optimization must not stop this one
+    previous_polygons_.clear();
+
     //Build simplex based on initial_parameters
     vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
 
-- 
2.43.0


From 468c4bd4862f46ec4eae65f45a62399982e0c47d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 19/51] fix: keep the initial simplex of the bounded
 Nelder-Mead method within the bounds

---
 .../k52/optimization/bounded_nelder_mead.h    |  4 ++
 src/optimization/bounded_nelder_mead.cpp      | 38 ++++++++++++++++++-
 2 files changed, 41 insertions(+), 1 deletion(-)

diff --git a/include/k52/optimization/bounded_nelder_mead.h b/include/k52/optimization/bounded_nelder_mead.h
index b979972..115d977 100644
--- a/include/k52/optimization/bounded_nelder_mead.h
+++ b/include/k52/optimization/bounded_nelder_mead.h
@@ -40,6 +40,10 @@ protected:
 
     void CorrectByProjectingToBounds(std::vector<double>* point);
 
+    ///Moves all points of the simplex into the bounds. Directions, in which it does
+    ///not fit, are reversed when there is more space on the other side of the first point
+    void CorrectInitialSimplex(std::vector< std::vector<double> >* simplex);
+
     std::vector<double> CountObjectiveFunctionValues(
         const std::vector< std::vector<double> >& parameters_values);
 
diff --git a/src/optimization/bounded_nelder_mead.cpp b/src/optimization/bounded_nelder_mead.cpp
index 163cf01..f1a5836 100644
--- a/src/optimization/bounded_nelder_mead.cpp
+++ b/src/optimization/bounded_nelder_mead.cpp
@@ -78,7 +78,10 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
     previous_polygons_.clear();
 
     //Build simplex based on initial_parameters
-    vector< vector<double> > polygon = GetRegularSimplex(initial_parameters, l_);
+    vector<double> base_point = initial_parameters;
+    CorrectByProjectingToBounds(&base_point);
+    vector< vector<double> > polygon = GetRegularSimplex(base_point, l_);
+    CorrectInitialSimplex(&polygon);
 
     //count values
     vector<double> function_values = CountObjectiveFunctionValues(polygon);
@@ -145,6 +148,7 @@ std::vector<double> BoundedNelderMead::FindOptimalParameters(const std::vector<d
                 }
 
                 vector<double> contraction_point = Contraction(center_of_mass, polygon[first_max_index]);
+                CorrectByProjectingToBounds(&contraction_point);
                 double contraction_point_value = CountSingleObjectiveFunctionValue(contraction_point);
 
                 if (contraction_point_value > highest_value)
@@ -184,6 +188,38 @@ void BoundedNelderMead::CorrectByProjectingToBounds(vector<double>* point)
     }
 }
 
+void BoundedNelderMead::CorrectInitialSimplex(vector< vector<double> >* simplex)
+{
+    const vector<double> base_point = (*simplex)[0];
+
+    for(size_t j = 0; j < base_point.size(); j++)
+    {
+        double lowest = base_point[j];
+        double highest = base_point[j];
+        for(size_t i = 1; i < simplex->size(); i++)
+        {
+            lowest = std::min(lowest, (*simplex)[i][j]);
+            highest = std::max(highest, (*simplex)[i][j]);
+        }
+
+        bool fits = lowest >= lower_bound_ && highest <= upper_bound_;
+        bool more_space_below = base_point[j] - lower_bound_ > upper_bound_ - base_point[j];
+        bool points_up = highest > base_point[j];
+        if(!fits && more_space_below == points_up)
+        {
+            for(size_t i = 1; i < simplex->size(); i++)
+            {
+                (*simplex)[i][j] = base_point[j] - ((*simplex)[i][j] - base_point[j]);
+            }
+        }
+    }
+
+    for(size_t i = 0; i < simplex->size(); i++)
+    {
+        CorrectByProjectingToBounds(&(*simplex)[i]);
+    }
+}
+
 vector<double> BoundedNelderMead::CountObjectiveFunctionValues(
     const vector< vector<double> >& parameters_values)
 {
-- 
2.43.0


From f6b67e32918213322df8bbbb4adea8cf7716809c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 20/51] fix: steepest descent returns the point it has reached,
 not the one before

---
 src/optimization/steepest_descent_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index ac7352b..11cc77d 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -91,7 +91,7 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     } while (!IsExitCriteriaFulfilled(next_step_parameters) 
         && !(counter == max_iteration_number_));
 
-    return parameters;
+    return next_step_parameters;
 }
 
 bool SteepestDescentMethod::IsExitCriteriaFulfilled(
-- 
2.43.0


From a58376a2dc9c76be0b4bab483ce3c644587ef589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:04 +0000
Subject: [PATCH 21/51] fix: do not truncate steps to whole numbers in the
 steepest descent method

---
 src/optimization/steepest_descent_method.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 11cc77d..f441b81 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -243,7 +243,7 @@ double SteepestDescentMethod::FindStepLength(
             break;
         }
 
-    } while ((abs(left_border - right_border) > precision_));
+    } while ((std::abs(left_border - right_border) > precision_));
 
     return (left_border + right_border) / 2;
 }
@@ -263,7 +263,7 @@ double SteepestDescentMethod::Localization(
             point[i] = init_parameters[i] + step*direction[i];
         }       		
     } while ((CountObjectiveFunctionValueToMinimize(point) > CountObjectiveFunctionValueToMinimize(init_parameters))
-        && (abs(step) > precision_));
+        && (std::abs(step) > precision_));
 
 
     vector<double> next_step_point(point);
-- 
2.43.0


From bdb280ac3cb7e1e18cf167ed5b6c56bf64519d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 22/51] fix: steepest descent searches the located interval,
 not one scaled by the gradient

---
 src/optimization/steepest_descent_method.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index f441b81..776d42f 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -279,13 +279,8 @@ double SteepestDescentMethod::Localization(
         
     } while (CountObjectiveFunctionValueToMinimize(next_step_point) <= CountObjectiveFunctionValueToMinimize(point));
 
-    double final_step = 0;
-    for (size_t i = 0; i < next_step_point.size(); ++i)
-    {
-        final_step += (next_step_point[i] - init_parameters[i])*(next_step_point[i] - init_parameters[i]);
-    }
-
-    return sqrt(final_step);
+    //The step is measured in lengths of the direction, not in distance
+    return step;
 }
 
 }//optimization
-- 
2.43.0


From 12ad6245899ed1de85a410c7d21ec1bc73a15ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 23/51] fix: steepest descent started at the optimum does not
 return NaN

---
 src/optimization/steepest_descent_method.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/optimization/steepest_descent_method.cpp b/src/optimization/steepest_descent_method.cpp
index 776d42f..c845061 100644
--- a/src/optimization/steepest_descent_method.cpp
+++ b/src/optimization/steepest_descent_method.cpp
@@ -73,6 +73,12 @@ vector<double> SteepestDescentMethod::FindOptimalParameters(const vector<double>
     size_t counter = 0;
     double lambda = 1; 
 
+    if (IsExitCriteriaFulfilled(parameters))
+    {
+        //There is no direction to descend
+        return parameters;
+    }
+
     vector<double> next_step_parameters(parameters);
     do
     {
-- 
2.43.0


From af58eac814ea0b8dad9eea95c39b79894c2ea7f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 24/51] fix: conjugate gradient method started at the optimum
 returns it instead of throwing

---
 src/optimization/conjugate_gradient_method.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 0dee546..2042507 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -79,6 +79,16 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
     double exit = 0;
     size_t iteration = 1;
 
+    for (size_t i = 0; i<gradient.size(); i++)
+    {
+        exit += pow(gradient[i], 2);
+    }
+    if (sqrt(exit) < precision_)
+    {
+        //Initial parameters are already optimal
+        return parameters;
+    }
+
     //http://en.wikipedia.org/wiki/Nonlinear_conjugate_gradient_method
     do
     {
-- 
2.43.0


From 920cdd69540fc4ba9212a46fa051ad19b95077a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:21 +0000
Subject: [PATCH 25/51] fix: Hooke-Jeeves method does not follow patterns
 caused by rounding

---
 src/optimization/hooke_jeeves_method.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/hooke_jeeves_method.cpp b/src/optimization/hooke_jeeves_method.cpp
index 5d8b562..de594e7 100644
--- a/src/optimization/hooke_jeeves_method.cpp
+++ b/src/optimization/hooke_jeeves_method.cpp
@@ -102,7 +102,8 @@ vector<double> HookeJeevesMethod::FindOptimalParameters(const vector<double>& in
             next_step_arguments_after_search = CoordinatewiseSearch(next_step_arguments, steps_array);
 
             arguments = arguments_after_search;
-            if (CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
+            if (common::FloatingPoint::AreEqual(arguments_after_search, next_step_arguments_after_search) ||
+                CountObjectiveFunctionValueToMinimize(arguments_after_search) <=
                     CountObjectiveFunctionValueToMinimize(next_step_arguments_after_search))
             {
                 break;
-- 
2.43.0


From b7bb0bf7a90ca848a59c4daa4a0716b8a52c0491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:19 +0000
Subject: [PATCH 26/51] fix: refuse to search among no points with an optimizer

---
 src/optimization/optimization_parameters_processor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/optimization/optimization_parameters_processor.cpp b/src/optimization/optimization_parameters_processor.cpp
index 02aa245..f7b5d16 100644
--- a/src/optimization/optimization_parameters_processor.cpp
+++ b/src/optimization/optimization_parameters_processor.cpp
@@ -29,6 +29,10 @@ IParameters::shared_ptr OptimizationParametersProcessor::ProcessParameters(
     const std::vector< IParameters::shared_ptr >& parameters,
     bool maximize)
 {
+    if(parameters.size() < 1)
+    {
+        throw std::invalid_argument("parameters should contain at least one element in vector");
+    }
     std::vector< OptimizationTask::shared_ptr > tasks (parameters.size());
     std::vector< const parallel::ITask* > task_pointers (parameters.size());
     for(size_t i=0; i<parameters.size(); i++)
-- 
2.43.0


From b01c4e575f78e60cfe54c0c91671e580998b2b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:07 +0000
Subject: [PATCH 27/51] fix: rounding does not make the mutation probability
 negative

---
 src/optimization/genetic_algorithm/linear_mutator.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/linear_mutator.cpp b/src/optimization/genetic_algorithm/linear_mutator.cpp
index 3575311..3142766 100644
--- a/src/optimization/genetic_algorithm/linear_mutator.cpp
+++ b/src/optimization/genetic_algorithm/linear_mutator.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <stdexcept>
 #include <k52/common/random.h>
 #include <k52/optimization/linear_mutator.h>
@@ -30,7 +31,10 @@ double LinearMutator::GetCurrentGenMutationProbability()
         //There is only one generation
         return start_mutation_value_;
     }
-    return (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    double probability = (end_mutation_value_ - start_mutation_value_) * current / max + start_mutation_value_;
+    //Rounding must not carry the probability out of the interval
+    return std::min(std::max(start_mutation_value_, end_mutation_value_),
+        std::max(std::min(start_mutation_value_, end_mutation_value_), probability));
 }
 }/* namespace optimization */
 }/* namespace k52 */
-- 
2.43.0


From 3a810cd1b913b179f70b9795dc21784a0462ee24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:34 +0000
Subject: [PATCH 28/51] fix: random search draws only points that satisfy the
 constraints

---
 src/optimization/random_search.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/optimization/random_search.cpp b/src/optimization/random_search.cpp
index ec883b3..585def1 100644
--- a/src/optimization/random_search.cpp
+++ b/src/optimization/random_search.cpp
@@ -46,7 +46,10 @@ vector<double> RandomSearch::FindOptimalParameters(const vector<double>& initial
     for(size_t i=0; i<number_of_random_points_; i++)
     {
         IContinuousParameters::shared_ptr tmp = IContinuousParameters::shared_ptr(get_parameters_to_optimize()->Clone());
-        tmp->SetValues(Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_));
+        do
+        {
+            tmp->SetValues(Random::Instance().GenerateRandomVector(vector_size, lower_bound_, upper_bound_));
+        } while (!tmp->CheckConstraints());
         random_parameters[i] = tmp;
     }
 
-- 
2.43.0


From 02ce6bae5742bfaaf55a9f705d7a8b940be10e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:57 +0000
Subject: [PATCH 29/51] fix: MpiWorkerPool::DoTasks sent some tasks before it
 refused another

The results of the tasks already sent were left in transit, and were taken
for the results of the next batch.
---
 src/parallel/mpi/mpi_worker_pool.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parallel/mpi/mpi_worker_pool.cpp b/src/parallel/mpi/mpi_worker_pool.cpp
index 2eaaae2..194aff3 100644
--- a/src/parallel/mpi/mpi_worker_pool.cpp
+++ b/src/parallel/mpi/mpi_worker_pool.cpp
@@ -56,6 +56,14 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
     CheckIfServer();
     CheckAvailableWorkers();
 
+    // All tasks are checked before the first one is sent: results of the tasks
+    // already sent would never be received otherwise
+    std::vector<const IMpiTask*> mpi_tasks(tasks.size());
+    for(size_t i = 0; i < tasks.size(); i++)
+    {
+        mpi_tasks[i] = GetMpiTask(tasks[i]);
+    }
+
     int current_worker_rank = 1;
     bool was_first_part_sent = false;
 
@@ -64,8 +72,7 @@ std::vector< ITaskResult::shared_ptr > MpiWorkerPool::DoTasks (const std::vector
 
     for(size_t i = 0; i < tasks.size(); i++)
     {
-        const IMpiTask* current_task = GetMpiTask(tasks[i]);
-        ResultExpectation task_expectation = SendTask(current_task, current_worker_rank, &(results[i]));
+        ResultExpectation task_expectation = SendTask(mpi_tasks[i], current_worker_rank, &(results[i]));
         result_expectations.push_back( task_expectation );
 
         if(!was_first_part_sent)
-- 
2.43.0


From ecc47f26bc42e40154770920311808bf0a936196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 30/51] fix: no best worker pool could be created if the number
 of processors is not known

boost::thread::hardware_concurrency() returns 0 then, and the thread pool threw
invalid_argument, although the sequential pool could have been used.
---
 src/parallel/thread/thread_worker_pool_templated.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8be88ad..f70a959 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -38,6 +38,11 @@ template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated()
 {
     number_of_workers_ = boost::thread::hardware_concurrency();
+    if(number_of_workers_ == 0)
+    {
+        //The number of processors is not known
+        number_of_workers_ = 1;
+    }
     Initialize();
 }
 
-- 
2.43.0


From d11541cc5149dad56a5ad210662fc6d46e0680d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:23 +0000
Subject: [PATCH 31/51] fix: workers kept running on destroyed queues if a
 thread could not be created

The destructor of the pool is not called if its constructor fails.
---
 .../thread/thread_worker_pool_templated.h     | 24 +++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index f70a959..1d08116 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -104,9 +104,29 @@ void ThreadWorkerPoolTemplated<TTask>::Initialize()
 
     workers_ = new Worker<TTask> [number_of_workers_];
 
-    for(int i=0; i<number_of_workers_; i++)
+    int number_of_started_workers = 0;
+    try
+    {
+        for(; number_of_started_workers<number_of_workers_; number_of_started_workers++)
+        {
+            workers_[number_of_started_workers].Start(&tasks_to_do_, &done_tasks_);
+        }
+    }
+    catch(...)
     {
-        workers_[i].Start(&tasks_to_do_, &done_tasks_);
+        //The workers that were started must not outlive the queues
+        for(int i=0; i<number_of_started_workers; i++)
+        {
+            workers_[i].Stop();
+        }
+
+        for(int i=0; i<number_of_started_workers; i++)
+        {
+            workers_[i].Join();
+        }
+
+        delete [] workers_;
+        throw;
     }
 }
 
-- 
2.43.0


From f8aeb8ad023e3cf98eed33eb23b72453b222b008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:13 +0000
Subject: [PATCH 32/51] fix: asking the cache for a missing key stored an empty
 entry

The empty entries counted for the memory limit, so that values were evicted
although the values stored were far from it.
---
 include/k52/common/cache.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/k52/common/cache.h b/include/k52/common/cache.h
index bebf1ce..a556fd9 100644
--- a/include/k52/common/cache.h
+++ b/include/k52/common/cache.h
@@ -75,18 +75,18 @@ typename Cache<TKey, TValue>::shared_ptr Cache<TKey, TValue>::Create(double data
 template <typename TKey, typename TValue>
 bool Cache<TKey, TValue>::IsCached(const TKey& key)
 {
-    StoredValue<TValue> stored_value = cache_map_[key];
-    return stored_value.has_value();
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    return it != cache_map_.end() && it->second.has_value();
 }
 
 template <typename TKey, typename TValue>
 TValue Cache<TKey, TValue>::GetCachedValue(const TKey& key)
 {
-    StoredValue<TValue>& stored_value = cache_map_[key];
-    if (stored_value.has_value())
+    typename Cache<TKey, TValue>::cache_map_type::iterator it = cache_map_.find(key);
+    if (it != cache_map_.end() && it->second.has_value())
     {
-        stored_value.IncrementUsage();
-        return stored_value.get_value();
+        it->second.IncrementUsage();
+        return it->second.get_value();
     }
     else
     {
-- 
2.43.0


From 7033d6f704305c653bf3cac223b01d32a4b9cca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:24 +0000
Subject: [PATCH 33/51] fix: the fitness of a chromosome was used for others
 with the same hash

The cache of fitness values was keyed by the hash of the chromosome only.
---
 src/optimization/objective_function_counter.cpp | 9 ++++-----
 src/optimization/objective_function_counter.h   | 3 +--
 2 files changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/optimization/objective_function_counter.cpp b/src/optimization/objective_function_counter.cpp
index f5dee16..37ff079 100644
--- a/src/optimization/objective_function_counter.cpp
+++ b/src/optimization/objective_function_counter.cpp
@@ -98,11 +98,11 @@ void ObjectiveFunctionCounter::ProcessPopulation(
     {
         if (cache_)
         {
-            size_t chromosome_hash_value = chromosome_hash_function_( ((*population)[i])->GetChromosome() );
+            const ChromosomeType& chromosome = ((*population)[i])->GetChromosome();
 
-            if (cache_->IsCached(chromosome_hash_value))
+            if (cache_->IsCached(chromosome))
             {
-                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome_hash_value));
+                ((*population)[i])->set_fitness(cache_->GetCachedValue(chromosome));
                 cache_hits_ ++;
                 continue;
             }
@@ -168,8 +168,7 @@ void ObjectiveFunctionCounter::AddNewCacheValues(
     {
         Individual::shared_ptr current_individ = (*population)[ new_cache_indexes[i] ];
         double fitness_value = current_individ->get_fitness();
-        size_t chromosome_hash_value = chromosome_hash_function_( current_individ->GetChromosome() );
-        value_records.push_back(FitnessCache::CacheRecord(chromosome_hash_value, fitness_value));
+        value_records.push_back(FitnessCache::CacheRecord(current_individ->GetChromosome(), fitness_value));
     }
 
     cache_->AddValues(value_records);
diff --git a/src/optimization/objective_function_counter.h b/src/optimization/objective_function_counter.h
index eb6e916..94953ea 100644
--- a/src/optimization/objective_function_counter.h
+++ b/src/optimization/objective_function_counter.h
@@ -25,7 +25,7 @@ class ObjectiveFunctionCounter
 {
 public:
     typedef boost::shared_ptr<ObjectiveFunctionCounter> shared_ptr;
-    typedef k52::common::Cache<std::size_t, double> FitnessCache;
+    typedef k52::common::Cache<ChromosomeType, double> FitnessCache;
 
     explicit ObjectiveFunctionCounter(double cache_data_limit_in_megabytes);
 
@@ -69,7 +69,6 @@ private:
     k52::parallel::IWorkerPool::shared_ptr fitness_worker_pool_;
     double cache_data_limit_in_megabytes_;
     FitnessCache::shared_ptr cache_;
-    boost::hash< ChromosomeType > chromosome_hash_function_;
     int objective_function_counts_;
     int cache_hits_;
 
-- 
2.43.0


From cc3e7a4e15444288cca9e7d103d7bcf80fff5375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:30 +0000
Subject: [PATCH 34/51] fix: an interrupted thread waits for its batch and
 joins its workers before it leaves

When the thread that waited for a batch was interrupted, DoTasks left while the
workers were still writing to its results, and the done tasks were counted for
the next batch. Interrupted in the destructor of the pool, the program was
terminated.
---
 src/parallel/thread/thread_worker_pool_templated.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 1d08116..8030d4c 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -56,6 +56,9 @@ ThreadWorkerPoolTemplated<TTask>::ThreadWorkerPoolTemplated(int number_of_worker
 template <class TTask>
 ThreadWorkerPoolTemplated<TTask>::~ThreadWorkerPoolTemplated()
 {
+    //The workers must be joined, also if this thread is interrupted
+    boost::this_thread::disable_interruption no_interruption;
+
     for(int i=0; i<number_of_workers_; i++)
     {
         workers_[i].Stop();
@@ -79,6 +82,10 @@ int ThreadWorkerPoolTemplated<TTask>::get_number_of_workers() const
 template <class TTask>
 void ThreadWorkerPoolTemplated<TTask>::DoTasks(std::queue<TTask> tasks)
 {
+    //The tasks refer to objects of the caller, so it must not leave before all of
+    //them are done. An interruption stays pending.
+    boost::this_thread::disable_interruption no_interruption;
+
     int n = tasks.size();
 
     while(!tasks.empty())
@@ -115,6 +122,8 @@ void ThreadWorkerPoolTemplated<TTask>::Initialize()
     catch(...)
     {
         //The workers that were started must not outlive the queues
+        boost::this_thread::disable_interruption no_interruption;
+
         for(int i=0; i<number_of_started_workers; i++)
         {
             workers_[i].Stop();
-- 
2.43.0


From 531882cecfbc15b3bec6d300f35ad547f5bc33a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:42 +0000
Subject: [PATCH 35/51] fix: discrete random quantities of ranges with more
 values than int can count

The number of values overflowed: the range of all int ended in a division by
zero, and for others most values were never given.
---
 src/common/random.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/common/random.cpp b/src/common/random.cpp
index dc595a0..8c17e30 100644
--- a/src/common/random.cpp
+++ b/src/common/random.cpp
@@ -57,7 +57,22 @@ bool Random::GetRandomBool()
 
 int Random::GetUniformlyDistributedDiscreteRandomQuantity(int min_value, int max_value)
 {
-    return rand() % (max_value-min_value+1) + min_value;
+    if (min_value > max_value)
+    {
+        throw std::invalid_argument("min_value > max_value");
+    }
+
+    //There may be more values than int can count or than the generator has answers
+    const unsigned long long number_of_values = static_cast<long long>(max_value) - min_value + 1;
+    const unsigned long long number_of_answers = static_cast<unsigned long long>(RAND_MAX) + 1;
+
+    unsigned long long quantity = rand();
+    for (unsigned long long reached = number_of_answers; reached < number_of_values; reached *= number_of_answers)
+    {
+        quantity = quantity * number_of_answers + rand();
+    }
+
+    return static_cast<int>(static_cast<long long>(quantity % number_of_values) + min_value);
 }
 
 bool Random::CheckEventOutcome(double event_probability)
-- 
2.43.0


From 6026ae69e622ba4cdd04d56541c5646ca30b1de6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 36/51] fix: AkimaSpline stays as it was if memory runs out
 while it is trained

---
 src/dsp/akima_spline.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/dsp/akima_spline.cpp b/src/dsp/akima_spline.cpp
index 5eb0d34..b432ba6 100644
--- a/src/dsp/akima_spline.cpp
+++ b/src/dsp/akima_spline.cpp
@@ -37,10 +37,15 @@ void AkimaSpline::Initialize(const std::vector<double>& train_x, const std::vect
         throw std::invalid_argument("The training points are inconsistent");
     }
 
-    train_x_ = train_x;
-    train_y_ = train_y;
-
-    ReestimatePolynomials();
+    //The spline stays as it was if something fails on the way
+    AkimaSpline trained;
+    trained.train_x_ = train_x;
+    trained.train_y_ = train_y;
+    trained.ReestimatePolynomials();
+
+    train_x_.swap(trained.train_x_);
+    train_y_.swap(trained.train_y_);
+    coeffs_.swap(trained.coeffs_);
 }
 
 double AkimaSpline::Value(double x)
-- 
2.43.0


From 9407312266de5a9edf5fd2d61df88f0daea80c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 37/51] fix: do not lose the clone of parameters that cannot be
 completed

---
 src/optimization/params/composite_discrete_parameters.cpp | 6 ++++--
 src/optimization/params/continuous_parameters_array.cpp   | 4 +---
 src/optimization/params/double_parameter.cpp              | 6 ++++--
 src/optimization/params/double_parameters_array.cpp       | 6 ++++--
 4 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index b117c77..9e62b29 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 
+#include <boost/move/unique_ptr.hpp>
+
 namespace k52
 {
 namespace optimization
@@ -11,9 +13,9 @@ CompositeDiscreteParameters* CompositeDiscreteParameters::Clone() const
 {
     initialization_checker_.InitializationCheck();
 
-    CompositeDiscreteParameters* clone = new CompositeDiscreteParameters();
+    boost::movelib::unique_ptr<CompositeDiscreteParameters> clone(new CompositeDiscreteParameters());
     clone->Initialize(parameters_set_);
-    return clone;
+    return clone.release();
 }
 
 bool CompositeDiscreteParameters::HasSameMetaParameters(const IDiscreteParameters* parameters) const
diff --git a/src/optimization/params/continuous_parameters_array.cpp b/src/optimization/params/continuous_parameters_array.cpp
index ae1c2b2..8b83651 100644
--- a/src/optimization/params/continuous_parameters_array.cpp
+++ b/src/optimization/params/continuous_parameters_array.cpp
@@ -46,9 +46,7 @@ std::vector<double> ContinuousParametersArray::GetValues() const
 
 ContinuousParametersArray *ContinuousParametersArray::Clone() const
 {
-    ContinuousParametersArray* clone = new ContinuousParametersArray(values_.size());
-    clone->values_ = values_;
-    return clone;
+    return new ContinuousParametersArray(values_);
 }
 
 bool ContinuousParametersArray::CheckConstraints() const
diff --git a/src/optimization/params/double_parameter.cpp b/src/optimization/params/double_parameter.cpp
index 503e79e..50ff418 100644
--- a/src/optimization/params/double_parameter.cpp
+++ b/src/optimization/params/double_parameter.cpp
@@ -4,6 +4,8 @@
 #include <cmath>
 #include <stdexcept>
 
+#include <boost/move/unique_ptr.hpp>
+
 namespace k52
 {
 namespace optimization
@@ -43,7 +45,7 @@ DoubleParameter::DoubleParameter(double desired_value, double min_value, double
 
 DoubleParameter* DoubleParameter::Clone() const
 {
-    DoubleParameter* clone = new DoubleParameter();
+    boost::movelib::unique_ptr<DoubleParameter> clone(new DoubleParameter());
 
     clone->CopyState(this);
     clone->max_value_ = this->max_value_;
@@ -59,7 +61,7 @@ DoubleParameter* DoubleParameter::Clone() const
         clone->base_int_parameter_ = IntParameter::shared_ptr();
     }
 
-    return clone;
+    return clone.release();
 }
 
 bool DoubleParameter::HasSameMetaParameters(const IDiscreteParameters* parameters) const
diff --git a/src/optimization/params/double_parameters_array.cpp b/src/optimization/params/double_parameters_array.cpp
index 69ac54e..a2a33b0 100644
--- a/src/optimization/params/double_parameters_array.cpp
+++ b/src/optimization/params/double_parameters_array.cpp
@@ -2,6 +2,8 @@
 
 #include <stdexcept>
 
+#include <boost/move/unique_ptr.hpp>
+
 namespace k52
 {
 namespace optimization
@@ -19,7 +21,7 @@ DoubleParametersArray::DoubleParametersArray(double min_value,
 
 DoubleParametersArray* DoubleParametersArray::Clone() const
 {
-    DoubleParametersArray* clone = new DoubleParametersArray();
+    boost::movelib::unique_ptr<DoubleParametersArray> clone(new DoubleParametersArray());
     clone->values_ = values_;
 
     clone->sample_parameter_ = sample_parameter_ != NULL ?
@@ -28,7 +30,7 @@ DoubleParametersArray* DoubleParametersArray::Clone() const
 
     clone->SetConstChromosomeSize(CountTotalChromosomeSize());
 
-    return clone;
+    return clone.release();
 }
 
 bool DoubleParametersArray::HasSameMetaParameters(const IDiscreteParameters* parameters) const
-- 
2.43.0


From 75558f851a7012cb9c25b03eb289b2232a2cd691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 38/51] fix: report that FFTW has no memory or no plan for a
 transform

---
 src/dsp/transform/fast_fourier_transform.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/dsp/transform/fast_fourier_transform.cpp b/src/dsp/transform/fast_fourier_transform.cpp
index 8ca0091..eb0797e 100644
--- a/src/dsp/transform/fast_fourier_transform.cpp
+++ b/src/dsp/transform/fast_fourier_transform.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/fast_fourier_transform.h>
+#include <new>
 #include <stdexcept>
 
 #ifdef BUILD_WITH_FFTW3
@@ -36,7 +37,20 @@ public:
 
         in_ = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * sequence_size_);
         out_ = (fftw_complex*) fftw_malloc(sizeof(fftw_complex) * sequence_size_);
+        if(in_ == NULL || out_ == NULL)
+        {
+            fftw_free(in_);
+            fftw_free(out_);
+            throw std::bad_alloc();
+        }
+
         plan_ = fftw_plan_dft_1d(sequence_size_, in_, out_, FFTW_FORWARD, FFTW_PATIENT);
+        if(plan_ == NULL)
+        {
+            fftw_free(in_);
+            fftw_free(out_);
+            throw std::runtime_error("FFTW could not create a plan");
+        }
     }
 
     ~FastFourierTransformImpl()
-- 
2.43.0


From 7edabf7bd4034334eea4630d69a6bac9863cc797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 39/51] fix: a batch that cannot be queued completely waits for
 its queued tasks

---
 .../thread/thread_worker_pool_templated.h     | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/parallel/thread/thread_worker_pool_templated.h b/src/parallel/thread/thread_worker_pool_templated.h
index 8030d4c..27847ae 100644
--- a/src/parallel/thread/thread_worker_pool_templated.h
+++ b/src/parallel/thread/thread_worker_pool_templated.h
@@ -25,6 +25,7 @@ public:
 
 private:
     void Initialize();
+    void WaitForTasks(int number_of_tasks);
 
     int number_of_workers_;
     Worker<TTask>* workers_;
@@ -86,15 +87,29 @@ void ThreadWorkerPoolTemplated<TTask>::DoTasks(std::queue<TTask> tasks)
     //them are done. An interruption stays pending.
     boost::this_thread::disable_interruption no_interruption;
 
-    int n = tasks.size();
+    int n = 0;
 
-    while(!tasks.empty())
+    try
     {
-        tasks_to_do_.Push(tasks.front());
-        tasks.pop();
+        for(; !tasks.empty(); n++)
+        {
+            tasks_to_do_.Push(tasks.front());
+            tasks.pop();
+        }
     }
+    catch(...)
+    {
+        WaitForTasks(n);
+        throw;
+    }
+
+    WaitForTasks(n);
+}
 
-    for(int i=0; i<n; i++)
+template <class TTask>
+void ThreadWorkerPoolTemplated<TTask>::WaitForTasks(int number_of_tasks)
+{
+    for(int i=0; i<number_of_tasks; i++)
     {
         TTask done_task;
         done_tasks_.WaitAndPop(done_task);
-- 
2.43.0


From 700d3236e8ddcbdfed65960c15c3089fc5ad5b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:13 +0000
Subject: [PATCH 40/51] fix: a worker without memory does not lose a task that
 is done

---
 src/parallel/thread/worker.h | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/parallel/thread/worker.h b/src/parallel/thread/worker.h
index be96347..8b6a584 100644
--- a/src/parallel/thread/worker.h
+++ b/src/parallel/thread/worker.h
@@ -4,6 +4,7 @@
 #ifdef BUILD_WITH_BOOST_THREAD
 
 #include <iostream>
+#include <new>
 #include <k52/common/disallow_copy_and_assign.h>
 #include "thread_safe_queue.h"
 
@@ -25,6 +26,7 @@ public:
 
 protected:
     void ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, ThreadSafeQueue<TTask>* done_tasks);
+    void PushDoneTask(const TTask& done_task, ThreadSafeQueue<TTask>* done_tasks);
 
 private:
     boost::thread thread_;
@@ -61,7 +63,7 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
             TTask to_do;
             tasks_to_do->WaitAndPop(to_do);
             to_do.DoTask();
-            done_tasks->Push(to_do);
+            PushDoneTask(to_do, done_tasks);
         }
         catch(boost::thread_interrupted&)
         {
@@ -85,6 +87,24 @@ void Worker<TTask>::ProcessTasksQueue(ThreadSafeQueue<TTask>* tasks_to_do, Threa
     }
 }
 
+template <class TTask>
+void Worker<TTask>::PushDoneTask(const TTask& done_task, ThreadSafeQueue<TTask>* done_tasks)
+{
+    //The pool waits for all of the tasks, so none may get lost if memory runs out
+    while(true)
+    {
+        try
+        {
+            done_tasks->Push(done_task);
+            break;
+        }
+        catch(const std::bad_alloc&)
+        {
+            boost::this_thread::yield();
+        }
+    }
+}
+
 } /* namespace thread */
 } /* namespace parallel */
 } /* namespace k52 */
-- 
2.43.0


From 9c477048d1c6f13bc4d4a7aa198d1a7fbcb9e960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 41/51] fix: CompositeDiscreteParameters: an initialization
 that is refused or fails leaves the parameters as they were

---
 .../params/composite_discrete_parameters.h    |  4 +-
 .../params/composite_discrete_parameters.cpp  | 37 +++++++++++--------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/include/k52/optimization/params/composite_discrete_parameters.h b/include/k52/optimization/params/composite_discrete_parameters.h
index 198a9a6..7e5a6c3 100644
--- a/include/k52/optimization/params/composite_discrete_parameters.h
+++ b/include/k52/optimization/params/composite_discrete_parameters.h
@@ -35,7 +35,9 @@ public:
     const IDiscreteParameters::shared_ptr GetParameter(size_t index) const;
 
 private:
-    size_t CountTotalChromosomeSize() const;
+    void SetParametersSet(std::vector<IDiscreteParameters::shared_ptr>* parameters_set);
+
+    static size_t CountTotalChromosomeSize(const std::vector<IDiscreteParameters::shared_ptr>& parameters_set);
 
     std::vector<IDiscreteParameters::shared_ptr> parameters_set_;
     InitializationChecker initialization_checker_;
diff --git a/src/optimization/params/composite_discrete_parameters.cpp b/src/optimization/params/composite_discrete_parameters.cpp
index 9e62b29..45ff74e 100644
--- a/src/optimization/params/composite_discrete_parameters.cpp
+++ b/src/optimization/params/composite_discrete_parameters.cpp
@@ -83,30 +83,26 @@ void CompositeDiscreteParameters::SetFromChromosome(ChromosomeType::const_iterat
 
 void CompositeDiscreteParameters::Initialize(const std::vector<IDiscreteParameters::shared_ptr>& parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(parameters.size());
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(parameters.size());
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(parameters[i]->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
+    SetParametersSet(&parameters_set);
 }
 
 void CompositeDiscreteParameters::Initialize(const IDiscreteParameters::shared_ptr& sample_parameter, size_t number_of_parameters)
 {
-    parameters_set_ = std::vector<IDiscreteParameters::shared_ptr>(number_of_parameters);
+    std::vector<IDiscreteParameters::shared_ptr> parameters_set(number_of_parameters);
 
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        parameters_set_[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
+        parameters_set[i] = IDiscreteParameters::shared_ptr(sample_parameter->Clone());
     }
 
-    this->SetConstChromosomeSize( CountTotalChromosomeSize() );
-
-    initialization_checker_.SetInitialized();
+    SetParametersSet(&parameters_set);
 }
 
 size_t CompositeDiscreteParameters::GetNumberOfParameters() const
@@ -128,12 +124,23 @@ const IDiscreteParameters::shared_ptr CompositeDiscreteParameters::GetParameter(
     return parameters_set_[index];
 }
 
-size_t CompositeDiscreteParameters::CountTotalChromosomeSize() const
+void CompositeDiscreteParameters::SetParametersSet(std::vector<IDiscreteParameters::shared_ptr>* parameters_set)
+{
+    //Refused if it is already initialized, so nothing may be changed before
+    this->SetConstChromosomeSize( CountTotalChromosomeSize(*parameters_set) );
+
+    parameters_set_.swap(*parameters_set);
+
+    initialization_checker_.SetInitialized();
+}
+
+size_t CompositeDiscreteParameters::CountTotalChromosomeSize(
+    const std::vector<IDiscreteParameters::shared_ptr>& parameters_set)
 {
     size_t total_chromosome_size = 0;
-    for(size_t i=0; i<parameters_set_.size(); i++)
+    for(size_t i=0; i<parameters_set.size(); i++)
     {
-        total_chromosome_size += parameters_set_[i]->GetChromosomeSize();
+        total_chromosome_size += parameters_set[i]->GetChromosomeSize();
     }
     return total_chromosome_size;
 }
-- 
2.43.0


From 8579b401c55dee46851b906a1296cc3deb16ee4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 42/51] fix: GeneticAlgorithm::SetInitialParameters keeps the
 previous parameters if one cannot be cloned

---
 src/optimization/genetic_algorithm/genetic_algorithm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/genetic_algorithm.cpp b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
index 7f313f6..df6b43c 100644
--- a/src/optimization/genetic_algorithm/genetic_algorithm.cpp
+++ b/src/optimization/genetic_algorithm/genetic_algorithm.cpp
@@ -147,13 +147,15 @@ void GeneticAlgorithm::Optimize(const DiscreteObjectiveFunction &function_to_opt
 void GeneticAlgorithm::SetInitialParameters(std::vector<IDiscreteParameters::shared_ptr> initial_parameters)
 {
     //The number of initial parameters is checked when the population is initialized
-    initial_parameters_ = std::vector<IDiscreteParameters::shared_ptr>(initial_parameters.size());
+    //The previous ones are kept if one of these cannot be cloned
+    std::vector<IDiscreteParameters::shared_ptr> clones(initial_parameters.size());
 
     for (std::size_t i = 0; i < initial_parameters.size(); ++i)
     {
-        initial_parameters_[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
+        clones[i] = IDiscreteParameters::shared_ptr((initial_parameters[i])->Clone());
     }
 
+    initial_parameters_.swap(clones);
     were_initial_parameters_set_ = true;
 }
 
-- 
2.43.0


From b2ad4988ab45397a72f678018a4072b003f197a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 43/51] fix: Wavelet::createWavelet leaves the wavelet as it
 was if it fails

---
 src/dsp/wavelet.cpp | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/dsp/wavelet.cpp b/src/dsp/wavelet.cpp
index 0962d16..99e6092 100644
--- a/src/dsp/wavelet.cpp
+++ b/src/dsp/wavelet.cpp
@@ -43,37 +43,45 @@ void Wavelet::createWavelet(ScaleType type)
         throw "The base function has been never set for the wavelet\n";
     }
 
+    // The wavelet stays as it was if something fails on the way
+    Wavelet created;
+    created.count(count());
+    created.max_lenght(max_lenght());
+    created.min_lenght(min_lenght());
+
     // prepare real part vector
-    real_part_.clear();
-    real_part_.resize(count());
+    created.real_part_.resize(count());
     for(int i = 0; i < count(); ++i)
     {
-        real_part_[i].resize(max_lenght());
+        created.real_part_[i].resize(max_lenght());
     }
 
     // prepare imaginary part vector
-    imaj_part_.clear();
-    imaj_part_.resize(count());
+    created.imaj_part_.resize(count());
     for(int i = 0; i < count(); ++i)
     {
-        imaj_part_[i].resize(max_lenght());
+        created.imaj_part_[i].resize(max_lenght());
     }
 
     // prepare Scale
-    createScale(type);
+    created.createScale(type);
 
     for (int i = 0; i < count(); ++i)
     {
         for (int j = 0; j < max_lenght(); ++j)
         {
-            double x = (j - (max_lenght() / 2.0)) * scale_[i];
+            double x = (j - (max_lenght() / 2.0)) * created.scale_[i];
             x = (x * 4) / (max_lenght() / 2);
 
             std::complex<double> base_function_value = base_function_->GetValue(x);
-            real_part_[i][j] = base_function_value.real();
-            imaj_part_[i][j] = base_function_value.imag();
+            created.real_part_[i][j] = base_function_value.real();
+            created.imaj_part_[i][j] = base_function_value.imag();
         }
     }
+
+    real_part_.swap(created.real_part_);
+    imaj_part_.swap(created.imaj_part_);
+    scale_.swap(created.scale_);
 }
 
 void Wavelet::createScale(ScaleType type)
-- 
2.43.0


From 969f146e851ad7c18e5d13b579c46f636b384ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 44/51] fix: Individual: an initialization or assignment that
 is refused or fails has no effect

---
 .../genetic_algorithm/individual.cpp            | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 70e0e24..480ee2d 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -44,12 +44,14 @@ Individual& Individual::operator=(const Individual & a)
 {
     if (this != &a) // protect against invalid self-assignment
     {
+        ChromosomeType chromosome = a.chromosome_;
+
         if(a.parameters_ != NULL)
         {
             parameters_ = IDiscreteParameters::shared_ptr( a.parameters_->Clone() );
         }
 
-        chromosome_ = a.chromosome_;
+        chromosome_.swap(chromosome);
         initialization_checker_ = a.initialization_checker_;
         fitness_ = a.fitness_;
         has_fitness_ = a.has_fitness_;
@@ -61,14 +63,17 @@ Individual& Individual::operator=(const Individual & a)
 
 void Individual::Initialize(const IDiscreteParameters* const parameters)
 {
-    parameters_ = IDiscreteParameters::shared_ptr(parameters->Clone());
-    chromosome_ = ChromosomeType ( parameters_->GetChromosomeSize() );
-    parameters->SetChromosome(chromosome_.begin(), chromosome_.end());
+    IDiscreteParameters::shared_ptr own_parameters(parameters->Clone());
+    ChromosomeType chromosome( own_parameters->GetChromosomeSize() );
+    parameters->SetChromosome(chromosome.begin(), chromosome.end());
+
+    //Refused if it is already initialized, so nothing may be changed before
+    initialization_checker_.SetInitialized();
 
+    parameters_ = own_parameters;
+    chromosome_.swap(chromosome);
     has_fitness_ = false;
     times_chosen_for_crossover_ = 0;
-
-    initialization_checker_.SetInitialized();
 }
 
 const IDiscreteParameters* const Individual::GetParametersAccordingToChromosome() const
-- 
2.43.0


From 56185333542c14c4b6078ef3db6e99463fea3fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 45/51] fix: an individual read with a negative fitness is
 refused without changing its chromosome

---
 src/optimization/genetic_algorithm/individual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 480ee2d..51ecf88 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -302,8 +302,9 @@ std::istream& operator>> (std::istream& in, Individual& individual)
         }
     }
 
-    individual.chromosome_ = new_chromosome;
+    //Refuses negative fitness, so nothing may be changed before
     individual.set_fitness(fitness);
+    individual.chromosome_ = new_chromosome;
     individual.SetParametersAccordingToChromosome();
 
     return in;
-- 
2.43.0


From 6baabe4519ec1ed3b06176ae9a800286d9a217a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:06:01 +0000
Subject: [PATCH 46/51] fix: a refused crossover keeps the fitness of both
 individuals

---
 src/optimization/genetic_algorithm/individual.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 51ecf88..27b80bd 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -123,12 +123,12 @@ bool Individual::Crossover(Individual* another)
 {
     initialization_checker_.InitializationCheck();
 
+    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
+
     //TODO check if Individual has changed
     another->has_fitness_ = false;
     this->has_fitness_ = false;
 
-    BoolCrossover(&(this->chromosome_), &(another->chromosome_));
-
     this->SetParametersAccordingToChromosome();
     another->SetParametersAccordingToChromosome();
 
-- 
2.43.0


From d21d822cda6db2b1b60edb7688d04e2456fe75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:57:32 +0000
Subject: [PATCH 47/51] fix: a mutator that was not given a mutation context
 mutates as in the first generation

---
 include/k52/optimization/gen_mutator_base.h             | 3 +++
 src/optimization/genetic_algorithm/gen_mutator_base.cpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/k52/optimization/gen_mutator_base.h b/include/k52/optimization/gen_mutator_base.h
index aa16445..b0cf1f1 100644
--- a/include/k52/optimization/gen_mutator_base.h
+++ b/include/k52/optimization/gen_mutator_base.h
@@ -11,6 +11,9 @@ namespace optimization
 class GenMutatorBase : public IMutator
 {
 public:
+    ///Until ApplyNewMutationContext is called mutation is performed as in the first generation
+    GenMutatorBase();
+
     virtual void ApplyNewMutationContext(const MutationContext &mutation_context);
     virtual void MutateChromosome(ChromosomeType *chromosome);
 
diff --git a/src/optimization/genetic_algorithm/gen_mutator_base.cpp b/src/optimization/genetic_algorithm/gen_mutator_base.cpp
index afb080c..c54df27 100644
--- a/src/optimization/genetic_algorithm/gen_mutator_base.cpp
+++ b/src/optimization/genetic_algorithm/gen_mutator_base.cpp
@@ -8,6 +8,12 @@ namespace k52
 namespace optimization
 {
 
+GenMutatorBase::GenMutatorBase()
+{
+    mutation_context_.current_generation = 0;
+    mutation_context_.max_number_of_generations = 1;
+}
+
 void GenMutatorBase::ApplyNewMutationContext(const MutationContext &mutation_context)
 {
     mutation_context_ = mutation_context;
-- 
2.43.0


From f0f118ca0bd2b2c9e17da028d32b07aaa21d75b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:53 +0000
Subject: [PATCH 48/51] fix: conjugate gradient method makes the number of
 iterations it is given, also if that is one

---
 src/optimization/conjugate_gradient_method.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/optimization/conjugate_gradient_method.cpp b/src/optimization/conjugate_gradient_method.cpp
index 2042507..0ae761f 100644
--- a/src/optimization/conjugate_gradient_method.cpp
+++ b/src/optimization/conjugate_gradient_method.cpp
@@ -116,7 +116,7 @@ vector<double> ConjugateGradientMethod::FindOptimalParameters(
         exit = sqrt(exit);
 
         iteration++;
-        if (iteration == number_of_iterations_)
+        if (iteration > number_of_iterations_)
         {
             std::cout << "Solution not found" << std::endl;
             break;
-- 
2.43.0


From d6ea662843af936be7d1738370c37892ba931db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:04 +0000
Subject: [PATCH 49/51] fix: individuals refuse a fitness that is not a number

---
 src/optimization/genetic_algorithm/individual.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/optimization/genetic_algorithm/individual.cpp b/src/optimization/genetic_algorithm/individual.cpp
index 27b80bd..9b54cb3 100644
--- a/src/optimization/genetic_algorithm/individual.cpp
+++ b/src/optimization/genetic_algorithm/individual.cpp
@@ -195,7 +195,8 @@ double Individual::get_fitness() const
 
 void Individual::set_fitness(double fitness)
 {
-    if(fitness < 0)
+    //NaN is refused too
+    if(!(fitness >= 0))
     {
         throw std::logic_error("Currently fitness must be >= 0!");
     }
-- 
2.43.0


From d642f6e26f77f90434eb8d56d7560d9d1f90ca1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:24:07 +0000
Subject: [PATCH 50/51] fix: the wavelet scales refuse ranges and scales that
 are not numbers

---
 src/dsp/transform/wavelet/fast_wavelet_transform.cpp | 3 ++-
 src/dsp/transform/wavelet/linear_scale.cpp           | 9 ++++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
index 82976f4..490473f 100644
--- a/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
+++ b/src/dsp/transform/wavelet/fast_wavelet_transform.cpp
@@ -69,7 +69,8 @@ vector< vector< complex< double > > > FastWaveletTransform::Transform(
 std::vector< std::complex< double > > FastWaveletTransform::TransformOneScale(
         const std::vector< std::complex< double > > &sequence, IWavelet::shared_ptr wavelet, double scale) const
 {
-    if (scale <= 0)
+    //NaN is refused too
+    if (!(scale > 0))
     {
         throw invalid_argument("scale <= 0");
     }
diff --git a/src/dsp/transform/wavelet/linear_scale.cpp b/src/dsp/transform/wavelet/linear_scale.cpp
index 45a3a41..442d79c 100644
--- a/src/dsp/transform/wavelet/linear_scale.cpp
+++ b/src/dsp/transform/wavelet/linear_scale.cpp
@@ -1,4 +1,5 @@
 #include <k52/dsp/transform/wavelet/linear_scale.h>
+#include <limits>
 #include <stdexcept>
 
 using ::std::vector;
@@ -22,11 +23,17 @@ LinearScale::LinearScale(double min_scale, double max_scale, size_t scale_count)
         throw invalid_argument("max_scale <= 0");
     }
 
-    if(min_scale >= max_scale)
+    //NaN is refused too
+    if(!(min_scale < max_scale))
     {
         throw invalid_argument("min_scale >= max_scale");
     }
 
+    if(max_scale == std::numeric_limits<double>::infinity())
+    {
+        throw invalid_argument("max_scale is infinite");
+    }
+
     if(scale_count < 2)
     {
         //At least 2 scales - min and max - must be used
-- 
2.43.0


From 098fc6365c2ade458e34719d86b5b8fc9d236985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:25:10 +0000
Subject: [PATCH 51/51] fix: grid search refuses grids with more points than
 can be counted

---
 src/optimization/grid_search.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/optimization/grid_search.cpp b/src/optimization/grid_search.cpp
index 90caa05..74943f7 100644
--- a/src/optimization/grid_search.cpp
+++ b/src/optimization/grid_search.cpp
@@ -1,6 +1,7 @@
 #include <k52/optimization/grid_search.h>
 
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 #include <algorithm>
 
@@ -97,6 +98,10 @@ size_t GridSearch::IntegerPow(size_t value, size_t pow)
 
     for(size_t i = 0; i < pow; i++)
     {
+        if(value != 0 && result > std::numeric_limits<size_t>::max() / value)
+        {
+            throw std::length_error("The grid has too many points");
+        }
         result *= value;
     }
 
-- 
2.43.0

