From a39e76e675b682e328ea2348715c615ead4e49d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 01/19] fix: reset clause weights when an estimator is fitted
 again

fit() on an already fitted weighted estimator kept the weights of the
previous model, so that its result depended on what was fitted before.
---
 lib/src/ta_state.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..40076b3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -65,6 +65,8 @@ TAState::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
@@ -112,6 +114,8 @@ TAStateWithPolarity::initialize(
 
     std::visit(state_gen, state.matrix);
 
+    state.weights.clear();
+
     if (weighted == true)
     {
         state.weights.resize(value_of(number_of_clause_outputs));
-- 
2.43.0


From 84304ec5bc93defe15d7bd5d86ed50f33233652a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 02/19] fix: refuse to train a classifier on a single label

With one label there is no opposite label to draw, and the modulo by
number_of_labels - 1 raised SIGFPE.
---
 lib/src/tsetlini.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..cd68c2b 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -752,20 +752,25 @@ fit_classifier_impl(
 
     auto const labels = unique_labels(y);
 
-    int const number_of_labels = std::max(
-        *std::max_element(labels.cbegin(), labels.cend()) + 1,
-        value_of(max_number_of_labels));
-
     if (auto sm = check_labels(labels);
         sm.first != StatusCode::S_OK)
     {
         return sm;
     }
 
+    auto const number_of_labels = std::max<std::int64_t>(
+        std::int64_t{1} + *std::max_element(labels.cbegin(), labels.cend()),
+        value_of(max_number_of_labels));
+
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
+    }
+
     // Let it crash for now
 //    validate_params();
 
-    state.m_params["number_of_labels"] = param_value_t(number_of_labels);
+    state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
 
     int const number_of_features = X.front().size();
     state.m_params["number_of_features"] = param_value_t(number_of_features);
-- 
2.43.0


From f8d5728888b4fcdef8501eef3c5e9faff6539dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 03/19] fix: refuse numbers of labels which overflow the number
 of clauses

A label of INT_MAX, or one which multiplied by the number of clauses per
label exceeded INT_MAX, overflowed signed integers.
---
 lib/src/tsetlini.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index cd68c2b..25749a1 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -28,6 +28,8 @@
 #include <unordered_set>
 #include <string>
 #include <numeric>
+#include <cstdint>
+#include <limits>
 #include <cstddef>
 #include <memory>
 
@@ -766,6 +768,12 @@ fit_classifier_impl(
     {
         return {StatusCode::S_VALUE_ERROR, "At least two labels are required to train a classifier"};
     }
+    else if (auto const number_of_clauses = value_of(Params::number_of_physical_classifier_clauses_per_label(state.m_params));
+        number_of_labels > std::numeric_limits<int>::max() / number_of_clauses)
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "Number of labels, " + std::to_string(number_of_labels) + ", is too big"};
+    }
 
     // Let it crash for now
 //    validate_params();
-- 
2.43.0


From 478f6dc78f069678950c902ccb147cbc177d2dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 04/19] fix: check the arguments of evaluate like those of
 predict

evaluate() threw on an unfitted estimator, and read out of bounds for
samples of a wrong size or y shorter than X.
---
 lib/src/tsetlini.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 25749a1..9fe670a 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -398,7 +398,17 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+    else if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From 61984abe5c7591e79e4acaf0beaabac47191527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 05/19] fix: check all padding bits of bit vectors

For vectors with more than one block of padding the mask was computed with
a negative shift, and only the last block was looked at.
---
 lib/src/tsetlini.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 9fe670a..ba26e3e 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -72,17 +72,22 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
+    auto const n_full_blocks = vec.size() / vec.block_bits;
+    auto const tail_nbits = vec.size() % vec.block_bits;
 
-    if (padding_nbits != 0)
+    auto it = vec.m_vector.cbegin() + n_full_blocks;
+
+    if (tail_nbits != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = static_cast<block_type>(block_type(-1) << tail_nbits);
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((*it++ & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    return std::all_of(it, vec.m_vector.cend(), [](block_type block){ return block == 0; });
 }
 
 
-- 
2.43.0


From d35678d5f7440781673aaeb9b45df656616ea773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 06/19] fix: restore the state of an unfitted estimator from
 json

from_json_string() read the first row of an empty matrix, and then the
not yet known number of features and labels.
---
 lib/src/tsetlini_state_json.cpp | 45 +++++++++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..47e6ba6 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -101,7 +101,7 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     j.at("width").get_to(width);
 
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    auto const nc = nr != 0 ? j.at("data")[0].size() : 0;
 
     if (width == 1)
     {
@@ -280,6 +280,13 @@ namespace Tsetlini
 {
 
 
+template<typename EstimatorStateType>
+static bool is_fitted(EstimatorStateType const & state)
+{
+    return std::visit([](auto const & matrix){ return matrix.shape().first != 0; }, state.ta_state.matrix);
+}
+
+
 std::string to_json_string(ClassifierStateClassic const & state)
 {
     json js;
@@ -321,7 +328,14 @@ void from_json_string(ClassifierStateClassic & state, std::string const & jss)
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    if (is_fitted(state))
+    {
+        reset_state_cache(state);
+    }
+    else
+    {
+        state.cache = {};
+    }
 }
 
 
@@ -366,7 +380,14 @@ void from_json_string(RegressorStateClassic & state, std::string const & jss)
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    if (is_fitted(state))
+    {
+        reset_state_cache(state);
+    }
+    else
+    {
+        state.cache = {};
+    }
 }
 
 
@@ -411,7 +432,14 @@ void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    if (is_fitted(state))
+    {
+        reset_state_cache(state);
+    }
+    else
+    {
+        state.cache = {};
+    }
 }
 
 
@@ -456,7 +484,14 @@ void from_json_string(RegressorStateBitwise & state, std::string const & jss)
     }
     // end-of-hack
 
-    reset_state_cache(state);
+    if (is_fitted(state))
+    {
+        reset_state_cache(state);
+    }
+    else
+    {
+        state.cache = {};
+    }
 }
 
 
-- 
2.43.0


From 46ce5146a6cbcd7cff65a8235c99cd9db112ecae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 07/19] fix: make berHu loss function continuous

Beyond C1 it was off by 2 * C1, hence negative right above C1 and
smaller for larger errors than for those of C1.
---
 lib/src/loss_fn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/loss_fn.cpp b/lib/src/loss_fn.cpp
index 9ff1c75..1e20f65 100644
--- a/lib/src/loss_fn.cpp
+++ b/lib/src/loss_fn.cpp
@@ -35,7 +35,7 @@ std::function<float(float)> make_loss_fn(loss_fn_name_t const & name, loss_fn_C1
                 }
                 else
                 {
-                    return x * x - value_of(C1 * C1 + C1);
+                    return x * x - value_of(C1 * C1) + value_of(C1);
                 }
             };
     }
-- 
2.43.0


From f6662f2c74e9c4b6d7826942ba0f87c90ce19813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 08/19] fix: clamp the normal approximation before converting
 it to unsigned

A negative value drawn from the approximation was converted to unsigned,
which is undefined and in practice gave n instead of 0.
---
 lib/src/box_muller_approx.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..f8f2ae5 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,10 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    p = std::min(std::max(0.f, p), 1.f);
 
-    return std::clamp(rv, 0u, n);
+    // clamp before converting, the approximation is not limited to [0, n]
+    return std::clamp<double>(std::round(box_muller::normal(n * p, n * p * (1.f - p), irng)), 0u, n);
 }
 
 
-- 
2.43.0


From ed70f2660083884a7aad84aa65192dd198324460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:11 +0000
Subject: [PATCH 09/19] fix: clamp regressor feedback amount before converting
 it to unsigned

Large values of loss function (L1+2 with large C1) were out of range of
unsigned int.
---
 lib/src/tsetlini_algo_bitwise.hpp | 2 +-
 lib/src/tsetlini_algo_classic.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..3373ac2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1042,7 +1042,7 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
+        std::clamp<double>(
             N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..1d89137 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -783,7 +783,7 @@ void train_regressor_automata(
     unsigned int const feedback_hits = box_muller == true
         ? binomial(N, P, prng)
         :
-        std::clamp<unsigned int>(
+        std::clamp<double>(
             N * P >= 0.5 ? std::round(N * P) : prng() < N * P * static_cast<double>(IRNG::max()), // 0xffff'ffff when converted to float changes to 0x1'0000'0000
             0, N
         );
-- 
2.43.0


From 9270d528e8169c88cdc3bc5786e264acb98517d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 10/19] fix: keep the polarity of a positive literal already at
 its maximum state

With number_of_states=1 an included automaton is at state 0, and Type I
feedback flipped its polarity bit without changing the state.
---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 3373ac2..92762dd 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From bfc13dc69c8918e92645a19df7b140d6b8eada81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 11/19] fix: do not overflow int in classifier feedback
 probability

2 * threshold and threshold + votes overflowed for threshold > 2^30.
Also, the product with a rounded inverse could be less than one for the
largest margin.
---
 lib/src/tsetlini_algo_classic.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 1d89137..903a063 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,10 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // not int, its range is too narrow for 2 * threshold
+    const auto THR = static_cast<double>(value_of(threshold));
+    const auto THR_pos = static_cast<real_type>((THR - target_label_votes) / (2 * THR));
+    const auto THR_neg = static_cast<real_type>((THR + opposite_label_votes) / (2 * THR));
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 2ee76c34ea9ac4e6789b5362e4a9e6be58df6d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 12/19] fix: do not move from the arguments of estimator
 factories

make_classifier_* and make_regressor_* left the counting type and loss
function name passed as l-values empty.
---
 lib/include/tsetlini.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/include/tsetlini.hpp b/lib/include/tsetlini.hpp
index ca38683..364b933 100644
--- a/lib/include/tsetlini.hpp
+++ b/lib/include/tsetlini.hpp
@@ -174,7 +174,7 @@ Either<status_message_t, ClassifierClassic> make_classifier_classic(Args && ...a
             , arg::extract_or<boost_tpf_t>(boost_tpf_t{false}, args...)
             , arg::extract_or<number_of_jobs_t>(number_of_jobs_t{-1}, args...)
             , arg::extract_or<verbosity_t>(verbosity_t{false}, args...)
-            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, args...)
+            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, std::as_const(args)...)
             , arg::extract_or<clause_output_tile_size_t>(clause_output_tile_size_t{16}, args...)
             , arg::maybe_extract<random_seed_t>(args...)
         )
@@ -323,9 +323,9 @@ Either<status_message_t, RegressorClassic> make_regressor_classic(Args && ...arg
             , arg::extract_or<boost_tpf_t>(boost_tpf_t{false}, args...)
             , arg::extract_or<number_of_jobs_t>(number_of_jobs_t{-1}, args...)
             , arg::extract_or<verbosity_t>(verbosity_t{false}, args...)
-            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, args...)
+            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, std::as_const(args)...)
             , arg::extract_or<clause_output_tile_size_t>(clause_output_tile_size_t{16}, args...)
-            , arg::extract_or<loss_fn_name_t>(loss_fn_name_t{"MSE"}, args...)
+            , arg::extract_or<loss_fn_name_t>(loss_fn_name_t{"MSE"}, std::as_const(args)...)
             , arg::extract_or<loss_fn_C1_t>(loss_fn_C1_t{0.0f}, args...)
             , arg::extract_or<box_muller_flag_t>(box_muller_flag_t{false}, args...)
             , arg::maybe_extract<random_seed_t>(args...)
@@ -478,7 +478,7 @@ Either<status_message_t, ClassifierBitwise> make_classifier_bitwise(Args && ...a
             , arg::extract_or<boost_tpf_t>(boost_tpf_t{false}, args...)
             , arg::extract_or<number_of_jobs_t>(number_of_jobs_t{-1}, args...)
             , arg::extract_or<verbosity_t>(verbosity_t{false}, args...)
-            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, args...)
+            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, std::as_const(args)...)
             , arg::extract_or<clause_output_tile_size_t>(clause_output_tile_size_t{16}, args...)
             , arg::maybe_extract<random_seed_t>(args...)
         )
@@ -628,9 +628,9 @@ Either<status_message_t, RegressorBitwise> make_regressor_bitwise(Args && ...arg
             , arg::extract_or<boost_tpf_t>(boost_tpf_t{false}, args...)
             , arg::extract_or<number_of_jobs_t>(number_of_jobs_t{-1}, args...)
             , arg::extract_or<verbosity_t>(verbosity_t{false}, args...)
-            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, args...)
+            , arg::extract_or<counting_type_t>(counting_type_t{std::string("auto")}, std::as_const(args)...)
             , arg::extract_or<clause_output_tile_size_t>(clause_output_tile_size_t{16}, args...)
-            , arg::extract_or<loss_fn_name_t>(loss_fn_name_t{"MSE"}, args...)
+            , arg::extract_or<loss_fn_name_t>(loss_fn_name_t{"MSE"}, std::as_const(args)...)
             , arg::extract_or<loss_fn_C1_t>(loss_fn_C1_t{0.0f}, args...)
             , arg::extract_or<box_muller_flag_t>(box_muller_flag_t{false}, args...)
             , arg::maybe_extract<random_seed_t>(args...)
-- 
2.43.0


From cb7e18ba7948a79546b926afbfb7a91e44a24b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:17 +0000
Subject: [PATCH 13/19] fix: report invalid types and ranges of json parameters

Values of a wrong type threw an exception, while numbers out of range or
with fractions, and booleans in place of numbers, were silently
converted to something else.
---
 lib/src/tsetlini_params.cpp | 62 +++++++++++++++++++++++++++++++++++++
 1 file changed, 62 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..3823316 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -14,6 +14,7 @@
 #include <random>
 #include <limits>
 #include <cmath>
+#include <cstdint>
 
 
 using namespace std::string_literals;
@@ -124,12 +125,46 @@ assert_json_dictionary(json const & js)
 }
 
 
+template<typename T>
+static
+bool is_integer_of(json const & value)
+{
+    if (value.is_number_unsigned())
+    {
+        return value.get<std::uint64_t>() <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
+    }
+    else if (value.is_number_integer())
+    {
+        auto const v = value.get<std::int64_t>();
+
+        return static_cast<std::int64_t>(std::numeric_limits<T>::min()) <= v and v <= static_cast<std::int64_t>(std::numeric_limits<T>::max());
+    }
+    else
+    {
+        return false;
+    }
+}
+
+
+static
+bool is_real(json const & value)
+{
+    return value.is_number() and std::abs(value.get<double>()) <= std::numeric_limits<real_type>::max();
+}
+
+
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
 {
     params_t rv;
 
+    auto invalid_value = [](auto const & key, auto const & value)
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON,
+            "Invalid type or value of key [" + key + "] in config: " + value.dump() + "\n"});
+    };
+
     for (auto const & kv : js.items())
     {
         auto const key = kv.key();
@@ -146,12 +181,24 @@ json_to_params(json const & js)
             (key == "max_weight")
             )
         {
+            auto const is_flag = key == "boost_true_positive_feedback" and value.is_boolean();
+
+            if (not is_integer_of<int>(value) and not is_flag)
+            {
+                return invalid_value(key, value);
+            }
+
             rv[key] = value.get<int>();
         }
         else if (key == "random_state")
         {
             if (!value.is_null())
             {
+                if (not is_integer_of<seed_type>(value))
+                {
+                    return invalid_value(key, value);
+                }
+
                 rv[key] = value.get<seed_type>();
             }
         }
@@ -159,6 +206,11 @@ json_to_params(json const & js)
             (key == "s") or
             (key == "loss_fn_C1"))
         {
+            if (not is_real(value))
+            {
+                return invalid_value(key, value);
+            }
+
             rv[key] = value.get<real_type>();
         }
         else if (
@@ -166,12 +218,22 @@ json_to_params(json const & js)
             (key == "box_muller") or
             (key == "weighted"))
         {
+            if (not value.is_boolean())
+            {
+                return invalid_value(key, value);
+            }
+
             rv[key] = value.get<bool>();
         }
         else if (
             (key == "counting_type") or
             (key == "loss_fn"))
         {
+            if (not value.is_string())
+            {
+                return invalid_value(key, value);
+            }
+
             rv[key] = value.get<std::string>();
         }
         else
-- 
2.43.0


From 8a0f555b99174ce17f51f4bcd4455631ad4716e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:49 +0000
Subject: [PATCH 14/19] fix: leave the state as it was when its json document
 is refused

---
 lib/src/tsetlini_state_json.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47e6ba6..4bdf186 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -303,10 +303,13 @@ std::string to_json_string(ClassifierStateClassic const & state)
 }
 
 
-void from_json_string(ClassifierStateClassic & state, std::string const & jss)
+void from_json_string(ClassifierStateClassic & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // work on a copy, so that the target is left as it was if the document turns out to be invalid
+    auto state = target;
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateClassic::ta_state_type::value_type>();
@@ -336,6 +339,8 @@ void from_json_string(ClassifierStateClassic & state, std::string const & jss)
     {
         state.cache = {};
     }
+
+    target = std::move(state);
 }
 
 
@@ -355,10 +360,13 @@ std::string to_json_string(RegressorStateClassic const & state)
 }
 
 
-void from_json_string(RegressorStateClassic & state, std::string const & jss)
+void from_json_string(RegressorStateClassic & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // work on a copy, so that the target is left as it was if the document turns out to be invalid
+    auto state = target;
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateClassic::ta_state_type::value_type>();
@@ -388,6 +396,8 @@ void from_json_string(RegressorStateClassic & state, std::string const & jss)
     {
         state.cache = {};
     }
+
+    target = std::move(state);
 }
 
 
@@ -407,10 +417,13 @@ std::string to_json_string(RegressorStateBitwise const & state)
 }
 
 
-void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
+void from_json_string(ClassifierStateBitwise & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // work on a copy, so that the target is left as it was if the document turns out to be invalid
+    auto state = target;
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::ClassifierStateBitwise::ta_state_type::value_type>();
@@ -440,6 +453,8 @@ void from_json_string(ClassifierStateBitwise & state, std::string const & jss)
     {
         state.cache = {};
     }
+
+    target = std::move(state);
 }
 
 
@@ -459,10 +474,13 @@ std::string to_json_string(ClassifierStateBitwise const & state)
 }
 
 
-void from_json_string(RegressorStateBitwise & state, std::string const & jss)
+void from_json_string(RegressorStateBitwise & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    // work on a copy, so that the target is left as it was if the document turns out to be invalid
+    auto state = target;
+
     state.igen = js.at("igen").get<IRNG>();
     state.fgen = js.at("fgen").get<FRNG>();
     state.ta_state = js.at("ta_state").get<Tsetlini::RegressorStateBitwise::ta_state_type::value_type>();
@@ -492,6 +510,8 @@ void from_json_string(RegressorStateBitwise & state, std::string const & jss)
     {
         state.cache = {};
     }
+
+    target = std::move(state);
 }
 
 
-- 
2.43.0


From fec174aa581958b57f048a6fd56d1d572c6a5098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:09 +0000
Subject: [PATCH 15/19] fix: refuse json documents of a state with elements
 missing or in excess

---
 lib/src/tsetlini_state_json.cpp | 64 +++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 4bdf186..68765b8 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -12,6 +12,9 @@
 #include <iterator>
 #include <vector>
 #include <optional>
+#include <stdexcept>
+#include <type_traits>
+#include <utility>
 
 
 using json = nlohmann::json;
@@ -32,10 +35,16 @@ static void from_json(json const & j, IRNG & p)
 
     std::vector<IRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    if (res.size() != p.MTSZ * p.NS or mt.size() != p.MTSZ * p.NS)
+    {
+        throw std::invalid_argument("Wrong size of random generator state");
+    }
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -55,10 +64,16 @@ static void from_json(json const & j, FRNG & p)
 
     std::vector<FRNG::value_type> res;
     j.at("RES").get_to(res);
-    std::copy(res.cbegin(), res.cend(), p.RESp());
 
     std::vector<unsigned int> mt;
     j.at("MT").get_to(mt);
+
+    if (res.size() != p.MTSZ * p.NS or mt.size() != p.MTSZ * p.NS)
+    {
+        throw std::invalid_argument("Wrong size of random generator state");
+    }
+
+    std::copy(res.cbegin(), res.cend(), p.RESp());
     std::copy(mt.cbegin(), mt.cend(), p.MTp());
 }
 
@@ -100,8 +115,9 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     std::size_t width = 0u;
     j.at("width").get_to(width);
 
-    auto const nr = j.at("data").size();
-    auto const nc = nr != 0 ? j.at("data")[0].size() : 0;
+    auto const & data = j.at("data").get_ref<json::array_t const &>();
+    auto const nr = data.size();
+    auto const nc = nr != 0 ? data[0].size() : 0;
 
     if (width == 1)
     {
@@ -118,10 +134,13 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
 
     std::visit([&](auto & p)
         {
-            auto const & data = j["data"];
-
             for (auto rit = 0u; rit < nr; ++rit)
             {
+                if (data[rit].size() != nc)
+                {
+                    throw std::invalid_argument("Rows of matrix data differ in size");
+                }
+
                 auto row_data = p.row_data(rit);
 
                 std::copy(data[rit].cbegin(), data[rit].cend(), row_data);
@@ -154,8 +173,15 @@ static void from_json(json const & j, Tsetlini::bit_matrix<T> & p)
 
     p = Tsetlini::bit_matrix<T>(rows, cols);
 
+    auto const size = p.m_v.size();
+
     p.m_v.clear(); // we need to clear the vector because get_to appends data
     j.at("data").get_to(p.m_v);
+
+    if (p.m_v.size() != size)
+    {
+        throw std::invalid_argument("Wrong size of bit matrix data");
+    }
 }
 
 
@@ -287,6 +313,28 @@ static bool is_fitted(EstimatorStateType const & state)
 }
 
 
+template<typename TAStateValueType>
+static void verify_dimensions(TAStateValueType const & ta_state, params_t const & params, unsigned int const number_of_clauses)
+{
+    unsigned int const number_of_features = value_of(Params::number_of_features(params));
+    std::pair<unsigned int, unsigned int> const dimensions{number_of_clauses, number_of_features};
+    bool const weighted = value_of(Params::weighted(params));
+
+    bool matching = std::visit([](auto const & matrix){ return matrix.shape(); }, ta_state.matrix) == dimensions
+        and ta_state.weights.size() == (weighted ? number_of_clauses / 2 : 0);
+
+    if constexpr (std::is_same_v<TAStateValueType, TAStateWithPolarity::value_type>)
+    {
+        matching = matching and ta_state.polarity.shape() == dimensions;
+    }
+
+    if (not matching)
+    {
+        throw std::invalid_argument("Dimensions of the state do not match its parameters");
+    }
+}
+
+
 std::string to_json_string(ClassifierStateClassic const & state)
 {
     json js;
@@ -333,6 +381,7 @@ void from_json_string(ClassifierStateClassic & target, std::string const & jss)
 
     if (is_fitted(state))
     {
+        verify_dimensions(state.ta_state, state.m_params, value_of(Params::number_of_physical_classifier_clauses(state.m_params)));
         reset_state_cache(state);
     }
     else
@@ -390,6 +439,7 @@ void from_json_string(RegressorStateClassic & target, std::string const & jss)
 
     if (is_fitted(state))
     {
+        verify_dimensions(state.ta_state, state.m_params, value_of(Params::number_of_physical_regressor_clauses(state.m_params)));
         reset_state_cache(state);
     }
     else
@@ -447,6 +497,7 @@ void from_json_string(ClassifierStateBitwise & target, std::string const & jss)
 
     if (is_fitted(state))
     {
+        verify_dimensions(state.ta_state, state.m_params, value_of(Params::number_of_physical_classifier_clauses(state.m_params)));
         reset_state_cache(state);
     }
     else
@@ -504,6 +555,7 @@ void from_json_string(RegressorStateBitwise & target, std::string const & jss)
 
     if (is_fitted(state))
     {
+        verify_dimensions(state.ta_state, state.m_params, value_of(Params::number_of_physical_regressor_clauses(state.m_params)));
         reset_state_cache(state);
     }
     else
-- 
2.43.0


From 55f6d66a704180338bda13cf1235084cf523eddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:16 +0000
Subject: [PATCH 16/19] fix: refuse json documents of another kind of estimator

---
 lib/src/tsetlini_state_json.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 68765b8..ee90e84 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -313,6 +313,15 @@ static bool is_fitted(EstimatorStateType const & state)
 }
 
 
+static void verify_estimator(json const & js, std::string const & estimator)
+{
+    if (js.at("estimator") != estimator)
+    {
+        throw std::invalid_argument("Not a state of a " + estimator);
+    }
+}
+
+
 template<typename TAStateValueType>
 static void verify_dimensions(TAStateValueType const & ta_state, params_t const & params, unsigned int const number_of_clauses)
 {
@@ -355,6 +364,8 @@ void from_json_string(ClassifierStateClassic & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    verify_estimator(js, "classifier");
+
     // work on a copy, so that the target is left as it was if the document turns out to be invalid
     auto state = target;
 
@@ -413,6 +424,8 @@ void from_json_string(RegressorStateClassic & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    verify_estimator(js, "regressor");
+
     // work on a copy, so that the target is left as it was if the document turns out to be invalid
     auto state = target;
 
@@ -471,6 +484,8 @@ void from_json_string(ClassifierStateBitwise & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    verify_estimator(js, "classifier");
+
     // work on a copy, so that the target is left as it was if the document turns out to be invalid
     auto state = target;
 
@@ -529,6 +544,8 @@ void from_json_string(RegressorStateBitwise & target, std::string const & jss)
 {
     auto js = json::parse(jss);
 
+    verify_estimator(js, "regressor");
+
     // work on a copy, so that the target is left as it was if the document turns out to be invalid
     auto state = target;
 
-- 
2.43.0


From 1ac2f5e76954f58737cc85b50c4cfd23810639b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:20 +0000
Subject: [PATCH 17/19] fix: compute the storage size of matrices in 64 bits

Matrices of 2^32 or more elements (many labels or clauses times many features)
were given a buffer whose size had wrapped around.
---
 lib/include/basic_bit_matrix.hpp     | 4 ++--
 lib/include/basic_numeric_matrix.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/include/basic_bit_matrix.hpp b/lib/include/basic_bit_matrix.hpp
index ca42081..3c53ba8 100644
--- a/lib/include/basic_bit_matrix.hpp
+++ b/lib/include/basic_bit_matrix.hpp
@@ -122,8 +122,8 @@ struct basic_bit_matrix
     basic_bit_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_row_blocks((m_ncols + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
-        , m_v(row_blocks() * nrows)
+        , m_row_blocks((size_type{m_ncols} + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
+        , m_v(size_type{row_blocks()} * nrows)
     {
     }
 
diff --git a/lib/include/basic_numeric_matrix.hpp b/lib/include/basic_numeric_matrix.hpp
index 487490c..c161432 100644
--- a/lib/include/basic_numeric_matrix.hpp
+++ b/lib/include/basic_numeric_matrix.hpp
@@ -38,7 +38,7 @@ struct basic_numeric_matrix
     basic_numeric_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_v(row_items() * nrows)
+        , m_v(size_type{row_items()} * nrows)
     {
     }
 
@@ -99,7 +99,7 @@ struct basic_numeric_matrix
 
     uint row_items() const
     {
-        auto const rv = (m_ncols * item_size + alignment - 1) / alignment * (alignment / item_size);
+        auto const rv = (size_type{m_ncols} * item_size + alignment - 1) / alignment * (alignment / item_size);
 
         return rv;
     }
-- 
2.43.0


From d810fc241efabf7340e935ec62e0cc27a800a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 18/19] fix: do not terminate when a log line cannot be
 allocated

---
 lib/src/logger.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/src/logger.hpp b/lib/src/logger.hpp
index 78588d1..8d3dfb1 100644
--- a/lib/src/logger.hpp
+++ b/lib/src/logger.hpp
@@ -69,7 +69,14 @@ public:
     {
         if (log <= level)
         {
-            log_type::log(stream_.str());
+            try
+            {
+                log_type::log(stream_.str());
+            }
+            catch (...)
+            {
+                /* out of memory: losing the message must not terminate the program */
+            }
         }
     }
 
-- 
2.43.0


From 845c7658820a25fa9c23c3f744f9d7cc6c6e6c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:34 +0000
Subject: [PATCH 19/19] fix: leave the estimator as it was when fit runs out of
 memory

fit changed the parameters, then the automata, then the buffers of the estimator.
When one of the allocations failed the parts no longer belonged together, and
predict and partial_fit read and wrote out of bounds.
---
 lib/src/tsetlini.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index ba26e3e..f69e3fc 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -793,14 +793,21 @@ fit_classifier_impl(
     // Let it crash for now
 //    validate_params();
 
-    state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
+    // train a new state, so that the current one is left as it was if memory runs out
+    ClassifierStateType fitted(state.m_params);
+
+    fitted.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
 
     int const number_of_features = X.front().size();
-    state.m_params["number_of_features"] = param_value_t(number_of_features);
+    fitted.m_params["number_of_features"] = param_value_t(number_of_features);
 
-    initialize_state(state);
+    initialize_state(fitted);
 
-    return fit_classifier_online_impl(state, state.ta_state, X, y, epochs);
+    auto rv = fit_classifier_online_impl(fitted, fitted.ta_state, X, y, epochs);
+
+    state = std::move(fitted);
+
+    return rv;
 }
 
 
@@ -947,12 +954,19 @@ fit_regressor_impl(
     // Let it crash for now
 //    validate_params();
 
+    // train a new state, so that the current one is left as it was if memory runs out
+    RegressorStateType fitted(state.m_params);
+
     int const number_of_features = X.front().size();
-    state.m_params["number_of_features"] = param_value_t(number_of_features);
+    fitted.m_params["number_of_features"] = param_value_t(number_of_features);
 
-    initialize_state(state);
+    initialize_state(fitted);
 
-    return fit_regressor_online_impl(state, state.ta_state, X, y, epochs);
+    auto rv = fit_regressor_online_impl(fitted, fitted.ta_state, X, y, epochs);
+
+    state = std::move(fitted);
+
+    return rv;
 }
 
 
-- 
2.43.0

