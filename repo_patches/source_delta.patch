From a68bb3ad1b7efac5727e0ca806581146858f2385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:12 +0000
Subject: [PATCH 01/16] fix: keep the polarity bit in step with a saturated
 automaton in bitwise Type I feedback

The include bit was flipped whenever the state was 0 after the increment branch,
even when the state had not been incremented because it already was at its
maximum, which is 0 for number_of_states equal to 1.
---
 lib/src/tsetlini_algo_bitwise.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 1a1c0a6..9f761e2 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -626,13 +626,12 @@ void block2(
                 if (ta_state_pos_j[fidx] < number_of_states - 1)
                 {
                     ta_state_pos_j[fidx]++;
-                }
 
-                if (ta_state_pos_j[fidx] == 0)
-                {
-                    ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    if (ta_state_pos_j[fidx] == 0)
+                    {
+                        ta_state_pos_polarity_j.flip(fidx); // flip positive clause bit in polarity matrix
+                    }
                 }
-
             }
             if (cond2_neg)
             {
-- 
2.43.0


From 814af1d4153d8d936f77194c65564e253c2f4573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 02/16] fix: reset clause weights when a weighted estimator is
 fitted again

weights.resize() left the weights of the previous fit in place, so fit on a
used estimator did not start from a freshly initialised model.
---
 lib/src/ta_state.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/src/ta_state.cpp b/lib/src/ta_state.cpp
index 6ad869c..9301ba3 100644
--- a/lib/src/ta_state.cpp
+++ b/lib/src/ta_state.cpp
@@ -67,7 +67,7 @@ TAState::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
@@ -114,7 +114,7 @@ TAStateWithPolarity::initialize(
 
     if (weighted == true)
     {
-        state.weights.resize(value_of(number_of_clause_outputs));
+        state.weights.assign(value_of(number_of_clause_outputs), 0);
     }
 }
 
-- 
2.43.0


From 2250f5777866e2e47a2972c1817fd61879838332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:52 +0000
Subject: [PATCH 03/16] fix: do not move from the caller's arguments when
 extracting them

Arguments passed as l-values to the make_* functions were moved from, which
emptied string parameters such as counting_type_t held by the caller.
---
 lib/include/arg_extract.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/include/arg_extract.hpp b/lib/include/arg_extract.hpp
index 54d7bb2..28c768c 100644
--- a/lib/include/arg_extract.hpp
+++ b/lib/include/arg_extract.hpp
@@ -13,7 +13,7 @@ namespace Tsetlini::arg
 
 
 template<typename T, typename ...Args>
-auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, T &&>
+auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -29,7 +29,7 @@ auto extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_sam
 
 
 template<typename T, typename ...Args>
-auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -43,7 +43,7 @@ auto extract_or(T &&, Args && ...args) -> std::enable_if_t<std::disjunction_v<st
 
 
 template<typename T, typename ...Args>
-auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T &&>
+auto extract_or(T const &, Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<std::remove_reference_t<T>, std::remove_reference_t<Args>>...>, T const &>
 {
     return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
 }
@@ -86,7 +86,9 @@ auto maybe_extract(Args && ...) -> std::enable_if_t<not std::disjunction_v<std::
 template<typename T, typename ...Args>
 auto maybe_extract(Args && ...args) -> std::enable_if_t<std::disjunction_v<std::is_same<T, std::remove_reference_t<Args>>...>, std::optional<T>>
 {
-    return std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+    T const & arg = std::get<T &&>(std::forward_as_tuple(std::move(args)...));
+
+    return arg;
 }
 
 template<typename T, typename ...Args>
-- 
2.43.0


From fc8e75f0f6e203aba2f88f40eb07f697f82c01a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 04/16] fix: check padding bits of bit vectors that hold spare
 blocks

With capacity beyond the content blocks the shift count went negative and only
the last spare block was looked at, so stray bits right after the last feature
passed the check and entered training and prediction.
---
 lib/src/tsetlini.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 37fb452..3c82482 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -70,17 +70,20 @@ bool check_clear_padding(bit_vector<T> const & vec)
 {
     using block_type = typename bit_vector<T>::block_type;
 
-    auto const n_blocks = vec.capacity_blocks();
-    auto const padding_nbits = n_blocks * vec.block_bits - vec.size();
+    auto const n_content_blocks = vec.content_blocks();
 
-    if (padding_nbits != 0)
+    if (vec.tail_bits() != 0)
     {
-        auto const mask = block_type(-1) << (vec.block_bits - padding_nbits);
+        auto const mask = block_type(-1) << vec.tail_bits();
 
-        return (vec.m_vector.back() & mask) == 0;
+        if ((vec.m_vector[n_content_blocks - 1] & mask) != 0)
+        {
+            return false;
+        }
     }
 
-    return true;
+    return std::all_of(std::next(vec.m_vector.cbegin(), n_content_blocks), vec.m_vector.cend(),
+        [](block_type block){ return block == 0; });
 }
 
 
-- 
2.43.0


From 6d335ee1bcda95b38057871e5d3021a508a8257f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 05/16] fix: refuse to fit a classifier for fewer than two or
 too many labels

A single label made the choice of the opposite label divide by zero, and labels
for which the number of clauses does not fit in an int corrupted memory.
---
 lib/src/tsetlini.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 3c82482..bfe4466 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -25,6 +25,8 @@
 #include <utility>
 #include <algorithm>
 #include <cstddef>
+#include <cstdint>
+#include <limits>
 #include <unordered_set>
 #include <string>
 #include <numeric>
@@ -186,6 +188,24 @@ status_message_t check_labels(std::unordered_set<label_type> const & labels, int
 }
 
 
+status_message_t check_number_of_labels(
+    std::int64_t const number_of_labels,
+    number_of_physical_classifier_clauses_per_label_t const number_of_clauses_per_label)
+{
+    if (number_of_labels < 2)
+    {
+        return {StatusCode::S_VALUE_ERROR, "Classifier requires at least two labels"};
+    }
+    else if (number_of_labels > std::numeric_limits<int>::max() / value_of(number_of_clauses_per_label))
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "Number of labels " + std::to_string(number_of_labels) + " is too high"};
+    }
+
+    return {StatusCode::S_OK, ""};
+}
+
+
 auto unique_labels(label_vector_type const & y) -> std::unordered_set<label_type>
 {
     return std::unordered_set<label_type>(y.cbegin(), y.cend());
@@ -755,11 +775,18 @@ fit_classifier_impl(
 
     auto const labels = unique_labels(y);
 
-    int const number_of_labels = std::max(
-        *std::max_element(labels.cbegin(), labels.cend()) + 1,
+    if (auto sm = check_labels(labels);
+        sm.first != StatusCode::S_OK)
+    {
+        return sm;
+    }
+
+    auto const number_of_labels = std::max<std::int64_t>(
+        std::int64_t{*std::max_element(labels.cbegin(), labels.cend())} + 1,
         value_of(max_number_of_labels));
 
-    if (auto sm = check_labels(labels);
+    if (auto sm = check_number_of_labels(number_of_labels,
+            Params::number_of_physical_classifier_clauses_per_label(state.m_params));
         sm.first != StatusCode::S_OK)
     {
         return sm;
@@ -768,7 +795,7 @@ fit_classifier_impl(
     // Let it crash for now
 //    validate_params();
 
-    state.m_params["number_of_labels"] = param_value_t(number_of_labels);
+    state.m_params["number_of_labels"] = param_value_t(static_cast<int>(number_of_labels));
 
     int const number_of_features = X.front().size();
     state.m_params["number_of_features"] = param_value_t(number_of_features);
-- 
2.43.0


From d9acee2d91b33a82faa45206d0f68ef37ceaea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 06/16] fix: validate input and state in classifier evaluate

An unfitted classifier threw, mismatched lengths or feature counts read out of
bounds and empty data gave NaN; predict refuses all of these with a status.
---
 lib/src/tsetlini.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index bfe4466..9358323 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -419,7 +419,17 @@ evaluate_classifier_impl(
     std::vector<SampleType> const & X,
     label_vector_type const & y)
 {
-    // let it crash - no state validation for now
+    if (auto sm = check_for_predict(state, X);
+        sm.first != StatusCode::S_OK)
+    {
+        return Either<status_message_t, real_type>::leftOf(std::move(sm));
+    }
+    else if (y.size() != X.size())
+    {
+        return Either<status_message_t, real_type>::leftOf({StatusCode::S_VALUE_ERROR,
+            "X and y must have the same lengths, got " + std::to_string(X.size()) +
+            " and " + std::to_string(y.size())});
+    }
 
     auto const number_of_examples = X.size();
 
-- 
2.43.0


From 1e47224945603c2165665022fd36a117fb757e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 07/16] fix: keep the number of regressor feedback hits within
 its range

A negative draw of the binomial approximation wrapped around in the conversion
to unsigned and became feedback to as many clauses as there are, and a loss
outside [0, 1] gave the approximation a negative variance.
---
 lib/src/box_muller_approx.cpp     | 5 +++--
 lib/src/tsetlini_algo_bitwise.hpp | 2 +-
 lib/src/tsetlini_algo_classic.hpp | 2 +-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/src/box_muller_approx.cpp b/lib/src/box_muller_approx.cpp
index 8bdf71f..f17ae25 100644
--- a/lib/src/box_muller_approx.cpp
+++ b/lib/src/box_muller_approx.cpp
@@ -98,9 +98,10 @@ static float normal(float mean, float variance, PRNG & irng)
 template<typename PRNG>
 unsigned int binomial(unsigned int n, float p, PRNG & irng)
 {
-    unsigned int const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
+    float const rv = std::round(box_muller::normal(n * p, n * p * (1.f - p), irng));
 
-    return std::clamp(rv, 0u, n);
+    // rv can be negative, which cannot be converted to an unsigned value
+    return std::min<unsigned int>(std::max(rv, 0.f), n);
 }
 
 
diff --git a/lib/src/tsetlini_algo_bitwise.hpp b/lib/src/tsetlini_algo_bitwise.hpp
index 9f761e2..62d91f5 100644
--- a/lib/src/tsetlini_algo_bitwise.hpp
+++ b/lib/src/tsetlini_algo_bitwise.hpp
@@ -1033,7 +1033,7 @@ void train_regressor_automata(
     auto const number_of_features = number_of_features_t{X.size()};
 
     unsigned int const N = input_end_ix - input_begin_ix;
-    real_type const P = loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold));
+    real_type const P = std::clamp<real_type>(loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold)), 0, 1);
     /*
      * For sparse feedback if N * P >= 0.5 we will just round the number of hits,
      * else we will pick either 0 or 1 with probability proportional to P.
diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 8b1563b..3b519dd 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -775,7 +775,7 @@ void train_regressor_automata(
     auto const number_of_features = number_of_features_t{X.size()};
 
     unsigned int const N = input_end_ix - input_begin_ix;
-    real_type const P = loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold));
+    real_type const P = std::clamp<real_type>(loss_fn(static_cast<real_type>(value_of(response_error)) / value_of(threshold)), 0, 1);
     /*
      * For sparse feedback if N * P >= 0.5 we will just round the number of hits,
      * else we will pick either 0 or 1 with probability proportional to P.
-- 
2.43.0


From 1b9a068ffbda14db4004289ac02bca09e6d2e3ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/16] fix: make the berHu loss continuous

The quadratic branch subtracted C1 instead of adding it, so the loss jumped from
C1 to -C1 at C1 and was negative beyond it, which stopped training.
---
 lib/src/loss_fn.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/src/loss_fn.cpp b/lib/src/loss_fn.cpp
index 9ff1c75..1e20f65 100644
--- a/lib/src/loss_fn.cpp
+++ b/lib/src/loss_fn.cpp
@@ -35,7 +35,7 @@ std::function<float(float)> make_loss_fn(loss_fn_name_t const & name, loss_fn_C1
                 }
                 else
                 {
-                    return x * x - value_of(C1 * C1 + C1);
+                    return x * x - value_of(C1 * C1) + value_of(C1);
                 }
             };
     }
-- 
2.43.0


From 4c65e5e487a666683c96c055d6e5ef23d0464801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 09/16] fix: avoid int overflow in feedback probabilities for
 very high thresholds

---
 lib/src/tsetlini_algo_classic.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_classic.hpp b/lib/src/tsetlini_algo_classic.hpp
index 3b519dd..d027b52 100644
--- a/lib/src/tsetlini_algo_classic.hpp
+++ b/lib/src/tsetlini_algo_classic.hpp
@@ -685,9 +685,11 @@ void calculate_classifier_feedback_to_clauses(
     threshold_t const threshold,
     TFRNG & fgen)
 {
-    const auto THR2_inv = (ONE / (value_of(threshold) * 2));
-    const auto THR_pos = THR2_inv * (value_of(threshold) - target_label_votes);
-    const auto THR_neg = THR2_inv * (value_of(threshold) + opposite_label_votes);
+    // threshold can be as high as the maximum int value
+    const auto T = std::int64_t{value_of(threshold)};
+    const auto THR2_inv = (ONE / (T * 2));
+    const auto THR_pos = THR2_inv * (T - target_label_votes);
+    const auto THR_neg = THR2_inv * (T + opposite_label_votes);
 
     std::fill(feedback_to_clauses.begin(), feedback_to_clauses.end(), No_Feedback);
 
-- 
2.43.0


From 351f64aaeec4ffcfda06445cab154843a4973183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 10/16] fix: refuse JSON parameters of wrong type or out of
 range

Values of a wrong type threw out of the make_*_from_json functions, and numbers
that are fractional or do not fit the parameter's type were silently changed.
---
 lib/src/tsetlini_params.cpp | 69 +++++++++++++++++++++++++++++++++++++
 1 file changed, 69 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 8bda3a9..be6e397 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -14,6 +14,8 @@
 #include <random>
 #include <limits>
 #include <cmath>
+#include <cstdint>
+#include <type_traits>
 
 
 using namespace std::string_literals;
@@ -124,12 +126,54 @@ assert_json_dictionary(json const & js)
 }
 
 
+/*
+ * Check if json value can be represented by type T without loss
+ */
+template<typename T>
+static
+bool is_representable(json const & value)
+{
+    if constexpr (std::is_same_v<T, bool>)
+    {
+        return value.is_boolean();
+    }
+    else if constexpr (std::is_same_v<T, std::string>)
+    {
+        return value.is_string();
+    }
+    else if constexpr (std::is_floating_point_v<T>)
+    {
+        return value.is_number();
+    }
+    else if (value.is_number_unsigned())
+    {
+        return value.get<std::uint64_t>() <= static_cast<std::uint64_t>(std::numeric_limits<T>::max());
+    }
+    else if (value.is_number())
+    {
+        auto const number = value.get<double>();
+
+        return std::numeric_limits<T>::min() <= number and number <= std::numeric_limits<T>::max()
+            and std::trunc(number) == number;
+    }
+    else
+    {
+        return value.is_boolean();
+    }
+}
+
+
 static
 Either<status_message_t, params_t>
 json_to_params(json const & js)
 {
     params_t rv;
 
+    auto const mismatch = [](std::string const & key)
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON, "Param '" + key + "' got value of wrong type or out of range\n"});
+    };
+
     for (auto const & kv : js.items())
     {
         auto const key = kv.key();
@@ -146,12 +190,22 @@ json_to_params(json const & js)
             (key == "max_weight")
             )
         {
+            if (not is_representable<int>(value))
+            {
+                return mismatch(key);
+            }
+
             rv[key] = value.get<int>();
         }
         else if (key == "random_state")
         {
             if (!value.is_null())
             {
+                if (not is_representable<seed_type>(value))
+                {
+                    return mismatch(key);
+                }
+
                 rv[key] = value.get<seed_type>();
             }
         }
@@ -159,6 +213,11 @@ json_to_params(json const & js)
             (key == "s") or
             (key == "loss_fn_C1"))
         {
+            if (not is_representable<real_type>(value))
+            {
+                return mismatch(key);
+            }
+
             rv[key] = value.get<real_type>();
         }
         else if (
@@ -166,12 +225,22 @@ json_to_params(json const & js)
             (key == "box_muller") or
             (key == "weighted"))
         {
+            if (not is_representable<bool>(value))
+            {
+                return mismatch(key);
+            }
+
             rv[key] = value.get<bool>();
         }
         else if (
             (key == "counting_type") or
             (key == "loss_fn"))
         {
+            if (not is_representable<std::string>(value))
+            {
+                return mismatch(key);
+            }
+
             rv[key] = value.get<std::string>();
         }
         else
-- 
2.43.0


From a8a9ba720dfbf6bd8dfd7bcb6510485f38946208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:52 +0000
Subject: [PATCH 11/16] fix: refuse a loss_fn_C1 that is not finite

It poisoned the loss with NaN, and JSON cannot represent it, so a model saved
with it could not be loaded back.
---
 lib/src/tsetlini_params.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index be6e397..3ee4951 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -492,6 +492,24 @@ assert_loss_function(params_t const & params)
 }
 
 
+static
+Either<status_message_t, params_t>
+assert_loss_fn_C1(params_t const & params)
+{
+    auto value = value_of(Params::loss_fn_C1(params));
+
+    if (not std::isfinite(value))
+    {
+        return Either<status_message_t, params_t>::leftOf({S_BAD_JSON,
+            "Param 'loss_fn_C1' got value " + std::to_string(value) + ", instead of a finite value.\n"});
+    }
+    else
+    {
+        return Either<status_message_t, params_t>::rightOf(params);
+    }
+}
+
+
 Either<status_message_t, params_t>
 make_classifier_params_from_json(std::string const & json_params)
 {
@@ -592,6 +610,7 @@ make_regressor_params_from_json(std::string const & json_params)
         .rightMap(normalize_random_state)
         .rightFlatMap(assert_counting_type_enumeration)
         .rightFlatMap(assert_loss_function)
+        .rightFlatMap(assert_loss_fn_C1)
         .rightFlatMap(assert_clause_output_tile_size_enumeration)
         ;
 
@@ -655,6 +674,7 @@ make_regressor_params_from_args(
         .rightMap(normalize_random_state)
         .rightFlatMap(assert_counting_type_enumeration)
         .rightFlatMap(assert_loss_function)
+        .rightFlatMap(assert_loss_fn_C1)
         .rightFlatMap(assert_clause_output_tile_size_enumeration)
         ;
 
-- 
2.43.0


From 974a7ee0dee852bb56f2f6df2e1ed169c4d50eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 12/16] fix: load saved state of an estimator that was not
 fitted yet

from_json_string() indexed the first row of an empty matrix and sized the cache
by the number of labels and features, neither of which exist before fitting.
---
 lib/src/tsetlini_state.cpp      | 15 ++++++++++++++-
 lib/src/tsetlini_state_json.cpp |  2 +-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/lib/src/tsetlini_state.cpp b/lib/src/tsetlini_state.cpp
index 7ca7b6d..c7069b6 100644
--- a/lib/src/tsetlini_state.cpp
+++ b/lib/src/tsetlini_state.cpp
@@ -14,6 +14,7 @@
 #include <thread>
 #include <random>
 #include <limits>
+#include <variant>
 
 
 namespace Tsetlini
@@ -255,7 +256,19 @@ template void initialize_state<RegressorStateBitwise>(RegressorStateBitwise & st
 template<typename EstimatorStateType>
 void reset_state_cache(EstimatorStateType & state)
 {
-    EstimatorStateType::cache_type::reset(state.cache, state.m_params);
+    using cache_type = typename EstimatorStateType::cache_type;
+
+    auto const is_fitted = std::visit([](auto const & matrix){ return matrix.rows() != 0; }, state.ta_state.matrix);
+
+    if (is_fitted)
+    {
+        cache_type::reset(state.cache, state.m_params);
+    }
+    else
+    {
+        // number of labels and features is not known yet
+        state.cache = typename cache_type::value_type{};
+    }
 }
 
 // explicit template instantiations
diff --git a/lib/src/tsetlini_state_json.cpp b/lib/src/tsetlini_state_json.cpp
index 47b92cb..51193aa 100644
--- a/lib/src/tsetlini_state_json.cpp
+++ b/lib/src/tsetlini_state_json.cpp
@@ -101,7 +101,7 @@ static void from_json(json const & j, Tsetlini::ClassifierStateClassic::ta_state
     j.at("width").get_to(width);
 
     auto const nr = j.at("data").size();
-    auto const nc = j.at("data")[0].size();
+    auto const nc = nr != 0 ? j.at("data")[0].size() : 0;
 
     if (width == 1)
     {
-- 
2.43.0


From 5be0a9a4cc832222030e8beae9bbb2ad5814c716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:35 +0000
Subject: [PATCH 13/16] fix: estimators made from arguments carry the same
 parameters as those from JSON

read_params() of an estimator created from arguments lacked the entries for
number of labels and features, and the state compared unequal to one created
from the equivalent JSON document.
---
 lib/src/tsetlini_params.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/src/tsetlini_params.cpp b/lib/src/tsetlini_params.cpp
index 3ee4951..2326b15 100644
--- a/lib/src/tsetlini_params.cpp
+++ b/lib/src/tsetlini_params.cpp
@@ -572,6 +572,10 @@ make_classifier_params_from_args(
         params["random_state"] = param_value_t(std::nullopt);
     }
 
+    // internal
+    params["number_of_labels"] = param_value_t(std::nullopt);
+    params["number_of_features"] = param_value_t(std::nullopt);
+
     auto rv =
         Either<status_message_t, params_t>::rightOf(params)
         .rightFlatMap(assert_n_jobs)
@@ -661,6 +665,9 @@ make_regressor_params_from_args(
         params["random_state"] = param_value_t(std::nullopt);
     }
 
+    // internal
+    params["number_of_features"] = param_value_t(std::nullopt);
+
     auto rv =
         Either<status_message_t, params_t>::rightOf(params)
         .rightFlatMap(assert_n_jobs)
-- 
2.43.0


From 66c9af6ff6a24bd8fcbb8b6644bac31811b5bfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:21 +0000
Subject: [PATCH 14/16] fix: do not create more threads than useful, too many
 of them end the process

With n_jobs in the thousands the OpenMP runtime failed to create the threads
and called exit() in the middle of fit or predict.
---
 lib/src/tsetlini_algo_common.hpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/lib/src/tsetlini_algo_common.hpp b/lib/src/tsetlini_algo_common.hpp
index 742d16a..e0585ce 100644
--- a/lib/src/tsetlini_algo_common.hpp
+++ b/lib/src/tsetlini_algo_common.hpp
@@ -11,11 +11,28 @@
 
 #include "strong_type/strong_type.hpp"
 
+#include <algorithm>
+#include <thread>
+
 
 namespace Tsetlini
 {
 
 
+/**
+ * Number of threads worth creating for given number of clause outputs. More of
+ * them would have nothing to do, and when there are too many to be created
+ * OpenMP runtime terminates the process.
+ */
+inline
+number_of_jobs_t limit_jobs(number_of_jobs_t const n_jobs, int const number_of_clause_outputs)
+{
+    static int const max_threads = 4 * std::max<int>(1, std::thread::hardware_concurrency());
+
+    return number_of_jobs_t{std::min({value_of(n_jobs), number_of_clause_outputs, max_threads})};
+}
+
+
 /**
  * @param X
  *      Vector of 0s and 1s, with size equal to @c number_of_features .
@@ -33,7 +50,7 @@ namespace Tsetlini
  *      @c numeric_matrix with 2 * @c number_of_clauses rows and
  *      @c number_of_features columns.
  *
- * @param n_jobs
+ * @param requested_n_jobs
  *      Number of parallel jobs.
  *
  * @param TILE_SZ
@@ -48,9 +65,11 @@ void calculate_clause_output(
     int const output_begin_ix,
     int const output_end_ix,
     TAStateType const & ta_state,
-    number_of_jobs_t const n_jobs,
+    number_of_jobs_t const requested_n_jobs,
     clause_output_tile_size_t const TILE_SZ)
 {
+    auto const n_jobs = limit_jobs(requested_n_jobs, output_end_ix - output_begin_ix);
+
     switch (value_of(TILE_SZ))
     {
         case 128:
@@ -107,9 +126,11 @@ void calculate_clause_output_with_pruning(
     aligned_vector_char & clause_output,
     number_of_estimator_clause_outputs_t const number_of_clause_outputs,
     TAStateType const & ta_state,
-    number_of_jobs_t const n_jobs,
+    number_of_jobs_t const requested_n_jobs,
     clause_output_tile_size_t const TILE_SZ)
 {
+    auto const n_jobs = limit_jobs(requested_n_jobs, value_of(number_of_clause_outputs));
+
     switch (value_of(TILE_SZ))
     {
         case 128:
-- 
2.43.0


From cad20b4192b8b0db498f5a0ff365e15d7bcbd32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 15/16] fix: size matrices of 2^32 elements and more in 64
 bits, not 32

---
 lib/include/basic_bit_matrix.hpp     | 2 +-
 lib/include/basic_numeric_matrix.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/basic_bit_matrix.hpp b/lib/include/basic_bit_matrix.hpp
index ca42081..cd41467 100644
--- a/lib/include/basic_bit_matrix.hpp
+++ b/lib/include/basic_bit_matrix.hpp
@@ -123,7 +123,7 @@ struct basic_bit_matrix
         : m_nrows(nrows)
         , m_ncols(ncols)
         , m_row_blocks((m_ncols + alignment * CHAR_BIT - 1) / (alignment * CHAR_BIT) * (alignment / block_size))
-        , m_v(row_blocks() * nrows)
+        , m_v(size_type{row_blocks()} * nrows)
     {
     }
 
diff --git a/lib/include/basic_numeric_matrix.hpp b/lib/include/basic_numeric_matrix.hpp
index 487490c..c161432 100644
--- a/lib/include/basic_numeric_matrix.hpp
+++ b/lib/include/basic_numeric_matrix.hpp
@@ -38,7 +38,7 @@ struct basic_numeric_matrix
     basic_numeric_matrix(uint const nrows, uint const ncols)
         : m_nrows(nrows)
         , m_ncols(ncols)
-        , m_v(row_items() * nrows)
+        , m_v(size_type{row_items()} * nrows)
     {
     }
 
@@ -99,7 +99,7 @@ struct basic_numeric_matrix
 
     uint row_items() const
     {
-        auto const rv = (m_ncols * item_size + alignment - 1) / alignment * (alignment / item_size);
+        auto const rv = (size_type{m_ncols} * item_size + alignment - 1) / alignment * (alignment / item_size);
 
         return rv;
     }
-- 
2.43.0


From 3a379253a60e06e0d8ca59ec9d30e524666df65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:46 +0000
Subject: [PATCH 16/16] fix: refuse rows with more features than an int can
 count

---
 lib/src/tsetlini.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/src/tsetlini.cpp b/lib/src/tsetlini.cpp
index 9358323..5f118d3 100644
--- a/lib/src/tsetlini.cpp
+++ b/lib/src/tsetlini.cpp
@@ -115,6 +115,11 @@ status_message_t check_X_y(
         return {StatusCode::S_VALUE_ERROR,
             "All rows of X must have the same number of feature columns"};
     }
+    else if (X.front().size() > static_cast<std::size_t>(std::numeric_limits<int>::max()))
+    {
+        return {StatusCode::S_VALUE_ERROR,
+            "Number of features " + std::to_string(X.front().size()) + " is too high"};
+    }
     else if (not std::all_of(X.cbegin(), X.cend(), [](auto const & row){ return check_all_0s_or_1s(row); }))
     {
         return {StatusCode::S_VALUE_ERROR,
-- 
2.43.0

