From 58b2dd6f48c493ff0d199bcf013558e3a90ead15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 01/36] fix: evaluate negative float base with fractional
 exponent as complex instead of NaN

---
 components/core/wf/expressions/power.cc | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/power.cc b/components/core/wf/expressions/power.cc
index 0f6bfe5..a1944ea 100644
--- a/components/core/wf/expressions/power.cc
+++ b/components/core/wf/expressions/power.cc
@@ -4,6 +4,8 @@
 #include "wf/expressions/power.h"
 
 #include <algorithm>
+#include <cmath>
+#include <complex>
 
 #include "wf/expression_visitor.h"
 #include "wf/expressions/multiplication.h"
@@ -61,9 +63,14 @@ struct power_numerics_visitor {
     if (base.is_zero() && exp.is_negative()) {
       return constants::complex_infinity;
     }
-    const auto result = std::pow(static_cast<float_constant>(base).value(),
-                                 static_cast<float_constant>(exp).value());
-    return make_expr<float_constant>(result);
+    const double base_value = static_cast<float_constant>(base).value();
+    const double exp_value = static_cast<float_constant>(exp).value();
+    if (base_value < 0.0 && std::isfinite(exp_value) && std::trunc(exp_value) != exp_value) {
+      // Negative base and fractional exponent: The principal value is complex.
+      const auto result = std::pow(std::complex<double>{base_value, 0.0}, exp_value);
+      return scalar_expr::from_complex(result.real(), result.imag());
+    }
+    return make_expr<float_constant>(std::pow(base_value, exp_value));
   }
 
   // If both operands are integers:
-- 
2.43.0


From 8605bcf2928613c17e3501564c12b48f7ae58750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 02/36] fix: do not drop or duplicate float coefficients in
 partial substitution

---
 components/core/wf/substitute.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 23f7a47..3e75d11 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -105,7 +105,8 @@ struct substitute_add_visitor
     // Create map representation for the input:
     addition_parts input_parts{candidate};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff)) {
+    if (std::holds_alternative<float_constant>(input_parts.coeff) ||
+        std::holds_alternative<float_constant>(target_parts.coeff)) {
       if (input_parts.coeff != target_parts.coeff) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
@@ -157,7 +158,9 @@ struct substitute_mul_visitor
     // TODO: Should we just store multiplications pre-factored in this format?
     multiplication_parts input_parts{candidate, true};
 
-    if (std::holds_alternative<float_constant>(input_parts.coeff())) {
+    const bool has_float_coeff = std::holds_alternative<float_constant>(input_parts.coeff()) ||
+                                 std::holds_alternative<float_constant>(target_parts.coeff());
+    if (has_float_coeff) {
       if (input_parts.coeff() != target_parts.coeff()) {
         // Don't allow substitutions that perform float operations.
         // (Unless the float coefficients match exactly, then we allow it.)
@@ -205,8 +208,16 @@ struct substitute_mul_visitor
       }
     }
 
+    integer_constant max_valid_exponent = max_valid_integer_exponent.value();
+    if (has_float_coeff) {
+      // The float coefficient only appears once in the input, so we can only replace the target once.
+      if (!max_valid_exponent.is_positive()) {
+        return input_expression;
+      }
+      max_valid_exponent = integer_constant{1};
+    }
+
     // Deduct the replaced expression from the input:
-    const integer_constant max_valid_exponent = max_valid_integer_exponent.value();
     for (const auto& [base, exponent] : target_parts.terms()) {
       auto it = input_parts.terms().find(base);
       WF_ASSERT(it != input_parts.terms().end());
-- 
2.43.0


From 83a81efb1ea8faad4065591a518dd4e77718dafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 03/36] fix: negative index combined with a slice in matrix
 indexing

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 5e87a98..c5be6e4 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -150,7 +150,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() - row : row;
+  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -165,7 +165,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() - col : col;
+  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From 7ca9f2467e0647e89c8bb6e9d1a6530b0e43f11b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 04/36] fix: reject matrices built from empty rows instead of
 dividing by zero

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index c5be6e4..1ffac61 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -232,6 +232,10 @@ inline matrix_expr stack_iterables(const std::vector<py::object>& rows) {
     }
   }
 
+  if (expected_num_cols == 0) {
+    throw dimension_error("Cannot construct matrix from empty rows.");
+  }
+
   // Figure out how many rows we extracted:
   WF_ASSERT_EQ(0, converted.size() % expected_num_cols);
   const auto total_rows = static_cast<index_t>(converted.size() / expected_num_cols);
-- 
2.43.0


From 8331225b63469f63b96b5f4300ebd36ef15253a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:09 +0000
Subject: [PATCH 05/36] fix: report overflow while normalizing a rational
 instead of terminating

---
 components/core/wf/expressions/numeric_expressions.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index adc2ede..e7bf506 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -113,11 +113,10 @@ class rational_constant {
   }
 
   // True if the absolute value of the fraction is less than one.
-  bool is_proper() const noexcept { return abs(n_) < d_; }
+  bool is_proper() const noexcept { return n_ < d_ && n_ > -d_; }
 
  private:
-  static constexpr std::pair<value_type, value_type> create_pair(value_type n,
-                                                                 value_type d) noexcept {
+  static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
     // Find the largest common denominator and reduce:
     const auto gcd = std::gcd(n.value(), d.value());
     n = n / gcd;
-- 
2.43.0


From 61978fae920cfce06b92d98e6f63a13dc9816209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:37 +0000
Subject: [PATCH 06/36] fix: order rationals without overflowing

---
 .../core/wf/expressions/numeric_expressions.h | 36 +++++++++++++++++--
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index e7bf506..69e27eb 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -277,14 +277,44 @@ struct is_identical_struct<rational_constant> {
 
 template <>
 struct order_struct<rational_constant> {
+  using value_type = rational_constant::value_type;
+
   constexpr relative_order operator()(const rational_constant& a,
                                       const rational_constant& b) const noexcept {
     if (a.denominator() == b.denominator()) {
       return order_by_comparison(a.numerator(), b.numerator());
     }
-    const auto left = a.numerator() * b.denominator();
-    const auto right = b.numerator() * a.denominator();
-    return order_by_comparison(left, right);
+    // Compare the continued fraction expansions. Cross-multiplying could overflow.
+    value_type a_n = a.numerator(), a_d = a.denominator();
+    value_type b_n = b.numerator(), b_d = b.denominator();
+    for (;;) {
+      const value_type a_floor = floor_div(a_n, a_d);
+      const value_type b_floor = floor_div(b_n, b_d);
+      if (a_floor != b_floor) {
+        return order_by_comparison(a_floor, b_floor);
+      }
+      const value_type a_rem = remainder(a_n, a_d);
+      const value_type b_rem = remainder(b_n, b_d);
+      if (a_rem == 0 || b_rem == 0) {
+        return order_by_comparison(a_rem, b_rem);
+      }
+      // a_rem / a_d < b_rem / b_d  -->  b_d / b_rem < a_d / a_rem
+      b_n = a_d;
+      a_n = b_d;
+      a_d = b_rem;
+      b_d = a_rem;
+    }
+  }
+
+ private:
+  // Division that rounds towards negative infinity (`d` is positive).
+  static constexpr value_type floor_div(const value_type n, const value_type d) {
+    return n % d < 0 ? n / d - 1 : n / d;
+  }
+
+  // Remainder of `floor_div`, which is always in [0, d).
+  static constexpr value_type remainder(const value_type n, const value_type d) {
+    return n % d < 0 ? n % d + d : n % d;
   }
 };
 
-- 
2.43.0


From 1fafc6b18af93c0b2527c823062149b05dd97492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 07/36] fix: avoid undefined behavior for INT64_MIN in rational
 normalization

---
 components/core/wf/expressions/numeric_expressions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 69e27eb..783ca29 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -118,7 +118,7 @@ class rational_constant {
  private:
   static constexpr std::pair<value_type, value_type> create_pair(value_type n, value_type d) {
     // Find the largest common denominator and reduce:
-    const auto gcd = std::gcd(n.value(), d.value());
+    const auto gcd = static_cast<std::int64_t>(std::gcd(magnitude(n), magnitude(d)));
     n = n / gcd;
     d = d / gcd;
     if (d < 0) {
@@ -130,6 +130,12 @@ class rational_constant {
     }
   }
 
+  // Absolute value as unsigned, which can represent the magnitude of the most negative integer.
+  static constexpr std::uint64_t magnitude(const value_type x) noexcept {
+    const auto bits = static_cast<std::uint64_t>(x.value());
+    return x < 0 ? std::uint64_t{0} - bits : bits;
+  }
+
   // Private constructor to allow direct initialization.
   explicit constexpr rational_constant(const std::pair<value_type, value_type>& pair) noexcept
       : n_(pair.first), d_(pair.second) {}
-- 
2.43.0


From 2b2769b59f96c544d867606c2363c88e00796250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:13 +0000
Subject: [PATCH 08/36] fix: hash 0.0 and -0.0 identically, since they compare
 as identical

---
 components/core/wf/expressions/numeric_expressions.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/components/core/wf/expressions/numeric_expressions.h b/components/core/wf/expressions/numeric_expressions.h
index 783ca29..324d699 100644
--- a/components/core/wf/expressions/numeric_expressions.h
+++ b/components/core/wf/expressions/numeric_expressions.h
@@ -364,6 +364,9 @@ constexpr bool operator!=(const float_constant& a, const float_constant& b) noex
 template <>
 struct hash_struct<float_constant> {
   std::size_t operator()(const float_constant& f) const noexcept {
+    if (f.value() == 0.0) {
+      return 0;  // 0.0 and -0.0 are identical, so their hashes must match.
+    }
     static_assert(std::is_trivially_copyable_v<float_constant> &&
                   sizeof(float_constant) == sizeof(std::size_t));
     std::size_t hash;
-- 
2.43.0


From b7573ae97c8fc6967a1501a81222c0b7b639b0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:08 +0000
Subject: [PATCH 09/36] fix: recombine products whose combined powers produce
 new factors

---
 .../core/wf/expressions/multiplication.cc     | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/expressions/multiplication.cc b/components/core/wf/expressions/multiplication.cc
index a633691..018dabe 100644
--- a/components/core/wf/expressions/multiplication.cc
+++ b/components/core/wf/expressions/multiplication.cc
@@ -202,10 +202,28 @@ bool has_numeric_coefficient(const scalar_expr& expr) {
   }
 }
 
+// True if the expression is `exp(...)`, which is multiplied as a power of `constants::euler`.
+static bool is_exponential(const scalar_expr& expr) {
+  const built_in_function_invocation* func = get_if<const built_in_function_invocation>(expr);
+  return func != nullptr && func->enum_value() == built_in_function::exp;
+}
+
 scalar_expr multiplication_parts::create_multiplication() && {
   multiplication::container_type args{};
   multiplication_parts::constant_coeff constant_coefficient = coeff_;
 
+  // Combining exponents may produce a new base, or a product. For example:
+  // (-3)**(1/4) * (-3)**(1/4) --> 3**(1/2) * I
+  // When this occurs, the new terms must be combined with the existing ones.
+  bool requires_another_pass = false;
+  const auto push_term = [&](const scalar_expr& base, scalar_expr term) {
+    requires_another_pass |=
+        !base.is_identical_to(constants::euler) &&
+        (term.is_type<multiplication>() || is_exponential(term) ||
+         !as_base_and_exp(term).first.is_identical_to(base));
+    args.push_back(std::move(term));
+  };
+
   // Convert into a vector of powers, and sort into canonical order:
   for (auto& [base, exp] : terms_) {
     auto pow = power::create(base, std::move(exp));
@@ -221,11 +239,11 @@ scalar_expr multiplication_parts::create_multiplication() && {
         }
       });
       if (!is_one(mul)) {
-        args.push_back(std::move(mul));
+        push_term(base, std::move(mul));
       }
     } else {
       // Leave the result of power intact.
-      args.push_back(std::move(pow));
+      push_term(base, std::move(pow));
     }
   }
 
@@ -247,6 +265,9 @@ scalar_expr multiplication_parts::create_multiplication() && {
   if (!is_one(constant_coeff_expr)) {
     args.push_back(std::move(constant_coeff_expr));
   }
+  if (requires_another_pass && args.size() > 1) {
+    return multiplication::from_operands(args);
+  }
   return maybe_new_mul(std::move(args));
 }
 
-- 
2.43.0


From c9496877d13289969adddc3136901731644f355b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:29 +0000
Subject: [PATCH 10/36] fix: apply leaf substitutions in order when a target is
 an earlier replacement

---
 components/core/wf/substitute.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/components/core/wf/substitute.cc b/components/core/wf/substitute.cc
index 3e75d11..5da7310 100644
--- a/components/core/wf/substitute.cc
+++ b/components/core/wf/substitute.cc
@@ -4,6 +4,7 @@
 #include "wf/substitute.h"
 
 #include <unordered_map>
+#include <unordered_set>
 
 #include "wf/expression_cache.h"
 #include "wf/expression_visitor.h"
@@ -437,11 +438,18 @@ static bool is_valid_for_unordered_subs(const X& target, const X& replacement,
 static std::optional<substitute_variables_visitor> create_unordered_subs_visitor(
     const absl::Span<const scalar_or_boolean_pair> pairs, const bool force_unordered_execution) {
   substitute_variables_visitor visitor{};
+  std::unordered_set<scalar_expr, hash_struct<scalar_expr>, is_identical_struct<scalar_expr>>
+      replacements{};
   for (const auto& pair : pairs) {
     if (const scalar_pair* scalars = std::get_if<scalar_pair>(&pair); scalars != nullptr) {
+      if (!force_unordered_execution && replacements.count(std::get<0>(*scalars))) {
+        // This target would replace the result of an earlier substitution.
+        return std::nullopt;
+      }
       if (is_valid_for_unordered_subs(std::get<0>(*scalars), std::get<1>(*scalars), visitor,
                                       force_unordered_execution)) {
         visitor.add_substitution(std::get<0>(*scalars), std::get<1>(*scalars));
+        replacements.insert(std::get<1>(*scalars));
       } else {
         return std::nullopt;
       }
-- 
2.43.0


From 0e5cb986fa2d818279f83b789d7e172c0dabc64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:36 +0000
Subject: [PATCH 11/36] fix: distribute powers of sums that are produced while
 multiplying

---
 components/core/wf/distribute.cc | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/distribute.cc b/components/core/wf/distribute.cc
index 79323da..f8fe81a 100644
--- a/components/core/wf/distribute.cc
+++ b/components/core/wf/distribute.cc
@@ -99,6 +99,15 @@ static absl::Span<const scalar_expr> expression_as_span(const scalar_expr& x) no
   }
 }
 
+// True if `x` is an addition, or an addition raised to a positive integer power.
+static bool is_addition_or_integer_power_of_addition(const scalar_expr& x) {
+  if (const power* pow = get_if<const power>(x); pow != nullptr) {
+    const integer_constant* exp = get_if<const integer_constant>(pow->exponent());
+    return pow->base().is_type<addition>() && exp != nullptr && exp->is_positive();
+  }
+  return x.is_type<addition>();
+}
+
 scalar_expr distribute_visitor::distribute_multiplied_terms(const scalar_expr& a,
                                                             const scalar_expr& b) {
   const auto span_a = expression_as_span(a);
@@ -109,10 +118,13 @@ scalar_expr distribute_visitor::distribute_multiplied_terms(const scalar_expr& a
   for (const scalar_expr& x : span_a) {
     for (const scalar_expr& y : span_b) {
       scalar_expr product = x * y;
-      if (const multiplication* m = get_if<const multiplication>(product);
-          m != nullptr && any_of(*m, [&](const scalar_expr& z) { return z.is_type<addition>(); })) {
+      const multiplication* const m = get_if<const multiplication>(product);
+      if (m != nullptr ? any_of(*m, &is_addition_or_integer_power_of_addition)
+                       : product.is_type<power>() &&
+                             is_addition_or_integer_power_of_addition(product)) {
         // This can occur if powers combine to form new additions in the product we just built.
         // For example: y * (1 + x)**(1/2) * (1 + x)**(1/2) --> y*(1 + x)
+        // Or: (1 + x)**(2/3) * (1 + x)**(4/3) --> (1 + x)**2
         // So we distribute again:
         output_terms.push_back(operator()(product));
       } else {
-- 
2.43.0


From d862f2c6f493d81dd6ac50ea71bfacbb3db58651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 12/36] fix: evaluate exact constants that appear while
 simplifying evaluated expressions

---
 components/core/wf/evaluate.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/evaluate.cc b/components/core/wf/evaluate.cc
index 029c791..fd46154 100644
--- a/components/core/wf/evaluate.cc
+++ b/components/core/wf/evaluate.cc
@@ -32,7 +32,12 @@ scalar_expr evaluate_visitor::operator()(const symbolic_constant& c) const {
 }
 
 scalar_expr evaluate_visitor::operator()(const scalar_expr& input) {
-  return cache_.get_or_insert(input, [this](const scalar_expr& x) { return visit(x, *this); });
+  return cache_.get_or_insert(input, [this](const scalar_expr& x) {
+    scalar_expr result = visit(x, *this);
+    // Simplification may introduce new exact constants (for example: sign(1.5) --> 1), which need to
+    // be evaluated as well.
+    return result.is_identical_to(x) ? result : operator()(result);
+  });
 }
 
 compound_expr evaluate_visitor::operator()(const compound_expr& input) {
-- 
2.43.0


From 8af36b9c0b6004ef40f66ba40ff12cd5cb2a3a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:04 +0000
Subject: [PATCH 13/36] fix: do not truncate numpy.float32/Fraction/etc. to
 integers in implicit conversions

---
 .../wrapper/pywrenfold/matrix_wrapper.cc      |  6 +-
 .../wrapper/pywrenfold/scalar_wrapper.cc      | 49 ++++++++--------
 components/wrapper/pywrenfold/wrapper_utils.h | 56 +++++++++++++++++++
 3 files changed, 84 insertions(+), 27 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 1ffac61..415c6c9 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -468,15 +468,15 @@ void wrap_matrix_operations(py::module_& m) {
           "__rmul__",
           [](const matrix_expr& self, const scalar_expr& other) { return self * other; },
           py::is_operator())
-      .def(py::self * std::int64_t())
+      .def(py::self * python_int())
       .def(py::self * double())
-      .def(std::int64_t() * py::self)
+      .def(python_int() * py::self)
       .def(double() * py::self)
       // Right divide by scalar:
       .def("__truediv__",
            static_cast<matrix_expr (*)(const matrix_expr&, const scalar_expr&)>(&operator/),
            py::is_operator())
-      .def(py::self / std::int64_t())
+      .def(py::self / python_int())
       .def(py::self / double())
       .def("__neg__", &matrix_expr::operator-, "Element-wise negation of the matrix.")
       // Prohibit conversion to bool.
diff --git a/components/wrapper/pywrenfold/scalar_wrapper.cc b/components/wrapper/pywrenfold/scalar_wrapper.cc
index 778b2e9..94d8a46 100644
--- a/components/wrapper/pywrenfold/scalar_wrapper.cc
+++ b/components/wrapper/pywrenfold/scalar_wrapper.cc
@@ -173,7 +173,7 @@ void wrap_scalar_operations(py::module_& m) {
   // Primary expression type:
   wrap_class<scalar_expr>(m, "Expr")
       // Implicit construction from numerics:
-      .def(py::init_implicit<std::int64_t>())
+      .def(py::init_implicit<python_int>())
       .def(py::init_implicit<double>())
       // String conversion:
       .def("__repr__", &scalar_expr::to_string)
@@ -225,7 +225,7 @@ void wrap_scalar_operations(py::module_& m) {
       .def("__pow__", &wf::pow, py::is_operator(), py::arg("other"))
       .def(
           "__pow__",
-          [](const scalar_expr& self, std::int64_t other) { return wf::pow(self, other); },
+          [](const scalar_expr& self, python_int other) { return wf::pow(self, other); },
           py::is_operator(), py::arg("other"))
       .def(
           "__pow__", [](const scalar_expr& self, double other) { return wf::pow(self, other); },
@@ -236,7 +236,7 @@ void wrap_scalar_operations(py::module_& m) {
           py::is_operator(), py::arg("other"))
       .def(
           "__rpow__",
-          [](const scalar_expr& self, const std::int64_t other) { return pow(other, self); },
+          [](const scalar_expr& self, const python_int other) { return wf::pow(other, self); },
           py::is_operator(), py::arg("other"))
       .def(
           "__rpow__", [](const scalar_expr& self, const double other) { return pow(other, self); },
@@ -247,22 +247,22 @@ void wrap_scalar_operations(py::module_& m) {
       .def(py::self < py::self)
       .def(py::self <= py::self)
       // Operators involving integers
-      .def(py::self + std::int64_t())
-      .def(py::self - std::int64_t())
-      .def(py::self * std::int64_t())
-      .def(py::self / std::int64_t())
-      .def(py::self > std::int64_t())
-      .def(py::self >= std::int64_t())
-      .def(py::self < std::int64_t())
-      .def(py::self <= std::int64_t())
-      .def(std::int64_t() + py::self)
-      .def(std::int64_t() - py::self)
-      .def(std::int64_t() * py::self)
-      .def(std::int64_t() / py::self)
-      .def(std::int64_t() > py::self)
-      .def(std::int64_t() >= py::self)
-      .def(std::int64_t() < py::self)
-      .def(std::int64_t() <= py::self)
+      .def(py::self + python_int())
+      .def(py::self - python_int())
+      .def(py::self * python_int())
+      .def(py::self / python_int())
+      .def(py::self > python_int())
+      .def(py::self >= python_int())
+      .def(py::self < python_int())
+      .def(py::self <= python_int())
+      .def(python_int() + py::self)
+      .def(python_int() - py::self)
+      .def(python_int() * py::self)
+      .def(python_int() / py::self)
+      .def(python_int() > py::self)
+      .def(python_int() >= py::self)
+      .def(python_int() < py::self)
+      .def(python_int() <= py::self)
       // Operators involving doubles
       .def(py::self + double())
       .def(py::self - double())
@@ -309,18 +309,19 @@ void wrap_scalar_operations(py::module_& m) {
                 "= False, nonnegative: bool = False, complex: bool = False) -> typing.Any"),
         docstrings::symbols.data());
   m.def(
-      "integer", [](const std::int64_t value) { return scalar_expr{value}; }, "value"_a,
+      "integer", [](const python_int value) -> scalar_expr { return value; }, "value"_a,
       docstrings::integer.data());
   m.def(
       "float_constant", [](const double value) { return scalar_expr{value}; }, py::arg("value"),
       docstrings::float_constant.data());
   m.def(
       "rational",
-      [](const std::int64_t n, const std::int64_t d) {
-        if (d == 0) {
-          throw wf::arithmetic_error("Rational denominator must be non-zero: {} / {}", n, d);
+      [](const python_int n, const python_int d) {
+        if (d.value == 0) {
+          throw wf::arithmetic_error("Rational denominator must be non-zero: {} / {}", n.value,
+                                     d.value);
         }
-        return scalar_expr{rational_constant{n, d}};
+        return scalar_expr{rational_constant{n.value, d.value}};
       },
       py::arg("n"), py::arg("d"), docstrings::rational.data());
   m.def("unique_symbols", &create_unique_variables, py::arg("count"), py::arg("real") = false,
diff --git a/components/wrapper/pywrenfold/wrapper_utils.h b/components/wrapper/pywrenfold/wrapper_utils.h
index 1626b08..81af12f 100644
--- a/components/wrapper/pywrenfold/wrapper_utils.h
+++ b/components/wrapper/pywrenfold/wrapper_utils.h
@@ -3,6 +3,8 @@
 // For license information refer to accompanying LICENSE file.
 #pragma once
 #include <algorithm>
+#include <cstdint>
+#include <string_view>
 
 #include <nanobind/nanobind.h>
 
@@ -18,6 +20,16 @@ WF_END_THIRD_PARTY_INCLUDES
 namespace wf {
 namespace py = nanobind;
 
+// An integer argument accepted from python. The nanobind caster for `std::int64_t` truncates any
+// object that defines `__int__` (numpy.float32, fractions.Fraction, etc.), whereas this type only
+// matches objects that are integers (ie. which implement `__index__`).
+struct python_int {
+  std::int64_t value{0};
+
+  // ReSharper disable once CppNonExplicitConversionOperator
+  operator scalar_expr() const { return scalar_expr{value}; }  // NOLINT
+};
+
 // Wrap a class, and add certain members automatically.
 template <typename T>
 py::class_<T> wrap_class(py::module_& m, const std::string_view name) {
@@ -86,3 +98,47 @@ V variant_from_pyobject(const py::handle& object) {
 }
 
 }  // namespace wf
+
+namespace nanobind::detail {
+
+template <>
+struct type_caster<wf::python_int> {
+  NB_TYPE_CASTER(wf::python_int, const_name("int"))
+
+  bool from_python(const handle src, const uint8_t flags, cleanup_list* cleanup) noexcept {
+    make_caster<std::int64_t> caster;
+    if (PyLong_Check(src.ptr())) {
+      if (!caster.from_python(src, flags, cleanup)) {
+        return false;
+      }
+    } else if (!(flags & static_cast<uint8_t>(cast_flags::convert))) {
+      return false;
+    } else if (const std::string_view name = Py_TYPE(src.ptr())->tp_name;
+               name == "numpy.bool" || name == "numpy.bool_") {
+      // numpy booleans do not implement `__index__`, unlike `bool`.
+      value.value = PyObject_IsTrue(src.ptr()) == 1;
+      return true;
+    } else {
+      if (!PyIndex_Check(src.ptr())) {
+        return false;
+      }
+      const object index = steal(PyNumber_Index(src.ptr()));
+      if (!index.is_valid()) {
+        PyErr_Clear();
+        return false;
+      }
+      if (!caster.from_python(index, 0, cleanup)) {
+        return false;
+      }
+    }
+    value.value = caster.operator cast_t<std::int64_t>();
+    return true;
+  }
+
+  static handle from_cpp(const wf::python_int src, const rv_policy policy,
+                         cleanup_list* cleanup) noexcept {
+    return make_caster<std::int64_t>::from_cpp(src.value, policy, cleanup);
+  }
+};
+
+}  // namespace nanobind::detail
-- 
2.43.0


From 6aed9ed589c46777d42eefdc627e2d1583469d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:08 +0000
Subject: [PATCH 14/36] fix: accept eliminate_subexpressions(expr) and
 min_occurrences= as documented

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 2 +-
 components/wrapper/pywrenfold/scalar_wrapper.cc | 2 +-
 components/wrapper/stubs/pywrenfold/sym.pyi     | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index 415c6c9..ee66dae 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -538,7 +538,7 @@ void wrap_matrix_operations(py::module_& m) {
         return eliminate_subexpressions(expr, std::move(make_variable).value_or(nullptr),
                                         min_occurrences);
       },
-      py::arg("expr"), py::arg("make_variable").none() = py::none(), py::arg("min_occurences") = 2,
+      py::arg("expr"), py::arg("make_variable").none() = py::none(), py::arg("min_occurrences") = 2,
       "Matrix-valued overload.");
 }
 
diff --git a/components/wrapper/pywrenfold/scalar_wrapper.cc b/components/wrapper/pywrenfold/scalar_wrapper.cc
index 94d8a46..f72ffc0 100644
--- a/components/wrapper/pywrenfold/scalar_wrapper.cc
+++ b/components/wrapper/pywrenfold/scalar_wrapper.cc
@@ -391,7 +391,7 @@ void wrap_scalar_operations(py::module_& m) {
         return eliminate_subexpressions(expr, std::move(make_variable).value_or(nullptr),
                                         min_occurrences);
       },
-      py::arg("expr"), py::arg("make_variable").none(), "min_occurrences"_a = 2,
+      py::arg("expr"), py::arg("make_variable").none() = py::none(), "min_occurrences"_a = 2,
       docstrings::eliminate_subexpressions.data());
 
   // Special constants:
diff --git a/components/wrapper/stubs/pywrenfold/sym.pyi b/components/wrapper/stubs/pywrenfold/sym.pyi
index 93577b0..533cf59 100644
--- a/components/wrapper/stubs/pywrenfold/sym.pyi
+++ b/components/wrapper/stubs/pywrenfold/sym.pyi
@@ -1135,7 +1135,7 @@ def stop_derivative(arg: Expr) -> Expr:
     """
 
 @overload
-def eliminate_subexpressions(expr: Expr, make_variable: Callable[[int], Expr] | None, min_occurrences: int = 2) -> tuple[Expr, list[tuple[Expr, Expr]]]:
+def eliminate_subexpressions(expr: Expr, make_variable: Callable[[int], Expr] | None = None, min_occurrences: int = 2) -> tuple[Expr, list[tuple[Expr, Expr]]]:
     """
     Extract common subexpressions from a scalar-valued expression. The expression tree is traversed and
     unique expressions are counted. Those that appear ``min_occurrences`` or more times are replaced
@@ -1165,7 +1165,7 @@ def eliminate_subexpressions(expr: Expr, make_variable: Callable[[int], Expr] |
     """
 
 @overload
-def eliminate_subexpressions(expr: MatrixExpr, make_variable: Callable[[int], Expr] | None = None, min_occurences: int = 2) -> tuple[MatrixExpr, list[tuple[Expr, Expr]]]:
+def eliminate_subexpressions(expr: MatrixExpr, make_variable: Callable[[int], Expr] | None = None, min_occurrences: int = 2) -> tuple[MatrixExpr, list[tuple[Expr, Expr]]]:
     """Matrix-valued overload."""
 
 E: Expr = ...
-- 
2.43.0


From 8e93011452b04fae86a71e10ac4f737840972fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 15/36] fix: bounds check of matrix blocks overflowed for
 indices near INT_MAX

---
 components/core/wf/expressions/matrix.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/expressions/matrix.cc b/components/core/wf/expressions/matrix.cc
index 7ddbb95..145e2a8 100644
--- a/components/core/wf/expressions/matrix.cc
+++ b/components/core/wf/expressions/matrix.cc
@@ -21,7 +21,9 @@ matrix::matrix(const index_t rows, const index_t cols, container_type data)
 
 matrix matrix::get_block(const index_t row, const index_t col, const index_t nrows,
                          const index_t ncols) const {
-  if (row < 0 || row + nrows > rows_ || col < 0 || col + ncols > cols_) {
+  // Subtract on the right (instead of adding on the left) so that large indices cannot overflow.
+  if (row < 0 || nrows < 0 || nrows > rows_ || row > rows_ - nrows || col < 0 || ncols < 0 ||
+      ncols > cols_ || col > cols_ - ncols) {
     throw dimension_error(
         "Block [position: ({}, {}), size: ({}, {})] is out of bounds for matrix of shape ({}, {})",
         row, col, nrows, ncols, rows_, cols_);
-- 
2.43.0


From 2b5375e8c73bf295e74bb8d557edc86f4fa10dba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 16/36] fix: integer overflow in the size computed by
 zeros(rows, cols)

---
 components/core/wf/matrix_functions.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/matrix_functions.cc b/components/core/wf/matrix_functions.cc
index a8359b6..6a481c0 100644
--- a/components/core/wf/matrix_functions.cc
+++ b/components/core/wf/matrix_functions.cc
@@ -32,7 +32,8 @@ matrix_expr make_zeros(index_t rows, index_t cols) {
     throw dimension_error("Cannot construct zero matrix with shape: ({}, {})", rows, cols);
   }
   // Eventually we might have a symbolic zero matrix, and this won't be required.
-  std::vector<scalar_expr> data(static_cast<std::size_t>(rows * cols), constants::zero);
+  std::vector<scalar_expr> data(static_cast<std::size_t>(rows) * static_cast<std::size_t>(cols),
+                                constants::zero);
   return matrix_expr::create(rows, cols, std::move(data));
 }
 
-- 
2.43.0


From 03f103305de6c91177df18b0ee20d61a0ff69a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:32 +0000
Subject: [PATCH 17/36] fix: out of range index combined with an empty slice
 returned an empty matrix

---
 components/wrapper/pywrenfold/matrix_wrapper.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/components/wrapper/pywrenfold/matrix_wrapper.cc b/components/wrapper/pywrenfold/matrix_wrapper.cc
index ee66dae..b4a3501 100644
--- a/components/wrapper/pywrenfold/matrix_wrapper.cc
+++ b/components/wrapper/pywrenfold/matrix_wrapper.cc
@@ -91,6 +91,15 @@ struct row_iterator {
   row_iterator(matrix_expr parent, const index_t row) : parent_(std::move(parent)), row_(row) {}
 };
 
+// Map a negative `index` to the equivalent non-negative one, and check that it is within bounds.
+static index_t wrap_index(const index_t index, const index_t size) {
+  const index_t wrapped = index < 0 ? (size + index) : index;
+  if (wrapped < 0 || wrapped >= size) {
+    throw dimension_error("Index {} is out of bounds for dimension of length {}.", index, size);
+  }
+  return wrapped;
+}
+
 // Access a particular row and column (with support for negative indexing).
 scalar_expr matrix_get_row_and_col(const matrix_expr& self,
                                    const std::tuple<index_t, index_t>& row_col) {
@@ -150,7 +159,7 @@ matrix_expr matrix_get_row_and_col_slice(const matrix_expr& self,
 matrix_expr matrix_get_row_index_and_col_slice(
     const matrix_expr& self, const std::tuple<index_t, py::slice>& row_and_col_slice) {
   const auto [row, col_slice] = row_and_col_slice;
-  const index_t wrapped_row = row < 0 ? self.rows() + row : row;
+  const index_t wrapped_row = wrap_index(row, self.rows());
   const slice col_index{self.cols(), col_slice};
 
   std::vector<scalar_expr> elements;
@@ -165,7 +174,7 @@ matrix_expr matrix_get_row_index_and_col_slice(
 matrix_expr matrix_get_row_slice_and_col_index(
     const matrix_expr& self, const std::tuple<py::slice, index_t>& row_slice_and_col) {
   const auto [row_slice, col] = row_slice_and_col;
-  const index_t wrapped_col = col < 0 ? self.cols() + col : col;
+  const index_t wrapped_col = wrap_index(col, self.cols());
   const slice row_index{self.rows(), row_slice};
 
   std::vector<scalar_expr> elements;
-- 
2.43.0


From d5764134bda12ec1923040063fea0d59621e264e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 18/36] fix: pass floating-point operands to math functions in
 generated code

---
 components/core/wf/code_generation/ir_form_visitor.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 3bd44bc..03b89f5 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -202,6 +202,14 @@ ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& fu
   // Convert args to values:
   auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
 
+  // Apart from `abs` and `signum`, these functions are only defined on floating point operands in
+  // the target languages.
+  if (enum_value != std_math_function::abs && enum_value != std_math_function::signum) {
+    for (auto& arg : args) {
+      arg = maybe_cast(arg, numeric_primitive_type::floating_point);
+    }
+  }
+
   const numeric_primitive_type numeric_type = std_function_output_type(enum_value, args);
   return push_operation(ir::call_std_function{enum_value}, numeric_type, args);
 }
-- 
2.43.0


From 04207b917a6739ff55cc3c02ce13fec7ea846b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 19/36] fix: only trailing optional outputs get a default value
 in generated Python signatures

---
 .../core/wf/code_generation/python_code_generator.cc  | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index cead274..f07e14a 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -233,7 +233,15 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
   std::vector<std::string> args{};
   args.reserve(signature.num_arguments());
 
+  // Only the optional arguments that follow the last required argument may have a default value.
+  std::size_t first_default = signature.num_arguments();
+  while (first_default > 0 && signature.arguments()[first_default - 1].is_optional()) {
+    --first_default;
+  }
+
+  std::size_t index = 0;
   for (const auto& arg : signature.arguments()) {
+    const bool has_default = index++ >= first_default;
     const auto formatted_type = std::visit(*this, arg.type());
     if (arg.direction() == argument_direction::input) {
       args.push_back(fmt::format("{}: {}", arg.name(), formatted_type));
@@ -243,7 +251,8 @@ std::string python_code_generator::operator()(const ast::function_signature& sig
       }
     } else if (arg.direction() == argument_direction::optional_output) {
       if (use_output_arguments_) {
-        args.push_back(fmt::format("{}: {} | None = None", arg.name(), formatted_type));
+        args.push_back(fmt::format("{}: {} | None{}", arg.name(), formatted_type,
+                                   has_default ? " = None" : ""));
       } else {
         args.push_back(fmt::format("compute_{}: bool", arg.name()));
       }
-- 
2.43.0


From efaefa03d7fb42f80b18fbb7cdb85c9830330928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 20/36] fix: emit constants as tensors when targeting PyTorch

---
 .../code_generation/python_code_generator.cc   | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index f07e14a..8132331 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -465,12 +465,10 @@ std::string python_code_generator::operator()(const ast::divide& x) const {
 }
 
 std::string python_code_generator::operator()(const ast::float_literal& x) const {
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, fmt::format("{}", x.value),
-                                   numeric_primitive_type::floating_point, float_width_);
-  } else {
-    return fmt::format("{}", x.value);
-  }
+  // The result must be a tensor in the case of torch, since most of the torch API does not accept
+  // python scalars.
+  return format_scalar_type_cast(target_, fmt::format("{}", x.value),
+                                 numeric_primitive_type::floating_point, float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::get_argument& x) const {
@@ -531,12 +529,8 @@ std::string python_code_generator::operator()(const ast::return_object&) const {
 std::string python_code_generator::operator()(const ast::special_constant& x) const {
   const auto constant = fmt::format("{}.{}", python_module_prefix_from_target(target_),
                                     x.value == symbolic_constant_enum::euler ? "e" : "pi");
-  if (target_ == python_generator_target::numpy || target_ == python_generator_target::jax) {
-    return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
-                                   float_width_);
-  } else {
-    return constant;
-  }
+  return format_scalar_type_cast(target_, constant, numeric_primitive_type::floating_point,
+                                 float_width_);
 }
 
 std::string python_code_generator::operator()(const ast::ternary& x) const {
-- 
2.43.0


From 3cd96b49503994c8fe2aeeecea811190c69361ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 21/36] fix: spell powers with an existing function when
 targeting PyTorch

---
 .../core/wf/code_generation/python_code_generator.cc       | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 8132331..581c255 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -368,7 +368,7 @@ std::string python_code_generator::operator()(const ast::call_external_function&
 }
 
 constexpr static std::string_view python_string_from_std_math_function(
-    const std_math_function function) {
+    const std_math_function function, const python_generator_target target) {
   switch (function) {
     case std_math_function::cos:
     case std_math_function::sin:
@@ -409,7 +409,8 @@ constexpr static std::string_view python_string_from_std_math_function(
     }
     case std_math_function::powi:
     case std_math_function::powf: {
-      return "power";
+      // torch has no `power`.
+      return target == python_generator_target::pytorch ? "pow" : "power";
     }
   }
   WF_ASSERT_ALWAYS("Unhandled standard math function: {}",
@@ -418,7 +419,7 @@ constexpr static std::string_view python_string_from_std_math_function(
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
-                     python_string_from_std_math_function(x.function),
+                     python_string_from_std_math_function(x.function, target_),
                      fmt::join(x.args | std::views::transform(*this), ", "));
 }
 
-- 
2.43.0


From 53cad5cf4f6d2c6095a335e29ff8716bc8db9ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:18 +0000
Subject: [PATCH 22/36] fix: convert operands of abs and sign to tensors when
 targeting PyTorch

---
 components/core/wf/code_generation/python_code_generator.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/components/core/wf/code_generation/python_code_generator.cc b/components/core/wf/code_generation/python_code_generator.cc
index 581c255..e4d9af8 100644
--- a/components/core/wf/code_generation/python_code_generator.cc
+++ b/components/core/wf/code_generation/python_code_generator.cc
@@ -418,6 +418,12 @@ constexpr static std::string_view python_string_from_std_math_function(
 }
 
 std::string python_code_generator::operator()(const ast::call_std_function& x) const {
+  if (target_ == python_generator_target::pytorch &&
+      (x.function == std_math_function::abs || x.function == std_math_function::signum)) {
+    // These may accept integer operands, which can be python integers rather than tensors.
+    return fmt::format("{0}.{1}({0}.asarray({2}))", python_module_prefix_from_target(target_),
+                       python_string_from_std_math_function(x.function, target_), make_view(x[0]));
+  }
   return fmt::format("{}.{}({})", python_module_prefix_from_target(target_),
                      python_string_from_std_math_function(x.function, target_),
                      fmt::join(x.args | std::views::transform(*this), ", "));
-- 
2.43.0


From 737f9350d0c01bb6265ccaea9cc69fd00a007dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:54 +0000
Subject: [PATCH 23/36] fix: parenthesize ternaries that are operands of other
 operations

---
 components/core/wf/code_generation/ast_conversion.cc | 11 ++++++-----
 components/core/wf/enumerations.h                    |  4 ++--
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 3a2df5b..5cb4f08 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -415,8 +415,8 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::ca
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::compare& compare) {
   return ast::ast_element{std::in_place_type_t<ast::compare>{}, compare.operation(),
-                          visit_operation_argument(val[0], std::nullopt),
-                          visit_operation_argument(val[1], std::nullopt)};
+                          visit_operation_argument(val[0], precedence::relational),
+                          visit_operation_argument(val[1], precedence::relational)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val,
@@ -427,10 +427,11 @@ ast::ast_element ast_form_visitor::operator()(const ir::value& val,
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::cond&) {
+  // Operands of the ternary are parenthesized unless they are atomic.
   return ast::ast_element{std::in_place_type_t<ast::ternary>{},
-                          visit_operation_argument(val[0], precedence::ternary),
-                          visit_operation_argument(val[1], precedence::ternary),
-                          visit_operation_argument(val[2], precedence::ternary)};
+                          visit_operation_argument(val[0], precedence::power),
+                          visit_operation_argument(val[1], precedence::power),
+                          visit_operation_argument(val[2], precedence::power)};
 }
 
 ast::ast_element ast_form_visitor::operator()(const ir::value& val, const ir::copy&) {
diff --git a/components/core/wf/enumerations.h b/components/core/wf/enumerations.h
index 115e5b0..f1ffdf4 100644
--- a/components/core/wf/enumerations.h
+++ b/components/core/wf/enumerations.h
@@ -13,11 +13,11 @@ using index_t = int;
 
 // Mathematical precedence of operators.
 enum class precedence : int {
-  relational = 0,
+  ternary = 0,
+  relational,
   addition,
   multiplication,
   power,
-  ternary,
   none = std::numeric_limits<int>::max(),
 };
 
-- 
2.43.0


From 06d00d105209978eb6c65868e5a6649d3f5e7ecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 24/36] fix: parenthesize the signum expression emitted for C++
 and Rust

---
 components/core/wf/code_generation/cpp_code_generator.cc | 2 +-
 components/core/wf/code_generation/ir_value.cc           | 4 ++++
 .../core/wf/code_generation/rust_code_generator.cc       | 9 +++++++--
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index dadd09d..e0f76cf 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -265,7 +265,7 @@ std::string cpp_code_generator::operator()(const ast::call_std_function& x) cons
                          make_view(x[0]));
     case std_math_function::signum:
       // TODO: Casts should be different, depending on type of first arg.
-      return fmt::format("(static_cast<Scalar>(0) < {arg}) - ({arg} < static_cast<Scalar>(0))",
+      return fmt::format("(static_cast<Scalar>(0) < ({arg})) - (({arg}) < static_cast<Scalar>(0))",
                          fmt::arg("arg", make_view(x[0])));
     case std_math_function::floor:
       return fmt::format("static_cast<{}>(std::floor({}))",
diff --git a/components/core/wf/code_generation/ir_value.cc b/components/core/wf/code_generation/ir_value.cc
index 993a3d2..4d55122 100644
--- a/components/core/wf/code_generation/ir_value.cc
+++ b/components/core/wf/code_generation/ir_value.cc
@@ -36,6 +36,10 @@ precedence value::operation_precedence() const {
       [](const ir::mul&) constexpr { return precedence::multiplication; },
       [](const ir::div&) constexpr { return precedence::multiplication; },
       [](const ir::cond&) constexpr { return precedence::ternary; },
+      [](const ir::call_std_function& call) constexpr {
+        // Some targets lack a signum function, and emit a subtraction.
+        return call.name() == std_math_function::signum ? precedence::addition : precedence::none;
+      },
       [](const auto&) constexpr { return precedence::none; });
 }
 
diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 88e30c1..859ed36 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -235,9 +235,14 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
                          string_from_standard_library_function(x.function));
     case std_math_function::log:
       return fmt::format("({}).ln()", make_view(x[0]));
-    case std_math_function::signum:
+    case std_math_function::signum: {
+      // Casts and branches must be parenthesized in order to appear in a comparison.
+      const std::string arg =
+          ast::get_if<ast::variable_ref>(x[0]) ? operator()(x[0])
+                                               : fmt::format("({})", make_view(x[0]));
       return fmt::format("(0.0f64 < {arg}) as i64 - ({arg} < 0.0f64) as i64",
-                         fmt::arg("arg", make_view(x[0])));
+                         fmt::arg("arg", arg));
+    }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
     case std_math_function::atan2:
-- 
2.43.0


From a7cf07afade2c61c251b18fee0bf03321090c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:44 +0000
Subject: [PATCH 25/36] fix: parenthesize ternaries inside the Eigen comma
 initializer

---
 components/core/wf/code_generation/cpp_code_generator.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/cpp_code_generator.cc b/components/core/wf/code_generation/cpp_code_generator.cc
index e0f76cf..340156f 100644
--- a/components/core/wf/code_generation/cpp_code_generator.cc
+++ b/components/core/wf/code_generation/cpp_code_generator.cc
@@ -306,8 +306,12 @@ std::string cpp_code_generator::operator()(const ast::construct_matrix& x) const
   if (behavior_ == cpp_matrix_type_behavior::generic_span) {
     throw_matrix_error<ast::construct_matrix>();
   } else {
+    // The comma initializer is built with `<<`, which binds more tightly than a ternary.
     return fmt::format("(Eigen::Matrix<Scalar, {}, {}>() << {}).finished()", x.type.rows(),
-                       x.type.cols(), fmt::join(x.args | std::views::transform(*this), ", "));
+                       x.type.cols(), join(", ", x.args, [this](const ast::ast_element& arg) {
+                         return ast::get_if<ast::ternary>(arg) ? fmt::format("({})", make_view(arg))
+                                                               : operator()(arg);
+                       }));
   }
 }
 
-- 
2.43.0


From f0df1710f97c5b7176f0daad0c68e5ad48a80e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:26 +0000
Subject: [PATCH 26/36] fix: emit Rust powers with integer exponents as powf,
 since powi accepts only i32

---
 components/core/wf/code_generation/rust_code_generator.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 859ed36..0fee4c3 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -245,8 +245,10 @@ std::string rust_code_generator::operator()(const ast::call_std_function& x) con
     }
     case std_math_function::floor:
       return fmt::format("({}).floor() as i64", make_view(x[0]));
-    case std_math_function::atan2:
     case std_math_function::powi:
+      // `f64::powi` accepts only i32, but our integers are i64.
+      return fmt::format("({}).powf(({}) as f64)", make_view(x[0]), make_view(x[1]));
+    case std_math_function::atan2:
     case std_math_function::powf:
       return fmt::format("({}).{}({})", make_view(x[0]),
                          string_from_standard_library_function(x.function), make_view(x[1]));
-- 
2.43.0


From 439406db7c07a762070262adccc75a2db1770cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:58 +0000
Subject: [PATCH 27/36] fix: pass floating-point operands to signum in
 generated code

---
 components/core/wf/code_generation/ir_form_visitor.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/components/core/wf/code_generation/ir_form_visitor.cc b/components/core/wf/code_generation/ir_form_visitor.cc
index 03b89f5..7ee60d4 100644
--- a/components/core/wf/code_generation/ir_form_visitor.cc
+++ b/components/core/wf/code_generation/ir_form_visitor.cc
@@ -202,9 +202,9 @@ ir::value_ptr ir_form_visitor::operator()(const built_in_function_invocation& fu
   // Convert args to values:
   auto args = transform_map<absl::InlinedVector<ir::value_ptr, 4>>(func, *this);
 
-  // Apart from `abs` and `signum`, these functions are only defined on floating point operands in
-  // the target languages.
-  if (enum_value != std_math_function::abs && enum_value != std_math_function::signum) {
+  // Apart from `abs`, these functions are only defined on floating point operands in the target
+  // languages.
+  if (enum_value != std_math_function::abs) {
     for (auto& arg : args) {
       arg = maybe_cast(arg, numeric_primitive_type::floating_point);
     }
-- 
2.43.0


From a96bc69b73134c8f9a963826ce98719b858b446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:31 +0000
Subject: [PATCH 28/36] fix: parenthesize negated boolean casts in generated
 Rust

---
 components/core/wf/code_generation/rust_code_generator.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 0fee4c3..53827aa 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -358,6 +358,11 @@ std::string rust_code_generator::operator()(const ast::multiply& x) const {
 }
 
 std::string rust_code_generator::operator()(const ast::negate& x) const {
+  if (const auto cast = ast::get_if<ast::cast>(x.arg);
+      cast.has_value() && cast->source_type == numeric_primitive_type::boolean) {
+    // Negation binds more tightly than `as`, and is not defined on booleans.
+    return fmt::format("-({})", make_view(x.arg));
+  }
   return fmt::format("-{}", make_view(x.arg));
 }
 
-- 
2.43.0


From fcb186eddab11615aa4055528fe38572bad60ea3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 29/36] fix: convert variables to sympy with Symbol, so names
 with separators survive

sympy.symbols() splits names on commas, spaces and colons, so a variable whose
name contains one was converted to a tuple of symbols (or raised).
---
 components/wrapper/pywrenfold/sympy_conversion.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/wrapper/pywrenfold/sympy_conversion.cc b/components/wrapper/pywrenfold/sympy_conversion.cc
index 0d652fd..e263078 100644
--- a/components/wrapper/pywrenfold/sympy_conversion.cc
+++ b/components/wrapper/pywrenfold/sympy_conversion.cc
@@ -206,7 +206,7 @@ class sympy_conversion_visitor {
   }
 
   py::object operator()(const variable& var) const {
-    return invoke_sympy_object("symbols", var.name(), **get_variable_kwargs(var.set()));
+    return invoke_sympy_object("Symbol", var.name(), **get_variable_kwargs(var.set()));
   }
 
   template <typename T>
-- 
2.43.0


From 1c375f44c2ffa88133877a3dd5068dd3c9317f21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:40 +0000
Subject: [PATCH 30/36] fix: keep the last condition of a sympy Piecewise
 during conversion

The condition of the final branch was dropped, so a Piecewise without a default
branch converted to an expression with a value where sympy's is undefined.
---
 components/python/wrenfold/sympy_conversion.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/components/python/wrenfold/sympy_conversion.py b/components/python/wrenfold/sympy_conversion.py
index d12c3b7..4b887db 100644
--- a/components/python/wrenfold/sympy_conversion.py
+++ b/components/python/wrenfold/sympy_conversion.py
@@ -116,12 +116,16 @@ class Conversions:
         """
         if len(expr.args) == 2:
             # If the output values are one and zero, this is equivalent to the iverson bracket.
-            (true_val, cond), (false_val, _) = expr.args
-            if true_val == 1 and false_val == 0:
+            (true_val, cond), (false_val, final_cond) = expr.args
+            if true_val == 1 and false_val == 0 and final_cond == self.sp.true:
                 return sym.iverson(self(cond))
 
-        output = self(expr.args[-1][0])
-        for val, cond in reversed(expr.args[:-1]):
+        # A piecewise function without a default branch is undefined where no condition holds.
+        output = sym.nan
+        for val, cond in reversed(expr.args):
+            if cond == self.sp.true:
+                output = self(val)
+                continue
             output = sym.where(self(cond), self(val), output)
         return output
 
-- 
2.43.0


From d858e21bda82162a5cbb51975063db5bc501a906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 31/36] fix: allow any value of custom type to be assigned to
 an output argument

An output argument of custom type was required to be a ConstructCustomType. Assertion failed when the
output was an input argument, the result of an external function, or a value used more than once.
---
 components/core/wf/code_generation/ast.h             | 4 ++--
 components/core/wf/code_generation/ast_conversion.cc | 3 +--
 components/wrapper/pywrenfold/ast_wrapper.cc         | 6 +++---
 components/wrapper/stubs/pywrenfold/ast.pyi          | 4 ++--
 4 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/components/core/wf/code_generation/ast.h b/components/core/wf/code_generation/ast.h
index b8c3f95..344dffc 100644
--- a/components/core/wf/code_generation/ast.h
+++ b/components/core/wf/code_generation/ast.h
@@ -277,11 +277,11 @@ struct assign_output_matrix {
 };
 
 // Assign to an output argument that is a custom struct.
-// Out of alphabetical order, but needs the definition of `construct_custom_type` to be visible.
+// The value need not be a `construct_custom_type`: it may also be a variable or an input argument.
 struct assign_output_struct {
   static constexpr std::string_view snake_case_name_str = "assign_output_struct";
   argument arg;
-  construct_custom_type value;
+  ast_element value;
 };
 
 // Describe a function signature.
diff --git a/components/core/wf/code_generation/ast_conversion.cc b/components/core/wf/code_generation/ast_conversion.cc
index 5cb4f08..f2c457c 100644
--- a/components/core/wf/code_generation/ast_conversion.cc
+++ b/components/core/wf/code_generation/ast_conversion.cc
@@ -141,8 +141,7 @@ void ast_form_visitor::push_back_output_operations(const ir::const_block_ptr blo
                 *arg, *get_if<construct_matrix>(converted_value));
           },
           [&](const custom_type&) {
-            emplace_operation<ast::assign_output_struct>(
-                *arg, *get_if<construct_custom_type>(converted_value));
+            emplace_operation<ast::assign_output_struct>(*arg, std::move(converted_value));
           });
     }
   }
diff --git a/components/wrapper/pywrenfold/ast_wrapper.cc b/components/wrapper/pywrenfold/ast_wrapper.cc
index 86b58a0..e09cc64 100644
--- a/components/wrapper/pywrenfold/ast_wrapper.cc
+++ b/components/wrapper/pywrenfold/ast_wrapper.cc
@@ -176,9 +176,9 @@ void wrap_ast(py::module_& m) {
   map.at<ast::assign_output_struct>()
       .def_prop_ro(
           "arg", [](const ast::assign_output_struct& x) { return x.arg; }, "Destination argument.")
-      .def_prop_ro(
-          "value", [](const ast::assign_output_struct& x) -> const auto& { return x.value; },
-          py::rv_policy::reference_internal, "``ConstructCustomType`` specifying values to assign.")
+      .def_prop_ro("value", to_inner_accessor(&ast::assign_output_struct::value),
+                   py::rv_policy::reference, py::keep_alive<0, 1>(),
+                   "Value to assign, typically ``ConstructCustomType``.")
       .doc() = "Assign a struct to an output argument.";
 
   map.at<ast::boolean_literal>()
diff --git a/components/wrapper/stubs/pywrenfold/ast.pyi b/components/wrapper/stubs/pywrenfold/ast.pyi
index d19c746..e4e5131 100644
--- a/components/wrapper/stubs/pywrenfold/ast.pyi
+++ b/components/wrapper/stubs/pywrenfold/ast.pyi
@@ -75,8 +75,8 @@ class AssignOutputStruct:
         """Destination argument."""
 
     @property
-    def value(self) -> ConstructCustomType:
-        """``ConstructCustomType`` specifying values to assign."""
+    def value(self) -> Add | AssignTemporary | AssignOutputMatrix | AssignOutputScalar | AssignOutputStruct | BooleanLiteral | Branch | CallExternalFunction | CallStdFunction | Cast | Comment | Compare | ConstructCustomType | ConstructMatrix | Declaration | Divide | FloatLiteral | GetArgument | GetField | GetMatrixElement | IntegerLiteral | Multiply | Negate | OptionalOutputBranch | Parenthetical | SpecialConstant | ReturnObject | Ternary | VariableRef:
+        """Value to assign, typically ``ConstructCustomType``."""
 
 class BooleanLiteral:
     """Emit a boolean literal constant."""
-- 
2.43.0


From 91a6d7778a7235bbb50c1e80d91a090ee87cad21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:37 +0000
Subject: [PATCH 32/36] fix: clone borrowed struct arguments that are used as
 values in generated Rust

An input argument of custom type is a reference, so it cannot be returned, assigned to an output, or
placed in a field of another struct without cloning it.
---
 .../wf/code_generation/rust_code_generator.cc | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/components/core/wf/code_generation/rust_code_generator.cc b/components/core/wf/code_generation/rust_code_generator.cc
index 53827aa..dfce26a 100644
--- a/components/core/wf/code_generation/rust_code_generator.cc
+++ b/components/core/wf/code_generation/rust_code_generator.cc
@@ -145,6 +145,18 @@ std::string rust_code_generator::operator()(const ast::function_signature& signa
   return result;
 }
 
+static bool is_get_argument_with_custom_type(const ast::ast_element& var) {
+  if (const auto get = ast::get_if<ast::get_argument>(var); get.has_value()) {
+    return get->arg.is_custom_type();
+  }
+  return false;
+}
+
+// Custom types are passed by borrow, so an argument that is used as a value must be cloned.
+static std::string_view clone_suffix(const ast::ast_element& value) {
+  return is_get_argument_with_custom_type(value) ? ".clone()" : "";
+}
+
 std::string rust_code_generator::operator()(const ast::add& x) const {
   return join(" + ", x.args, *this);
 }
@@ -162,7 +174,7 @@ std::string rust_code_generator::operator()(const ast::assign_output_scalar& x)
 }
 
 std::string rust_code_generator::operator()(const ast::assign_output_struct& x) const {
-  return fmt::format("*{} = {};", x.arg.name(), make_view(x.value));
+  return fmt::format("*{} = {}{};", x.arg.name(), make_view(x.value), clone_suffix(x.value));
 }
 
 std::string rust_code_generator::operator()(const ast::assign_temporary& x) const {
@@ -183,13 +195,6 @@ std::string rust_code_generator::operator()(const ast::branch& x) const {
   return result;
 }
 
-static bool is_get_argument_with_custom_type(const ast::ast_element& var) {
-  if (const auto get = ast::get_if<ast::get_argument>(var); get.has_value()) {
-    return get->arg.is_custom_type();
-  }
-  return false;
-}
-
 std::string rust_code_generator::operator()(const ast::call_external_function& x) const {
   WF_ASSERT_EQ(x.args.size(), x.function.num_arguments());
   std::string result = x.function.name();
@@ -292,7 +297,7 @@ std::string rust_code_generator::operator()(const ast::construct_custom_type& x)
   std::string output = operator()(x.type);
   join_and_indent(output, 2, " {\n", "\n}", ",\n", x.field_values, [this](const auto& field_val) {
     const auto& [field_name, val] = field_val;
-    return fmt::format("{}: {}", field_name, make_view(val));
+    return fmt::format("{}: {}{}", field_name, make_view(val), clone_suffix(val));
   });
   return output;
 }
@@ -374,7 +379,7 @@ std::string rust_code_generator::operator()(const ast::optional_output_branch& x
 }
 
 std::string rust_code_generator::operator()(const ast::return_object& x) const {
-  return operator()(x.value);
+  return fmt::format("{}{}", make_view(x.value), clone_suffix(x.value));
 }
 
 std::string rust_code_generator::operator()(const ast::parenthetical& x) const {
-- 
2.43.0


From eec8c01d24e2cacc6660e14750bafc124ebe6689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 33/36] fix: print functions that are called without arguments

The plain form of an external function invocation, and the tree form of any function invocation,
iterated past the end of an empty list of arguments.
---
 components/core/wf/plain_formatter.cc | 11 +++++------
 components/core/wf/tree_formatter.cc  |  4 ++++
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e476886..e5b34bb 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -145,13 +145,12 @@ std::string plain_formatter::operator()(const compound_expression_element& el) {
 
 std::string plain_formatter::operator()(const external_function_invocation& invocation) {
   std::string output = fmt::format("{}(", invocation.function().name());
-  auto it = invocation.begin();
-  if (it != invocation.end()) {
-    output += operator()(*it);
-  }
-  for (++it; it != invocation.end(); ++it) {
-    output += ", ";
+  if (auto it = invocation.begin(); it != invocation.end()) {
     output += operator()(*it);
+    for (++it; it != invocation.end(); ++it) {
+      output += ", ";
+      output += operator()(*it);
+    }
   }
   output += ")";
   return output;
diff --git a/components/core/wf/tree_formatter.cc b/components/core/wf/tree_formatter.cc
index 0b0a9ff..ff43733 100644
--- a/components/core/wf/tree_formatter.cc
+++ b/components/core/wf/tree_formatter.cc
@@ -225,6 +225,10 @@ void tree_formatter_visitor::visit_right(const T& expr) {
 template <typename Container>
 void tree_formatter_visitor::visit_all(const Container& container) {
   auto it = container.begin();
+  if (it == container.end()) {
+    // There may be no children, for example a function that accepts no arguments.
+    return;
+  }
   for (; std::next(it) != container.end(); ++it) {
     visit_left(*it);
   }
-- 
2.43.0


From 9ea4a4ef4c74f89e46f01029423bb904c43f04f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:00 +0000
Subject: [PATCH 34/36] fix: print products whose coefficient is the smallest
 64-bit integer

Printing negated the coefficient, which raised ArithmeticError because of overflow.
---
 .../core/wf/expressions/multiplication.cc     | 26 ++++++++++++++++++-
 .../core/wf/expressions/multiplication.h      |  3 +++
 components/core/wf/plain_formatter.cc         |  3 ++-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/components/core/wf/expressions/multiplication.cc b/components/core/wf/expressions/multiplication.cc
index 018dabe..b04d6c2 100644
--- a/components/core/wf/expressions/multiplication.cc
+++ b/components/core/wf/expressions/multiplication.cc
@@ -4,6 +4,7 @@
 #include "wf/expressions/multiplication.h"
 
 #include <algorithm>
+#include <limits>
 
 #include "wf/expression.h"
 #include "wf/expression_visitor.h"
@@ -318,6 +319,18 @@ std::pair<scalar_expr, scalar_expr> as_coeff_and_mul(const scalar_expr& expr) {
   });
 }
 
+bool is_integer_min(const scalar_expr& expr) {
+  constexpr auto min = std::numeric_limits<std::int64_t>::min();
+  if (const integer_constant* const integer = get_if<const integer_constant>(expr);
+      integer != nullptr) {
+    return integer->value() == min;
+  } else if (const rational_constant* const rational = get_if<const rational_constant>(expr);
+             rational != nullptr) {
+    return rational->numerator() == min;
+  }
+  return false;
+}
+
 multiplication_format_parts get_formatting_info(const multiplication& mul) {
   multiplication_format_parts result{};
 
@@ -336,6 +349,12 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
     // Extract rationals:
     if (const rational_constant* const rational = get_if<const rational_constant>(expr);
         rational != nullptr) {
+      if (is_integer_min(expr)) {
+        // Absolute value cannot be represented, so write the sign as part of the integer.
+        result.numerator.emplace_back(integer_constant{rational->numerator()});
+        result.denominator.emplace_back(integer_constant{rational->denominator()});
+        continue;
+      }
       if (const auto abs_num = abs(rational->numerator()); abs_num != 1) {
         // Don't put redundant ones into the numerator for rationals of the form 1/n.
         result.numerator.emplace_back(integer_constant{abs_num});
@@ -348,6 +367,10 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
       }
     } else if (const integer_constant* const integer = get_if<const integer_constant>(expr);
                integer != nullptr) {
+      if (is_integer_min(expr)) {
+        result.numerator.emplace_back(*integer);
+        continue;
+      }
       if (integer->value() != 1 && integer->value() != -1) {
         result.numerator.emplace_back(integer->abs());
       }
@@ -365,7 +388,8 @@ multiplication_format_parts get_formatting_info(const multiplication& mul) {
       // Sort into numerator and denominator, depending on sign of the exponent:
       const auto [coeff, _] = as_coeff_and_mul(exponent);
       // See if the exponent seems negative:
-      if (const bool is_negative_exp = is_negative_number(coeff); is_negative_exp) {
+      if (const bool is_negative_exp = is_negative_number(coeff) && !is_integer_min(coeff);
+          is_negative_exp) {
         if (is_negative_one(exponent)) {
           result.denominator.emplace_back(power{std::move(base), constants::one});
         } else {
diff --git a/components/core/wf/expressions/multiplication.h b/components/core/wf/expressions/multiplication.h
index e93f127..a8e8a1a 100644
--- a/components/core/wf/expressions/multiplication.h
+++ b/components/core/wf/expressions/multiplication.h
@@ -199,6 +199,9 @@ struct multiplication_format_parts {
 // Create `multiplication_format_parts` from a multiplication.
 multiplication_format_parts get_formatting_info(const multiplication& mul);
 
+// True if `expr` is an integer or rational whose numerator cannot be negated without overflow.
+bool is_integer_min(const scalar_expr& expr);
+
 // Implementation of `multiplication` methods:
 template <typename Container, typename Operation>
 scalar_expr multiplication::from_operands(const Container& container, Operation&& operation) {
diff --git a/components/core/wf/plain_formatter.cc b/components/core/wf/plain_formatter.cc
index e5b34bb..9107efa 100644
--- a/components/core/wf/plain_formatter.cc
+++ b/components/core/wf/plain_formatter.cc
@@ -65,7 +65,8 @@ std::string plain_formatter::operator()(const addition& add) {
   });
 
   for (std::size_t i = 0; i < terms.size(); ++i) {
-    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]); is_negative_number(coeff)) {
+    if (const auto [coeff, multiplicand] = as_coeff_and_mul(terms[i]);
+        is_negative_number(coeff) && !is_integer_min(coeff)) {
       if (i == 0) {
         // For the first term, just negate it:
         output += "-";
-- 
2.43.0


From 35f66ca66d716241dc11bb9c191902de1334236c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 35/36] fix: avoid overflow when factorizing integers near the
 largest 64-bit value

k * k overflowed before exceeding n_in, so taking the square root of a large prime did not terminate.
---
 components/core/wf/integer_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/components/core/wf/integer_utils.h b/components/core/wf/integer_utils.h
index 0581fdf..ac0cadc 100644
--- a/components/core/wf/integer_utils.h
+++ b/components/core/wf/integer_utils.h
@@ -26,7 +26,7 @@ constexpr int64_t wheel_factorization(const int64_t n_in) noexcept {
   // These are the increments between the first primes: [7, 11, 13, 17, 19, 23, 29, 31]
   constexpr int inc_length = 8;
   constexpr int inc[inc_length] = {4, 2, 4, 2, 4, 6, 2, 6};
-  while (k * k <= n_in) {
+  while (k <= n_in / k) {  // Equivalent to `k * k <= n_in`, without overflow.
     if (n_in % k == 0) {
       return k;
     }
-- 
2.43.0


From c435683bef5957628bb06ee9ede0f0143d776370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 36/36] fix: limit recursion when creating symbols from nested
 iterables

An iterable that contains itself (for example a row vector, whose iterator yields itself) overflowed
the stack. Raise RecursionError instead.
---
 components/wrapper/pywrenfold/scalar_wrapper.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/components/wrapper/pywrenfold/scalar_wrapper.cc b/components/wrapper/pywrenfold/scalar_wrapper.cc
index f72ffc0..f74895d 100644
--- a/components/wrapper/pywrenfold/scalar_wrapper.cc
+++ b/components/wrapper/pywrenfold/scalar_wrapper.cc
@@ -84,6 +84,16 @@ static std::variant<scalar_expr, py::list> create_symbols_from_str(const std::st
 // Traverse the provided iterable, inspecting elements. If the inner element is a
 // string, then parse it into symbols. If the inner element is an iterable, recurse on it.
 static py::list create_symbols_from_str(const py::iterable& iterable, const number_set set) {
+  // An iterable may contain itself, so apply the python recursion limit.
+  struct recursion_guard {
+    recursion_guard() {
+      if (Py_EnterRecursiveCall(" while creating symbols")) {
+        throw py::python_error();
+      }
+    }
+    ~recursion_guard() { Py_LeaveRecursiveCall(); }
+  };
+  const recursion_guard guard{};
   py::list result{};
   for (const py::handle& handle : iterable) {
     // Each element of the iterable could be a string, or a nested iterable:
-- 
2.43.0

