From 7be6ca76c49581fafd1009d4e20f8b97374d75c6 Mon Sep 17 00:00:00 2001
From: verif <verif@example.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 01/16] fix: Arf >>= with the smallest long no longer overflows

---
 libexactreal/src/arf.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index 8fadd33..528b769 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -130,7 +130,16 @@ Arf& Arf::operator<<=(const long rhs) noexcept {
   return *this;
 }
 
-Arf& Arf::operator>>=(const long rhs) noexcept { return this->operator<<=(-rhs); }
+Arf& Arf::operator>>=(const long rhs) noexcept {
+  // Note that -rhs might not be representable as a long.
+  fmpz_t e;
+  fmpz_init(e);
+  fmpz_set_si(e, rhs);
+  fmpz_neg(e, e);
+  arf_mul_2exp_fmpz(t, t, e);
+  fmpz_clear(e);
+  return *this;
+}
 
 bool Arf::operator<(const Arf& rhs) const noexcept { return arf_cmp(t, rhs.t) < 0; }
 
-- 
2.43.0


From 39c32de674d9c017eace5a95f5788a4857024b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:00 +0000
Subject: [PATCH 02/16] fix: RealNumber::refine produces balls that contain the
 real

The midpoint was only accurate to prec bits but the radius is 2^-(prec + 1)
relative to the midpoint, e.g., RealNumber::rational(1/3)->arb(1) was
[0.25 +/- 0.0625]. Comparisons rely on these enclosures.
---
 libexactreal/exact-real/real_number.hpp | 8 ++++----
 libexactreal/src/real_number.cc         | 4 +++-
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..f1dafe0 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.335938 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333220395607033 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.328125 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333333 +/- 1.93e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..372ebf7 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -68,7 +68,9 @@ void RealNumber::refine(Arb& arb, const long prec) const {
     return;
   }
 
-  Arf midpoint = arf(prec);
+  // The radius below is only known to exceed |midpoint|·2^-(prec + 2) so the
+  // midpoint needs to be more precise than that.
+  Arf midpoint = arf(max(prec, 0l) + 3);
   arb_set_arf(arb.arb_t(), midpoint.arf_t());
   arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
 
-- 
2.43.0


From a54fa3f7dc17cd2083e48cf35e3db9037ce9c669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 03/16] fix: RealNumber::cmp(Arb) compares with the exact end
 points of the ball

The end points were rounded to the accuracy of the ball and the real number was
replaced by an approximation, e.g., a real number slightly outside of a ball
was reported to be contained in it.
---
 libexactreal/src/real_number.cc | 38 +++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 9 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 372ebf7..611fe53 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -47,16 +47,36 @@ RealNumber::operator bool() const {
 }
 
 int RealNumber::cmp(const Arb& arb) const {
-  auto interval = static_cast<std::pair<Arf, Arf>>(arb);
-  auto a = interval.first, b = interval.second;
-
-  auto approx = arf(max(arf_bits(a.arf_t()), arf_bits(b.arf_t())) + 1);
-  if (approx < a) {
-    return -1;
-  } else if (approx > b) {
-    return 1;
-  } else {
+  // The exact end points of the ball.
+  Arf lower, upper;
+  arb_get_interval_arf(lower.arf_t(), upper.arf_t(), arb.arb_t(), ARF_PREC_EXACT);
+
+  // There are no end points if the ball is indeterminate.
+  if (arf_is_nan(lower.arf_t()) || arf_is_nan(upper.arf_t()))
     return 0;
+
+  // An end point that is equal to this real number could not be told apart
+  // from it by the approximations below.
+  if (*this == lower || *this == upper)
+    return 0;
+
+  for (long prec = max(max(arf_bits(lower.arf_t()), arf_bits(upper.arf_t())), ARB_PRECISION_FAST);; prec *= 2) {
+    // This real number is contained in approx·(1 ± 2^(1 - prec)).
+    const auto approx = arf(prec);
+    Arf error(approx);
+    error >>= prec - 1;
+    if (error < 0)
+      error = -error;
+
+    const Arf min = (approx - error)(ARF_PREC_EXACT, Arf::Round::NEAR);
+    const Arf max = (approx + error)(ARF_PREC_EXACT, Arf::Round::NEAR);
+
+    if (max < lower)
+      return -1;
+    if (min > upper)
+      return 1;
+    if (min >= lower && max <= upper)
+      return 0;
   }
 }
 
-- 
2.43.0


From a54d0fb6331588626767c448a423ed54d9ab4db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:39 +0000
Subject: [PATCH 04/16] fix: conversion of RealNumber to double returns the
 closest double

Rounding the approximation with 54 bits again did not always lead to the
closest double.
---
 libexactreal/src/real_number.cc | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 611fe53..4a46522 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -38,7 +38,20 @@ const long ARF_DOUBLE_PRECISION = 54;
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  for (long prec = ARF_DOUBLE_PRECISION;; prec *= 2) {
+    const auto approx = arf(prec);
+
+    // Rounding an inexact approximation again might not produce the closest
+    // double unless the entire interval approx·(1 ± 2^(1 - prec)) rounds to it.
+    Arf error(approx);
+    error >>= prec - 1;
+
+    const auto x = static_cast<double>(Arf((approx - error)(ARF_PREC_EXACT, Arf::Round::NEAR)));
+    const auto y = static_cast<double>(Arf((approx + error)(ARF_PREC_EXACT, Arf::Round::NEAR)));
+
+    if (x == y || *this == approx)
+      return static_cast<double>(approx);
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From 0bcfcf9ce6a46c377207ff0cb4733b370696ac18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:56 +0000
Subject: [PATCH 05/16] fix: approximations of products have the requested
 relative accuracy

The final rounding has not been accounted for in the working precision, e.g.,
the relative error of x^5 with x = RealNumber::random(Seed(131660)) at a
precision of 24 bits exceeded 2^-24.
---
 libexactreal/src/real_number_product.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 2d4953a..0a08ffc 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -527,9 +527,10 @@ Arf RealNumberProduct::arf_(long prec) const {
   // These errors essentially sum (plus the product of the errors.)
   // Additionally, each multiplication introduces a rounding error of 1
   // ulp.
+  // The additional bit leaves room for the final rounding below.
   long nfactors = totalDegree();
 
-  long workingPrec = prec + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
+  long workingPrec = prec + 1 + static_cast<long>(ceil(log2(static_cast<double>(nfactors * 2 + (nfactors - 1)) + 1)));
 
   Arf ret(1);
   for (size_t i = 0; i < monomials.size(); i++)
-- 
2.43.0


From a899ca859d5c9b74e0bbc2e7190a3fe280672af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 06/16] fix: end points of balls without relative accuracy do
 not crash

---
 libexactreal/src/arb.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..da23abb 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -314,7 +314,8 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
 
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
-  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
+  // The relative accuracy of a wide ball is not positive but rounding needs a precision of at least two bits.
+  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<slong>(arb_rel_accuracy_bits(arb_t()), 2));
   return ret;
 }
 
-- 
2.43.0


From a015ac98ca1da3bbc491585a358682e8ec2c01f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:49 +0000
Subject: [PATCH 07/16] fix: Arb != mpq_class no longer returns whether the two
 are equal

---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index da23abb..3d61d1e 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From 37f877d06e8680bc0131ca9e5a7bdf48cd414744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 08/16] fix: one() of a module with a negative rational
 generator

The inverse of a negative generator was not in lowest terms and -1/n has been
ignored over the integers. Also do not divide by a generator zero.
---
 libexactreal/src/module.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..2c8764c 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -202,11 +202,11 @@ Element<Ring> Module<Ring>::one() const {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
     if (rational) {
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (abs(rational->get_num()) == 1) {
+          return mpz_class(rational->get_den() * rational->get_num()) * gen(g);
         }
-      } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+      } else if (*rational != 0) {
+        return mpq_class(1 / *rational) * gen(g);
       }
     }
   }
-- 
2.43.0


From d074efd1d7e05da7577d378b98fbae3762acf321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 09/16] fix: Element::unit() over the integers for rational
 generators other than 1
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

The inverse must be a multiple of the generator; whether the coefficient is a
unit does not decide this, e.g., 2 is not invertible in 2ℤ.
---
 libexactreal/src/element.cc | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..94c1164 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -528,10 +528,19 @@ bool Element<Ring>::unit() const {
     const auto& c = impl->coefficients[i];
     if (c == 0)
       continue;
-    if (!static_cast<std::optional<mpq_class>>(impl->parent->gen(i)))
-      return false;
-    if (!Ring::unit(impl->coefficients[i]))
+    const auto generator = static_cast<std::optional<mpq_class>>(*impl->parent->basis()[i]);
+    if (!generator)
       return false;
+    if constexpr (Ring::isField) {
+      if (!Ring::unit(c))
+        return false;
+    } else {
+      // The inverse of c * generator must be a multiple of the generator.
+      const auto value = Ring::rational(c);
+      const mpq_class inverse = 1 / (*value * *generator * *generator);
+      if (inverse.get_den() != 1)
+        return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 8a19d06d4887e5b36e666249786515434af38862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 10/16] fix: Element::floordiv() by zero does not return

Throw an exception just like truediv() does.
---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 94c1164..da575df 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -466,6 +466,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs != 0, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From 6a9147f07c0a0477b2cb136347b133b817e85d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 11/16] fix: RationalField::floor() of negative rationals

Integer division truncates, i.e., the floor of -1/2 was 0.
---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..649f592 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class ret;
+  mpz_fdiv_q(ret.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return ret;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From 6788e9b704c3e5c5a63611e80f22ae37f175cc75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:17 +0000
Subject: [PATCH 12/16] fix: Failed scalar multiplications and divisions modify
 the element

When a quotient does not exist over the integers, an exception was thrown but
the coefficients before the offending one had already been divided. Also,
division by zero was not detected in the trivial module.
---
 libexactreal/src/element.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index da575df..5f3eb3d 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -66,16 +66,26 @@ class ElementImplementation {
 
   template <typename T>
   ElementImplementation& operator*=(const T& rhs) {
-    for (auto& c : coefficients)
+    // Work on a copy; over the integers, the product might not exist.
+    auto products = coefficients;
+    for (auto& c : products)
       Ring::imul(c, rhs);
+    coefficients = std::move(products);
 
     return *this;
   }
 
   template <typename T>
   ElementImplementation& operator/=(const T& rhs) {
-    for (auto& c : coefficients)
+    // There might be no coefficients that trigger the check in idiv().
+    if (!rhs)
+      throw std::invalid_argument("division by zero");
+
+    // Work on a copy; over the integers, the quotient might not exist.
+    auto quotients = coefficients;
+    for (auto& c : quotients)
       Ring::idiv(c, rhs);
+    coefficients = std::move(quotients);
 
     return *this;
   }
-- 
2.43.0


From 39f676a4e5a64b6c2ff2faca60e90f6145b50edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 13/16] fix: IntegerRing::imul() and idiv() modify the integer
 when they throw

---
 libexactreal/src/integer_ring.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/integer_ring.cc b/libexactreal/src/integer_ring.cc
index a97ef4c..544655a 100644
--- a/libexactreal/src/integer_ring.cc
+++ b/libexactreal/src/integer_ring.cc
@@ -63,7 +63,9 @@ IntegerRing::ElementClass& IntegerRing::imul(IntegerRing::ElementClass& lhs, con
   if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) {
     return lhs *= gmpxxll::mpz_class(rhs);
   } else if constexpr (std::is_same_v<T, mpq_class>) {
-    return idiv(imul(lhs, rhs.get_num()), rhs.get_den());
+    // Do not modify lhs if it is not possible to divide by the denominator.
+    ElementClass product = lhs * rhs.get_num();
+    return lhs = idiv(product, rhs.get_den());
   } else {
     return lhs *= rhs;
   }
@@ -77,7 +79,9 @@ IntegerRing::ElementClass& IntegerRing::idiv(IntegerRing::ElementClass& lhs, con
   if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) {
     return idiv(lhs, static_cast<mpz_class>(gmpxxll::mpz_class(rhs)));
   } else if constexpr (std::is_same_v<T, mpq_class>) {
-    return idiv(imul(lhs, rhs.get_den()), rhs.get_num());
+    // Do not modify lhs if it is not possible to divide by the numerator.
+    ElementClass product = lhs * rhs.get_den();
+    return lhs = idiv(product, rhs.get_num());
   } else {
     if (lhs % rhs != 0)
       throw std::invalid_argument("cannot divide these integers");
-- 
2.43.0


From 7a73c4be18b353f612b5df7ba3bffdf975b940ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 14/16] fix: Reading an element from an archive mixes up its
 coefficients when the generators are sorted differently

---
 libexactreal/exact-real/cereal.hpp | 69 +++++++++++++++++++-----------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..8228e09 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -194,19 +194,56 @@ void save(Archive& archive, const Element<Ring>& self) {
   archive(cereal::make_nvp("coefficients", coefficients));
 }
 
+// A module as it has been written to an archive.
+template <typename Ring>
+struct ArchivedModule {
+  std::shared_ptr<const Module<Ring>> module;
+
+  // The generators in the order in which they have been written. Generators
+  // are sorted in the order in which random reals have been created so they
+  // might be sorted differently in the module we get when reading the archive.
+  typename Module<Ring>::Basis basis;
+};
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, ArchivedModule<Ring>& self) {
+  // cereal insists on creating a new instance of T when deserializing a
+  // shared_ptr<T>. However this is not compatible with our uniqueness of
+  // modules (if the module already exists, we do not create a new one but just
+  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
+  // deduplication logic for a compact output format but do not rely on its
+  // deserialization for Module<Ring>.
+  uint32_t id;
+  archive(cereal::make_nvp("shared", id));
+
+  if (id & cereal::detail::msb_32bit) {
+    archive(cereal::make_nvp("basis", self.basis));
+    Ring ring;
+    archive(cereal::make_nvp("ring", ring));
+    self.module = Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::make_shared<ArchivedModule<Ring>>(self));
+  } else if (const auto archived = std::static_pointer_cast<ArchivedModule<Ring>>(archive.getSharedPointer(id))) {
+    self = *archived;
+  }
+}
+
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  ArchivedModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
+  std::map<std::shared_ptr<const RealNumber>, typename Ring::ElementClass> archived;
+  for (size_t i = 0; i < coefficients.size(); i++)
+    archived.emplace(parent.basis.at(i), coefficients[i]);
+
   std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  for (const auto& generator : parent.module->basis())
+    coeffs.push_back(archived.at(generator));
 
-  self = Element<Ring>(module, coeffs);
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -297,25 +334,9 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
-  // cereal insists on creating a new instance of T when deserializing a
-  // shared_ptr<T>. However this is not compatible with our uniqueness of
-  // modules (if the module already exists, we do not create a new one but just
-  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
-  // deduplication logic for a compact output format but do not rely on its
-  // deserialization for Module<Ring>.
-  uint32_t id;
-  archive(cereal::make_nvp("shared", id));
-
-  if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
-    Ring ring;
-    archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
-  } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
-  }
+  exactreal::ArchivedModule<Ring> archived;
+  load(archive, archived);
+  self = archived.module;
 }
 }  // namespace cereal
 
-- 
2.43.0


From 0b6f012bd7ef6c71fc8d378030893f68d73e9063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:23 +0000
Subject: [PATCH 15/16] fix: Seed() is not unique when several threads create
 seeds

---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..efa84d7 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -20,8 +20,10 @@
 
 #include "../exact-real/seed.hpp"
 
+#include <atomic>
+
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed = 1337;
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From 2f279bd7ef1cd8ac15e15f78d517446034d1e4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:15 +0000
Subject: [PATCH 16/16] fix: random reals close to the largest and the smallest
 double

---
 libexactreal/src/constrained_random_real_number.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..427a03c 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -214,6 +214,13 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   Arf midpoint = Arf(x);
   Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
 
+  // … if there is one. Otherwise, x is the largest (smallest) double and we
+  // pretend that there was another one at the same distance.
+  if (x == numeric_limits<double>::max())
+    upper = (2 * midpoint - lower)(64, Arf::Round::NEAR);
+  if (x == numeric_limits<double>::lowest())
+    lower = (2 * midpoint - upper)(64, Arf::Round::NEAR);
+
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
   lower = ((lower + 2 * midpoint) / 3)(64, Arf::Round::NEAR);
-- 
2.43.0

