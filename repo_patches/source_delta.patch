From 353ca512e4f3ead86d4675ef40598b115c595471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 01/31] fix: Arb != rational returned the result of ==

---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 9495d5a..06b4d2b 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -258,7 +258,7 @@ std::optional<bool> Arb::operator==(const mpq_class& rhs) const noexcept {
 
 std::optional<bool> Arb::operator!=(const mpq_class& rhs) const noexcept {
   Arb lhs = (*this * Arb(rhs.get_den()))(ARF_PREC_EXACT);
-  return lhs == Arb(rhs.get_num());
+  return lhs != Arb(rhs.get_num());
 }
 
 std::optional<bool> Arb::operator<(const mpq_class& rhs) const noexcept {
-- 
2.43.0


From 99e662b052c6a091b4e2d4c5d01c30742f8530d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 02/31] fix: bounds of an Arb ball of low accuracy must contain
 the ball

A ball with zero bits of relative accuracy was converted with a precision of
zero bits which made FLINT return bounds that do not contain the ball or crash.
---
 libexactreal/src/arb.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 06b4d2b..f045e84 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -314,7 +314,7 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
 
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
-  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), arb_rel_accuracy_bits(arb_t()));
+  arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<slong>(arb_rel_accuracy_bits(arb_t()), MAG_BITS));
   return ret;
 }
 
-- 
2.43.0


From 9f2c135c3604424654614f8105ecd971d0b7bb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 03/31] fix: the ball returned by RealNumber::arb() must
 contain the number

The midpoint was only computed to prec bits, i.e., its error could exceed the
radius of the ball. As a consequence, comparisons could also be wrong.
---
 libexactreal/src/real_number.cc | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index af8348b..12265b1 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -61,18 +61,19 @@ int RealNumber::cmp(const Arb& arb) const {
 }
 
 void RealNumber::refine(Arb& arb, const long prec) const {
-  // Since we refine, arb must contain this real number.
-  assert(this->cmp(arb) == 0);
-
   if (arb_rel_accuracy_bits(arb.arb_t()) >= prec) {
     return;
   }
 
-  Arf midpoint = arf(prec);
-  arb_set_arf(arb.arb_t(), midpoint.arf_t());
-  arb_add_error_2exp_si(arb.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+  // The error of the midpoint must be smaller than the radius of the ball.
+  Arf midpoint = arf(prec + 3);
+  Arb refined(midpoint);
+  arb_add_error_2exp_si(refined.arb_t(), (fmpz_get_si(&midpoint.arf_t()[0].exp) - 1) - (prec + 1));
+
+  // Since we refine, arb must contain this real number.
+  assert(arb_overlaps(arb.arb_t(), refined.arb_t()));
+  arb = std::move(refined);
 
-  assert(this->cmp(arb) == 0);
   assert(!*this || arb_rel_accuracy_bits(arb.arb_t()) >= prec);
 }
 
-- 
2.43.0


From 8c52733f058955b2218db03ffe73e6dd8499507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 04/31] fix: RealNumber::cmp() must be exact

The number was compared through an approximation which could be on the wrong
side of a bound of the ball.
---
 libexactreal/src/real_number.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 12265b1..e25f29a 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -28,7 +28,6 @@
 #include "../exact-real/yap/arf.hpp"
 #include "impl/real_number_base.hpp"
 
-using std::max;
 using std::ostream;
 
 namespace exactreal {
@@ -50,10 +49,9 @@ int RealNumber::cmp(const Arb& arb) const {
   auto interval = static_cast<std::pair<Arf, Arf>>(arb);
   auto a = interval.first, b = interval.second;
 
-  auto approx = arf(max(arf_bits(a.arf_t()), arf_bits(b.arf_t())) + 1);
-  if (approx < a) {
+  if (!arf_is_nan(a.arf_t()) && *this < a) {
     return -1;
-  } else if (approx > b) {
+  } else if (!arf_is_nan(b.arf_t()) && *this > b) {
     return 1;
   } else {
     return 0;
-- 
2.43.0


From f7f1d12477fe5a51eed11f28961da44312312ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 05/31] fix: conversion of a RealNumber to double must return
 the closest double

---
 libexactreal/src/real_number.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index e25f29a..1027a17 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -37,7 +37,17 @@ const long ARF_DOUBLE_PRECISION = 54;
 RealNumber::~RealNumber() {}
 
 RealNumber::operator double() const {
-  return static_cast<double>(arf(ARF_DOUBLE_PRECISION));
+  for (long prec = ARF_DOUBLE_PRECISION;; prec *= 2) {
+    const Arf approximation = arf(prec);
+    if (*this == approximation)
+      return static_cast<double>(approximation);
+
+    // Refine until all points in the ball round to the same double.
+    const auto bounds = static_cast<std::pair<Arf, Arf>>(arb(prec));
+    const auto lower = static_cast<double>(bounds.first);
+    if (lower == static_cast<double>(bounds.second))
+      return lower;
+  }
 }
 
 RealNumber::operator bool() const {
-- 
2.43.0


From 7bd982ab1c2198adb11ff62c3476ed77c73df47f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 06/31] fix: conversion of a rational Element to a subnormal
 double must not round twice

---
 libexactreal/src/element.cc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 78131c2..f94915e 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -809,18 +809,8 @@ template <typename Ring>
 Element<Ring>::operator double() const {
   {
     auto rational = static_cast<std::optional<mpq_class>>(*this);
-    if (rational) {
-      Arf a;
-
-      fmpq_t q;
-      fmpq_init_set_readonly(q, rational->get_mpq_t());
-
-      arf_set_fmpq(a.arf_t(), q, DBL_MANT_DIG, ARF_RND_NEAR);
-
-      fmpq_clear_readonly(q);
-
-      return static_cast<double>(a);
-    }
+    if (rational)
+      return static_cast<double>(*RealNumber::rational(*rational));
   }
 
   // Since this is not a rational number, we can look at the approximate ball
-- 
2.43.0


From d5189296515392d96a478cbd7bf9615b8b1aec0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 07/31] fix: RationalField::floor() of negative rationals

---
 libexactreal/src/rational_field.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/rational_field.cc b/libexactreal/src/rational_field.cc
index c081ef2..862b60c 100644
--- a/libexactreal/src/rational_field.cc
+++ b/libexactreal/src/rational_field.cc
@@ -47,7 +47,9 @@ std::optional<mpq_class> RationalField::rational(const ElementClass& x) {
 }
 
 mpz_class RationalField::floor(const ElementClass& x) {
-  return x.get_num() / x.get_den();
+  mpz_class floor;
+  mpz_fdiv_q(floor.get_mpz_t(), x.get_num_mpz_t(), x.get_den_mpz_t());
+  return floor;
 }
 
 RationalField::ElementClass RationalField::coerce(const ElementClass& x) const {
-- 
2.43.0


From ec53719cc102c39e9c4a8d05039a06a6d90ddfd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 08/31] fix: Element::promote() must not drop non-zero
 coefficients silently

---
 libexactreal/src/element.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index f94915e..3b075af 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -874,6 +874,7 @@ Element<Ring>& Element<Ring>::promote(const shared_ptr<const Module<Ring>>& pare
       continue;
     }
     if ((**our_gen).deglex(**their_gen)) {
+      LIBEXACTREAL_ASSERT(!impl->coefficients[our_gen - begin(our_gens)], "Cannot promote " << *this << " to " << *parent << " since " << **our_gen << " is not in " << *parent);
       our_gen++;
       continue;
     } else {
-- 
2.43.0


From 5476ba3b31152e3795a616b6b1c63d9d2a6efd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 09/31] fix: Module::one() with a negative rational generator

The coefficient of the generator was not in canonical form which corrupted the
heap.
---
 libexactreal/src/module.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/module.cc b/libexactreal/src/module.cc
index ab98874..2c8764c 100644
--- a/libexactreal/src/module.cc
+++ b/libexactreal/src/module.cc
@@ -202,11 +202,11 @@ Element<Ring> Module<Ring>::one() const {
     auto rational = static_cast<std::optional<mpq_class>>(*basis()[g]);
     if (rational) {
       if constexpr (std::is_same_v<Ring, IntegerRing>) {
-        if (rational->get_num() == 1) {
-          return rational->get_den() * gen(g);
+        if (abs(rational->get_num()) == 1) {
+          return mpz_class(rational->get_den() * rational->get_num()) * gen(g);
         }
-      } else {
-          return mpq_class(rational->get_den(), rational->get_num()) * gen(g);
+      } else if (*rational != 0) {
+        return mpq_class(1 / *rational) * gen(g);
       }
     }
   }
-- 
2.43.0


From 4aa2946cf407d8d76e108df31bca6a5cbbce8574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:14 +0000
Subject: [PATCH 10/31] fix: Element::floordiv() by zero must throw and not
 abort

---
 libexactreal/src/element.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 3b075af..cfd4dc7 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -466,6 +466,8 @@ std::optional<Element<Ring>> Element<Ring>::truediv(const Element<Ring>& rhs) co
 
 template <typename Ring>
 mpz_class Element<Ring>::floordiv(const Element<Ring>& rhs) const {
+  LIBEXACTREAL_CHECK_ARGUMENT(rhs, "division by zero");
+
   if (!*this)
     return 0;
 
-- 
2.43.0


From 19ebcfa6852fa9608ca8a44db45fe5a3caff4834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 11/31] fix: Element::unit() must take rational generators into
 account

---
 libexactreal/src/element.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index cfd4dc7..3bd8998 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -530,10 +530,16 @@ bool Element<Ring>::unit() const {
     const auto& c = impl->coefficients[i];
     if (c == 0)
       continue;
-    if (!static_cast<std::optional<mpq_class>>(impl->parent->gen(i)))
+    const auto generator = static_cast<std::optional<mpq_class>>(*impl->parent->basis()[i]);
+    if (!generator || !*generator)
       return false;
-    if (!Ring::unit(impl->coefficients[i]))
+    if constexpr (std::is_same_v<Ring, IntegerRing>) {
+      // The inverse of c·g is (1/(c·g²))·g.
+      if (mpq_class(1 / (c * *generator * *generator)).get_den() != 1)
+        return false;
+    } else if (!Ring::unit(c)) {
       return false;
+    }
   }
 
   return true;
-- 
2.43.0


From 0e0186577ae20b3e781552df78525db74b30f8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 12/31] fix: random numbers close to the largest double and in
 unbounded intervals

---
 libexactreal/src/constrained_random_real_number.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libexactreal/src/constrained_random_real_number.cc b/libexactreal/src/constrained_random_real_number.cc
index a05de35..e1ff208 100644
--- a/libexactreal/src/constrained_random_real_number.cc
+++ b/libexactreal/src/constrained_random_real_number.cc
@@ -144,6 +144,10 @@ shared_ptr<const RealNumber> RealNumber::random(const Arf& lower, const Arf& upp
   if (lower == 0 && upper == 1) {
     return RealNumber::random(seed);
   } else {
+    if (!arf_is_finite(lower.arf_t()) || !arf_is_finite(upper.arf_t())) {
+      throw std::logic_error("interval must be bounded");
+    }
+
     if (lower >= upper) {
       throw std::logic_error("interval must have an interior");
     }
@@ -214,6 +218,12 @@ shared_ptr<const RealNumber> RealNumber::random(const double x, Seed seed) {
   Arf midpoint = Arf(x);
   Arf upper = Arf(nextafter(x, numeric_limits<double>::infinity()));
 
+  // (… there is no such finite double for the largest double …)
+  if (x == numeric_limits<double>::lowest())
+    lower = (2 * midpoint - upper)(ARF_PREC_EXACT, Arf::Round::NEAR);
+  if (x == numeric_limits<double>::max())
+    upper = (2 * midpoint - lower)(ARF_PREC_EXACT, Arf::Round::NEAR);
+
   // … and shrink it so it only contains midpoint.
   // We use 64 bits of precision, more than a double can possibly have:
   lower = ((lower + 2 * midpoint) / 3)(64, Arf::Round::NEAR);
-- 
2.43.0


From 0d654b41756ae4f844878571536d4403e8323039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 13/31] fix: data race when creating fresh seeds in several
 threads

---
 libexactreal/src/seed.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/seed.cc b/libexactreal/src/seed.cc
index a7c192e..efa84d7 100644
--- a/libexactreal/src/seed.cc
+++ b/libexactreal/src/seed.cc
@@ -20,8 +20,10 @@
 
 #include "../exact-real/seed.hpp"
 
+#include <atomic>
+
 namespace exactreal {
-static unsigned int nextSeed = 1337;
+static std::atomic<unsigned int> nextSeed = 1337;
 
 Seed::Seed() : Seed(nextSeed++) {}
 
-- 
2.43.0


From 2ec36c73d3ea6522c2d1cab59d9effa469362f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 14/31] fix: data race in the caches of real numbers

Real numbers are shared implicitly through their factories so even numbers that
have been created independently could be approximated in several threads.
---
 libexactreal/src/impl/real_number_base.hpp | 3 +++
 libexactreal/src/real_number.cc            | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/libexactreal/src/impl/real_number_base.hpp b/libexactreal/src/impl/real_number_base.hpp
index 1ff357b..21d632a 100644
--- a/libexactreal/src/impl/real_number_base.hpp
+++ b/libexactreal/src/impl/real_number_base.hpp
@@ -21,6 +21,7 @@
 #ifndef LIBEXACTREAL_REAL_NUMBER_BASE_HPP
 #define LIBEXACTREAL_REAL_NUMBER_BASE_HPP
 
+#include <mutex>
 #include <unordered_map>
 #include <vector>
 
@@ -47,6 +48,8 @@ class RealNumberBase : public RealNumber {
   /// in caches that don't hold a strong reference to a real number.
   const size_t uniqueId;
 
+  /// Protects the caches below since real numbers are implicitly shared.
+  mutable std::mutex mutex;
   mutable std::optional<Arf> arf54;
   mutable std::optional<Arf> arf64;
   mutable std::unordered_map<long, Arf> large;
diff --git a/libexactreal/src/real_number.cc b/libexactreal/src/real_number.cc
index 1027a17..5fe2fd7 100644
--- a/libexactreal/src/real_number.cc
+++ b/libexactreal/src/real_number.cc
@@ -205,6 +205,8 @@ Arf RealNumberBase::arf(long prec) const {
   if (prec < 1)
     prec = 0;
 
+  const std::lock_guard<std::mutex> lock(mutex);
+
   if (prec == ARF_DOUBLE_PRECISION) {
     if (!arf54)
       arf54 = arf_(ARF_DOUBLE_PRECISION);
-- 
2.43.0


From dfe34b5ca118e2823a610b11d9ecf179c692a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:15 +0000
Subject: [PATCH 15/31] fix: signed overflow in Arf::operator>>=

---
 libexactreal/src/arf.cc | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/libexactreal/src/arf.cc b/libexactreal/src/arf.cc
index 8fadd33..1e69af7 100644
--- a/libexactreal/src/arf.cc
+++ b/libexactreal/src/arf.cc
@@ -130,7 +130,16 @@ Arf& Arf::operator<<=(const long rhs) noexcept {
   return *this;
 }
 
-Arf& Arf::operator>>=(const long rhs) noexcept { return this->operator<<=(-rhs); }
+Arf& Arf::operator>>=(const long rhs) noexcept {
+  // Note that -rhs might overflow.
+  fmpz_t e;
+  fmpz_init(e);
+  fmpz_set_si(e, rhs);
+  fmpz_neg(e, e);
+  arf_mul_2exp_fmpz(t, t, e);
+  fmpz_clear(e);
+  return *this;
+}
 
 bool Arf::operator<(const Arf& rhs) const noexcept { return arf_cmp(t, rhs.t) < 0; }
 
-- 
2.43.0


From cfaf07a485195460cfc0deb5339efe4d0bc84cbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 16/31] fix: comparison of a RealNumber with unsigned integers
 did not compile

---
 libexactreal/exact-real/real_number.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index d6db9f6..3434861 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -311,17 +311,26 @@ class LIBEXACTREAL_API RealNumber
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator<(Integer rhs) const noexcept {
-  return this->operator<(Arf(rhs));
+  if constexpr (std::is_signed_v<Integer>)
+    return this->operator<(Arf(static_cast<long>(rhs)));
+  else
+    return this->operator<(mpz_class(static_cast<unsigned long>(rhs)));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator>(Integer rhs) const noexcept {
-  return this->operator>(Arf(rhs));
+  if constexpr (std::is_signed_v<Integer>)
+    return this->operator>(Arf(static_cast<long>(rhs)));
+  else
+    return this->operator>(mpz_class(static_cast<unsigned long>(rhs)));
 }
 
 template <typename Integer>
 std::enable_if_t<std::is_integral_v<Integer>, bool> RealNumber::operator==(Integer rhs) const noexcept {
-  return this->operator==(Arf(rhs));
+  if constexpr (std::is_signed_v<Integer>)
+    return this->operator==(Arf(static_cast<long>(rhs)));
+  else
+    return this->operator==(mpz_class(static_cast<unsigned long>(rhs)));
 }
 #endif
 
-- 
2.43.0


From d982a621b4574fe65e831ac9be3c8268b748cd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 17/31] fix: exact-real.hpp included a header that does not
 exist

---
 libexactreal/exact-real/exact-real.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/libexactreal/exact-real/exact-real.hpp b/libexactreal/exact-real/exact-real.hpp
index 23b2e83..62577e3 100644
--- a/libexactreal/exact-real/exact-real.hpp
+++ b/libexactreal/exact-real/exact-real.hpp
@@ -32,7 +32,6 @@
 #include "integer_ring.hpp"
 #include "module.hpp"
 #include "number_field.hpp"
-#include "number_field_ideal.hpp"
 #include "rational_field.hpp"
 #include "real_number.hpp"
 #include "seed.hpp"
-- 
2.43.0


From 0335577e5c45b0826cc255b92a79bd006c802365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 18/31] fix: documented balls that do not contain the number

---
 libexactreal/exact-real/real_number.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libexactreal/exact-real/real_number.hpp b/libexactreal/exact-real/real_number.hpp
index 3434861..b8e18bf 100644
--- a/libexactreal/exact-real/real_number.hpp
+++ b/libexactreal/exact-real/real_number.hpp
@@ -156,7 +156,7 @@ class LIBEXACTREAL_API RealNumber
   ///     #include <exact-real/arb.hpp>
   ///     const auto x = exactreal::RealNumber::rational(mpq_class{1, 3});
   ///     x->arb(3)
-  ///     // -> [0.312500 +/- 0.0157]
+  ///     // -> [0.335938 +/- 0.0157]
   ///
   /// Note that the printed output here for the radius can be misleading since
   /// printing via `std::cout` (which is used here) normally only requests a
@@ -167,7 +167,7 @@ class LIBEXACTREAL_API RealNumber
   ///     // -> [0.333333 +/- 3.34e-7]
   ///
   ///     std::cout << std::setprecision(32) << x->arb(64);
-  ///     // -> [0.33333333333333333334236835143738 +/- 6.78e-21]
+  ///     // -> [0.33333333333333333333220395607033 +/- 6.78e-21]
   ///
   Arb arb(long prec) const;
 
@@ -182,11 +182,11 @@ class LIBEXACTREAL_API RealNumber
   ///
   ///     x->refine(a, 2);
   ///     a
-  ///     // -> [0.375000 +/- 0.0313]
+  ///     // -> [0.328125 +/- 0.0313]
   ///
   ///     x->refine(a, 16);
   ///     a
-  ///     // -> [0.333336 +/- 2.04e-6]
+  ///     // -> [0.333333 +/- 1.93e-6]
   ///
   void refine(Arb& arb, long prec) const;
 
-- 
2.43.0


From c399e62a097b4306e7693a0b5d7c4a2585ec7b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:29 +0000
Subject: [PATCH 19/31] fix: doubles in Arb expressions were silently truncated
 to integers

---
 libexactreal/exact-real/arb.hpp |  2 ++
 libexactreal/src/arb.cc         | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 9eafa98..1534244 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -270,6 +270,8 @@ class LIBEXACTREAL_API Arb
   template <typename Integer, typename = std::enable_if_t<std::is_integral_v<Integer>>>
   Arb& operator=(Integer) noexcept;
   Arb& operator=(const mpz_class&) noexcept;
+  Arb& operator=(const Arf&) noexcept;
+  Arb& operator=(double) noexcept;
   ///@}
 
   /// Return the negative of this element.
diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index f045e84..3eb647c 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -312,6 +312,16 @@ Arb& Arb::operator=(const mpz_class& rhs) noexcept {
   return *this;
 }
 
+Arb& Arb::operator=(const Arf& rhs) noexcept {
+  arb_set_arf(arb_t(), rhs.arf_t());
+  return *this;
+}
+
+Arb& Arb::operator=(double rhs) noexcept {
+  arb_set_d(arb_t(), rhs);
+  return *this;
+}
+
 Arb::operator std::pair<Arf, Arf>() const noexcept {
   std::pair<Arf, Arf> ret;
   arb_get_interval_arf(ret.first.arf_t(), ret.second.arf_t(), arb_t(), std::max<slong>(arb_rel_accuracy_bits(arb_t()), MAG_BITS));
-- 
2.43.0


From 90ebc18225ebf4695a7fc0c4fac0e65932795d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:50 +0000
Subject: [PATCH 20/31] fix: elements loaded into another process could get the
 wrong coefficients

---
 libexactreal/exact-real/cereal.hpp | 73 ++++++++++++++++++++----------
 1 file changed, 49 insertions(+), 24 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 39ece2f..af1360d 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -194,19 +194,60 @@ void save(Archive& archive, const Element<Ring>& self) {
   archive(cereal::make_nvp("coefficients", coefficients));
 }
 
+// A module that has been loaded from an archive.
+// The order of the generators of a module depends on the order in which they
+// have been created. So a module might not sort its generators in the way they
+// were sorted when it was saved.
+template <typename Ring>
+struct LoadedModule {
+  std::shared_ptr<const Module<Ring>> module;
+  // The generators in the order in which they are in the archive.
+  typename Module<Ring>::Basis basis;
+};
+
+template <typename Archive, typename Ring>
+void load(Archive& archive, LoadedModule<Ring>& self) {
+  // cereal insists on creating a new instance of T when deserializing a
+  // shared_ptr<T>. However this is not compatible with our uniqueness of
+  // modules (if the module already exists, we do not create a new one but just
+  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
+  // deduplication logic for a compact output format but do not rely on its
+  // deserialization for Module<Ring>.
+  uint32_t id;
+  archive(cereal::make_nvp("shared", id));
+
+  if (id & cereal::detail::msb_32bit) {
+    archive(cereal::make_nvp("basis", self.basis));
+    Ring ring;
+    archive(cereal::make_nvp("ring", ring));
+    self.module = Module<Ring>::make(self.basis, ring);
+    archive.registerSharedPointer(id, std::make_shared<LoadedModule<Ring>>(self));
+  } else {
+    const auto loaded = std::static_pointer_cast<LoadedModule<Ring>>(archive.getSharedPointer(id));
+    self = loaded ? *loaded : LoadedModule<Ring>();
+  }
+}
+
 template <typename Archive, typename Ring>
 void load(Archive& archive, Element<Ring>& self) {
-  std::shared_ptr<const Module<Ring>> module;
-  archive(cereal::make_nvp("parent", module));
+  LoadedModule<Ring> parent;
+  archive(cereal::make_nvp("parent", parent));
 
   std::vector<MaybeWrap<typename Ring::ElementClass>> coefficients;
   archive(cereal::make_nvp("coefficients", coefficients));
 
+  if (coefficients.size() != parent.basis.size())
+    throw std::logic_error("malformed archive, number of coefficients does not match number of generators");
+
+  std::map<std::shared_ptr<const RealNumber>, typename Ring::ElementClass> terms;
+  for (size_t i = 0; i < coefficients.size(); i++)
+    terms[parent.basis[i]] = coefficients[i];
+
   std::vector<typename Ring::ElementClass> coeffs;
-  for (auto& c : coefficients)
-    coeffs.push_back(c);
+  for (const auto& gen : parent.module->basis())
+    coeffs.push_back(terms[gen]);
 
-  self = Element<Ring>(module, coeffs);
+  self = Element<Ring>(parent.module, coeffs);
 }
 
 template <typename Archive>
@@ -297,25 +338,9 @@ void save(Archive& archive, const std::shared_ptr<const exactreal::Module<Ring>>
 
 template <typename Archive, typename Ring>
 void load(Archive& archive, std::shared_ptr<const exactreal::Module<Ring>>& self) {
-  // cereal insists on creating a new instance of T when deserializing a
-  // shared_ptr<T>. However this is not compatible with our uniqueness of
-  // modules (if the module already exists, we do not create a new one but just
-  // return a shared_ptr to the existing one.) Therefore, we hook into cereal's
-  // deduplication logic for a compact output format but do not rely on its
-  // deserialization for Module<Ring>.
-  uint32_t id;
-  archive(cereal::make_nvp("shared", id));
-
-  if (id & cereal::detail::msb_32bit) {
-    typename exactreal::Module<Ring>::Basis basis;
-    archive(cereal::make_nvp("basis", basis));
-    Ring ring;
-    archive(cereal::make_nvp("ring", ring));
-    self = exactreal::Module<Ring>::make(basis, ring);
-    archive.registerSharedPointer(id, std::static_pointer_cast<void>(std::const_pointer_cast<exactreal::Module<Ring>>(self)));
-  } else {
-    self = std::static_pointer_cast<exactreal::Module<Ring>>(archive.getSharedPointer(id));
-  }
+  exactreal::LoadedModule<Ring> loaded;
+  load(archive, loaded);
+  self = loaded.module;
 }
 }  // namespace cereal
 
-- 
2.43.0


From f1ea408bd6d4c9a56ce04788a0753656afb8baab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:55 +0000
Subject: [PATCH 21/31] fix: expressions binding parameters to temporaries
 referred to them after their end

---
 libexactreal/exact-real/arb.hpp     | 5 ++++-
 libexactreal/exact-real/arf.hpp     | 5 ++++-
 libexactreal/exact-real/yap/arb.hpp | 7 ++++++-
 libexactreal/exact-real/yap/arf.hpp | 7 ++++++-
 4 files changed, 20 insertions(+), 4 deletions(-)

diff --git a/libexactreal/exact-real/arb.hpp b/libexactreal/exact-real/arb.hpp
index 1534244..0d46cf7 100644
--- a/libexactreal/exact-real/arb.hpp
+++ b/libexactreal/exact-real/arb.hpp
@@ -505,7 +505,10 @@ class LIBEXACTREAL_API Arb
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
   // Syntactic sugar for Yap, so that expressions such as x += y(64, Arf::Rount::NEAR) work.
   template <typename... Args>
-  decltype(auto) operator()(Args&&...) const noexcept LIBEXACTREAL_LOCAL;
+  decltype(auto) operator()(Args&&...) const& noexcept LIBEXACTREAL_LOCAL;
+  // Expressions own their temporary operands; they must not refer to them.
+  template <typename... Args>
+  decltype(auto) operator()(Args&&...) && noexcept LIBEXACTREAL_LOCAL;
 
   // Construction from evaluating a Yap expression
   template <boost::yap::expr_kind Kind, typename Tuple>
diff --git a/libexactreal/exact-real/arf.hpp b/libexactreal/exact-real/arf.hpp
index 613365b..66a3de1 100644
--- a/libexactreal/exact-real/arf.hpp
+++ b/libexactreal/exact-real/arf.hpp
@@ -355,7 +355,10 @@ class LIBEXACTREAL_API Arf
 #ifndef DOXYGEN_DOCUMENTATION_BUILD
   // Syntactic sugar for Yap, so that expressions such as x += y(64, Arf::Rount::NEAR) work.
   template <typename... Args>
-  decltype(auto) operator()(Args&&...) const noexcept LIBEXACTREAL_LOCAL;
+  decltype(auto) operator()(Args&&...) const& noexcept LIBEXACTREAL_LOCAL;
+  // Expressions own their temporary operands; they must not refer to them.
+  template <typename... Args>
+  decltype(auto) operator()(Args&&...) && noexcept LIBEXACTREAL_LOCAL;
 
   // Construction from evaluating a Yap expression
   template <boost::yap::expr_kind Kind, typename Tuple>
diff --git a/libexactreal/exact-real/yap/arb.hpp b/libexactreal/exact-real/yap/arb.hpp
index 26417be..4124bce 100644
--- a/libexactreal/exact-real/yap/arb.hpp
+++ b/libexactreal/exact-real/yap/arb.hpp
@@ -84,10 +84,15 @@ Arb& inplace_binop(Arb& self, const yap::ArbExpr<Kind, Tuple>& expr, Lambda op)
 }
 
 template <typename... Args>
-decltype(auto) Arb::operator()(Args&&... args) const noexcept {
+decltype(auto) Arb::operator()(Args&&... args) const& noexcept {
   return boost::yap::as_expr<yap::ArbExpr>(*this)(std::forward<Args>(args)...);
 }
 
+template <typename... Args>
+decltype(auto) Arb::operator()(Args&&... args) && noexcept {
+  return boost::yap::as_expr<yap::ArbExpr>(std::move(*this))(std::forward<Args>(args)...);
+}
+
 #endif
 
 }  // namespace exactreal
diff --git a/libexactreal/exact-real/yap/arf.hpp b/libexactreal/exact-real/yap/arf.hpp
index 22675fc..6b28961 100644
--- a/libexactreal/exact-real/yap/arf.hpp
+++ b/libexactreal/exact-real/yap/arf.hpp
@@ -94,10 +94,15 @@ Arf& inplace_binop(Arf& self, const yap::ArfExpr<Kind, Tuple>& expr, Lambda op)
 }
 
 template <typename... Args>
-decltype(auto) Arf::operator()(Args&&... args) const noexcept {
+decltype(auto) Arf::operator()(Args&&... args) const& noexcept {
   return boost::yap::as_expr<yap::ArfExpr>(*this)(std::forward<Args>(args)...);
 }
 
+template <typename... Args>
+decltype(auto) Arf::operator()(Args&&... args) && noexcept {
+  return boost::yap::as_expr<yap::ArfExpr>(std::move(*this))(std::forward<Args>(args)...);
+}
+
 #endif  // DOXYGEN_DOCUMENTATION_BUILD
 
 }  // namespace exactreal
-- 
2.43.0


From 50c23915d92df7a20ceb7f5454ee5cc6a338d6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:40 +0000
Subject: [PATCH 22/31] fix: do not leak the serialized number when saving it
 fails

---
 libexactreal/exact-real/cereal.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index af1360d..15b557a 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -27,6 +27,7 @@
 #include <cereal/types/vector.hpp>
 #include <cereal/types/map.hpp>
 #include <e-antic/cereal.hpp>
+#include <memory>
 
 #include "arb.hpp"
 #include "arf.hpp"
@@ -146,11 +147,10 @@ struct Decerealizer : public IDecerealizer {
 
 template <typename Archive>
 void save(Archive& archive, const Arb& self) {
-  char* serialized = arb_dump_str(self.arb_t());
+  const std::unique_ptr<char, void (*)(void*)> serialized(arb_dump_str(self.arb_t()), flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
@@ -166,11 +166,10 @@ void load(Archive& archive, Arb& self) {
 
 template <typename Archive>
 void save(Archive& archive, const Arf& self) {
-  char* serialized = arf_dump_str(self.arf_t());
+  const std::unique_ptr<char, void (*)(void*)> serialized(arf_dump_str(self.arf_t()), flint_free);
   archive(
-      cereal::make_nvp("data", std::string(serialized)),
+      cereal::make_nvp("data", std::string(serialized.get())),
       cereal::make_nvp("approximation", static_cast<double>(self)));
-  flint_free(serialized);
 }
 
 template <typename Archive>
-- 
2.43.0


From d0dffd5f0647c56463315c77a49865f053ee0f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:32 +0000
Subject: [PATCH 23/31] fix: do not drop digits of a random number when running
 out of memory

---
 libexactreal/src/random_real_number.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libexactreal/src/random_real_number.cc b/libexactreal/src/random_real_number.cc
index 09c7e09..2a9249f 100644
--- a/libexactreal/src/random_real_number.cc
+++ b/libexactreal/src/random_real_number.cc
@@ -29,7 +29,7 @@
 
 #include <boost/random/linear_congruential.hpp>
 #include <boost/random/uniform_int_distribution.hpp>
-#include <sstream>
+#include <string>
 
 #include "../exact-real/arb.hpp"
 #include "../exact-real/arf.hpp"
@@ -46,7 +46,6 @@ using std::optional;
 using std::ostream;
 using std::shared_ptr;
 using std::string;
-using std::stringstream;
 
 namespace {
 
@@ -76,7 +75,8 @@ class RandomRealNumber final : public RealNumberBase {
     boost::random::uniform_int_distribution<size_t> index_dist(0, chars.size() - 1);
 
     long exp = 0;
-    stringstream os;
+    // A stream would silently drop digits when it runs out of memory.
+    string mantissa;
     // With d binary digits, we get a relative error at most 2^(1-d). Since we
     // want it to be at most 2^-prec, we need prec + 1 digits.
     for (long digits = 0; digits < prec + 1; digits++, exp--) {
@@ -85,10 +85,10 @@ class RandomRealNumber final : public RealNumberBase {
         digits--;
         continue;
       }
-      os << c;
+      mantissa.push_back(c);
     }
 
-    return Arf(os.str(), 2, exp);
+    return Arf(mantissa, 2, exp);
   }
 
   operator std::optional<mpq_class>() const override {
-- 
2.43.0


From 91476cd96d4da49c78d99274da1a4ac4bedc5db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:20 +0000
Subject: [PATCH 24/31] fix: do not leak a square when running out of memory

---
 libexactreal/src/real_number_product.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/real_number_product.cc b/libexactreal/src/real_number_product.cc
index 2d4953a..680e759 100644
--- a/libexactreal/src/real_number_product.cc
+++ b/libexactreal/src/real_number_product.cc
@@ -354,9 +354,9 @@ class Key {
 
             return new RealNumberProduct{base.monomials, std::move(exponents), hash};
           } else {
-            RealNumberProduct* product = new RealNumberProduct{{data.lhs->shared_from_this()}, {2}, RealNumberBase::id(*data.lhs) * RealNumberBase::id(*data.lhs)};
+            auto product = std::make_unique<RealNumberProduct>(RealNumberProduct::Monomials{data.lhs->shared_from_this()}, RealNumberProduct::Exponents{2}, RealNumberBase::id(*data.lhs) * RealNumberBase::id(*data.lhs));
             this->data = MonomialsExponents{{RealNumberBase::id(*data.lhs)}, {2}, product->hash};
-            return product;
+            return product.release();
           }
         } else {
           if (typeid(*data.lhs) == typeid(const RealNumberProduct&)) {
-- 
2.43.0


From 4bbf0f296d8f61f54b5a9d290bc0c816b2b22ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 25/31] fix: leave an element as it was when a product fails

---
 libexactreal/src/element.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 3bd8998..3e9e500 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -258,12 +258,11 @@ Element<Ring>& Element<Ring>::operator*=(const Element<Ring>& rhs) {
     coefficients.push_back(v.second);
   }
 
-  this->impl->parent = Module<Ring>::make(basis, this->impl->parent->ring());
-  this->impl->coefficients = coefficients;
+  const auto parent = Module<Ring>::make(basis, this->impl->parent->ring());
 
-  LIBEXACTREAL_ASSERT(this->impl->parent->basis() == basis, "order of generators in module is not deglex which is the assumption by Element::operator/=");
+  LIBEXACTREAL_ASSERT(parent->basis() == basis, "order of generators in module is not deglex which is the assumption by Element::operator/=");
 
-  return *this;
+  return *this = Element<Ring>(parent, coefficients);
 }
 
 template <typename Ring>
-- 
2.43.0


From 6a0e860b53bef43dd88e57379de1af5ff38867eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:00 +0000
Subject: [PATCH 26/31] fix: leave an element as it was when multiplying or
 dividing by a scalar fails

---
 libexactreal/src/element.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 3e9e500..9f763de 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -66,17 +66,27 @@ class ElementImplementation {
 
   template <typename T>
   ElementImplementation& operator*=(const T& rhs) {
+    // Work on a copy so that nothing changes if this throws.
+    auto coefficients = this->coefficients;
+
     for (auto& c : coefficients)
       Ring::imul(c, rhs);
 
+    this->coefficients = std::move(coefficients);
+
     return *this;
   }
 
   template <typename T>
   ElementImplementation& operator/=(const T& rhs) {
+    // Work on a copy so that nothing changes if this throws.
+    auto coefficients = this->coefficients;
+
     for (auto& c : coefficients)
       Ring::idiv(c, rhs);
 
+    this->coefficients = std::move(coefficients);
+
     return *this;
   }
 
-- 
2.43.0


From 065138af58cd3aada1f7afbc759018d49040f021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:01 +0000
Subject: [PATCH 27/31] fix: leave floats and balls as they were when an
 archive is malformed

---
 libexactreal/exact-real/cereal.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libexactreal/exact-real/cereal.hpp b/libexactreal/exact-real/cereal.hpp
index 15b557a..66fceec 100644
--- a/libexactreal/exact-real/cereal.hpp
+++ b/libexactreal/exact-real/cereal.hpp
@@ -159,9 +159,12 @@ void load(Archive& archive, Arb& self) {
   double ignored;
   archive(data, ignored);
 
-  if (arb_load_str(self.arb_t(), data.c_str())) {
+  Arb loaded;
+  if (arb_load_str(loaded.arb_t(), data.c_str())) {
     throw std::logic_error("malformed archive, failed to parse Arb");
   }
+
+  self = std::move(loaded);
 }
 
 template <typename Archive>
@@ -178,9 +181,12 @@ void load(Archive& archive, Arf& self) {
   double ignored;
   archive(data, ignored);
 
-  if (arf_load_str(self.arf_t(), data.c_str())) {
+  Arf loaded;
+  if (arf_load_str(loaded.arf_t(), data.c_str())) {
     throw std::logic_error("malformed archive, failed to parse Arf");
   }
+
+  self = std::move(loaded);
 }
 
 template <typename Archive, typename Ring>
-- 
2.43.0


From 245fbca31d79afe451eeb427ab91b47036d86b2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:00 +0000
Subject: [PATCH 28/31] fix: do not change an integer when multiplying or
 dividing it by a rational is refused

---
 libexactreal/src/integer_ring.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/libexactreal/src/integer_ring.cc b/libexactreal/src/integer_ring.cc
index a97ef4c..603ba34 100644
--- a/libexactreal/src/integer_ring.cc
+++ b/libexactreal/src/integer_ring.cc
@@ -63,7 +63,10 @@ IntegerRing::ElementClass& IntegerRing::imul(IntegerRing::ElementClass& lhs, con
   if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) {
     return lhs *= gmpxxll::mpz_class(rhs);
   } else if constexpr (std::is_same_v<T, mpq_class>) {
-    return idiv(imul(lhs, rhs.get_num()), rhs.get_den());
+    // Work on a copy so that the argument is unchanged if we cannot divide.
+    IntegerRing::ElementClass product = lhs * rhs.get_num();
+    lhs = std::move(idiv(product, rhs.get_den()));
+    return lhs;
   } else {
     return lhs *= rhs;
   }
@@ -77,7 +80,10 @@ IntegerRing::ElementClass& IntegerRing::idiv(IntegerRing::ElementClass& lhs, con
   if constexpr (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) {
     return idiv(lhs, static_cast<mpz_class>(gmpxxll::mpz_class(rhs)));
   } else if constexpr (std::is_same_v<T, mpq_class>) {
-    return idiv(imul(lhs, rhs.get_den()), rhs.get_num());
+    // Work on a copy so that the argument is unchanged if we cannot divide.
+    IntegerRing::ElementClass product = lhs * rhs.get_den();
+    lhs = std::move(idiv(product, rhs.get_num()));
+    return lhs;
   } else {
     if (lhs % rhs != 0)
       throw std::invalid_argument("cannot divide these integers");
-- 
2.43.0


From 7d423c14d9d1980bbf92b3a5e01a67767a39e340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:01 +0000
Subject: [PATCH 29/31] fix: extend the ring of an element when scaling it by a
 number field element

An element of a module over the rationals (such as the ones that
Module<NumberField>::make(basis) and conversions from elements over the
integers create) that was multiplied or divided by an element of a number
field kept its module. So its coefficients were not in the ring of the module
and, e.g., rationalCoefficients() failed.
---
 libexactreal/src/element.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 9f763de..98de198 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -353,6 +353,16 @@ Element<Ring>& Element<Ring>::operator*=(const mpq_class& rhs) {
 template <typename Ring>
 template <bool, typename>
 Element<Ring>& Element<Ring>::operator*=(const typename Ring::ElementClass& rhs) {
+  if (!Ring::rational(rhs)) {
+    // The coefficients are not necessarily in the ring of this module anymore.
+    const auto ring = Ring::compositum(this->module()->ring(), Ring(rhs));
+    if (ring != this->module()->ring()) {
+      auto scaled = Element<Ring>(*this).promote(Module<Ring>::make(this->module()->basis(), ring));
+      *scaled.impl *= rhs;
+      return *this = std::move(scaled);
+    }
+  }
+
   (*impl) *= rhs;
   return *this;
 }
@@ -420,6 +430,16 @@ Element<Ring>& Element<Ring>::operator/=(const mpq_class& rhs) {
 template <typename Ring>
 template <bool, typename>
 Element<Ring>& Element<Ring>::operator/=(const typename Ring::ElementClass& rhs) {
+  if (!Ring::rational(rhs)) {
+    // The coefficients are not necessarily in the ring of this module anymore.
+    const auto ring = Ring::compositum(this->module()->ring(), Ring(rhs));
+    if (ring != this->module()->ring()) {
+      auto scaled = Element<Ring>(*this).promote(Module<Ring>::make(this->module()->basis(), ring));
+      *scaled.impl /= rhs;
+      return *this = std::move(scaled);
+    }
+  }
+
   (*impl) /= rhs;
   return *this;
 }
-- 
2.43.0


From 9967d7c4bac353b9fd93eff5220bca1fd1e3ef78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:19:09 +0000
Subject: [PATCH 30/31] fix: do not leak when printing a ball to a stream fails

If writing to the stream throws, the string that arb_get_str() allocated was
never released.
---
 libexactreal/src/arb.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/libexactreal/src/arb.cc b/libexactreal/src/arb.cc
index 3eb647c..78d2fec 100644
--- a/libexactreal/src/arb.cc
+++ b/libexactreal/src/arb.cc
@@ -33,6 +33,7 @@
 #include <algorithm>
 #include <boost/lexical_cast.hpp>
 #include <boost/numeric/conversion/cast.hpp>
+#include <memory>
 #include <ostream>
 
 #include "../exact-real/arf.hpp"
@@ -347,10 +348,10 @@ ostream& operator<<(ostream& os, const Arb& self) {
   // Note that the radius is also printed with respect to os.precision() which
   // means that the radius might be shortened, e.g., [0.5 +/- 1.08e-78] might
   // print as [0.5 +/- 1e-10].
-  char* s = arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE);
-  os << s;
-  flint_free(s);
-  return os;
+  // (Writing to the stream might throw so we need to make sure that the
+  // string is released in any case.)
+  const std::unique_ptr<char, void (*)(void*)> s(arb_get_str(self.arb_t(), os.precision(), ARB_STR_MORE), flint_free);
+  return os << s.get();
 }
 
 template Arb::Arb(short);
-- 
2.43.0


From 6a0a8b2e3eca1a8c81d4e7d1ba4c75a6a536f5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:47 +0000
Subject: [PATCH 31/31] fix: multiply an element by the real number zero

The product of an element with the real number zero was an element of a
module with the generator zero, whose comparisons and approximations throw
or do not terminate.
---
 libexactreal/src/element.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libexactreal/src/element.cc b/libexactreal/src/element.cc
index 98de198..d0ac30e 100644
--- a/libexactreal/src/element.cc
+++ b/libexactreal/src/element.cc
@@ -277,6 +277,9 @@ Element<Ring>& Element<Ring>::operator*=(const Element<Ring>& rhs) {
 
 template <typename Ring>
 Element<Ring>& Element<Ring>::operator*=(const RealNumber& rhs) {
+  if (!rhs)
+    return *this = this->module()->zero();
+
   return *this *= Module<Ring>::make({rhs.shared_from_this()}, this->module()->ring())->gen(0);
 }
 
-- 
2.43.0

