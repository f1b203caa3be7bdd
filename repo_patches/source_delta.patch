From 487ecb6d67fe15e236dd0ab98a718b40337be5bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 01/40] fix: make the Gauss-Legendre tables constexpr so that
 incomplete_gamma and incomplete_gamma_inv can be evaluated at compile time

---
 include/gcem_incl/quadrature/gauss_legendre_30.hpp | 4 ++--
 include/gcem_incl/quadrature/gauss_legendre_50.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/quadrature/gauss_legendre_30.hpp b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
index 295f43d..61f314b 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_30.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_30.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 30 points
  */
 
-static const long double gauss_legendre_30_points[30] = \
+static constexpr long double gauss_legendre_30_points[30] = \
 {
     -0.05147184255531769583302521316672L,
      0.05147184255531769583302521316672L,
@@ -56,7 +56,7 @@ static const long double gauss_legendre_30_points[30] = \
      0.99689348407464954027163005091870L\
 };
 
-static const long double gauss_legendre_30_weights[30] = \
+static constexpr long double gauss_legendre_30_weights[30] = \
 {
     0.10285265289355884034128563670542L,
     0.10285265289355884034128563670542L,
diff --git a/include/gcem_incl/quadrature/gauss_legendre_50.hpp b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
index d4e448c..89a9edc 100644
--- a/include/gcem_incl/quadrature/gauss_legendre_50.hpp
+++ b/include/gcem_incl/quadrature/gauss_legendre_50.hpp
@@ -22,7 +22,7 @@
  * Gauss-Legendre quadrature: 50 points
  */
 
-static const long double gauss_legendre_50_points[50] = \
+static constexpr long double gauss_legendre_50_points[50] = \
 {
     -0.03109833832718887611232898966595L,
      0.03109833832718887611232898966595L,
@@ -76,7 +76,7 @@ static const long double gauss_legendre_50_points[50] = \
      0.99886640442007105018545944497422L\
 };
 
-static const long double gauss_legendre_50_weights[50] = \
+static constexpr long double gauss_legendre_50_weights[50] = \
 {
     0.06217661665534726232103310736061L,
     0.06217661665534726232103310736061L,
-- 
2.43.0


From 51c5806b1e57e6f0ad8f0544bf11862f02097885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 02/40] fix: exp of arguments far outside the range of T
 overflowed an integer conversion

---
 include/gcem_incl/exp.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 595ffc2..8c54318 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -102,6 +102,11 @@ noexcept
             //
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // out of range of T (checked before x is split, as the whole part may not fit an integer)
+            x > T(GCLIM<T>::max_exponent) ? \
+                GCLIM<T>::infinity() :
+            x < T(GCLIM<T>::min_exponent - GCLIM<T>::digits) ? \
+                T(0) :
             //
             abs(x) < T(2) ? \
                 exp_cf(x) : \
-- 
2.43.0


From 3b3e3e7b3c13a7963ab48923c9e4dfef1d44665f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 03/40] fix: sqrt of very small arguments did not converge

---
 include/gcem_incl/sqrt.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/sqrt.hpp b/include/gcem_incl/sqrt.hpp
index 1b2753c..ec75d4a 100644
--- a/include/gcem_incl/sqrt.hpp
+++ b/include/gcem_incl/sqrt.hpp
@@ -61,6 +61,8 @@ noexcept
                 sqrt_simplify(x / T(100), T(10) * m_val) :
             x > T(4) ? \
                 sqrt_simplify(x / T(4), T(2) * m_val) :
+            x < T(1)/T(4294967296.0L) ? \
+                sqrt_simplify(x * T(18446744073709551616.0L), m_val / T(4294967296.0L)) :
                 m_val * sqrt_recur(x, x / T(2), 0) );
 }
 
-- 
2.43.0


From f2106825d27760717b64788eb995d1d268dc4b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 04/40] fix: inv_sqrt of very small and very large arguments
 did not converge

---
 include/gcem_incl/inv_sqrt.hpp | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/inv_sqrt.hpp b/include/gcem_incl/inv_sqrt.hpp
index d0e33fb..06fb4ba 100644
--- a/include/gcem_incl/inv_sqrt.hpp
+++ b/include/gcem_incl/inv_sqrt.hpp
@@ -43,6 +43,20 @@ noexcept
                 xn );
 }
 
+template<typename T>
+constexpr
+T
+inv_sqrt_simplify(const T x, const T m_val)
+noexcept
+{
+    return( x > T(4294967296.0L) ? \
+                inv_sqrt_simplify(x / T(18446744073709551616.0L), m_val / T(4294967296.0L)) :
+            x < T(1)/T(4294967296.0L) ? \
+                inv_sqrt_simplify(x * T(18446744073709551616.0L), m_val * T(4294967296.0L)) :
+            // else
+                m_val * inv_sqrt_recur(x, x/T(2), 0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -63,7 +77,7 @@ noexcept
             GCLIM<T>::min() > abs(T(1) - x) ? \
                 x :
             // else
-            inv_sqrt_recur(x, x/T(2), 0) );
+            inv_sqrt_simplify(x, T(1)) );
 }
 
 }
-- 
2.43.0


From c6978548e31d393f896fdcc221efb0fa5adc5be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 05/40] fix: hypot overflowed when y/x is too large to be
 squared

---
 include/gcem_incl/hypot.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/hypot.hpp b/include/gcem_incl/hypot.hpp
index 01ad4e9..be30a75 100644
--- a/include/gcem_incl/hypot.hpp
+++ b/include/gcem_incl/hypot.hpp
@@ -55,8 +55,10 @@ noexcept
                 abs(y) :
             GCLIM<T>::min() > abs(y) ? \
                 abs(x) :
-            // else
-            hypot_compute(x, y/x) );
+            // else (scale by the larger term, so that the ratio cannot overflow)
+            abs(x) < abs(y) ? \
+                hypot_compute(y, x/y) :
+                hypot_compute(x, y/x) );
 }
 
 template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
-- 
2.43.0


From 2f712b2e878c10421f0fa98ca69049de4c480a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 06/40] fix: tanh diverged for large arguments

---
 include/gcem_incl/tanh.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/tanh.hpp b/include/gcem_incl/tanh.hpp
index 51fc908..f810bf1 100644
--- a/include/gcem_incl/tanh.hpp
+++ b/include/gcem_incl/tanh.hpp
@@ -86,6 +86,9 @@ noexcept
             // indistinguishable from zero
              GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // indistinguishable from one; the continued fraction does not converge for large x
+             abs(x) > T(GCLIM<T>::digits)*T(0.36L) ? \
+                T(sgn(x)) :
              // else
                 x < T(0) ? \
                     - tanh_begin(-x) : 
-- 
2.43.0


From 6136ab9eda44b5aeb507719c57d989d341ad73f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 07/40] fix: asinh lost all accuracy for negative arguments,
 and asinh and acosh overflowed for large ones

---
 include/gcem_incl/acosh.hpp | 3 +++
 include/gcem_incl/asinh.hpp | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/include/gcem_incl/acosh.hpp b/include/gcem_incl/acosh.hpp
index 8767200..b0fd06f 100644
--- a/include/gcem_incl/acosh.hpp
+++ b/include/gcem_incl/acosh.hpp
@@ -43,6 +43,9 @@ noexcept
             // indistinguishable from 1
             GCLIM<T>::min() > abs(x - T(1)) ? \
                 T(0) :
+            // x*x - 1 is indistinguishable from x*x, which may overflow
+            x > T(1e+10) ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x - T(1)) ) );
 }
diff --git a/include/gcem_incl/asinh.hpp b/include/gcem_incl/asinh.hpp
index a5f3ff6..32f11af 100644
--- a/include/gcem_incl/asinh.hpp
+++ b/include/gcem_incl/asinh.hpp
@@ -40,6 +40,12 @@ noexcept
             // indistinguishable from zero
             GCLIM<T>::min() > abs(x) ? \
                 T(0) :
+            // odd function; the sum below cancels for negative x
+            x < T(0) ? \
+                - asinh_compute(-x) :
+            // x*x + 1 is indistinguishable from x*x, which may overflow
+            x > T(1e+10) ? \
+                log(x) + T(GCEM_LOG_2) :
             // else
                 log( x + sqrt(x*x + T(1)) ) );
 }
-- 
2.43.0


From 585c0e34614c822649601f2c4d0c2655340b9225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 08/40] fix: log of a negative integer returned zero instead of
 NaN

---
 include/gcem_incl/log.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/log.hpp b/include/gcem_incl/log.hpp
index 01b6a80..2a7f1d6 100644
--- a/include/gcem_incl/log.hpp
+++ b/include/gcem_incl/log.hpp
@@ -158,9 +158,9 @@ noexcept
     return( std::is_integral<T>::value ? \
                 x == T(0) ? \
                     - GCLIM<return_t<T>>::infinity() :
-                x > T(1) ? \
-                    log_check( static_cast<return_t<T>>(x) ) :
+                x == T(1) ? \
                     static_cast<return_t<T>>(0) :
+                    log_check( static_cast<return_t<T>>(x) ) :
             log_check( static_cast<return_t<T>>(x) ) );
 }
 
-- 
2.43.0


From 68cfa2891601c58df2747f8c067bbf7f31aea795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 09/40] fix: log was off by log(10) near negative powers of
 ten, where mantissa and find_exponent rounded differently

---
 include/gcem_incl/mantissa.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/mantissa.hpp b/include/gcem_incl/mantissa.hpp
index af23ea2..3dc534a 100644
--- a/include/gcem_incl/mantissa.hpp
+++ b/include/gcem_incl/mantissa.hpp
@@ -34,7 +34,12 @@ T
 mantissa(const T x)
 noexcept
 {
-    return( x < T(1) ? \
+    return( // use the same steps as find_exponent, so that both round in the same way
+            x < T(1e-03) ? \
+                mantissa(x * T(1e+04)) :
+            x < T(1e-01) ? \
+                mantissa(x * T(1e+02)) :
+            x < T(1) ? \
                 mantissa(x * T(10)) : 
             x > T(10) ? \
                 mantissa(x / T(10)) :
-- 
2.43.0


From 98f370817bd0cbd2287d30091401a81f48bfb129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 10/40] fix: lcm(0,0) divided by zero, and lcm lost the sign of
 negative inputs mixed with unsigned ones

---
 include/gcem_incl/lcm.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/lcm.hpp b/include/gcem_incl/lcm.hpp
index a7ca776..bdf554b 100644
--- a/include/gcem_incl/lcm.hpp
+++ b/include/gcem_incl/lcm.hpp
@@ -30,7 +30,9 @@ T
 lcm_compute(const T a, const T b)
 noexcept
 {
-    return abs(a * (b / gcd(a,b)));
+    return( (a == T(0) || b == T(0)) ? \
+                T(0) :
+                a * (b / gcd(a,b)) );
 }
 
 template<typename T1, typename T2, typename TC = common_t<T1,T2>>
@@ -39,7 +41,7 @@ TC
 lcm_type_check(const T1 a, const T2 b)
 noexcept
 {
-    return lcm_compute(static_cast<TC>(a),static_cast<TC>(b));
+    return lcm_compute(static_cast<TC>(abs(a)),static_cast<TC>(abs(b)));
 }
 
 }
-- 
2.43.0


From 8ed521b7e8228828e072db6026c377ace9b8813e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:42 +0000
Subject: [PATCH 11/40] fix: pow with integral arguments multiplied in the type
 of the base rather than the common type

---
 include/gcem_incl/pow.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 3891ede..701314c 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -57,7 +57,7 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return pow_integral(base,exp_term);
+    return pow_integral(static_cast<TC>(base),exp_term);
 }
 
 }
-- 
2.43.0


From edc6cea567f4b4433a33fefafd293d11741752a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 12/40] fix: pow returned zero or infinity when the exponent is
 the smallest or largest value of its type, and integral powers with a
 negative exponent could divide by zero

---
 include/gcem_incl/pow_integral.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index 4e67155..ff201ea 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -54,6 +54,12 @@ pow_integral_sgn_check(const T1 base, const T2 exp_term)
 noexcept
 {
     return( exp_term < T2(0) ? \
+            // 1/base^n truncates to zero, though base^n may not fit an integer
+                (std::is_integral<T1>::value && (base > T1(1) || (base < T1(0) && base < -T1(1)))) ? \
+                    T1(0) :
+            // - exp_term would overflow
+                exp_term == GCLIM<T2>::min() ? \
+                    T1(1) / pow_integral_compute(base, GCLIM<T2>::max()) / base :
             //
                 T1(1) / pow_integral_compute(base, - exp_term) : 
             //
@@ -83,11 +89,6 @@ noexcept
                 base :
             exp_term == T2(0) ? \
                 T1(1) :
-            // check for overflow
-            exp_term == GCLIM<T2>::min() ? \
-                T1(0) :
-            exp_term == GCLIM<T2>::max() ? \
-                GCLIM<T1>::infinity() :
             // else
             pow_integral_sgn_check(base,exp_term) );
 }
-- 
2.43.0


From 9e64c551d5e3cde110f49048a1197ee984e30622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 13/40] fix: lgamma and tgamma of positive infinity were NaN

---
 include/gcem_incl/lgamma.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 507c6d4..4a093bb 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -105,6 +105,8 @@ noexcept
                 T(0) :
             GCLIM<T>::min() > x ? \
                 GCLIM<T>::infinity() :
+            is_posinf(x) ? \
+                GCLIM<T>::infinity() :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From b8bd8fe8de46500fe30203bab9c80c607e0190df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 14/40] fix: tgamma of large negative arguments overflowed an
 integer conversion and recursed without bound

---
 include/gcem_incl/tgamma.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index deffd3a..3b47bdd 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -45,8 +45,11 @@ noexcept
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - find_whole(x)) ? \
+                GCLIM<T>::min() > abs(x - floor(x)) || is_neginf(x) ? \
                     GCLIM<T>::quiet_NaN() :
+                // indistinguishable from zero
+                x < - T(GCLIM<T>::max_exponent) ? \
+                    T(0) :
                 // else
                 tgamma_check(x+T(1)) / x :
 
-- 
2.43.0


From 4483bf74020066e9e7206145604a9f235043210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 15/40] fix: floor, ceil, trunc and round returned subnormal
 arguments unchanged

---
 include/gcem_incl/ceil.hpp  | 2 +-
 include/gcem_incl/floor.hpp | 2 +-
 include/gcem_incl/round.hpp | 2 +-
 include/gcem_incl/trunc.hpp | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/gcem_incl/ceil.hpp b/include/gcem_incl/ceil.hpp
index ff1097b..6abe2b1 100644
--- a/include/gcem_incl/ceil.hpp
+++ b/include/gcem_incl/ceil.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 ceil_check_internal(x) );
diff --git a/include/gcem_incl/floor.hpp b/include/gcem_incl/floor.hpp
index 8b260ff..91bff75 100644
--- a/include/gcem_incl/floor.hpp
+++ b/include/gcem_incl/floor.hpp
@@ -103,7 +103,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 floor_check_internal(x) );
diff --git a/include/gcem_incl/round.hpp b/include/gcem_incl/round.hpp
index 9ac4a09..e9e2d13 100644
--- a/include/gcem_incl/round.hpp
+++ b/include/gcem_incl/round.hpp
@@ -98,7 +98,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 sgn(x) * round_check_internal(abs(x)) );
diff --git a/include/gcem_incl/trunc.hpp b/include/gcem_incl/trunc.hpp
index af3f448..41564ab 100644
--- a/include/gcem_incl/trunc.hpp
+++ b/include/gcem_incl/trunc.hpp
@@ -94,7 +94,7 @@ noexcept
             !is_finite(x) ? \
                 x :
             // signed-zero cases
-            GCLIM<T>::min() > abs(x) ? \
+            x == T(0) ? \
                 x :
             // else
                 trunc_check_internal(x) );
-- 
2.43.0


From 8b61108df74e9ea78f7ac50e1b75350fea39052f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 16/40] fix: incomplete_beta_inv computed in integers when all
 arguments are integral

---
 include/gcem_incl/incomplete_beta_inv.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 9f575a3..745669d 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -310,7 +310,7 @@ noexcept
                     alpha_par,beta_par,p,lbeta(alpha_par,beta_par)) );
 }
 
-template<typename T1, typename T2, typename T3, typename TC = common_t<T1,T2,T3>>
+template<typename T1, typename T2, typename T3, typename TC = common_return_t<T1,T2,T3>>
 constexpr
 TC
 incomplete_beta_inv_type_check(const T1 a, const T2 b, const T3 p)
@@ -342,7 +342,7 @@ noexcept
 
 template<typename T1, typename T2, typename T3>
 constexpr
-common_t<T1,T2,T3>
+common_return_t<T1,T2,T3>
 incomplete_beta_inv(const T1 a, const T2 b, const T3 p)
 noexcept
 {
-- 
2.43.0


From dc985d4e9c25b0cdc961ee7bae26add695175d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:09 +0000
Subject: [PATCH 17/40] fix: pow(x,0.0) was NaN for x zero, negative or
 infinite

---
 include/gcem_incl/pow.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/pow.hpp b/include/gcem_incl/pow.hpp
index 701314c..f4fd00d 100644
--- a/include/gcem_incl/pow.hpp
+++ b/include/gcem_incl/pow.hpp
@@ -44,7 +44,10 @@ TC
 pow_check(const T1 base, const T2 exp_term)
 noexcept
 {
-    return( base < T1(0) ? \
+    return( exp_term == T2(0) ? \
+                TC(1) :
+            //
+            base < T1(0) ? \
                 GCLIM<TC>::quiet_NaN() :
             //
             pow_dbl(static_cast<TC>(base),static_cast<TC>(exp_term)) );
-- 
2.43.0


From e8b20f0df55ba0a00badc18e88a7c505bfc029e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:19 +0000
Subject: [PATCH 18/40] fix: pow did not compile for a base of a type narrower
 than int

---
 include/gcem_incl/pow_integral.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/pow_integral.hpp b/include/gcem_incl/pow_integral.hpp
index ff201ea..615aa26 100644
--- a/include/gcem_incl/pow_integral.hpp
+++ b/include/gcem_incl/pow_integral.hpp
@@ -42,8 +42,8 @@ noexcept
 {
     return( exp_term > T2(1) ? \
                 (is_odd(exp_term) ? \
-                    pow_integral_compute_recur(base*base,val*base,exp_term/2) :
-                    pow_integral_compute_recur(base*base,val,exp_term/2)) :
+                    pow_integral_compute_recur(T1(base*base),T1(val*base),exp_term/2) :
+                    pow_integral_compute_recur(T1(base*base),val,exp_term/2)) :
                 (exp_term == T2(1) ? val*base : val) );
 }
 
-- 
2.43.0


From ecf465b5d39e4a209085874485af286c3a31955c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:00 +0000
Subject: [PATCH 19/40] fix: exp overflowed to infinity for arguments just
 below the largest one with a finite result

---
 include/gcem_incl/exp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 8c54318..4acadfd 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,7 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x))) * exp_cf(find_fraction(x)) );
+    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
 }
 
 template<typename T>
-- 
2.43.0


From 3d78e5c4585c989ded7f1c8600155e27cddd1485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:00 +0000
Subject: [PATCH 20/40] fix: lbeta and beta of arguments of different types
 were computed in the narrower type

---
 include/gcem_incl/lbeta.hpp | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/lbeta.hpp b/include/gcem_incl/lbeta.hpp
index 60c87b4..6b3ac40 100644
--- a/include/gcem_incl/lbeta.hpp
+++ b/include/gcem_incl/lbeta.hpp
@@ -21,6 +21,29 @@
 #ifndef _gcem_lbeta_HPP
 #define _gcem_lbeta_HPP
 
+namespace internal
+{
+
+template<typename T>
+constexpr
+T
+lbeta_compute(const T a, const T b)
+noexcept
+{
+    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+}
+
+template<typename T1, typename T2, typename TC = common_return_t<T1,T2>>
+constexpr
+TC
+lbeta_type_check(const T1 a, const T2 b)
+noexcept
+{
+    return lbeta_compute(static_cast<TC>(a),static_cast<TC>(b));
+}
+
+}
+
 /**
  * Compile-time log-beta function
  *
@@ -36,7 +59,7 @@ common_return_t<T1,T2>
 lbeta(const T1 a, const T2 b)
 noexcept
 {
-    return( (lgamma(a) + lgamma(b)) - lgamma(a+b) );
+    return internal::lbeta_type_check(a,b);
 }
 
 #endif
-- 
2.43.0


From 7fc203f3fa2655bf1f71c7e149420d9c745b577e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 21/40] fix: gcd and lcm did not compile for types narrower
 than int

---
 include/gcem_incl/gcd.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcd.hpp b/include/gcem_incl/gcd.hpp
index 1e277fb..2fc2fde 100644
--- a/include/gcem_incl/gcd.hpp
+++ b/include/gcem_incl/gcd.hpp
@@ -30,7 +30,7 @@ T
 gcd_recur(const T a, const T b)
 noexcept
 {
-    return( b == T(0) ? a : gcd_recur(b, a % b) );
+    return( b == T(0) ? a : gcd_recur(b, static_cast<T>(a % b)) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From 9ab8f44ba7fe7ebb101ba5b19b6fca18f83426cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:50:30 +0000
Subject: [PATCH 22/40] fix: binomial_coef did not compile for types narrower
 than int

---
 include/gcem_incl/binomial_coef.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/binomial_coef.hpp b/include/gcem_incl/binomial_coef.hpp
index 0fc17f3..df9c856 100644
--- a/include/gcem_incl/binomial_coef.hpp
+++ b/include/gcem_incl/binomial_coef.hpp
@@ -34,7 +34,8 @@ noexcept
                 (k == T(0) || n == k) ? T(1) : // deals with 0 choose 0 case
                 n == T(0) ? T(0) :
             // else
-                binomial_coef_recur(n-1,k-1) + binomial_coef_recur(n-1,k) );
+                static_cast<T>( binomial_coef_recur(static_cast<T>(n-1),static_cast<T>(k-1))
+                                + binomial_coef_recur(static_cast<T>(n-1),k) ) );
 }
 
 template<typename T, typename std::enable_if<std::is_integral<T>::value>::type* = nullptr>
-- 
2.43.0


From b29f657ae958129ad5c4b51f8b92ac70b0600d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:08 +0000
Subject: [PATCH 23/40] fix: lgamma, tgamma and beta lost all accuracy for
 small positive arguments and overflowed below the machine epsilon

---
 include/gcem_incl/lgamma.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/lgamma.hpp b/include/gcem_incl/lgamma.hpp
index 4a093bb..ed6c191 100644
--- a/include/gcem_incl/lgamma.hpp
+++ b/include/gcem_incl/lgamma.hpp
@@ -107,6 +107,9 @@ noexcept
                 GCLIM<T>::infinity() :
             is_posinf(x) ? \
                 GCLIM<T>::infinity() :
+            // small values, for which x - 1 would be rounded
+            x < T(0.5) ? \
+                lgamma_begin(x) - log(x) :
             // else
                 lgamma_begin(x - T(1)) );
 }
-- 
2.43.0


From 68daeabb3a34f2cdf3e9abb72b0620efa1a93359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:08 +0000
Subject: [PATCH 24/40] fix: incomplete_gamma cut off the tails of the integral
 for a between 10 and 300, with errors of up to 1e-4 for z > 2a

---
 include/gcem_incl/incomplete_gamma.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 9ee4146..4c3a0eb 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -90,7 +90,7 @@ noexcept
             a > T(40)   ? max(T(0),min(z,a) -  6*sqrt(a)) :
             a > T(30)   ? max(T(0),min(z,a) -  5*sqrt(a)) :
             // else
-                max(T(0),min(z,a)-4*sqrt(a)) );
+                max(T(0),min(z,a)-5*sqrt(a)) );
 }
 
 template<typename T>
@@ -103,12 +103,12 @@ noexcept
             a > T(800)  ? min(z, a + 10*sqrt(a)) :
             a > T(500)  ? min(z, a + 9*sqrt(a))  :
             a > T(300)  ? min(z, a + 9*sqrt(a))  : 
-            a > T(100)  ? min(z, a + 8*sqrt(a))  :
-            a > T(90)   ? min(z, a + 8*sqrt(a))  :
-            a > T(70)   ? min(z, a + 7*sqrt(a))  :
-            a > T(50)   ? min(z, a + 6*sqrt(a))  :
+            a > T(100)  ? min(z, a + 10*sqrt(a)) :
+            a > T(90)   ? min(z, a + 10*sqrt(a)) :
+            a > T(70)   ? min(z, a + 11*sqrt(a)) :
+            a > T(50)   ? min(z, a + 11*sqrt(a)) :
             // else
-                min(z, a + 5*sqrt(a)) );
+                min(z, a + 12*sqrt(a)) );
 }
 
 template<typename T>
-- 
2.43.0


From c4bd92af28d683a9f5d1464fff06818882653711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:08 +0000
Subject: [PATCH 25/40] fix: incomplete_gamma lost up to six digits to
 cancellation for a < 10 and 3 < z - a < 10

---
 include/gcem_incl/incomplete_gamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma.hpp b/include/gcem_incl/incomplete_gamma.hpp
index 4c3a0eb..2a0be08 100644
--- a/include/gcem_incl/incomplete_gamma.hpp
+++ b/include/gcem_incl/incomplete_gamma.hpp
@@ -200,7 +200,7 @@ noexcept
             GCLIM<T>::min() > a ? \
                 T(1) : 
             // cf or quadrature
-            (a < T(10)) && (z - a < T(10)) ?
+            (a < T(10)) && (z - a < T(3)) ?
                 incomplete_gamma_cf_1(a,z) :
             (a < T(10)) || (z/a > T(3)) ?
                 incomplete_gamma_cf_2(a,z) :
-- 
2.43.0


From d70e1bbb945c4365674b8d2cf04c0118fee7c532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 26/40] fix: incomplete_gamma_inv iterated with the derivative
 of the previous point and diverged to NaN in the tails

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index e5976d0..1fa09f6 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -192,7 +192,7 @@ noexcept
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
                 incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value,a,lg_val),
+                    incomplete_gamma_inv_deriv_1(value-direc,a,lg_val),
                     lg_val,iter_count+1) :
             // else 
                 value - direc );
-- 
2.43.0


From 99ba17ecdb2d7a1f3bc29335de78148fe0ffdd41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:07 +0000
Subject: [PATCH 27/40] fix: incomplete_beta_inv iterated with the derivative
 of the previous point and diverged to NaN in the tails

---
 include/gcem_incl/incomplete_beta_inv.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 745669d..483b500 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -274,7 +274,7 @@ noexcept
     return( iter_count <= GCEM_INCML_BETA_INV_MAX_ITER ?
             // if
                 incomplete_beta_inv_recur(value-direc,alpha_par,beta_par,p,
-                    incomplete_beta_inv_deriv_1(value,alpha_par,beta_par,lb_val),
+                    incomplete_beta_inv_deriv_1(value-direc,alpha_par,beta_par,lb_val),
                     lb_val, iter_count+1) :
             // else
                 value - direc );
-- 
2.43.0


From 0fd9698f39975f2f23b480953c7d903a1ce5918b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:18 +0000
Subject: [PATCH 28/40] fix: signbit, copysign and atan2(0,x) could not be
 evaluated at compile time with Clang

---
 include/gcem_incl/gcem_options.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/gcem_options.hpp b/include/gcem_incl/gcem_options.hpp
index 4113738..2d9320d 100644
--- a/include/gcem_incl/gcem_options.hpp
+++ b/include/gcem_incl/gcem_options.hpp
@@ -205,7 +205,11 @@ namespace gcem
     #endif
 #else
     #ifndef GCEM_SIGNBIT
-        #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #ifdef __clang__ // __builtin_signbit is not a constant expression before Clang 19
+            #define GCEM_SIGNBIT(x) (__builtin_copysignl(1.0L,x) < 0.0L)
+        #else
+            #define GCEM_SIGNBIT(x) __builtin_signbit(x)
+        #endif
     #endif
     #ifndef GCEM_COPYSIGN
         #define GCEM_COPYSIGN(x,y) __builtin_copysign(x,y)
-- 
2.43.0


From 0239d203c6b80be0f6b3c625d224a3f7beecf85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:31 +0000
Subject: [PATCH 29/40] fix: atan of large arguments overflowed in an
 intermediate power and was not a constant expression

---
 include/gcem_incl/atan.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/gcem_incl/atan.hpp b/include/gcem_incl/atan.hpp
index d2b7936..32f24c8 100644
--- a/include/gcem_incl/atan.hpp
+++ b/include/gcem_incl/atan.hpp
@@ -110,7 +110,8 @@ noexcept
             x < T(25)   ? atan_series_order(x,x,1U,5U)  :  // O(1/x^19)
             x < T(100)  ? atan_series_order(x,x,1U,4U)  :  // O(1/x^15)
             x < T(1000) ? atan_series_order(x,x,1U,3U)  :  // O(1/x^11)
-                          atan_series_order(x,x,1U,2U) );  // O(1/x^7)
+            x < T(1E+07)? atan_series_order(x,x,1U,2U)  :  // O(1/x^7)
+                          atan_series_order(x,x,1U,1U) );  // O(1/x^3), as higher powers may overflow
 }
 
 // CF
-- 
2.43.0


From 5d3ff457cb8f2510045d09905b078fa06702b621 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 30/40] fix: log2 and log10 of a negative number or NaN were
 not constant expressions with Clang

---
 include/gcem_incl/log10.hpp | 6 +++++-
 include/gcem_incl/log2.hpp  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/log10.hpp b/include/gcem_incl/log10.hpp
index cda8894..552531e 100644
--- a/include/gcem_incl/log10.hpp
+++ b/include/gcem_incl/log10.hpp
@@ -35,7 +35,11 @@ log10_check(const T x)
 noexcept
 {
     // log_10(x) = ln(x) / ln(10)
-    return return_t<T>(log(x) / GCEM_LOG_10);
+    return( // NaN check and negative values
+            is_nan(x) || static_cast<return_t<T>>(x) < return_t<T>(0) ? \
+                GCLIM<return_t<T>>::quiet_NaN() :
+            // else
+                return_t<T>(log(x) / GCEM_LOG_10) );
 }
 
 }
diff --git a/include/gcem_incl/log2.hpp b/include/gcem_incl/log2.hpp
index a97fed4..ff48c2d 100644
--- a/include/gcem_incl/log2.hpp
+++ b/include/gcem_incl/log2.hpp
@@ -35,7 +35,11 @@ log2_check(const T x)
 noexcept
 {
     // log_2(x) = ln(x) / ln(2)
-    return return_t<T>(log(x) / GCEM_LOG_2);
+    return( // NaN check and negative values
+            is_nan(x) || static_cast<return_t<T>>(x) < return_t<T>(0) ? \
+                GCLIM<return_t<T>>::quiet_NaN() :
+            // else
+                return_t<T>(log(x) / GCEM_LOG_2) );
 }
 
 }
-- 
2.43.0


From 5957dbe3d9e172fae8fb4f187a762bf632fea800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 31/40] fix: acos of an argument below -1 was not a constant
 expression with Clang

---
 include/gcem_incl/acos.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/acos.hpp b/include/gcem_incl/acos.hpp
index a47003d..8898017 100644
--- a/include/gcem_incl/acos.hpp
+++ b/include/gcem_incl/acos.hpp
@@ -55,6 +55,9 @@ noexcept
     return( // NaN check
             is_nan(x) ? \
                 GCLIM<T>::quiet_NaN() :
+            // only defined on [-1,1]
+            abs(x) > T(1) ? \
+                GCLIM<T>::quiet_NaN() :
             //
             x > T(0) ? \
             // if
-- 
2.43.0


From 48ea82982513d1d4a7762f4166c9905e632833f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 32/40] fix: fmod divided by zero instead of returning NaN, and
 so was not a constant expression

---
 include/gcem_incl/fmod.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/gcem_incl/fmod.hpp b/include/gcem_incl/fmod.hpp
index 02459ef..4855da4 100644
--- a/include/gcem_incl/fmod.hpp
+++ b/include/gcem_incl/fmod.hpp
@@ -36,6 +36,9 @@ noexcept
             // +/- infinite
             !all_finite(x, y) ? \
                 GCLIM<T>::quiet_NaN() :
+            // division by zero
+            y == T(0) ? \
+                GCLIM<T>::quiet_NaN() :
             // else
                 x - trunc(x/y)*y );
 }
-- 
2.43.0


From 9c9d4eeac5a77c9d949213cf1fd1a6f48e666cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:06:45 +0000
Subject: [PATCH 33/40] fix: tgamma of negative infinity was not a constant
 expression

---
 include/gcem_incl/tgamma.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gcem_incl/tgamma.hpp b/include/gcem_incl/tgamma.hpp
index 3b47bdd..f59fb54 100644
--- a/include/gcem_incl/tgamma.hpp
+++ b/include/gcem_incl/tgamma.hpp
@@ -45,7 +45,7 @@ noexcept
             // negative numbers
             x < T(0) ? \
                 // check for integer
-                GCLIM<T>::min() > abs(x - floor(x)) || is_neginf(x) ? \
+                is_neginf(x) || GCLIM<T>::min() > abs(x - floor(x)) ? \
                     GCLIM<T>::quiet_NaN() :
                 // indistinguishable from zero
                 x < - T(GCLIM<T>::max_exponent) ? \
-- 
2.43.0


From 11fa6c623b275459cc399fedde9697d3b0042eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 34/40] fix: incomplete_beta_inv returned zero or one when a
 parameter is small, from a wrong initial value

---
 include/gcem_incl/incomplete_beta_inv.hpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 483b500..49831d7 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -153,7 +153,7 @@ incomplete_beta_inv_initial_val_2(const T alpha_par, const T beta_par, const T p
 noexcept
 {
     return( p <= s_1/(s_1 + s_2) ? pow(p*(s_1+s_2)*alpha_par,T(1)/alpha_par) :
-                                    T(1) - pow(p*(s_1+s_2)*beta_par,T(1)/beta_par) );
+                                    T(1) - pow((T(1) - p)*(s_1+s_2)*beta_par,T(1)/beta_par) );
 }
 
 // initial value
@@ -170,15 +170,9 @@ noexcept
                     incomplete_beta_inv_initial_val_1_tval(p),
                     p < T(0.5) ? T(1) : T(-1) ) :
             // else
-                p > T(0.5) ?
-                    // if
-                       T(1) - incomplete_beta_inv_initial_val_2(beta_par,alpha_par,T(1) - p,
-                                    incomplete_beta_inv_initial_val_2_s1(beta_par,alpha_par),
-                                    incomplete_beta_inv_initial_val_2_s2(beta_par,alpha_par)) :
-                    // else
-                       incomplete_beta_inv_initial_val_2(alpha_par,beta_par,p,
-                            incomplete_beta_inv_initial_val_2_s1(alpha_par,beta_par),
-                            incomplete_beta_inv_initial_val_2_s2(alpha_par,beta_par))
+                incomplete_beta_inv_initial_val_2(alpha_par,beta_par,p,
+                    incomplete_beta_inv_initial_val_2_s1(alpha_par,beta_par),
+                    incomplete_beta_inv_initial_val_2_s2(alpha_par,beta_par))
             );
 }
 
-- 
2.43.0


From 308948758198869972936d230128aa5d28abd56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 35/40] fix: incomplete_beta_inv left the unit interval and
 returned NaN in the tails

---
 include/gcem_incl/incomplete_beta_inv.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 49831d7..0a41cc5 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -239,6 +239,20 @@ noexcept
     return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
 }
 
+template<typename T>
+constexpr
+T
+incomplete_beta_inv_step(const T value, const T direc)
+noexcept
+{ // new value; halfway to the bound if the full step leaves the open interval (0,1)
+    return( value - direc <= T(0) ? \
+                value / T(2) :
+            value - direc >= T(1) ? \
+                (value + T(1)) / T(2) :
+            // else
+                value - direc );
+}
+
 template<typename T>
 constexpr
 T
@@ -267,11 +281,11 @@ noexcept
 {
     return( iter_count <= GCEM_INCML_BETA_INV_MAX_ITER ?
             // if
-                incomplete_beta_inv_recur(value-direc,alpha_par,beta_par,p,
-                    incomplete_beta_inv_deriv_1(value-direc,alpha_par,beta_par,lb_val),
+                incomplete_beta_inv_recur(incomplete_beta_inv_step(value,direc),alpha_par,beta_par,p,
+                    incomplete_beta_inv_deriv_1(incomplete_beta_inv_step(value,direc),alpha_par,beta_par,lb_val),
                     lb_val, iter_count+1) :
             // else
-                value - direc );
+                incomplete_beta_inv_step(value,direc) );
 }
 
 template<typename T>
-- 
2.43.0


From be0003d58c78913e7248172c7e5bc5314172884d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 36/40] fix: incomplete_gamma_inv and incomplete_beta_inv
 returned NaN for small quantiles, where the second derivative overflowed

---
 include/gcem_incl/incomplete_beta_inv.hpp  | 17 ++++-------------
 include/gcem_incl/incomplete_gamma_inv.hpp | 17 ++++-------------
 2 files changed, 8 insertions(+), 26 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 0a41cc5..5ab0b45 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -203,15 +203,6 @@ noexcept
                 exp( (alpha_par - T(1))*log(value) + (beta_par - T(1))*log(T(1) - value) - lb_val ) );
 }
 
-template<typename T>
-constexpr
-T
-incomplete_beta_inv_deriv_2(const T value, const T alpha_par, const T beta_par, const T deriv_1)
-noexcept
-{ // second derivative of the incomplete beta function w.r.t. x
-    return( deriv_1*((alpha_par - T(1))/value - (beta_par - T(1))/(T(1) - value)) );
-}
-
 template<typename T>
 constexpr
 T
@@ -224,10 +215,10 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par, const T deriv_1)
+incomplete_beta_inv_ratio_val_2(const T value, const T alpha_par, const T beta_par)
 noexcept
-{
-    return( incomplete_beta_inv_deriv_2(value,alpha_par,beta_par,deriv_1) / deriv_1 );
+{ // second derivative of the incomplete beta function w.r.t. x, divided by the first
+    return( (alpha_par - T(1))/value - (beta_par - T(1))/(T(1) - value) );
 }
 
 template<typename T>
@@ -268,7 +259,7 @@ noexcept
             incomplete_beta_inv_decision( value, alpha_par, beta_par, p,
                incomplete_beta_inv_halley(
                    incomplete_beta_inv_ratio_val_1(value,alpha_par,beta_par,p,deriv_1),
-                   incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par,deriv_1)
+                   incomplete_beta_inv_ratio_val_2(value,alpha_par,beta_par)
                ), lb_val, iter_count) );
 }
 
diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index 1fa09f6..8fb196b 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -134,15 +134,6 @@ noexcept
     return( exp( - value + (a - T(1))*log(value) - lg_val ) );
 }
 
-template<typename T>
-constexpr
-T
-incomplete_gamma_inv_deriv_2(const T value, const T a, const T deriv_1)
-noexcept
-{ // second derivative of the incomplete gamma function w.r.t. x
-    return( deriv_1*((a - T(1))/value - T(1)) );
-}
-
 template<typename T>
 constexpr
 T
@@ -155,10 +146,10 @@ noexcept
 template<typename T>
 constexpr
 T
-incomplete_gamma_inv_ratio_val_2(const T value, const T a, const T deriv_1)
+incomplete_gamma_inv_ratio_val_2(const T value, const T a)
 noexcept
-{
-    return( incomplete_gamma_inv_deriv_2(value,a,deriv_1) / deriv_1 );
+{ // second derivative of the incomplete gamma function w.r.t. x, divided by the first
+    return( (a - T(1))/value - T(1) );
 }
 
 template<typename T>
@@ -178,7 +169,7 @@ noexcept
 {
     return incomplete_gamma_inv_decision(value, a, p,
                 incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
-                incomplete_gamma_inv_ratio_val_2(value,a,deriv_1)),
+                incomplete_gamma_inv_ratio_val_2(value,a)),
                 lg_val, iter_count);
 }
 
-- 
2.43.0


From f0f75a45e155cc3cb9f223316236ddc79c42ac74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 37/40] fix: incomplete_gamma_inv diverged to NaN in the tails,
 where a step passed zero or left the range

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index 8fb196b..bc695d0 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -161,6 +161,20 @@ noexcept
     return( ratio_val_1 / max( T(0.8), min( T(1.2), T(1) - T(0.5)*ratio_val_1*ratio_val_2 ) ) );
 }
 
+template<typename T>
+constexpr
+T
+incomplete_gamma_inv_step(const T value, const T direc)
+noexcept
+{ // new value; at most twice and at least half the old one, so as to neither reach zero nor diverge in the tails
+    return( direc > value / T(2) ? \
+                value / T(2) :
+            direc < -value ? \
+                value * T(2) :
+            // else
+                value - direc );
+}
+
 template<typename T>
 constexpr
 T
@@ -182,11 +196,11 @@ noexcept
     // return( abs(direc) > GCEM_INCML_GAMMA_INV_TOL ? incomplete_gamma_inv_recur(value - direc, a, p, incomplete_gamma_inv_deriv_1(value,a,lg_val), lg_val) : value - direc );
     return( iter_count <= GCEM_INCML_GAMMA_INV_MAX_ITER ? \
             // if
-                incomplete_gamma_inv_recur(value-direc,a,p,
-                    incomplete_gamma_inv_deriv_1(value-direc,a,lg_val),
+                incomplete_gamma_inv_recur(incomplete_gamma_inv_step(value,direc),a,p,
+                    incomplete_gamma_inv_deriv_1(incomplete_gamma_inv_step(value,direc),a,lg_val),
                     lg_val,iter_count+1) :
             // else 
-                value - direc );
+                incomplete_gamma_inv_step(value,direc) );
 }
 
 template<typename T>
-- 
2.43.0


From 8393a3de9259066ea477f5bc4b83b4885a478aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:26 +0000
Subject: [PATCH 38/40] fix: incomplete_gamma_inv returned NaN for quantiles
 too small to be represented, and where the density vanishes

---
 include/gcem_incl/incomplete_gamma_inv.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/gcem_incl/incomplete_gamma_inv.hpp b/include/gcem_incl/incomplete_gamma_inv.hpp
index bc695d0..d657987 100644
--- a/include/gcem_incl/incomplete_gamma_inv.hpp
+++ b/include/gcem_incl/incomplete_gamma_inv.hpp
@@ -131,7 +131,11 @@ T
 incomplete_gamma_inv_deriv_1(const T value, const T a, const T lg_val)
 noexcept
 { // derivative of the incomplete gamma function w.r.t. x
-    return( exp( - value + (a - T(1))*log(value) - lg_val ) );
+    return( // indistinguishable from zero
+            GCLIM<T>::min() > value ? \
+                T(0) :
+            // else
+                exp( - value + (a - T(1))*log(value) - lg_val ) );
 }
 
 template<typename T>
@@ -181,10 +185,14 @@ T
 incomplete_gamma_inv_recur(const T value, const T a, const T p, const T deriv_1, const T lg_val, const int iter_count)
 noexcept
 {
-    return incomplete_gamma_inv_decision(value, a, p,
-                incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
-                incomplete_gamma_inv_ratio_val_2(value,a)),
-                lg_val, iter_count);
+    return( // derivative = 0
+            GCLIM<T>::min() > abs(deriv_1) ? \
+                value :
+            // else
+                incomplete_gamma_inv_decision(value, a, p,
+                    incomplete_gamma_inv_halley(incomplete_gamma_inv_ratio_val_1(value,a,p,deriv_1), 
+                    incomplete_gamma_inv_ratio_val_2(value,a)),
+                    lg_val, iter_count) );
 }
 
 template<typename T>
-- 
2.43.0


From 89e039fbef21b30ec7fcc63cf6f412cd8fb9f776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:15 +0000
Subject: [PATCH 39/40] fix: exp of long double overflowed below the largest
 argument with a finite result, and vanished above the smallest

---
 include/gcem_incl/exp.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/gcem_incl/exp.hpp b/include/gcem_incl/exp.hpp
index 4acadfd..91b0fcd 100644
--- a/include/gcem_incl/exp.hpp
+++ b/include/gcem_incl/exp.hpp
@@ -82,7 +82,8 @@ T
 exp_split(const T x)
 noexcept
 {
-    return( static_cast<T>(pow_integral(GCEM_E,find_whole(x)) * exp_cf(find_fraction(x))) );
+    // the whole part is truncated rather than rounded, as a power beyond x could leave the range of the type
+    return( static_cast<T>(pow_integral(GCEM_E,static_cast<llint_t>(x)) * exp_cf(x - T(static_cast<llint_t>(x)))) );
 }
 
 template<typename T>
@@ -120,7 +121,7 @@ noexcept
  *
  * @param x a real-valued input.
  * @return \f$ \exp(x) \f$ using \f[ \exp(x) = \dfrac{1}{1-\dfrac{x}{1+x-\dfrac{\frac{1}{2}x}{1 + \frac{1}{2}x - \dfrac{\frac{1}{3}x}{1 + \frac{1}{3}x - \ddots}}}} \f] 
- * The continued fraction argument is split into two parts: \f$ x = n + r \f$, where \f$ n \f$ is an integer and \f$ r \in [-0.5,0.5] \f$.
+ * The continued fraction argument is split into two parts: \f$ x = n + r \f$, where \f$ n \f$ is an integer and \f$ r \in (-1,1) \f$.
  */
 
 template<typename T>
-- 
2.43.0


From 0b22c812e6def55294ad34f04e686b4431d291d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:47 +0000
Subject: [PATCH 40/40] fix: incomplete_beta_inv stopped far from the quantile,
 or at one, where the derivative vanishes

---
 include/gcem_incl/incomplete_beta_inv.hpp | 26 ++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/gcem_incl/incomplete_beta_inv.hpp b/include/gcem_incl/incomplete_beta_inv.hpp
index 5ab0b45..16c4bf9 100644
--- a/include/gcem_incl/incomplete_beta_inv.hpp
+++ b/include/gcem_incl/incomplete_beta_inv.hpp
@@ -105,7 +105,8 @@ T
 incomplete_beta_inv_initial_val_1_int_end(const T alpha_par, const T beta_par, const T w_term)
 noexcept
 {
-    return( alpha_par / (alpha_par + beta_par*exp(2*w_term)) );
+    // less than one, where the derivative vanishes and the recursion could not start
+    return( min( T(1) - GCLIM<T>::epsilon(), alpha_par / (alpha_par + beta_par*exp(2*w_term)) ) );
 }
 
 template<typename T>
@@ -244,6 +245,20 @@ noexcept
                 value - direc );
 }
 
+template<typename T>
+constexpr
+T
+incomplete_beta_inv_bisect(const T value, const T err_val)
+noexcept
+{ // halfway to the bound on the other side of the solution
+    return( err_val > T(0) ? \
+                value / T(2) :
+            err_val < T(0) ? \
+                (value - T(1)) / T(2) :
+            // else
+                T(0) );
+}
+
 template<typename T>
 constexpr
 T
@@ -251,10 +266,15 @@ incomplete_beta_inv_recur(const T value, const T alpha_par, const T beta_par, co
                           const T lb_val, const int iter_count)
 noexcept
 {
-    return( // derivative = 0
-            GCLIM<T>::min() > abs(deriv_1) ? \
+    return( // indistinguishable from zero or one
+            GCLIM<T>::min() > abs(value) || GCLIM<T>::min() > abs(T(1) - value) ? \
                 incomplete_beta_inv_decision( value, alpha_par, beta_par, p, T(0), lb_val,
                     GCEM_INCML_BETA_INV_MAX_ITER+1) :
+            // derivative = 0, far from the solution
+            GCLIM<T>::min() > abs(deriv_1) ? \
+                incomplete_beta_inv_decision( value, alpha_par, beta_par, p,
+                    incomplete_beta_inv_bisect(value,incomplete_beta_inv_err_val(value,alpha_par,beta_par,p)),
+                    lb_val, iter_count) :
             // else
             incomplete_beta_inv_decision( value, alpha_par, beta_par, p,
                incomplete_beta_inv_halley(
-- 
2.43.0

