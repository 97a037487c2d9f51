From 92966d93d46cd5537322c16ed5e336156d7f06b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 01/32] fix: det returned the reciprocal of the determinant

The determinant is the product of the pivots the rows are divided by.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From f12e551d8ae4360d77364a06d5e6df0bc6af5e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 02/32] fix: rref with an explicit tolerance did not compile
 when instantiated

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..5c97b54 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From a7bcba25df24ce0667f573667fdbb7eae62402fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 03/32] fix: rank, det, rref and inverse accepted the zero
 matrix as invertible

The default tolerance of the zero matrix is zero, so an element equal to it
has to count as negligible; otherwise zero is used as a pivot.
---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 5c97b54..ec81690 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 0e096bf5ef2ea791d3ad80160fff220237ab7312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 04/32] fix: swapcol walked the number of columns instead of
 rows

On a matrix with more columns than rows it wrote past the matrix, with fewer
it swapped only part of the columns.
---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 36d2c40940c31395cd9428e0c55f9b3e431f6717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 05/32] fix: submat accepted start indices that wrap around
 size_t

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index b0f42b1..105fe4a 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -215,7 +215,7 @@ namespace nil {
              */
             template<std::size_t P, std::size_t Q, std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, P, Q> submat(const matrix<T, M, N> &m, std::size_t a, std::size_t b) {
-                if ((a + P > M) || (b + Q > N))
+                if (P > M || a > M - P || Q > N || b > N - Q)
                     throw "index out of range";
                 return generate<P, Q>([&m, &a, &b](std::size_t i, std::size_t j) { return m[a + i][b + j]; });
             }
-- 
2.43.0


From a1af8cd6af320f329819f136de7966a15bea0789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:19 +0000
Subject: [PATCH 06/32] fix: rotate took time proportional to the magnitude of
 a negative shift

---
 include/nil/crypto3/algebra/vector/utility.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/vector/utility.hpp b/include/nil/crypto3/algebra/vector/utility.hpp
index 6c1e5e9..5fa2719 100644
--- a/include/nil/crypto3/algebra/vector/utility.hpp
+++ b/include/nil/crypto3/algebra/vector/utility.hpp
@@ -149,11 +149,12 @@ namespace nil {
             template<std::size_t N, typename T>
             constexpr vector<T, N> rotate(vector<T, N> v, int n) {
                 vector<T, N> rotated = {};
-                // add N (the modulus) to n until it is positive
-                while (n < 0)
-                    n += N;
+                // reduce n into [0, N), in a type that holds both every int and N
+                long long shift = n % static_cast<long long>(N);
+                if (shift < 0)
+                    shift += N;
                 for (std::size_t i = 0; i < N; ++i)
-                    rotated[i] = v[(i + n) % N];
+                    rotated[i] = v[(i + shift) % N];
                 return rotated;
             }
 
-- 
2.43.0


From f3abbb1091350de9f86c1c2ffb906f52290686fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 07/32] fix: sqrt and nthroot never returned for zero, infinity
 or NaN, or when rounding made them oscillate

---
 include/nil/crypto3/algebra/scalar/math.hpp | 24 +++++++++++++++------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 0946310..2bbb14c 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -27,6 +27,8 @@
 #ifndef CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 #define CRYPTO3_ALGEBRA_SCALAR_MATH_HPP
 
+#include <limits>
+
 #include <nil/crypto3/algebra/type_traits.hpp>
 #include <nil/crypto3/detail/assert.hpp>
 
@@ -47,13 +49,17 @@ namespace nil {
             constexpr double sqrt(double x) {
                 if (x < 0)
                     throw "sqrt argument must be positive";
+                // zero, infinity and NaN are their own square roots, and the iteration does not settle on them
+                if (!(x > 0) || x > std::numeric_limits<double>::max())
+                    return x;
+                // est starts above the root and decreases until rounding stops it
                 double prev = 0;
                 double est = (1 + x) / 2;
-                while (prev != est) {
+                do {
                     prev = est;
                     est = (est + x / est) / 2;
-                }
-                return est;
+                } while (est < prev);
+                return prev;
             }
 
             /** @brief computes the square root
@@ -118,13 +124,17 @@ namespace nil {
             constexpr double nthroot(double x, int n) {
                 if (x < 0)
                     throw "nth root argument must be positive";
-                double prev = -1;
-                double est = 1;
-                while (prev != est) {
+                // zero, infinity and NaN are their own roots, and the iteration does not settle on them
+                if (!(x > 0) || x > std::numeric_limits<double>::max())
+                    return x;
+                // after its first step est is above the root and decreases until rounding stops it
+                double prev = 1;
+                double est = 1 + 1. / n * (x - 1);
+                do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
                     est = prev + dxk;
-                }
+                } while (est < prev);
                 return est;
             }
 
-- 
2.43.0


From 6250f34b30f89c388974fa095c934621dd0c1c74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:47 +0000
Subject: [PATCH 08/32] fix: elimination stopped at a negligible pivot
 candidate and skipped columns that had a usable one

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ec81690..20f4a66 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -197,7 +197,7 @@ namespace nil {
                 while (i < M && j < N) {
                     // Choose largest magnitude as pivot to avoid adding different magnitudes
                     for (std::size_t ip = i + 1; ip < M; ++ip) {
-                        if (abs(m[ip][j]) > abs(m[i][j])) {
+                        if (abs(m[ip][j]) > abs(m[i][j]) && !negligible(m[ip][j])) {
                             for (std::size_t jp = 0; jp < N; ++jp) {
                                 auto tmp = m[ip][jp];
                                 m[ip][jp] = m[i][jp];
-- 
2.43.0


From 3340ac253c2e25822b5b759dec2d5d887cd909f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:35 +0000
Subject: [PATCH 09/32] fix: exponentiate overflowed on the smallest exponent
 and returned 1/x

---
 include/nil/crypto3/algebra/scalar/math.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index 2bbb14c..cddb1ae 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -97,17 +97,19 @@ namespace nil {
             constexpr double exponentiate(double x, int n) {
                 if (n == 0)
                     return 1;
+                // the magnitude of the smallest int does not fit in an int
+                unsigned int k = n;
                 if (n < 0) {
                     x = 1. / x;
-                    n = -n;
+                    k = -k;
                 }
                 double y = 1.;
-                while (n > 1) {
-                    if (n % 2 == 0) {
-                        n = n / 2.;
+                while (k > 1) {
+                    if (k % 2 == 0) {
+                        k = k / 2;
                     } else {
                         y *= x;
-                        n = (n - 1.) / 2.;
+                        k = (k - 1) / 2;
                     }
                     x *= x;
                 }
-- 
2.43.0


From d813bbc936703fc14af85ed6ee274dde257656ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 10/32] fix: mixed_add of a point to itself returned the point
 at infinity

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp  | 6 ++++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp     | 6 ++++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                 | 6 ++++++
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp  | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..bc999db 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..9236025 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..96a79af 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..e7b049c 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,6 +302,12 @@ namespace nil {
                                 return;
                             }
 
+                            // the mixed addition formulas do not cover doubling
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 68a99138cc63938919aa37f2f79b70f470d3f71b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 11/32] fix: is_well_formed refused every point in projective
 coordinates with a = -3

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From 1bd9288d973f1c92ef94b31c8a1f1b53a9420806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 12/32] fix: negating the point at infinity of a Montgomery
 curve gave a finite point

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..d5135cc 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,7 +251,7 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
-                            return curve_element(this->X, -(this->Y));
+                            return this->is_zero() ? *this : curve_element(this->X, -(this->Y));
                         }
 
                         constexpr curve_element operator-(const curve_element &other) const {
-- 
2.43.0


From 7f7f8efaa4b4bb31e1f30f8199e56d8038864b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 13/32] fix: to_affine from Jacobian coordinates with a = -3
 scaled Y by the wrong power of Z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 96a79af..18810b9 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From 68c224aca8fbbb80fedfa71ba983f0029a3f772a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:01 +0000
Subject: [PATCH 14/32] fix: sqrt of zero in a quadratic or cubic extension
 never returned

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 4 ++++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..62290ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -196,6 +196,10 @@ namespace nil {
                         }
 
                         constexpr element_fp2 sqrt() const {
+                            // the loop below never ends for zero
+                            if (this->is_zero()) {
+                                return *this;
+                            }
 
                             element_fp2 one = this->one();
 
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..7b15ccd 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,11 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            // the loop below never ends for zero
+                            if (this->is_zero()) {
+                                return *this;
+                            }
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From a880ce462b6634de625ab7a1effc3ec99f8304d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:18 +0000
Subject: [PATCH 15/32] fix: wrong Frobenius coefficient for the fifth power in
 the MNT6 field of degree six

---
 .../fields/detail/extension_params/mnt6/fp6_2over3.hpp        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..c245e6a 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -66,7 +66,7 @@ namespace nil {
                             non_residue_type(0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298),
                             non_residue_type(0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298),
                             non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292),
-                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293)};*/
+                            non_residue_type(0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293)};*/
 
                         constexpr static const std::array<integral_type, 6> Frobenius_coeffs_c1 = {
                             0x01,
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 12a8b4c03a9143f25529cb1dba2b9c1afdfbd52f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:45 +0000
Subject: [PATCH 16/32] fix: the pairing with the point at infinity was not one

---
 include/nil/crypto3/algebra/algorithms/pair.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/pair.hpp b/include/nil/crypto3/algebra/algorithms/pair.hpp
index 2e11ff8..8828482 100644
--- a/include/nil/crypto3/algebra/algorithms/pair.hpp
+++ b/include/nil/crypto3/algebra/algorithms/pair.hpp
@@ -81,6 +81,11 @@ namespace nil {
             typename PairingCurveType::gt_type::value_type
                 pair(const typename PairingCurveType::template g1_type<>::value_type &v1,
                      const typename PairingCurveType::template g2_type<>::value_type &v2) {
+                // the pairing with the point at infinity is one; the precomputations have no such point
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
@@ -93,6 +98,11 @@ namespace nil {
                 pair_reduced(const typename PairingCurveType::template g1_type<>::value_type &v1,
                              const typename PairingCurveType::template g2_type<>::value_type &v2) {
 
+                // the pairing with the point at infinity is one; the precomputations have no such point
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
-- 
2.43.0


From 57bf7c350ef84b7779e04b4bd9e545dc90d89a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 17/32] fix: a random field element could be drawn as the
 modulus, so zero came up twice as often

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0


From eca13812bac5a144c0edf6823304a8118c6062bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 18/32] fix: the bucket method of multi-exponentiation took the
 logarithm of zero for no terms

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..e1b1504 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From d17c607a95352802a3cb0e1d352c46f4aebb113c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 19/32] fix: Bos-Coster multi-exponentiation threw when every
 scalar was zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index e1b1504..acfa76b 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -273,6 +273,10 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            if (a.r.is_zero()) {
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From adef6ee5ebe7b71d653d3366f2298b38f0abf737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 20/32] fix: the search for a window size ran past the front of
 the table for no scalars

---
 include/nil/crypto3/algebra/multiexp/multiexp.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/multiexp/multiexp.hpp b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
index 281b954..de4d094 100644
--- a/include/nil/crypto3/algebra/multiexp/multiexp.hpp
+++ b/include/nil/crypto3/algebra/multiexp/multiexp.hpp
@@ -126,11 +126,11 @@ namespace nil {
 
                 std::size_t window = 1;
 
-                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size() - 1; i >= 0;
+                for (std::size_t i = curves::multiexp_params<GroupType>::fixed_base_exp_window_table.size(); i > 0;
                      --i) {
-                    if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i] != 0 &&
-                        num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i]) {
-                        window = i + 1;
+                    if (curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i - 1] != 0 &&
+                        num_scalars >= curves::multiexp_params<GroupType>::fixed_base_exp_window_table[i - 1]) {
+                        window = i;
                         break;
                     }
                 }
-- 
2.43.0


From db92d725c51e79dffaabe46bf81ce51915353bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:22 +0000
Subject: [PATCH 21/32] fix: encoding a field element left old bytes of the
 buffer in place of leading zeros

---
 include/nil/crypto3/algebra/marshalling.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..fa2c49b 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -105,6 +105,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes no leading zeros
+                    std::fill(out_first, out_last, 0);
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From c3489024e28b9ad45c590f148b937c90e5e4f5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:50 +0000
Subject: [PATCH 22/32] fix: decoding validated its octets only by assertions,
 so release builds accepted anything or never finished

---
 .../algebra/curves/detail/marshalling.hpp     | 44 +++++++++++--------
 include/nil/crypto3/algebra/marshalling.hpp   | 17 +++++--
 2 files changed, 39 insertions(+), 22 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 644dbea..05f5e18 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -33,6 +33,7 @@
 #include <boost/concept/assert.hpp>
 
 #include <iterator>
+#include <stdexcept>
 
 namespace nil {
     namespace marshalling {
@@ -152,7 +153,7 @@ namespace nil {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
-                BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
+                check(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
                 PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
@@ -171,7 +172,7 @@ namespace nil {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
-                BOOST_ASSERT(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
+                check(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
                 PointOctetsRange point_octets;
                 std::copy(octets.begin(), octets.end(), point_octets.begin());
@@ -194,10 +195,10 @@ namespace nil {
                      typename = typename std::enable_if<
                          std::is_same<std::uint8_t, typename PointOctetsRange::value_type>::value>::type>
             static inline g1_value_type compressed_to_g1_point(PointOctetsRange &point_octets, std::uint8_t m_byte) {
-                BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
+                check(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -205,16 +206,16 @@ namespace nil {
                 boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
-                BOOST_ASSERT(y2_mod.is_square());
+                check(y2_mod.is_square());
                 g1_field_value_type y_mod = y2_mod.sqrt();
                 bool Y_bit = sign_gf_p(y_mod);
                 if (Y_bit == bool(m_byte & S_bit)) {
                     g1_value_type result(x_mod, y_mod, g1_field_value_type::one());
-                    BOOST_ASSERT(result.is_well_formed());
+                    check(result.is_well_formed());
                     return result;
                 }
                 g1_value_type result(x_mod, -y_mod, g1_field_value_type::one());
-                BOOST_ASSERT(result.is_well_formed());
+                check(result.is_well_formed());
                 return result;
             }
 
@@ -222,10 +223,10 @@ namespace nil {
                      typename = typename std::enable_if<
                          std::is_same<std::uint8_t, typename PointOctetsRange::value_type>::value>::type>
             static inline g1_value_type uncompressed_to_g1_point(PointOctetsRange &point_octets, std::uint8_t m_byte) {
-                BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
+                check(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -235,7 +236,7 @@ namespace nil {
                 boost::multiprecision::import_bits(
                     x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
-                BOOST_ASSERT(result.is_well_formed());
+                check(result.is_well_formed());
                 return result;
             }
 
@@ -243,10 +244,10 @@ namespace nil {
                      typename = typename std::enable_if<
                          std::is_same<std::uint8_t, typename PointOctetsRange::value_type>::value>::type>
             static inline g2_value_type compressed_to_g2_point(PointOctetsRange &point_octets, std::uint8_t m_byte) {
-                BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
+                check(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -257,16 +258,16 @@ namespace nil {
                     x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
-                BOOST_ASSERT(y2_mod.is_square());
+                check(y2_mod.is_square());
                 g2_field_value_type y_mod = y2_mod.sqrt();
                 bool Y_bit = sign_gf_p(y_mod);
                 if (Y_bit == bool(m_byte & S_bit)) {
                     g2_value_type result(x_mod, y_mod, g2_field_value_type::one());
-                    BOOST_ASSERT(result.is_well_formed());
+                    check(result.is_well_formed());
                     return result;
                 }
                 g2_value_type result(x_mod, -y_mod, g2_field_value_type::one());
-                BOOST_ASSERT(result.is_well_formed());
+                check(result.is_well_formed());
                 return result;
             }
 
@@ -274,10 +275,10 @@ namespace nil {
                      typename = typename std::enable_if<
                          std::is_same<std::uint8_t, typename PointOctetsRange::value_type>::value>::type>
             static inline g2_value_type uncompressed_to_g2_point(PointOctetsRange &point_octets, std::uint8_t m_byte) {
-                BOOST_ASSERT(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
+                check(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    BOOST_ASSERT(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -299,10 +300,17 @@ namespace nil {
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
-                BOOST_ASSERT(result.is_well_formed());
+                check(result.is_well_formed());
                 return result;
             }
 
+            // Octets come from outside, so this must hold in release builds as well.
+            static inline void check(bool valid) {
+                if (!valid) {
+                    throw std::invalid_argument("octets are not the encoding of a point");
+                }
+            }
+
             static inline bool sign_gf_p(const g1_field_value_type &v) {
                 static const typename g1_field_value_type::integral_type half_p =
                     (g1_field_value_type::modulus - integral_type(1)) / integral_type(2);
diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index fa2c49b..7a6514b 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -29,6 +29,7 @@
 
 #include <vector>
 #include <tuple>
+#include <stdexcept>
 
 #include <nil/crypto3/detail/pack.hpp>
 #include <nil/crypto3/detail/stream_endian.hpp>
@@ -64,7 +65,9 @@ namespace nil {
                                      typename std::iterator_traits<InputFieldValueIterator>::value_type>::value,
                     std::pair<bool, field_value_type>>::type
                     field_element_from_bytes(InputFieldValueIterator first, InputFieldValueIterator last) {
-                    BOOST_ASSERT(field_octets_num == std::distance(first, last));
+                    if (field_octets_num != std::distance(first, last)) {
+                        return std::make_pair(false, field_value_type());
+                    }
 
                     typename FieldType::integral_type result;
                     ::boost::multiprecision::import_bits(result, first, last, chunk_size, false);
@@ -80,7 +83,9 @@ namespace nil {
                     std::pair<bool, field_value_type>>::type
                     field_element_from_bytes(InputFieldValueIterator first, InputFieldValueIterator last) {
                     constexpr size_t data_dimension = field_type::arity / field_type::underlying_field_type::arity;
-                    BOOST_ASSERT(field_octets_num == std::distance(first, last));
+                    if (field_octets_num != std::distance(first, last)) {
+                        return std::make_pair(false, field_value_type());
+                    }
 
                     typename field_value_type::data_type data;
                     bool bres = true;
@@ -223,7 +228,9 @@ namespace nil {
                     std::is_same<chunk_type, typename std::iterator_traits<InputG1Iterator>::value_type>::value,
                     typename g1_type::value_type>::type
                     g1_point_from_bytes(InputG1Iterator first, InputG1Iterator last) {
-                    BOOST_ASSERT(g1_octets_num == std::distance(first, last));
+                    if (g1_octets_num != std::distance(first, last)) {
+                        throw std::invalid_argument("wrong number of octets for a point");
+                    }
 
                     typename curve_element_serializer<curve_type>::compressed_g1_octets input_array;
                     auto it1 = first;
@@ -240,7 +247,9 @@ namespace nil {
                     std::is_same<chunk_type, typename std::iterator_traits<InputG2Iterator>::value_type>::value,
                     typename g2_type::value_type>::type
                     g2_point_from_bytes(InputG2Iterator first, InputG2Iterator last) {
-                    BOOST_ASSERT(g2_octets_num == std::distance(first, last));
+                    if (g2_octets_num != std::distance(first, last)) {
+                        throw std::invalid_argument("wrong number of octets for a point");
+                    }
 
                     typename curve_element_serializer<curve_type>::compressed_g2_octets input_array;
                     auto it1 = first;
-- 
2.43.0


From 6050f6793835cd1047abf26f111ccebc160067cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:50 +0000
Subject: [PATCH 23/32] fix: decoding a G2 point from a vector wrote past its
 end, and an empty range was read

---
 include/nil/crypto3/algebra/curves/detail/marshalling.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 05f5e18..286011b 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -152,6 +152,7 @@ namespace nil {
             static inline g1_value_type octets_to_g1_point(const PointOctetsRange &octets) {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
+                check(octets.begin() != octets.end());
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 check(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
@@ -171,11 +172,11 @@ namespace nil {
             static inline g2_value_type octets_to_g2_point(const PointOctetsRange &octets) {
                 BOOST_CONCEPT_ASSERT((boost::SinglePassRangeConcept<PointOctetsRange>));
 
+                check(octets.begin() != octets.end());
                 const std::uint8_t m_byte = *octets.begin() & 0xE0;
                 check(m_byte != 0x20 && m_byte != 0x60 && m_byte != 0xE0);
 
-                PointOctetsRange point_octets;
-                std::copy(octets.begin(), octets.end(), point_octets.begin());
+                PointOctetsRange point_octets = octets;
                 *point_octets.begin() &= 0x1F;
 
                 if (m_byte & C_bit) {
-- 
2.43.0


From 8716bf3a7fb49ac76e42260d34633192018f6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:50 +0000
Subject: [PATCH 24/32] fix: octets marked as the point at infinity could carry
 other data

---
 .../crypto3/algebra/curves/detail/marshalling.hpp   | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index 286011b..d7d49e9 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -32,6 +32,7 @@
 
 #include <boost/concept/assert.hpp>
 
+#include <algorithm>
 #include <iterator>
 #include <stdexcept>
 
@@ -199,7 +200,8 @@ namespace nil {
                 check(std::distance(point_octets.begin(), point_octets.end()) == sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(std::all_of(point_octets.begin(), point_octets.end(),
+                                      [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -227,7 +229,8 @@ namespace nil {
                 check(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(std::all_of(point_octets.begin(), point_octets.end(),
+                                      [](std::uint8_t octet) { return octet == 0; }));
                     return g1_value_type();    // point at infinity
                 }
 
@@ -248,7 +251,8 @@ namespace nil {
                 check(std::distance(point_octets.begin(), point_octets.end()) == 2 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(std::all_of(point_octets.begin(), point_octets.end(),
+                                      [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
@@ -279,7 +283,8 @@ namespace nil {
                 check(std::distance(point_octets.begin(), point_octets.end()) == 4 * sizeof_field_element);
 
                 if (m_byte & I_bit) {
-                    check(point_octets.end() == std::find(point_octets.begin(), point_octets.end(), true));
+                    check(std::all_of(point_octets.begin(), point_octets.end(),
+                                      [](std::uint8_t octet) { return octet == 0; }));
                     return g2_value_type();    // point at infinity
                 }
 
-- 
2.43.0


From 81159e75156460e190bed6d24599f80667d5142f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:06 +0000
Subject: [PATCH 25/32] fix: octets of a coordinate or field element above the
 modulus were accepted as another value

---
 .../algebra/curves/detail/marshalling.hpp     | 44 +++++++++----------
 include/nil/crypto3/algebra/marshalling.hpp   |  7 ++-
 2 files changed, 27 insertions(+), 24 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
index d7d49e9..170b806 100644
--- a/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/marshalling.hpp
@@ -206,7 +206,7 @@ namespace nil {
                 }
 
                 integral_type x;
-                boost::multiprecision::import_bits(x, point_octets.rbegin(), point_octets.rend(), 8, false);
+                x = import_coordinate(point_octets.rbegin());
                 g1_field_value_type x_mod(x);
                 g1_field_value_type y2_mod = x_mod.pow(3u) + g1_field_value_type(4u);
                 check(y2_mod.is_square());
@@ -235,10 +235,8 @@ namespace nil {
                 }
 
                 integral_type x, y;
-                boost::multiprecision::import_bits(
-                    y, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
-                boost::multiprecision::import_bits(
-                    x, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                y = import_coordinate(point_octets.rbegin());
+                x = import_coordinate(point_octets.rbegin() + sizeof_field_element);
                 g1_value_type result(g1_field_value_type(x), g1_field_value_type(y), g1_field_value_type::one());
                 check(result.is_well_formed());
                 return result;
@@ -257,10 +255,8 @@ namespace nil {
                 }
 
                 integral_type x_0, x_1;
-                boost::multiprecision::import_bits(
-                    x_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
-                boost::multiprecision::import_bits(
-                    x_1, point_octets.rbegin() + sizeof_field_element, point_octets.rend(), 8, false);
+                x_0 = import_coordinate(point_octets.rbegin());
+                x_1 = import_coordinate(point_octets.rbegin() + sizeof_field_element);
                 g2_field_value_type x_mod(x_0, x_1);
                 g2_field_value_type y2_mod = x_mod.pow(3u) + g2_field_value_type(4u, 4u);
                 check(y2_mod.is_square());
@@ -289,20 +285,10 @@ namespace nil {
                 }
 
                 integral_type x_0, x_1, y_0, y_1;
-                boost::multiprecision::import_bits(
-                    y_0, point_octets.rbegin(), point_octets.rbegin() + sizeof_field_element, 8, false);
-                boost::multiprecision::import_bits(y_1,
-                                            point_octets.rbegin() + sizeof_field_element,
-                                            point_octets.rbegin() + 2 * sizeof_field_element,
-                                            8,
-                                            false);
-                boost::multiprecision::import_bits(x_0,
-                                            point_octets.rbegin() + 2 * sizeof_field_element,
-                                            point_octets.rbegin() + 3 * sizeof_field_element,
-                                            8,
-                                            false);
-                boost::multiprecision::import_bits(
-                    x_1, point_octets.rbegin() + 3 * sizeof_field_element, point_octets.rend(), 8, false);
+                y_0 = import_coordinate(point_octets.rbegin());
+                y_1 = import_coordinate(point_octets.rbegin() + sizeof_field_element);
+                x_0 = import_coordinate(point_octets.rbegin() + 2 * sizeof_field_element);
+                x_1 = import_coordinate(point_octets.rbegin() + 3 * sizeof_field_element);
                 g2_value_type result(g2_field_value_type(g1_field_value_type(x_0), g1_field_value_type(x_1)),
                                      g2_field_value_type(g1_field_value_type(y_0), g1_field_value_type(y_1)),
                                      g2_field_value_type::one());
@@ -317,6 +303,18 @@ namespace nil {
                 }
             }
 
+            // Reads one coordinate, least significant octet first.
+            template<typename OctetIterator>
+            static inline integral_type import_coordinate(OctetIterator first) {
+                OctetIterator last = first + sizeof_field_element;
+                // a coordinate is reduced, and nothing may be lost in importing it
+                check((*(last - 1) & 0xE0) == 0);
+                integral_type result;
+                boost::multiprecision::import_bits(result, first, last, 8, false);
+                check(result < g1_field_value_type::modulus);
+                return result;
+            }
+
             static inline bool sign_gf_p(const g1_field_value_type &v) {
                 static const typename g1_field_value_type::integral_type half_p =
                     (g1_field_value_type::modulus - integral_type(1)) / integral_type(2);
diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 7a6514b..2538fb3 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -72,7 +72,12 @@ namespace nil {
                     typename FieldType::integral_type result;
                     ::boost::multiprecision::import_bits(result, first, last, chunk_size, false);
 
-                    return std::make_pair(result < FieldType::modulus, field_value_type(result));
+                    // bits above those of the modulus would be lost in importing them
+                    const bool fits = field_type::modulus_bits % chunk_size == 0 ||
+                                      (*std::next(first, field_octets_num - 1) >>
+                                       (field_type::modulus_bits % chunk_size)) == 0;
+
+                    return std::make_pair(fits && result < FieldType::modulus, field_value_type(result));
                 }
 
                 template<typename InputFieldValueIterator>
-- 
2.43.0


From 0c659332c5300f01c24235493ee958a19a1e0d81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 26/32] fix: nthroot took time proportional to the degree

---
 include/nil/crypto3/algebra/scalar/math.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/scalar/math.hpp b/include/nil/crypto3/algebra/scalar/math.hpp
index cddb1ae..228e2f9 100644
--- a/include/nil/crypto3/algebra/scalar/math.hpp
+++ b/include/nil/crypto3/algebra/scalar/math.hpp
@@ -132,6 +132,14 @@ namespace nil {
                 // after its first step est is above the root and decreases until rounding stops it
                 double prev = 1;
                 double est = 1 + 1. / n * (x - 1);
+                if (x > 1 && n > 1) {
+                    // each step only takes about an nth part off, so start at a bound that is not far above the root:
+                    // x <= 2^k gives root <= 2^(k / n) <= 2^(k div n) * (1 + (k mod n) / n)
+                    int k = 0;
+                    for (double p = x; p > 1; p /= 2)
+                        ++k;
+                    est = exponentiate(2., k / n) * (1 + double(k % n) / n);
+                }
                 do {
                     prev = est;
                     double dxk = 1. / n * (x / exponentiate(prev, n - 1) - prev);
-- 
2.43.0


From 6d405d7625f9261a2de397fca1507da1a7524bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 27/32] fix: elimination left entries above pivots of matrices
 with large elements

---
 include/nil/crypto3/algebra/matrix/math.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 20f4a66..b762c5a 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -220,7 +220,8 @@ namespace nil {
                         for (std::size_t ip = 0; ip < M; ++ip) {
                             if (ip == i)
                                 continue;
-                            if (!negligible(m[ip][j])) {
+                            // rows above are scaled to 1 already, so the tolerance says nothing about them
+                            if (ip < i || !negligible(m[ip][j])) {
                                 auto s = m[ip][j];
                                 [&]() {    // wrap this in a lambda to get around a gcc bug
                                     for (std::size_t jp = 0; jp < N; ++jp)
-- 
2.43.0


From d561a07ad534a066dacb7b6d01db172a64fbbe0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:39 +0000
Subject: [PATCH 28/32] fix: inverse of a matrix with small elements was not
 its inverse

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index b762c5a..26edc29 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -313,7 +313,9 @@ namespace nil {
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
                 if (rank(m) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                // what is negligible depends on the elements of m alone, not on those of the identity
+                T tol = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tol), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From fa4e499c77cba652cd68f5bd770173255599528a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:36:05 +0000
Subject: [PATCH 29/32] fix: elements of the secp160r1 scalar field had an
 undefined type

---
 .../nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
index 8ca3869..2fcb92f 100644
--- a/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
+++ b/include/nil/crypto3/algebra/fields/secp/secp_r1/scalar_field.hpp
@@ -68,7 +68,7 @@ namespace nil {
                             boost::multiprecision::backends::modular_params_ct<modular_backend, modulus_params>>>
                         modular_type;
 
-                    typedef typename detail::element_fp<params<secp_r1_scalar_field<161>>> value_type;
+                    typedef typename detail::element_fp<params<secp_r1_scalar_field<160>>> value_type;
 
                     constexpr static const std::size_t value_bits = modulus_bits;
                     constexpr static const std::size_t arity = 1;
-- 
2.43.0


From 68acfad6763f20bc59312baf8dea79fd5b097a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:12 +0000
Subject: [PATCH 30/32] fix: quote the names of Y and Z when printing Jacobian
 points

---
 .../forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp   | 2 +-
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 9236025..ec8ac63 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -336,7 +336,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 18810b9..126d5d6 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -340,7 +340,7 @@ namespace nil {
 
                         friend std::ostream& operator<<(std::ostream& os, curve_element const& e)
                         {
-                            os << "{\"X\":" << e.X << ",Y\":" << e.Y << ",Z\":" << e.Z << "}";
+                            os << "{\"X\":" << e.X << ",\"Y\":" << e.Y << ",\"Z\":" << e.Z << "}";
                             return os;
                         }
                     };
-- 
2.43.0


From d7f5353d5efb7d176d4dc6fe81438aa63273fc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:12 +0000
Subject: [PATCH 31/32] fix: no comma after the last coefficient when printing
 pairing precomputations

---
 .../forms/short_weierstrass/jacobian_with_a4_0/types.hpp      | 2 +-
 .../detail/forms/short_weierstrass/projective/types.hpp       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
index fdf3d17..2846f14 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/jacobian_with_a4_0/types.hpp
@@ -99,7 +99,7 @@ namespace nil {
                                 << "\"coeffs\":[" << std::endl;
                             for(auto d = p.coeffs.begin(); d != p.coeffs.end(); ++d) {
                                 os << "[" << d->ell_0 << "," << d->ell_VW << "," << d->ell_VV << "]";
-                                if (d != p.coeffs.end()) {
+                                if (d + 1 != p.coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
diff --git a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
index d798a13..8bb13ae 100644
--- a/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
+++ b/include/nil/crypto3/algebra/pairing/detail/forms/short_weierstrass/projective/types.hpp
@@ -150,14 +150,14 @@ namespace nil {
                                 << "\"dbl_coeffs\":[" << std::endl;
                             for(auto d = p.dbl_coeffs.begin(); d != p.dbl_coeffs.end(); ++d) {
                                 os << "[" << d->c_H << "," << d->c_4C << "," << d->c_J << "," << d->c_L << "]";
-                                if (d != p.dbl_coeffs.end()) {
+                                if (d + 1 != p.dbl_coeffs.end()) {
                                     os << "," << std::endl;
                                 }
                             }
                             os << "]," << std::endl << "\"add_coeffs\":[" << std::endl;
                             for(auto a = p.add_coeffs.begin(); a != p.add_coeffs.end(); ++a) {
                                 os << "[" << a->c_L1 << "," << a->c_RZ << "]";
-                                if (a != p.add_coeffs.end()) {
+                                if (a + 1 != p.add_coeffs.end()) {
                                     os << "," << std::endl;;
                                 }
                             }
-- 
2.43.0


From 89ae1abadf6a1d92a1230809404b2d2b7e1a538f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:12 +0000
Subject: [PATCH 32/32] fix: hash of quadratic extension elements named a type
 that does not exist

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 62290ea..60cd11f 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -350,7 +350,7 @@ namespace nil {
 template<typename FieldParams>
 struct std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>>
 {
-    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::modular_type> hasher;
+    std::hash<typename nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>::underlying_type> hasher;
     size_t operator()(const nil::crypto3::algebra::fields::detail::element_fp2<FieldParams>& elem) const
     {
         std::size_t result = hasher(elem.data[0]);
-- 
2.43.0

