From d3a0f851c3ae8864676e370cc2b53875d3c91825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 01/27] fix: swapcol iterates over the rows of a non-square
 matrix

---
 include/nil/crypto3/algebra/matrix/utility.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/utility.hpp b/include/nil/crypto3/algebra/matrix/utility.hpp
index fa461df..b0f42b1 100644
--- a/include/nil/crypto3/algebra/matrix/utility.hpp
+++ b/include/nil/crypto3/algebra/matrix/utility.hpp
@@ -165,7 +165,7 @@ namespace nil {
              */
             template<std::size_t M, std::size_t N, typename T>
             constexpr matrix<T, M, N> swapcol(matrix<T, M, N> m, std::size_t a, std::size_t b) {
-                for (int i = 0; i < N; i++) {
+                for (int i = 0; i < M; i++) {
                     T tmp = m[i][a];
                     m[i][a] = m[i][b];
                     m[i][b] = tmp;
-- 
2.43.0


From 49566ca8c4ab7a0a315a3a1d422022b008d4b250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 02/27] fix: determinant multiplies the pivots instead of
 dividing by them

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 619dc04..f1bd796 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -214,7 +214,7 @@ namespace nil {
                         auto s = m[i][j];
                         for (std::size_t jp = 0; jp < N; ++jp)
                             m[i][jp] /= s;
-                        det /= s;
+                        det *= s;
 
                         // Eliminate other values in the column
                         for (std::size_t ip = 0; ip < M; ++ip) {
-- 
2.43.0


From 33d7b04b01a2965aff6bd54b77bba27c5a139957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 03/27] fix: rref with an explicit tolerance passes the
 tolerance to the elimination

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index f1bd796..5c97b54 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -275,7 +275,7 @@ namespace nil {
              */
             template<typename T, std::size_t M, std::size_t N>
             constexpr matrix<T, M, N> rref(const matrix<T, M, N> &m, T tolerance) {
-                return std::get<0>(gauss_jordan_impl(m), tolerance);
+                return std::get<0>(gauss_jordan_impl(m, tolerance));
             }
 
             /** @brief Compute the rank
-- 
2.43.0


From bf9ee8cc007c71fae68a6b1f325e606180b418ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 04/27] fix: elimination never divides by a zero pivot when the
 tolerance is zero

---
 include/nil/crypto3/algebra/matrix/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index 5c97b54..ec81690 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -189,7 +189,7 @@ namespace nil {
                 // CRYPTO3_DETAIL_ASSERT_REAL(T)
 
                 // Define function for determining if an element is negligible
-                auto negligible = [&tolerance](const T &v) { return abs(v) < tolerance; };
+                auto negligible = [&tolerance](const T &v) { return abs(v) <= tolerance; };
 
                 T det = 1;
                 std::size_t rank = 0;
-- 
2.43.0


From 53a08e3fc8faeb316145f7b1809be0daecc87ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:24 +0000
Subject: [PATCH 05/27] fix: inverse of a matrix with small entries uses the
 tolerance of that matrix

---
 include/nil/crypto3/algebra/matrix/math.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/matrix/math.hpp b/include/nil/crypto3/algebra/matrix/math.hpp
index ec81690..7ed3220 100644
--- a/include/nil/crypto3/algebra/matrix/math.hpp
+++ b/include/nil/crypto3/algebra/matrix/math.hpp
@@ -312,7 +312,9 @@ namespace nil {
             constexpr matrix<T, M, M> inverse(const matrix<T, M, M> &m) {
                 if (rank(m) < M)
                     throw "matrix is not invertible";
-                return submat<M, M>(rref(horzcat(m, get_identity<T, M>())), 0, M);
+                // the tolerance is that of m: the appended identity must not make small pivots of m negligible
+                T tol = T(M) * std::numeric_limits<T>::epsilon() * mars(m);
+                return submat<M, M>(rref(horzcat(m, get_identity<T, M>()), tol), 0, M);
             }
 
             /** @brief computes the trace
-- 
2.43.0


From 70029826e543ed30a37db9c5239f80741fea572a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:20 +0000
Subject: [PATCH 06/27] fix: Jacobian mixed addition doubles when both operands
 are the same point

---
 .../detail/forms/short_weierstrass/jacobian/element_g1.hpp   | 5 +++++
 .../short_weierstrass/jacobian_with_a4_0/element_g1.hpp      | 5 +++++
 .../jacobian_with_a4_minus_3/element_g1.hpp                  | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
index e5a2be3..ed7d1ab 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian/element_g1.hpp
@@ -321,6 +321,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
index 3dc7d59..47d30ea 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_0/element_g1.hpp
@@ -325,6 +325,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index b9fa259..68197c0 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -329,6 +329,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From 45961e04f199d024befc486e014c331f07659fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:55 +0000
Subject: [PATCH 07/27] fix: affine doubling of a point of order two is the
 point at infinity

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index 6b18de7..daa68d1 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -237,7 +237,14 @@ namespace nil {
                          */
                         constexpr void double_inplace() {
 
-                            if (!this->is_zero()) {
+                            if (this->is_zero()) {
+                                return;
+                            }
+
+                            if (Y.is_zero()) {
+                                // a point of order two
+                                *this = zero();
+                            } else {
                                 field_value_type Xsquared3pa = 3u * X.squared() + params_type::a;
                                 field_value_type Y2squared = Y.doubled().squared();
                                 field_value_type Y2i = Y.doubled().inversed();
-- 
2.43.0


From 22d00c3483dd5504c613a3d65e9c30ca80fe4eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:55 +0000
Subject: [PATCH 08/27] fix: negation keeps the affine point at infinity when
 it is encoded as (0, 1)

---
 .../detail/forms/short_weierstrass/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
index daa68d1..a57d417 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/element_g1_affine.hpp
@@ -218,6 +218,9 @@ namespace nil {
 
 
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return zero();
+                            }
                             return curve_element(this->X, -this->Y);
                         }
 
-- 
2.43.0


From de3ec56b1315c08a560c61b515b810a1fe8a2477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:08 +0000
Subject: [PATCH 09/27] fix: to_affine of jacobian_with_a4_minus_3 divides Y by
 the cube of Z

---
 .../short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
index 68197c0..e238536 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/jacobian_with_a4_minus_3/element_g1.hpp
@@ -216,7 +216,7 @@ namespace nil {
 
                             auto Zi = Z.inversed();
 
-                            return result_type(X * Zi * Zi, Y * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
+                            return result_type(X * Zi * Zi, Y * Zi * Zi * Zi);    //  x=X/Z^2, y=Y/Z^3
                         }
 
                         /** @brief
-- 
2.43.0


From 215e22b1ca6aac09daf3dcec0d434a570f41b06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:18 +0000
Subject: [PATCH 10/27] fix: is_well_formed of projective_with_a4_minus_3 uses
 the coefficient a = -3

---
 .../projective_with_a4_minus_3/element_g1.hpp                 | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
index 53b95a5..05351b0 100755
--- a/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/short_weierstrass/projective_with_a4_minus_3/element_g1.hpp
@@ -165,13 +165,13 @@ namespace nil {
                                   z y^2 = x^3  + a z^2 x + b z^3
                                   z (y^2 - b z^2) = x ( x^2 + a z^2)
 
-                                  z (y^2 - b z^2) = x ( x^2 - z^2)
+                                  z (y^2 - b z^2) = x ( x^2 - 3 z^2)
                                 */
                                 const field_value_type X2 = this->X.squared();
                                 const field_value_type Y2 = this->Y.squared();
                                 const field_value_type Z2 = this->Z.squared();
 
-                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2));
+                                return (this->Z * (Y2 - params_type::b * Z2) == this->X * (X2 - Z2.doubled() - Z2));
                             }
                         }
 
-- 
2.43.0


From 34c79e2b5147236fb42f07d9ab4b74211beebf8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 11/27] fix: conversion of the neutral element to inverted
 coordinates does not invert zero

---
 .../curves/detail/forms/twisted_edwards/element_g1_affine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 2bbbbde..d68876e 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -194,6 +194,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::inverted>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(
                                 X.inversed(), Y.inversed(),
                                 result_type::field_type::value_type::one());    // X = x^(-1), Y = y^(-1), Z = 1
-- 
2.43.0


From a40df625dba628f6e5047ecf1989cf3105285500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:35 +0000
Subject: [PATCH 12/27] fix: conversion of the neutral element to extended
 coordinates yields the neutral element

---
 .../curves/detail/forms/twisted_edwards/element_g1_affine.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index d68876e..32ff340 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -215,6 +215,10 @@ namespace nil {
                             using result_type =
                                 curve_element<params_type, form, typename curves::coordinates::extended_with_a_minus_1>;
 
+                            if (is_zero()) {
+                                return result_type::zero();
+                            }
+
                             return result_type(X, Y, X * Y,
                                                result_type::field_type::value_type::one());    // x=X/Z, y=Y/Z, x*y=T/Z
                         }
-- 
2.43.0


From 54cd7b50513e9edb92e30a1e60db1f1270187017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:36 +0000
Subject: [PATCH 13/27] fix: negation of the Montgomery point at infinity is
 the point at infinity

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp       | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 8cd3d7b..7336444 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -251,6 +251,9 @@ namespace nil {
                          * @return negative element from group G1
                          */
                         constexpr curve_element operator-() const {
+                            if (this->is_zero()) {
+                                return zero();
+                            }
                             return curve_element(this->X, -(this->Y));
                         }
 
-- 
2.43.0


From c4a0024a88e2735a3a899e412ed4f95604cf0e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:47 +0000
Subject: [PATCH 14/27] fix: the maps between Montgomery and twisted Edwards
 points handle the point of order two

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp     | 5 +++++
 .../detail/forms/twisted_edwards/element_g1_affine.hpp       | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 7336444..7b16913 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -400,6 +400,11 @@ namespace nil {
                                 s_inv = (B_ * static_cast<field_value_type>(params_type::B).inversed()).sqrt();
                             }
 
+                            if (this->X.is_zero()) {
+                                // the point of order two
+                                return result_type(field_value_type::zero(), -field_value_type::one());
+                            }
+
                             return result_type(s_inv * this->X * this->Y.inversed(),
                                                (this->X - field_value_type::one()) *
                                                    (this->X + field_value_type::one()).inversed());
diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
index 32ff340..ac4720a 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/element_g1_affine.hpp
@@ -390,6 +390,11 @@ namespace nil {
                                 s_inv = (B_ * static_cast<field_value_type>(result_params::B).inversed()).sqrt();
                             }
 
+                            if (this->X.is_zero()) {
+                                // the point of order two
+                                return result_type(field_value_type::zero(), field_value_type::zero());
+                            }
+
                             return result_type((field_value_type::one() + this->Y) *
                                                    (field_value_type::one() - this->Y).inversed(),
                                                s_inv * ((field_value_type::one() + this->Y) *
-- 
2.43.0


From 0e900edc91199d88d6295456eee83332d5babf4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:20 +0000
Subject: [PATCH 15/27] fix: mixed addition to the neutral element of inverted
 Edwards coordinates is the other operand

---
 .../algebra/curves/detail/forms/edwards/inverted/element_g1.hpp  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
index c40d572..435213f 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/edwards/inverted/element_g1.hpp
@@ -276,6 +276,7 @@ namespace nil {
                         constexpr void mixed_add(const curve_element &other) {
                             // handle special cases having to do with O
                             if (this->is_zero()) {
+                                *this = other;
                                 return;
                             }
                             if (other.is_zero()) {
-- 
2.43.0


From 75e12ae322133f9bac27d4a5e1e91d331cf95d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:20 +0000
Subject: [PATCH 16/27] fix: mixed addition in extended coordinates doubles
 when both operands are the same point

---
 .../twisted_edwards/extended_with_a_minus_1/element_g1.hpp   | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
index 935dcb9..10b1080 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/twisted_edwards/extended_with_a_minus_1/element_g1.hpp
@@ -302,6 +302,11 @@ namespace nil {
                                 return;
                             }
 
+                            if (*this == other) {
+                                this->double_inplace();
+                                return;
+                            }
+
                             mixed_addition_processor::process(*this, other);
                         }
 
-- 
2.43.0


From de4d0bd1feb05658488e62347a3833b5ab7e48ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:04 +0000
Subject: [PATCH 17/27] fix: sixth Frobenius coefficient of the MNT6 sextic
 extension repeated the fifth

---
 .../algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
index 16a8769..dbca152 100644
--- a/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/extension_params/mnt6/fp6_2over3.hpp
@@ -74,7 +74,7 @@ namespace nil {
                             0x3B48E50A1662E26F0E834E15FAF68204A9845655F46B277A6D05B75068AD3F6801655344BEC_cppui_modular298,
                             0x3BCF7BCD473A266249DA7B0548ECAEEC9635CF44194FB494C07925D6AD3BB4334A400000000_cppui_modular298,
                             0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular292,
-                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB414_cppui_modular293};
+                            0x8696C330D743F33B572CEF4DF62CE7ECB178EE24E48D1A53736E86448E74CB48DAACBB415_cppui_modular293};
 
                         constexpr static const non_residue_type non_residue = non_residue_type(0x05u);
                     };
-- 
2.43.0


From 183f552aa4f6c7571612030e61d76d3a9060c035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:28 +0000
Subject: [PATCH 18/27] fix: sqrt of zero in the quadratic and cubic extension
 fields did not terminate

---
 include/nil/crypto3/algebra/fields/detail/element/fp2.hpp | 3 +++
 include/nil/crypto3/algebra/fields/detail/element/fp3.hpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
index 0afe2c1..a3352c8 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp2.hpp
@@ -197,6 +197,9 @@ namespace nil {
 
                         constexpr element_fp2 sqrt() const {
 
+                            if (this->is_zero())
+                                return zero();
+
                             element_fp2 one = this->one();
 
                             std::size_t v = policy_type::s;
diff --git a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
index aa90cb5..a3e84ea 100644
--- a/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
+++ b/include/nil/crypto3/algebra/fields/detail/element/fp3.hpp
@@ -162,6 +162,9 @@ namespace nil {
                         }
 
                         constexpr element_fp3 sqrt() const {
+                            if (this->is_zero())
+                                return zero();
+
                             std::size_t v = policy_type::s;
                             element_fp3 z(policy_type::nqr_to_t[0], policy_type::nqr_to_t[1], policy_type::nqr_to_t[2]);
                             element_fp3 w = this->pow(policy_type::t_minus_1_over_2);
-- 
2.43.0


From 170d1d321b6ee51d2f63d9b55886fe5adff396d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:09:36 +0000
Subject: [PATCH 19/27] fix: pairing with the identity of the second group was
 not the identity

---
 include/nil/crypto3/algebra/algorithms/pair.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/nil/crypto3/algebra/algorithms/pair.hpp b/include/nil/crypto3/algebra/algorithms/pair.hpp
index 2e11ff8..ab15309 100644
--- a/include/nil/crypto3/algebra/algorithms/pair.hpp
+++ b/include/nil/crypto3/algebra/algorithms/pair.hpp
@@ -81,6 +81,10 @@ namespace nil {
             typename PairingCurveType::gt_type::value_type
                 pair(const typename PairingCurveType::template g1_type<>::value_type &v1,
                      const typename PairingCurveType::template g2_type<>::value_type &v2) {
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
@@ -93,6 +97,10 @@ namespace nil {
                 pair_reduced(const typename PairingCurveType::template g1_type<>::value_type &v1,
                              const typename PairingCurveType::template g2_type<>::value_type &v2) {
 
+                if (v1.is_zero() || v2.is_zero()) {
+                    return PairingCurveType::gt_type::value_type::one();
+                }
+
                 typename PairingPolicy::g1_precomputed_type prec_P = PairingPolicy::precompute_g1::process(v1);
                 typename PairingPolicy::g2_precomputed_type prec_Q = PairingPolicy::precompute_g2::process(v2);
 
-- 
2.43.0


From a84fd53d4eb08c111aa57504a1e46fd94ee21fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:53 +0000
Subject: [PATCH 20/27] fix: curve25519 Montgomery parameters are named A and
 B, as the Montgomery group law reads them

---
 .../crypto3/algebra/curves/detail/curve25519/params.hpp   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
index 6f4e5f9..aed9671 100644
--- a/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/curve25519/params.hpp
@@ -45,10 +45,10 @@ namespace nil {
                         using base_field_type = typename curve25519_types::base_field_type;
                         using scalar_field_type = typename curve25519_types::scalar_field_type;
 
-                        constexpr static typename curve25519_types::integral_type a =
+                        constexpr static typename curve25519_types::integral_type A =
                             typename curve25519_types::integral_type(
                                 0x76d06);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
-                        constexpr static typename curve25519_types::integral_type b =
+                        constexpr static typename curve25519_types::integral_type B =
                             typename curve25519_types::integral_type(
                                 0x01);    ///< coefficient of Montgomery curve $b*y^2=x^3+a*x^2+x$
                     };
@@ -128,8 +128,8 @@ namespace nil {
                     };
 #ifdef __ZKLLVM__
 #else
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::a;
-                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::b;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::A;
+                    constexpr typename curve25519_types::integral_type curve25519_params<forms::montgomery>::B;
 
                     constexpr std::array<typename curve25519_g1_params<forms::montgomery>::field_type::value_type, 2>
                         curve25519_g1_params<forms::montgomery>::zero_fill;
-- 
2.43.0


From a9f12d2df7e627ea21ae345dc103290290159394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:47:53 +0000
Subject: [PATCH 21/27] fix: Montgomery doubling multiplied an integer
 parameter by a field element, which does not compile

---
 .../curves/detail/forms/montgomery/element_g1_affine.hpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
index 7b16913..f95dfc1 100644
--- a/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/forms/montgomery/element_g1_affine.hpp
@@ -276,7 +276,7 @@ namespace nil {
                          * @return doubled element from group G1
                          */
                         constexpr void double_inplace() {
-                            if ( 2 * params_type::B * this->Y == field_value_type::zero() ) {
+                            if (field_value_type(params_type::B).doubled() * this->Y == field_value_type::zero()) {
                                 this->is_inf_point = true;
                             }
                             if (!this->is_zero()) {
-- 
2.43.0


From 0ac5d6f993fd41aeff7ede2d9ec244427580540e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:30 +0000
Subject: [PATCH 22/27] fix: multiexp_method_BDLO12 converted the logarithm of
 zero to an integer for an empty input

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index 03bba5a..e1b1504 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -110,6 +110,10 @@ namespace nil {
                         std::size_t length = std::distance(bases, bases_end);
                         assert(length == std::distance(exponents, exponents_end));
 
+                        if (length == 0) {
+                            return base_value_type::zero();
+                        }
+
                         // empirically, this seems to be a decent estimate of the optimal value of c
                         std::size_t log2_length = std::log2(length);
                         std::size_t c = log2_length - (log2_length / 3 - 2);
-- 
2.43.0


From 50ead55805a05fe735ea39dc82fdbb09ede82982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:54:30 +0000
Subject: [PATCH 23/27] fix: multiexp_method_bos_coster took the most
 significant bit of zero when every scalar is zero

---
 include/nil/crypto3/algebra/multiexp/policies.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/nil/crypto3/algebra/multiexp/policies.hpp b/include/nil/crypto3/algebra/multiexp/policies.hpp
index e1b1504..acfa76b 100644
--- a/include/nil/crypto3/algebra/multiexp/policies.hpp
+++ b/include/nil/crypto3/algebra/multiexp/policies.hpp
@@ -273,6 +273,10 @@ namespace nil {
                             detail::ordered_exponent<non_fixed_precision_number_type> &b =
                                 (opt_q[1] < opt_q[2] ? opt_q[2] : opt_q[1]);
 
+                            if (a.r.is_zero()) {
+                                break;
+                            }
+
                             const std::size_t abits = boost::multiprecision::msb(a.r) + 1;
 
                             if (b.r.is_zero()) {
-- 
2.43.0


From af276797cf415aec43988f39ca101a657d378658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:04 +0000
Subject: [PATCH 24/27] fix: is_well_formed of the second Edwards group used
 the coefficients of the curve instead of its twist

---
 .../nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
index 27b8893..16b5638 100644
--- a/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/edwards/element_g2.hpp
@@ -133,7 +133,7 @@ namespace nil {
                                 const auto Y2 = this->Y.squared();
                                 const auto Z2 = this->Z.squared();
 
-                                return (policy_type::a * Z2*Y2 + Z2*X2 == X2*Y2 + policy_type::d * Z2*Z2);
+                                return (mul_by_a(Z2 * Y2) + Z2 * X2 == X2 * Y2 + mul_by_d(Z2 * Z2));
                             }
                         }
 
-- 
2.43.0


From eaf8d55843b4e9ef173adcf7d790436a970ab549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:46:55 +0000
Subject: [PATCH 25/27] fix: field_element_to_bytes left stale octets behind
 elements with leading zero octets

---
 include/nil/crypto3/algebra/marshalling.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/nil/crypto3/algebra/marshalling.hpp b/include/nil/crypto3/algebra/marshalling.hpp
index 2687482..d3c49fe 100644
--- a/include/nil/crypto3/algebra/marshalling.hpp
+++ b/include/nil/crypto3/algebra/marshalling.hpp
@@ -27,6 +27,7 @@
 #ifndef CRYPTO3_ALGEBRA_MARSHALLING_HPP
 #define CRYPTO3_ALGEBRA_MARSHALLING_HPP
 
+#include <algorithm>
 #include <vector>
 #include <tuple>
 
@@ -105,6 +106,8 @@ namespace nil {
                                            OutputIterator out_last) {
                     BOOST_ASSERT(field_octets_num == std::distance(out_first, out_last));
 
+                    // export_bits writes the significant octets only
+                    std::fill(out_first, out_last, chunk_type(0));
                     ::boost::multiprecision::export_bits(
                         element.data.template convert_to<typename FieldType::integral_type>(), out_first, chunk_size,
                         false);
-- 
2.43.0


From 7c5d9ff0e65d114b22eaf507583c0c2ef19ff637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:31:00 +0000
Subject: [PATCH 26/27] fix: iso_map sent the points of its kernel to the
 generator, not to the neutral element

---
 include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
index 559116c..fee4cda 100644
--- a/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
+++ b/include/nil/crypto3/algebra/curves/detail/h2c/h2c_iso_map.hpp
@@ -139,7 +139,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
@@ -226,7 +226,7 @@ namespace nil {
                             y_den += xi_powers[k_y_den.size()];
 
                             if (x_den.is_zero() || y_den.is_zero()) {
-                                return group_value_type::one();
+                                return group_value_type::zero();
                             }
 
                             for (std::size_t i = 0; i < k_x_num.size(); i++) {
-- 
2.43.0


From 3ad87bd2fa9e372192d10e2954b0a00c254e21e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:53:54 +0000
Subject: [PATCH 27/27] fix: random_element drew from one value too many, so
 zero was twice as likely as any other element

---
 include/nil/crypto3/algebra/random_element.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/nil/crypto3/algebra/random_element.hpp b/include/nil/crypto3/algebra/random_element.hpp
index a22b67c..6ca1657 100644
--- a/include/nil/crypto3/algebra/random_element.hpp
+++ b/include/nil/crypto3/algebra/random_element.hpp
@@ -60,7 +60,7 @@ namespace nil {
                 using field_type = FieldType;
                 using distribution_type = DistributionType;
 
-                distribution_type d(0, field_type::modulus);
+                distribution_type d(0, field_type::modulus - 1);
 
                 // boost::random_device rd;
                 // rd.seed(time(0));
-- 
2.43.0

