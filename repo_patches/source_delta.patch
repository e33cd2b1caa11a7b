From c10f45180d84c95679eae953a53625efcf1d32bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 01/47] fix: reduce negative integers canonically in the FFInt
 constructor

---
 source/include/firefly/FFInt.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index da4241c..3f2fdfd 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -134,8 +134,10 @@ namespace firefly {
       } else {
         n = static_cast<uint64_t>(n_)  % p;
       }
-    } else if (n_ < 0) {
-      n = p - static_cast<uint64_t>(-n_) % p;
+    } else {
+      // negate as unsigned integer since -n_ is not representable for the smallest integer
+      const uint64_t abs = (0 - static_cast<uint64_t>(n_)) % p;
+      n = (abs == 0 ? 0 : p - abs);
     }
   }
 
-- 
2.43.0


From aff8f3d2082aacd9a38f8a081780856854ab28e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 02/47] fix: reduce replacement values equal to the prime in
 FFInt

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 2c17b12..0d4046b 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -55,7 +55,7 @@ namespace firefly {
   FFInt::FFInt(const std::string& str, const std::vector<std::pair<std::string, uint64_t>>& replacements) {
     for (const auto & var : replacements) {
       if (var.first == str) {
-        if (var.second > p) {
+        if (var.second >= p) {
           n = var.second % p;
         } else {
           n = var.second;
-- 
2.43.0


From b67599ca74617a4fba16216e10e96368f55ad02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 03/47] fix: let FFInt increment and decrement modify the
 object

---
 source/FFInt.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 0d4046b..c72f756 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -196,27 +196,25 @@ namespace firefly {
   }
 
   FFInt FFInt::operator++() {
-    FFInt tmp(n);
-    tmp += 1;
-    return tmp;
+    *this += 1;
+    return *this;
   }
 
   FFInt FFInt::operator++(int) {
     FFInt tmp(n);
-    tmp += 1;
+    *this += 1;
     return tmp;
   }
 
   FFInt FFInt::operator--(int) {
     FFInt tmp(n);
-    tmp -= 1;
+    *this -= 1;
     return tmp;
   }
 
   FFInt FFInt::operator--() {
-    FFInt tmp(n);
-    tmp -= 1;
-    return tmp;
+    *this -= 1;
+    return *this;
   }
 
   bool FFInt::operator!() const {
-- 
2.43.0


From 51e9f986f24269215d1c1d11b020380f28b03bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:53 +0000
Subject: [PATCH 04/47] fix: handle the smallest integer as exponent in
 FFInt::pow

---
 source/include/firefly/FFInt.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index 3f2fdfd..eec18f5 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -164,7 +164,7 @@ namespace firefly {
         exp = power;
         base = n;
       } else {
-        exp = static_cast<uint64_t>(-power);
+        exp = 0 - static_cast<uint64_t>(power);
         base = mod_inv(n, p);
       }
 
-- 
2.43.0


From 4f85394746a23b528b0d403b0457744855dfae2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 05/47] fix: do not convert unsigned exponents to signed ones
 in FFInt::pow with FLINT

---
 source/include/firefly/FFInt.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/FFInt.hpp b/source/include/firefly/FFInt.hpp
index eec18f5..6224dbc 100644
--- a/source/include/firefly/FFInt.hpp
+++ b/source/include/firefly/FFInt.hpp
@@ -144,7 +144,12 @@ namespace firefly {
 #ifdef FLINT
   template<class T, typename>
   FFInt FFInt::pow(const T& power) const {
-    return FFInt(n_powmod2_preinv(n, power, p, p_inv));
+    // zero has no inverse, use the same convention as for divisions
+    if (power < 0) {
+      return FFInt(n_powmod2_ui_preinv(n == 0 ? 0 : n_invmod(n, p), 0 - static_cast<uint64_t>(power), p, p_inv));
+    }
+
+    return FFInt(n_powmod2_ui_preinv(n, static_cast<uint64_t>(power), p, p_inv));
   }
 #endif
 
-- 
2.43.0


From ce769711429e528dcda57656133c1bdb8e6a6409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 06/47] fix: reduce digit chunks before adding them in
 FFInt::parse_longint with FLINT

---
 source/FFInt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index c72f756..90e4176 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -271,7 +271,7 @@ namespace firefly {
 
       if (result) result = n_mulmod2_preinv(result, 1000000000000000000uLL, FFInt::p, FFInt::p_inv);
 
-      result = n_addmod(result, intchunk, FFInt::p);
+      result = n_addmod(result, intchunk % FFInt::p, FFInt::p);
 #else
 
       if (result) result = (FFInt(result) * FFInt(1000000000000000000uLL)).n;
-- 
2.43.0


From 76d8de5ce305c420ba20e1e641f3a8c6e328039f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:58 +0000
Subject: [PATCH 07/47] fix: power of zero with exponent p - 1 in FFInt::pow

---
 source/FFInt.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/FFInt.cpp b/source/FFInt.cpp
index 90e4176..c024b94 100644
--- a/source/FFInt.cpp
+++ b/source/FFInt.cpp
@@ -162,8 +162,8 @@ namespace firefly {
       uint64_t exp;
       uint64_t base;
 
-      if (ffint.n < (p >> 1)) {
-        // treat as positive exponent
+      if (ffint.n < (p >> 1) || n == 0) {
+        // treat as positive exponent, which is always required for zero since it has no inverse
         exp = ffint.n;
         base = n;
       } else {
-- 
2.43.0


From d21d5ad2d48a40797472f396cd4017c1a523c746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 08/47] fix: operand order of FFInt - FFIntVec and FFInt /
 FFIntVec

---
 source/FFIntVec.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/FFIntVec.cpp b/source/FFIntVec.cpp
index c0b757c..00d6c6b 100644
--- a/source/FFIntVec.cpp
+++ b/source/FFIntVec.cpp
@@ -259,10 +259,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator-(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] -= b;
+      result.vec[i] -= a.vec[i];
     }
 
     return result;
@@ -281,10 +281,10 @@ namespace firefly {
 
   template<int N>
   FFIntVec<N> operator/(const FFInt& b, const FFIntVec<N>& a) {
-    FFIntVec<N> result(a);
+    FFIntVec<N> result(b);
 
     for (int i = 0; i != N; ++i) {
-      result.vec[i] /= b;
+      result.vec[i] /= a.vec[i];
     }
 
     return result;
-- 
2.43.0


From 6919426100ed7c14fd8f91054d3e1e8c814de270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:33 +0000
Subject: [PATCH 09/47] fix: allow access to the last element in FFIntVec::at

---
 source/include/firefly/FFIntVec.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/FFIntVec.hpp b/source/include/firefly/FFIntVec.hpp
index 8364713..05629d4 100644
--- a/source/include/firefly/FFIntVec.hpp
+++ b/source/include/firefly/FFIntVec.hpp
@@ -100,7 +100,7 @@ namespace firefly {
     typename std::array<FFInt, N>::const_iterator end() const noexcept;
     size_t size() const noexcept;
     inline const FFInt& at(int i) {
-      if (i < N - 1)
+      if (i >= 0 && i < N)
         return vec[i];
       else
         throw std::out_of_range("Out of range.");
-- 
2.43.0


From 28a8500aee41b2bda69d0ae131b8a3fcac0d7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:09 +0000
Subject: [PATCH 10/47] fix: do not modify the left operand in
 RationalNumber::operator*

---
 source/RationalNumber.cpp                 | 17 ++++-------------
 source/include/firefly/RationalNumber.hpp |  2 +-
 2 files changed, 5 insertions(+), 14 deletions(-)

diff --git a/source/RationalNumber.cpp b/source/RationalNumber.cpp
index 2fdc5de..4b7780c 100644
--- a/source/RationalNumber.cpp
+++ b/source/RationalNumber.cpp
@@ -33,19 +33,10 @@ namespace firefly {
 
   RationalNumber::RationalNumber() {}
 
-  RationalNumber RationalNumber::operator*(const RationalNumber& rn) {
-    mpz_class num(numerator * rn.numerator);
-    mpz_class den(denominator * rn.denominator);
-
-    if (den < 0) {
-      num = -num;
-      den = -den;
-    }
-
-    mpz_class gcd_(gcd(num, den));
-    numerator = num / gcd_;
-    denominator = den / gcd_;
-    return *this;
+  RationalNumber RationalNumber::operator*(const RationalNumber& rn) const {
+    RationalNumber res(*this);
+    res *= rn;
+    return res;
   }
 
   RationalNumber& RationalNumber::operator-=(const RationalNumber& rn) {
diff --git a/source/include/firefly/RationalNumber.hpp b/source/include/firefly/RationalNumber.hpp
index e7dd283..aa781d5 100644
--- a/source/include/firefly/RationalNumber.hpp
+++ b/source/include/firefly/RationalNumber.hpp
@@ -38,7 +38,7 @@ namespace firefly {
      */
     RationalNumber(const mpz_class& numerator_, const mpz_class& denominator_);
     RationalNumber();
-    RationalNumber operator*(const RationalNumber&);
+    RationalNumber operator*(const RationalNumber&) const;
     RationalNumber& operator+=(const RationalNumber& rn);
     RationalNumber& operator-=(const RationalNumber& rn);
     RationalNumber& operator*=(const RationalNumber& rn);
-- 
2.43.0


From 33ab95bfce9735c3762647ea99957f9f0e52a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:57 +0000
Subject: [PATCH 11/47] fix: report singular systems and choose pivots for each
 entry of a bunch in the dense solvers

---
 source/include/firefly/DenseSolver.hpp | 177 ++++++++++++++++---------
 1 file changed, 116 insertions(+), 61 deletions(-)

diff --git a/source/include/firefly/DenseSolver.hpp b/source/include/firefly/DenseSolver.hpp
index c7504e5..6e87b87 100644
--- a/source/include/firefly/DenseSolver.hpp
+++ b/source/include/firefly/DenseSolver.hpp
@@ -18,17 +18,110 @@
 
 #pragma once
 
-//#include "FFInt.hpp" // for examples
 #include "firefly/config.hpp"
+#include "firefly/FFIntVec.hpp"
 #include "firefly/Logger.hpp"
 
 #include <cstdint>
+#include <cstdlib>
+#include <utility>
 #include <vector>
 
 namespace firefly {
   template<typename FFIntTemp>
   using mat_ff = std::vector<std::vector<FFIntTemp>>;
 
+  /**
+   *  Searches for the largest element in column i at or below row i and moves its row to row i
+   *  @param a the matrix
+   *  @param i the current column
+   *  @param n the number of rows
+   */
+  template<typename FFIntTemp>
+  void move_pivot(mat_ff<FFIntTemp>& a, uint32_t i, uint32_t n) {
+    uint32_t max_row = i;
+
+    for (uint32_t k = i + 1; k < n; ++k) {
+      if (a[k][i] > a[max_row][i])
+        max_row = k;
+    }
+
+    if (max_row != i)
+      std::swap(a[i], a[max_row]);
+  }
+  /**
+   *  Searches for the largest element in column i at or below row i and moves its row to row i,
+   *  individually for each entry of the FFIntVec
+   *  @param a the matrix
+   *  @param i the current column
+   *  @param n the number of rows
+   */
+  template<int N>
+  void move_pivot(mat_ff<FFIntVec<N>>& a, uint32_t i, uint32_t n) {
+    for (int l = 0; l != N; ++l) {
+      uint32_t max_row = i;
+
+      for (uint32_t k = i + 1; k < n; ++k) {
+        if (a[k][i].vec[l] > a[max_row][i].vec[l])
+          max_row = k;
+      }
+
+      if (max_row != i) {
+        for (size_t j = 0; j != a[i].size(); ++j)
+          std::swap(a[i][j].vec[l], a[max_row][j].vec[l]);
+      }
+    }
+  }
+  /**
+   *  Checks whether column i can be eliminated with the given row, i.e. whether
+   *  its element is only zero if all other elements at or below row i vanish as well
+   *  @param a the matrix
+   *  @param row the row
+   *  @param i the current column
+   *  @param n the number of rows
+   */
+  template<typename FFIntTemp>
+  bool is_pivot(const mat_ff<FFIntTemp>& a, uint32_t row, uint32_t i, uint32_t n) {
+    if (!a[row][i]) {
+      for (uint32_t k = i; k < n; ++k) {
+        if (!(!a[k][i]))
+          return false;
+      }
+    }
+
+    return true;
+  }
+  /**
+   *  Checks whether column i can be eliminated with the given row in all entries of the FFIntVec
+   *  @param a the matrix
+   *  @param row the row
+   *  @param i the current column
+   *  @param n the number of rows
+   */
+  template<int N>
+  bool is_pivot(const mat_ff<FFIntVec<N>>& a, uint32_t row, uint32_t i, uint32_t n) {
+    for (int l = 0; l != N; ++l) {
+      if (!a[row][i].vec[l]) {
+        for (uint32_t k = i; k < n; ++k) {
+          if (!(!a[k][i].vec[l]))
+            return false;
+        }
+      }
+    }
+
+    return true;
+  }
+  /**
+   *  Aborts if a pivot of a system of equations vanishes
+   *  @param pivot the pivot
+   */
+  template<typename FFIntTemp>
+  void check_pivot(const FFIntTemp& pivot) {
+    if (!pivot) {
+      ERROR_MSG("Singular system of equations!");
+      std::exit(EXIT_FAILURE);
+    }
+  }
   /**
    *  Calculates the inverse of a matrix using Gauss-Jordan
    *  @param a input matrix build of FFInts
@@ -48,23 +141,9 @@ namespace firefly {
     }
 
     for (int i = 0; i < n; ++i) {
-      // search for maximum in this column
-      FFIntTemp max_el = a[i][i];
-      int max_row = i;
-
-      for (int k = i + 1; k < n; ++k) {
-        if (a[k][i] > max_el) {
-          max_el = a[k][i];
-          max_row = k;
-        }
-      }
-
-      // swap maximum row with current row (column by column)
-      for (int k = i; k < 2 * n; ++k) {
-        FFIntTemp tmp = a[max_row][k];
-        a[max_row][k] = a[i][k];
-        a[i][k] = tmp;
-      }
+      // move the row with the maximum in this column to the current row
+      move_pivot(a, i, n_);
+      check_pivot(a[i][i]);
 
       // make all rows below this one 0 in current column
       for (int k = i + 1; k < n; ++k) {
@@ -112,25 +191,11 @@ namespace firefly {
   std::vector<FFIntTemp> solve_gauss_system(mat_ff<FFIntTemp>& a, uint32_t n, bool force = false) {
     // Transform the matrix in upper triangular form
     for (uint32_t i = 0; i < n; ++i) {
-      // search for maximum in this column
-      FFIntTemp max_el = a[i][i];
-      uint32_t max_row = i;
-
-      for (uint32_t k = i + 1; k < n; ++k) {
-        FFIntTemp tmp = a[k][i];
+      // move the row with the maximum in this column to the current row
+      move_pivot(a, i, n);
 
-        if (tmp > max_el) {
-          max_el = tmp;
-          max_row = k;
-        }
-      }
-
-      // swap maximum row with current row (column by column)
-      for (uint32_t k = i; k < n + 1; ++k) {
-        FFIntTemp tmp = a[max_row][k];
-        a[max_row][k] = a[i][k];
-        a[i][k] = tmp;
-      }
+      if (!force)
+        check_pivot(a[i][i]);
 
       // Make all rows below this one zero in the current column
       for (uint32_t k = i + 1; k < n; ++k) {
@@ -145,26 +210,13 @@ namespace firefly {
 
     std::vector<FFIntTemp> results(n);
 
-    if (force || a[n - 1][n - 1] != FFIntTemp(0)) { // TODO new == operator?
-      // Solve equation A * x = b for an upper triangular matrix
-      for (int i = n - 1; i >= 0; i--) {
-        results[i] = a[i][n] / a[i][i];
+    // Solve equation A * x = b for an upper triangular matrix
+    for (int i = n - 1; i >= 0; i--) {
+      results[i] = a[i][n] / a[i][i];
 
-        for (int k = i - 1; k >= 0; k--) {
-          a[k][n] -= a[k][i] * results[i];
-        }
+      for (int k = i - 1; k >= 0; k--) {
+        a[k][n] -= a[k][i] * results[i];
       }
-    } else {
-      /*for (int i = 0; i < n; i++) {
-        for (int j = 0; j < n + 1; j++) {
-          std::cout << a[i][j] << " ";
-        }
-
-        std::cout << "\n";
-      }*/
-
-      ERROR_MSG("Singular system of equations!");
-      std::exit(EXIT_FAILURE);
     }
 
     return results;
@@ -192,6 +244,7 @@ namespace firefly {
       for (int k = i + 1; k < static_cast<int>(n); ++k)
         x[i] -= a[i][k] * x[k];
 
+      check_pivot(a[i][i]);
       x[i] = x[i] / a[i][i];
     }
 
@@ -224,6 +277,7 @@ namespace firefly {
         for (int k = i + 1; k < static_cast<int>(n); ++k)
           ia[i][j] -= a[i][k] * ia[k][j];
 
+        check_pivot(a[i][i]);
         ia[i][j] = ia[i][j] / a[i][i];
       }
     }
@@ -264,15 +318,21 @@ namespace firefly {
       p[i] = i; //Unit permutation matrix, P[N] initialized with N
 
     for (i = 0; i < n; ++i) {
-      max_el = FFIntTemp(0);
       max_row = i;
+      bool found = false;
 
       for (k = i; k < n; ++k)
-        if (a[k][i] > max_el) {
+        if ((!found || a[k][i] > max_el) && is_pivot(a, k, i, n)) {
           max_el = a[k][i];
           max_row = k;
+          found = true;
         }
 
+      if (!found) {
+        ERROR_MSG("No common pivot for all entries while calculating LU decomposition.");
+        std::exit(EXIT_FAILURE);
+      }
+
       if (max_row != i) {
         //pivoting p
         j = p[i];
@@ -289,11 +349,6 @@ namespace firefly {
       }
 
       for (j = i + 1; j < n; ++j) {
-        if (a[i][i] == FFIntTemp(0)) {// TODO new == operator?
-          ERROR_MSG("Division by zero while calculating LU decomposition.");
-          std::runtime_error("Division by zero while calculating LU decomposition.");
-        }
-
         a[j][i] /= a[i][i];
 
         for (k = i + 1; k < n; ++k)
-- 
2.43.0


From dbd6adf745e1984fb4a67a15925b1ef69931b037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 12/47] fix: add up equal monomials in the product of two
 PolynomialFF

---
 source/PolynomialFF.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 6cc3410..68e50ef 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -325,7 +325,14 @@ namespace firefly {
                          coef_b.first.begin(), new_deg.begin(),
                          std::plus<uint32_t>());
 
-          new_monomials.emplace(std::make_pair(new_deg, new_coef));
+          auto it = new_monomials.emplace(std::make_pair(new_deg, new_coef));
+
+          if (!it.second) {
+            it.first -> second += new_coef;
+
+            if (it.first -> second == 0)
+              new_monomials.erase(it.first);
+          }
         }
       }
     }
-- 
2.43.0


From e48f0fa0d02d859db4b42954c85c30d5e54c3a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:27 +0000
Subject: [PATCH 13/47] fix: keep the constant term in PolynomialFF::add_shift

---
 source/PolynomialFF.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 68e50ef..76e91de 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -410,12 +410,14 @@ namespace firefly {
         }
       }
 
-      if (!pow_poly.coefs.empty()) {
-        if (res.coefs.empty())
-          res.coefs = pow_poly.coefs;
-        else
-          res += pow_poly;
-      }
+      // The constant term is not affected by the shift
+      if (pow_poly.coefs.empty())
+        pow_poly.coefs.emplace(mon);
+
+      if (res.coefs.empty())
+        res.coefs = pow_poly.coefs;
+      else
+        res += pow_poly;
     }
 
     return res;
-- 
2.43.0


From df2e54f562ae1c8f56983d382e43bc2099bc519e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:28 +0000
Subject: [PATCH 14/47] fix: adjust the number of variables in
 PolynomialFF::homogenize

---
 source/PolynomialFF.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/PolynomialFF.cpp b/source/PolynomialFF.cpp
index 76e91de..eea92ee 100644
--- a/source/PolynomialFF.cpp
+++ b/source/PolynomialFF.cpp
@@ -264,6 +264,13 @@ namespace firefly {
       coefs[new_powers] = tmp_coef[old_powers];
     }
 
+    ++n;
+    vars.clear();
+    min_degree.clear();
+    max_degree.clear();
+    eval_horner = false;
+    generate_new_horner = true;
+
     return *this;
   }
 
-- 
2.43.0


From 26bb23bb1077604c53a29f419a4c9b65dbc72f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 15/47] fix: discard buffered data of gzstreams when they are
 opened or closed

---
 source/gzstream.cpp                 | 22 +++++++++++++++-------
 source/include/firefly/gzstream.hpp |  2 +-
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/source/gzstream.cpp b/source/gzstream.cpp
index 2a37617..339542c 100644
--- a/source/gzstream.cpp
+++ b/source/gzstream.cpp
@@ -46,11 +46,7 @@ namespace firefly {
 
   gzstreambuf::gzstreambuf() : opened(0) {
     buffer = new char [bufferSize];
-    setp(buffer, buffer + (bufferSize - 1));
-    setg(buffer + 4,      // beginning of putback area
-         buffer + 4,     // read position
-         buffer + 4);    // end position
-    // ASSERT: both input & output capabilities will not be used together
+    // the put and get areas are set up in open()
   }
 
 
@@ -83,15 +79,27 @@ namespace firefly {
       return (gzstreambuf*)0;
 
     opened = 1;
+
+    // ASSERT: both input & output capabilities will not be used together
+    if (mode & std::ios::in)
+      setg(buffer + 4,     // beginning of putback area
+           buffer + 4,     // read position
+           buffer + 4);    // end position
+    else
+      setp(buffer, buffer + (bufferSize - 1));
+
     return this;
   }
 
   gzstreambuf* gzstreambuf::close() {
     if (is_open()) {
-      sync();
+      const int synced = sync();
       opened = 0;
+      // nothing can be read or written until the next call of open()
+      setg(nullptr, nullptr, nullptr);
+      setp(nullptr, nullptr);
 
-      if (gzclose(file) == Z_OK)
+      if (gzclose(file) == Z_OK && synced == 0)
         return this;
     }
 
diff --git a/source/include/firefly/gzstream.hpp b/source/include/firefly/gzstream.hpp
index e9d0530..289d90f 100644
--- a/source/include/firefly/gzstream.hpp
+++ b/source/include/firefly/gzstream.hpp
@@ -63,7 +63,7 @@ namespace firefly {
     int is_open() { return opened; }
     gzstreambuf* open(const char* name, int open_mode);
     gzstreambuf* close();
-    ~gzstreambuf() {delete [] buffer; close(); }
+    ~gzstreambuf() {close(); delete [] buffer; }
 
     virtual int     overflow(int c = EOF);
     virtual int     underflow();
-- 
2.43.0


From ae3b7285e28a7971f012940d543429a977dca7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:11 +0000
Subject: [PATCH 16/47] fix: do not truncate files which are opened for
 appending in gzstreams

---
 source/gzstream.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/gzstream.cpp b/source/gzstream.cpp
index 339542c..8354b3c 100644
--- a/source/gzstream.cpp
+++ b/source/gzstream.cpp
@@ -66,10 +66,10 @@ namespace firefly {
 
     if (mode & std::ios::in)
       *fmodeptr++ = 'r';
-    else if (mode & std::ios::out)
-      *fmodeptr++ = 'w';
     else if (mode & std::ios::app)
       *fmodeptr++ = 'a';
+    else if (mode & std::ios::out)
+      *fmodeptr++ = 'w';
 
     *fmodeptr++ = 'b';
     *fmodeptr = '\0';
@@ -149,7 +149,7 @@ namespace firefly {
   }
 
   int gzstreambuf::overflow(int c) {  // used for output buffer only
-    if (!(mode & std::ios::out) || ! opened)
+    if (!(mode & (std::ios::out | std::ios::app)) || ! opened)
       return EOF;
 
     if (c != EOF) {
-- 
2.43.0


From 4fddd9c7066469d5f30020a322a0014c9b8baaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:45 +0000
Subject: [PATCH 17/47] fix: report failures to open a file in the constructors
 of gzstreams

---
 source/include/firefly/gzstream.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/gzstream.hpp b/source/include/firefly/gzstream.hpp
index 289d90f..d33cda3 100644
--- a/source/include/firefly/gzstream.hpp
+++ b/source/include/firefly/gzstream.hpp
@@ -92,7 +92,7 @@ namespace firefly {
   public:
     igzstream() : std::istream(&buf) {}
     igzstream(const char* name, int open_mode = std::ios::in)
-      : gzstreambase(name, open_mode), std::istream(&buf) {}
+      : std::istream(&buf) { open(name, open_mode); }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open(const char* name, int open_mode = std::ios::in) {
       gzstreambase::open(name, open_mode);
@@ -103,7 +103,7 @@ namespace firefly {
   public:
     ogzstream() : std::ostream(&buf) {}
     ogzstream(const char* name, int mode = std::ios::out)
-      : gzstreambase(name, mode), std::ostream(&buf) {}
+      : std::ostream(&buf) { open(name, mode); }
     gzstreambuf* rdbuf() { return gzstreambase::rdbuf(); }
     void open(const char* name, int open_mode = std::ios::out) {
       gzstreambase::open(name, open_mode);
-- 
2.43.0


From 97843e228acd306c4c51fc12f7f15560aa9c3e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 18/47] fix: evaluate negative exponents in
 ShuntingYardParser::evaluate

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 4000fac..65a7785 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -246,7 +246,7 @@ namespace firefly {
       std::stack<FFIntTemp> nums;
 
       for (const auto& token : tokens) {
-        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!") {
+        if (token == "+" || token == "-" || token == "*" || token == "/" || token == "^" || token == "!" || token == "~" || token == ";") {
           // Pop two numbers
           FFIntTemp a = nums.top();
           nums.pop();
-- 
2.43.0


From b95000ed2a828ec06bec3d94db74614ba8bf7de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 19/47] fix: size of the stack in
 ShuntingYardParser::evaluate_pre_2

---
 source/include/firefly/ShuntingYardParser.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 65a7785..5cc9d24 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -490,7 +490,7 @@ namespace firefly {
     }
 
     for (const auto& tokens : precomp_tokens) {
-      FFIntTemp* stack = new FFIntTemp[tokens.size()];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
+      FFIntTemp* stack = new FFIntTemp[tokens.size() + 1];//TODO evaluate maximum stack size. using the heap will make the evaluation slower!
       size_t stack_depth = 0;
 
       for (const auto& token : tokens) {
-- 
2.43.0


From 04f120125ff155a4acb8fc597816ca8acc71907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:15 +0000
Subject: [PATCH 20/47] fix: keep all tokens of a rational divisor when
 precomputing the tokens

---
 source/ShuntingYardParser.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index e568e5a..06277b8 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -637,7 +637,10 @@ namespace firefly {
 	      partial_rpn[i].emplace_back(std::make_pair(j, v_2));
             } else if (precomp_tokens[i][j - 1].first == tokens::NUMBER && (precomp_tokens[i][j - 2].first == tokens::VARIABLE || precomp_tokens[i][j - 2].first == tokens::NEG_VARIABLE)) {
               FFInt inverse = 1 / precomp_tokens[i][j - 1].second;
-	      partial_rpn[i].back().second = {{"1", partial_rpn[i].back().second[0] , "/"}};
+              // The number might be composed of several tokens
+              std::vector<std::string>& rpn = partial_rpn[i].back().second;
+              rpn.insert(rpn.begin(), "1");
+              rpn.emplace_back("/");
 
               precomp_tokens[i][j - 1].second = inverse;
               precomp_tokens[i][j] = {tokens::MULT, 0};
-- 
2.43.0


From 753dbeb99a774d72d55035f8e178b2f301522469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:40 +0000
Subject: [PATCH 21/47] fix: keep positions and values of the functions for all
 sequences of operations of ShuntingYardParser

---
 source/ShuntingYardParser.cpp                 | 151 ++++++++++--------
 source/include/firefly/ShuntingYardParser.hpp |  23 ++-
 2 files changed, 99 insertions(+), 75 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 06277b8..76241f3 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -70,6 +70,12 @@ namespace firefly {
       ++prime_counter;
     }
 
+    // The current prime does not have to be part of the built-in primes
+    const uint64_t current_prime = FFInt::p;
+
+    if (prime_counter == primes().size())
+      prime_counter = 0;
+
     if (check_is_equal) {
       size_t s = vars_map.size();
       check_vars_1.reserve(s);
@@ -89,6 +95,8 @@ namespace firefly {
       for (size_t i = 0; i != s; ++i) {
         check_vars_2.emplace_back(base.get_rand_64());
       }
+
+      FFInt::set_new_prime(current_prime);
     }
 
     auto time0 = std::chrono::high_resolution_clock::now();
@@ -177,6 +185,7 @@ namespace firefly {
       }
     }
 
+    FFInt::set_new_prime(current_prime);
     functions.shrink_to_fit();
     precompute_tokens();
 
@@ -326,17 +335,26 @@ namespace firefly {
 
     functions.emplace_back(parse(fun));
     functions.shrink_to_fit();
+
+    if (check_is_equal)
+      evaluation_positions.emplace_back(get_size() - 1);
   }
 
   size_t ShuntingYardParser::add_otf_precompute(const std::vector<std::string>& rpn_fun) {
-    if (FFInt::p != prime_internal) {
-      prime_internal = FFInt::p;
-    }
+    // Functions which are already known have to keep their position and have to be up to date
+    precompute_tokens();
+
+    if (keep_rpn)
+      functions.emplace_back(rpn_fun);
 
     precomp_tokens.emplace_back(std::vector<std::pair<uint8_t, FFInt>>());
     partial_rpn.emplace_back(std::vector<std::pair<size_t, std::vector<std::string>>>());
     size_t new_size = precomp_tokens.size() - 1;
     precompute(rpn_fun, new_size);
+
+    if (check_is_equal)
+      evaluation_positions.emplace_back(new_size);
+
     return new_size;
   }
 
@@ -351,12 +369,14 @@ namespace firefly {
 
     if (!check_is_equal) {
       functions.emplace_back(tokens);
-      return functions.size() - 1;
+      return get_size() - 1;
     } else {
+      const uint64_t current_prime = FFInt::p;
       FFInt::set_new_prime(primes()[prime_counter != 299 ? prime_counter + 1 : prime_counter - 1]);
       FFInt v1 = evaluate(tokens, check_vars_1);
       FFInt::set_new_prime(primes()[prime_counter]);
       FFInt v2 = evaluate(tokens, check_vars_2);
+      FFInt::set_new_prime(current_prime);
 
       if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
         if (!no_duplicates) {
@@ -367,7 +387,7 @@ namespace firefly {
       } else {
         functions.emplace_back(tokens);
 
-        uint64_t s = static_cast<uint64_t>(functions.size() - 1);
+        uint64_t s = static_cast<uint64_t>(get_size() - 1);
         check_map.emplace(std::make_pair(std::make_pair(v1.n, v2.n), s));
         evaluation_positions.emplace_back(s);
 
@@ -529,6 +549,8 @@ namespace firefly {
 
   void ShuntingYardParser::move_rpn(std::vector<std::vector<std::string>>& rpn_) {
     rpn_ = std::move(functions);
+    functions.clear();
+    keep_rpn = false;
   }
 
   std::vector<std::string> ShuntingYardParser::get_rp_function(size_t i) const {
@@ -540,54 +562,43 @@ namespace firefly {
   }
 
   bool ShuntingYardParser::empty() const {
-    return functions.empty();
+    return get_size() == 0;
   }
 
   size_t ShuntingYardParser::get_size() const {
-    return functions.size();
+    // Without the RPN, only functions which have not been precomputed yet are stored as RPN
+    return keep_rpn ? functions.size() : precomp_tokens.size() + functions.size();
   }
 
   void ShuntingYardParser::precompute_tokens(bool force) {
-    if (FFInt::p != prime_internal) {
+    if (FFInt::p != prime_internal || force) {
       prime_internal = FFInt::p;
-    } else if (!force) {
-      precomputed = true;
-      return;
-    }
-
-    // TODO really clear here?
-    check_vars_1.clear();
-    check_vars_2.clear();
-    check_map.clear();
-
-    if (!precomputed || force) {
-      uint64_t size = functions.size();
-      precomp_tokens = std::vector<std::vector<std::pair<uint8_t, FFInt>>>(size);
-      partial_rpn = std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>>(size);
-
-      for (uint64_t i = 0; i != size; ++i) {
-        precompute(functions[i], i);
 
-        // clear rpn
-        if (!keep_rpn) {
-          std::vector<std::string> tmp(std::move(functions[i]));
+      // Update the numbers of the functions which are already precomputed
+      for (size_t i = 0; i != precomp_tokens.size(); ++i) {
+        for (const auto& value_pair : partial_rpn[i]) {
+          precomp_tokens[i][value_pair.first] = {tokens::NUMBER, evaluate(value_pair.second, std::vector<FFInt> (1, 0))};
         }
       }
+    }
 
-      precomputed = true;
+    // Precompute the functions which have been added since the last call
+    for (size_t i = keep_rpn ? precomp_tokens.size() : 0; i < functions.size(); ++i) {
+      precomp_tokens.emplace_back(std::vector<std::pair<uint8_t, FFInt>>());
+      partial_rpn.emplace_back(std::vector<std::pair<size_t, std::vector<std::string>>>());
+      precompute(functions[i], precomp_tokens.size() - 1);
 
       // clear rpn
       if (!keep_rpn) {
-        std::vector<std::vector<std::string>> tmp_vec(std::move(functions));
-        //functions.swap(tmp_vec);
-      }
-    } else {
-      for (size_t i = 0; i != precomp_tokens.size(); ++ i) {
-	for (const auto & value_pair : partial_rpn[i]) {
-	  precomp_tokens[i][value_pair.first] = {tokens::NUMBER, evaluate(value_pair.second, std::vector<FFInt> (1, 0))};
-	}
+        std::vector<std::string> tmp(std::move(functions[i]));
       }
     }
+
+    // clear rpn
+    if (!keep_rpn) {
+      std::vector<std::vector<std::string>> tmp_vec(std::move(functions));
+      functions.clear();
+    }
   }
 
   void ShuntingYardParser::precompute(const std::vector<std::string>& tokens, size_t i) {
@@ -721,58 +732,62 @@ namespace firefly {
   }
 
   std::unordered_map<size_t, size_t> ShuntingYardParser::trim(const std::unordered_set<size_t>& elements_to_keep) {
+    // All functions should be precomputed such that their positions coincide in all containers
+    precompute_tokens();
+
     std::vector<std::vector<std::string>> new_functions {};
     std::vector<std::vector<std::pair<uint8_t, FFInt>>> new_precomp_tokens {};
+    std::vector<std::vector<std::pair<size_t, std::vector<std::string>>>> new_partial_rpn {};
     std::vector<uint64_t> new_evaluation_positions {};
     std::unordered_map<size_t, size_t> new_positions {};
+    std::unordered_map<size_t, size_t> copied_functions {};
+    const size_t size = check_is_equal ? evaluation_positions.size() : precomp_tokens.size();
 
-    // TODO check_map and check_vars?
-    INFO_MSG("Trimming parser: " + std::to_string(functions.size() - elements_to_keep.size())
-             + " out of " + std::to_string(functions.size()) + " functions will be removed");
+    INFO_MSG("Trimming parser: " + std::to_string(size - elements_to_keep.size())
+             + " out of " + std::to_string(size) + " functions will be removed");
 
-    if (!check_is_equal) {
-      for (size_t i = 0; i != functions.size(); ++i) {
-        if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          new_functions.emplace_back(std::move(functions[i]));
+    for (size_t i = 0; i != size; ++i) {
+      if (elements_to_keep.find(i) != elements_to_keep.end()) {
+        const size_t pos = check_is_equal ? static_cast<size_t>(evaluation_positions[i]) : i;
+        auto it = copied_functions.find(pos);
 
-          if (!precomp_tokens.empty()) {
-            new_precomp_tokens.emplace_back(std::move(precomp_tokens[i]));
-          }
+        if (it == copied_functions.end()) {
+          if (keep_rpn)
+            new_functions.emplace_back(std::move(functions[pos]));
 
-          new_positions.emplace(std::make_pair(i, new_functions.size() - 1));
+          new_precomp_tokens.emplace_back(std::move(precomp_tokens[pos]));
+          new_partial_rpn.emplace_back(std::move(partial_rpn[pos]));
+          it = copied_functions.emplace(std::make_pair(pos, new_precomp_tokens.size() - 1)).first;
         }
-      }
-    } else {
-      std::unordered_map<size_t, size_t> copied_functions {};
-
-      for (size_t i = 0; i != evaluation_positions.size(); ++i) {
-        if (elements_to_keep.find(i) != elements_to_keep.end()) {
-          const auto& it = copied_functions.find(static_cast<size_t>(evaluation_positions[i]));
-
-          if (it != copied_functions.end()) {
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
-          } else {
-            new_functions.emplace_back(std::move(functions[evaluation_positions[i]]));
 
-            if (!precomp_tokens.empty()) {
-              new_precomp_tokens.emplace_back(std::move(precomp_tokens[evaluation_positions[i]]));
-            }
+        if (check_is_equal) {
+          new_evaluation_positions.emplace_back(static_cast<uint64_t>(it->second));
+          new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
+        } else
+          new_positions.emplace(std::make_pair(i, it->second));
+      }
+    }
 
-            copied_functions.emplace(std::make_pair(static_cast<size_t>(evaluation_positions[i]), new_functions.size() - 1));
-            new_evaluation_positions.emplace_back(static_cast<uint64_t>(new_functions.size() - 1));
-          }
+    // Functions which are found to be equal later on have to refer to the new positions
+    for (auto it = check_map.begin(); it != check_map.end();) {
+      const auto& copied = copied_functions.find(static_cast<size_t>(it->second));
 
-          new_positions.emplace(std::make_pair(i, new_evaluation_positions.size() - 1));
-        }
+      if (copied == copied_functions.end())
+        it = check_map.erase(it);
+      else {
+        it->second = static_cast<uint64_t>(copied->second);
+        ++it;
       }
     }
 
     new_functions.shrink_to_fit();
     new_precomp_tokens.shrink_to_fit();
+    new_partial_rpn.shrink_to_fit();
     new_evaluation_positions.shrink_to_fit();
 
     functions = std::move(new_functions);
     precomp_tokens = std::move(new_precomp_tokens);
+    partial_rpn = std::move(new_partial_rpn);
     evaluation_positions = std::move(new_evaluation_positions);
 
     return new_positions;
diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index 5cc9d24..b387989 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -150,7 +150,6 @@ namespace firefly {
     bool check_is_equal = false; /**< Indicates that functions are checked whether they are equal. Modifies the evaluation procedure */
     bool keep_rpn = false; /**< Indicates whether to keep the rpn*/
     size_t prime_counter = 0; /**< Indicates which prime is currently used. This prevents the 'precompute_tokens' method from being called multiple times over the same prime field */
-    bool precomputed = false; /**< A bool that indicates whether the tokes have already been precomputed */
     std::vector<FFInt> check_vars_1 {}; // TODO clear or keep?
     std::vector<FFInt> check_vars_2 {}; // TODO clear or keep?
     std::unordered_map<std::pair<uint64_t, uint64_t>, uint64_t, UintPairHasher> check_map {}; // TODO clear or keep?
@@ -239,8 +238,18 @@ namespace firefly {
 
   template<typename FFIntTemp>
   std::vector<FFIntTemp> ShuntingYardParser::evaluate(const std::vector<FFIntTemp>& values) const {
+    // Functions whose RPN is not available any more are evaluated with their precomputed tokens in the current field
+    if (!keep_rpn && !precomp_tokens.empty()) {
+      if (FFInt::p == prime_internal && functions.empty())
+        return evaluate_pre(values);
+
+      ShuntingYardParser tmp(*this);
+      tmp.precompute_tokens();
+      return tmp.evaluate_pre(values);
+    }
+
     std::vector<FFIntTemp> res;
-    res.reserve(functions.size());
+    res.reserve(get_size());
 
     for (const auto& tokens : functions) {
       std::stack<FFIntTemp> nums;
@@ -348,7 +357,7 @@ namespace firefly {
     else {
       uint64_t s = evaluation_positions.size();
 
-      if (functions.size() != s) {
+      if (res.size() != s) {
         std::vector<FFIntTemp> full_res;
         full_res.reserve(s);
 
@@ -365,7 +374,7 @@ namespace firefly {
   template<typename FFIntTemp>
   std::vector<FFIntTemp> ShuntingYardParser::evaluate_pre(const std::vector<FFIntTemp>& values) const noexcept {
     std::vector<FFIntTemp> res;
-    res.reserve(functions.size());
+    res.reserve(get_size());
     std::vector<FFIntTemp> neg_values;
     neg_values.reserve(values.size());
 
@@ -464,7 +473,7 @@ namespace firefly {
     else {
       uint64_t s = evaluation_positions.size();
 
-      if (functions.size() != s) {
+      if (res.size() != s) {
         std::vector<FFIntTemp> full_res;
         full_res.reserve(s);
 
@@ -481,7 +490,7 @@ namespace firefly {
   template<typename FFIntTemp>
   std::vector<FFIntTemp> ShuntingYardParser::evaluate_pre_2(const std::vector<FFIntTemp>& values) const noexcept {
     std::vector<FFIntTemp> res;
-    res.reserve(functions.size());
+    res.reserve(get_size());
     std::vector<FFIntTemp> neg_values;
     neg_values.reserve(values.size());
 
@@ -576,7 +585,7 @@ namespace firefly {
     else {
       uint64_t s = evaluation_positions.size();
 
-      if (functions.size() != s) {
+      if (res.size() != s) {
         std::vector<FFIntTemp> full_res;
         full_res.reserve(s);
 
-- 
2.43.0


From cc05ed746e6f6bddfbe5ed4e1fb863f31212ad50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 22/47] fix: reject malformed expressions and remove all white
 space in ShuntingYardParser::validate

---
 source/ShuntingYardParser.cpp                 | 82 +++++++++++++++++--
 source/include/firefly/ShuntingYardParser.hpp | 12 +++
 2 files changed, 89 insertions(+), 5 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index 76241f3..b71000b 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -20,6 +20,7 @@
 #include "firefly/BaseReconst.hpp"
 #include "firefly/ReconstHelper.hpp"
 
+#include <algorithm>
 #include <chrono>
 #include <fstream>
 
@@ -121,11 +122,7 @@ namespace firefly {
       uint64_t line_c = 1;
 
       while (std::getline(istream, line, ';')) {
-        line.erase(std::remove(line.begin(), line.end(), ' '), line.end());
-        line.erase(std::remove(line.begin(), line.end(), '\t'), line.end());
-        line.erase(std::remove(line.begin(), line.end(), '\n'), line.end());
-
-        if (line.length() > 0) {
+        if (!std::all_of(line.begin(), line.end(), is_space)) {
           validate(line, line_c);
           functions.emplace_back(parse(line));
           ++parsed_fun_c;
@@ -794,6 +791,9 @@ namespace firefly {
   }
 
   void ShuntingYardParser::validate(std::string& r, uint64_t exp_n) {
+    check_syntax(r, exp_n);
+    r.erase(std::remove_if(r.begin(), r.end(), is_space), r.end());
+
     size_t size = r.size() + 1;
     //std::string r = line;
     std::stack<int> st;
@@ -854,6 +854,78 @@ namespace firefly {
     //return result;
   }
 
+  void ShuntingYardParser::check_syntax(const std::string& r, uint64_t exp_n) const {
+    const char operand = 'a';
+    char prev = '('; // The last symbol, where each operand is represented by the same character
+    char prev_prev = '(';
+
+    auto throw_err = [exp_n](const std::string & msg) {
+      ERROR_MSG(msg + " in expression " + std::to_string(exp_n) + ".");
+      std::exit(EXIT_FAILURE);
+    };
+
+    for (size_t i = 0; i != r.size();) {
+      const char c = r[i];
+
+      if (is_space(c)) {
+        ++i;
+        continue;
+      }
+
+      const bool is_sign = c == '+' || c == '-';
+      const bool after_operand = prev == operand || prev == ')';
+
+      if (is_operator(c)) {
+        // Besides global signs, only '+-' and '-+' are allowed
+        if (is_operator(prev) && (!is_sign || (prev != '+' && prev != '-') || prev == c || is_operator(prev_prev)))
+          throw_err("Operator '" + std::string(1, c) + "' follows operator '" + std::string(1, prev) + "'");
+        else if (prev == '(' && !is_sign)
+          throw_err("Missing operand for operator '" + std::string(1, c) + "'");
+
+        ++i;
+      } else if (c == ')') {
+        if (!after_operand)
+          throw_err("Missing operand before closing parenthesis");
+
+        ++i;
+      } else {
+        if (after_operand)
+          throw_err("Missing operator");
+
+        if (c == '(')
+          ++i;
+        else {
+          std::string token = "";
+          bool is_number = true;
+
+          for (; i != r.size() && !is_operator(r[i]) && r[i] != '(' && r[i] != ')'; ++i) {
+            if (!is_space(r[i])) {
+              // Only numbers can be separated by white space
+              if (i != 0 && is_space(r[i - 1]) && !token.empty() && (!is_number || !std::isdigit(static_cast<unsigned char>(r[i]))))
+                throw_err("Missing operator");
+
+              token.push_back(r[i]);
+              is_number = is_number && std::isdigit(static_cast<unsigned char>(r[i]));
+            }
+          }
+
+          if (!is_number && vars_map.find(token) == vars_map.end())
+            throw_not_declared_var_err(token);
+        }
+      }
+
+      prev_prev = prev;
+      prev = is_operator(c) || c == '(' || c == ')' ? c : operand;
+    }
+
+    if (is_operator(prev))
+      throw_err("Missing operand for operator '" + std::string(1, prev) + "'");
+  }
+
+  bool ShuntingYardParser::is_space(const char c) {
+    return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f';
+  }
+
   void ShuntingYardParser::throw_not_declared_var_err(const std::string& var) const {
     ERROR_MSG("Variable '" + var + "' not declared!");
     std::exit(EXIT_FAILURE);
diff --git a/source/include/firefly/ShuntingYardParser.hpp b/source/include/firefly/ShuntingYardParser.hpp
index b387989..338251a 100644
--- a/source/include/firefly/ShuntingYardParser.hpp
+++ b/source/include/firefly/ShuntingYardParser.hpp
@@ -203,6 +203,18 @@ namespace firefly {
      *  @param fun The function which should be converted
      */
     std::vector<std::string> parse(std::string& fun);
+    /**
+     *  Checks if a character is white space
+     *  @param c The character which should be checked
+     *  @return True if the charater is white space
+     */
+    static bool is_space(const char c);
+    /**
+     *  Throws an error if an expression contains missing or consecutive operators or operands, or undeclared variables
+     *  @param r the expression as a string
+     *  @param exp_n the expression number
+     */
+    void check_syntax(const std::string& r, uint64_t exp_n) const;
     /**
      *  Checks expression for redundant parenthesis, removes them and throws an error if one encounters a mismatch of parenthesis
      *  @param r the expression as a string
-- 
2.43.0


From 439facda1bc2b036cf76ac1489204fbc223ef7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:45 +0000
Subject: [PATCH 23/47] fix: return positions including duplicates in
 ShuntingYardParser::add_otf

---
 source/ShuntingYardParser.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/ShuntingYardParser.cpp b/source/ShuntingYardParser.cpp
index b71000b..199a03d 100644
--- a/source/ShuntingYardParser.cpp
+++ b/source/ShuntingYardParser.cpp
@@ -376,20 +376,23 @@ namespace firefly {
       FFInt::set_new_prime(current_prime);
 
       if (check_map.find(std::make_pair(v1.n, v2.n)) != check_map.end()) {
-        if (!no_duplicates) {
-          evaluation_positions.emplace_back(check_map[std::make_pair(v1.n, v2.n)]);
+        const uint64_t pos = check_map[std::make_pair(v1.n, v2.n)];
+
+        if (no_duplicates) {
+          return static_cast<size_t>(std::find(evaluation_positions.begin(), evaluation_positions.end(), pos) - evaluation_positions.begin());
         }
 
-        return static_cast<size_t>(check_map[std::make_pair(v1.n, v2.n)]);
+        evaluation_positions.emplace_back(pos);
       } else {
         functions.emplace_back(tokens);
 
         uint64_t s = static_cast<uint64_t>(get_size() - 1);
         check_map.emplace(std::make_pair(std::make_pair(v1.n, v2.n), s));
         evaluation_positions.emplace_back(s);
-
-        return static_cast<size_t>(s);
       }
+
+      // The position in the list of evaluated functions including duplicates
+      return evaluation_positions.size() - 1;
     }
   }
 
-- 
2.43.0


From 90bfdab6006b4a9a94684839fbef635af18a90db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:30 +0000
Subject: [PATCH 24/47] fix: let ThreadPool::wait() wait for queued tasks which
 no thread has taken yet

---
 source/include/firefly/ThreadPool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/ThreadPool.hpp b/source/include/firefly/ThreadPool.hpp
index a1d1e69..0bf4eda 100644
--- a/source/include/firefly/ThreadPool.hpp
+++ b/source/include/firefly/ThreadPool.hpp
@@ -175,11 +175,11 @@ namespace firefly {
 
     std::size_t queue_size() { std::lock_guard<std::mutex> lock(mutex); return tasks.size(); }
 
-    // if some threads are working, waits until one finishes and returns true; if all threads are idle, returns false
+    // if some threads are working or tasks are queued, waits until a thread finishes and returns true; otherwise returns false
     bool wait() {
       std::unique_lock<std::mutex> lock(mutex);
 
-      if (!all_threads_idle()) {
+      if (!tasks.empty() || !all_threads_idle()) {
         condition_wait.wait(lock);
         return true;
       } else {
-- 
2.43.0


From 095a45ab2748d7801fe6b4b0e197ad44cb027876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:59 +0000
Subject: [PATCH 25/47] fix: do not shift unshifted variables by given shifts
 after a shift scan

---
 source/include/firefly/Reconstructor.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 5932418..dd2b62d 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1278,6 +1278,15 @@ namespace firefly {
 
     if (found_shift) {
       tmp_rec.set_zi_shift(current_shift);
+
+      // Given shifts must not shift further variables in the next prime fields
+      for (auto & given_shift : shifts) {
+        for (std::size_t i = 0; i < given_shift.size() && i < current_shift.size(); ++i) {
+          if (current_shift[i] == 0) {
+            given_shift[i] = 0;
+          }
+        }
+      }
     } else {
       tmp_rec.set_zi_shift(std::vector<uint32_t> (n, 1));
     }
-- 
2.43.0


From 58ff76dfa925770a34fbe24df7fa4c9a4417b7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:02 +0000
Subject: [PATCH 26/47] fix: normalize univariate functions to the same
 coefficient in all prime fields in the safe mode

---
 source/RatReconst.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 02f5a97..702ba08 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -469,14 +469,23 @@ namespace firefly {
               }
             }
 
-            if (n == 1) {
+            if (n == 1 && !use_chinese_remainder) {
               normalizer_deg = denominator.min_deg();
               normalizer_den_num = true;
             }
 
             FFInt equalizer;
 
-            if (normalize_to_den)
+            if (n == 1 && normalize_to_den && use_chinese_remainder) {
+              // Normalize to the same coefficient in all prime fields and skip those in which it vanishes
+              FFInt normalizer = 0;
+
+              if (denominator.coefs.find(normalizer_deg) != denominator.coefs.end())
+                normalizer = denominator.coefs[normalizer_deg];
+
+              div_by_zero = normalizer == 0;
+              equalizer = FFInt(1) / (div_by_zero ? FFInt(1) : normalizer);
+            } else if (normalize_to_den)
               equalizer = FFInt(1) / denominator.coefs[denominator.min_deg()];
             else
               equalizer = FFInt(1) / numerator.coefs[numerator.min_deg()];
-- 
2.43.0


From 0aa5acab64d540a39efe125bd817c4ad128f855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:20 +0000
Subject: [PATCH 27/47] fix: lock the required probes in
 RatReconst::get_needed_feed_vec

Two interpolation jobs of the same function may ask for them at the same time.
---
 source/RatReconst.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 702ba08..75aa5db 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3649,6 +3649,7 @@ namespace firefly {
   }
 
   std::vector<std::pair<uint32_t, uint32_t>> RatReconst::get_needed_feed_vec() {
+    std::lock_guard<std::mutex> lock(mutex_status);
     std::vector<std::pair<uint32_t, uint32_t>> needed_feed_vec_tmp = std::move(needed_feed_vec);
     needed_feed_vec.clear();
 
-- 
2.43.0


From e2718b03b50e336065431bf717f51a23b6c012fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:24 +0000
Subject: [PATCH 28/47] fix: attach the factors to the function they belong to
 in Reconstructor::get_result

The factors are stored with the position of the function in the black box,
which differs from the position in the result if functions are not done or
have been returned by get_early_results.
---
 source/include/firefly/Reconstructor.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index dd2b62d..34af26b 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1124,7 +1124,6 @@ namespace firefly {
   template<typename BlackBoxTemp>
   std::vector<RationalFunction> Reconstructor<BlackBoxTemp>::get_result() {
     std::vector<RationalFunction> result {};
-    uint32_t counter = 0;
 
     for (auto & rec : reconst) {
       if (std::get<1>(rec) == DONE) {
@@ -1134,13 +1133,11 @@ namespace firefly {
           result.back().set_var_order(optimal_var_order);
         }
 
-        if (factors_rf.find(counter) != factors_rf.end()) {
-          for (const auto& factor : factors_rf[counter]) {
+        if (factors_rf.find(std::get<0>(rec)) != factors_rf.end()) {
+          for (const auto& factor : factors_rf[std::get<0>(rec)]) {
             result.back().add_factor(factor);
           }
         }
-
-        ++counter;
       }
     }
 
-- 
2.43.0


From 257f7cdba7b235dc3a5754a7c54668847696c0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:49 +0000
Subject: [PATCH 29/47] fix: lock the list of functions in
 Reconstructor::start_first_runs against get_early_results

---
 source/include/firefly/Reconstructor.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 34af26b..ed0da58 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2237,6 +2237,8 @@ namespace firefly {
         one_done = true;
       }
 
+      std::lock_guard<std::mutex> lock_clean(clean);
+
       reconst.emplace_back(std::make_tuple(i, status, rec));
     }
 
-- 
2.43.0


From f88e6804476a7757dd48c55dff49322c463aff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 30/47] fix: refuse an incomplete validation file when resuming

---
 source/include/firefly/Reconstructor.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index ed0da58..e0f27fd 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -632,6 +632,13 @@ namespace firefly {
         std::getline(validation_file, line);
         std::vector<FFInt> values = parse_vector_FFInt(line);
 
+        if (values.size() != n) {
+          ERROR_MSG("Validation failed: The validation file is incomplete or does not match the number of variables!");
+          logger << "Validation failed: The validation file is incomplete or does not match the number of variables!\n";
+          logger.close();
+          std::exit(EXIT_FAILURE);
+        }
+
         std::vector<FFInt> result = bb.eval(values);
         size_t counter = 0;
 
@@ -640,7 +647,7 @@ namespace firefly {
         }
 
         while (std::getline(validation_file, line)) {
-          if (std::stoul(line) != result[counter]) {
+          if (counter >= result.size() || std::stoul(line) != result[counter]) {
             ERROR_MSG("Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!");
             logger << "Validation failed: Entry " + std::to_string(counter) + " does not match the black-box result!\n";
             logger.close();
-- 
2.43.0


From e9e1a0542528c93cdef0af112f140a9df20c57e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:36 +0000
Subject: [PATCH 31/47] fix: ignore the incomplete end of a probe file whose
 writing was interrupted

---
 source/RatReconst.cpp | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 75aa5db..44318e7 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -3717,9 +3717,18 @@ namespace firefly {
     std::string line;
     igzstream file(file_name.c_str());
     auto prime_it = parse_prime_number(file_name);
+    bool incomplete = false;
+    std::string complete_lines;
 
     if (!done && prime_it == prime_number) {
       while (std::getline(file, line)) {
+        // A line without end was not written completely
+        if (file.eof()) {
+          incomplete = true;
+          break;
+        }
+
+        complete_lines += line + "\n";
         std::vector<uint32_t> tmp_zi_ord;
 
         if (n > 1)
@@ -3734,9 +3743,20 @@ namespace firefly {
         else
           parsed_probes[tmp_zi_ord].emplace_back(std::make_pair(tmp_probe[0].n, tmp_probe[1].n));
       }
-    }
 
-    file.close();
+      file.close();
+
+      // The writing of the file was interrupted, remove the incomplete part such that new probes can be appended
+      if (incomplete || file.bad()) {
+        std::string file_name_tmp = file_name.substr(0, file_name.rfind("probes/")) + "tmp/" + file_name.substr(file_name.rfind("probes/") + 7);
+        ogzstream new_file(file_name_tmp.c_str());
+        new_file << complete_lines;
+        new_file.close();
+        std::rename(file_name_tmp.c_str(), file_name.c_str());
+      }
+    } else {
+      file.close();
+    }
 
     return tmp;
   }
-- 
2.43.0


From 87baa714e48f722d1a465d2cae9969af0ff648b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:43 +0000
Subject: [PATCH 32/47] fix: replace the first saved state of a function
 atomically

---
 source/RatReconst.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/source/RatReconst.cpp b/source/RatReconst.cpp
index 44318e7..f851588 100644
--- a/source/RatReconst.cpp
+++ b/source/RatReconst.cpp
@@ -2391,7 +2391,7 @@ namespace firefly {
 
   void RatReconst::accept_shift() {
     if (tag.size() != 0) {
-      std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+      std::string file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
       //std::ofstream file;
       ogzstream file;
       file.open(file_name.c_str());
@@ -2418,6 +2418,7 @@ namespace firefly {
       }
 
       file.close();
+      std::rename(file_name.c_str(), ("ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz").c_str());
     }
 
     /*factor_degs.first.clear();
@@ -2491,7 +2492,7 @@ namespace firefly {
   void RatReconst::set_tag_name(const std::string& tag_name_) {
     if (tag_name.size() == 0) {
       tag_name = tag_name_;
-      std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+      std::string file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
       ogzstream file;
       file.open(file_name.c_str());
       file << "tag_name\n" << tag_name << "\n";
@@ -2517,6 +2518,7 @@ namespace firefly {
       }
 
       file.close();
+      std::rename(file_name.c_str(), ("ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz").c_str());
       ogzstream file_2;
       file_name = "ff_save/probes/" + tag + "_" + std::to_string(prime_number) + ".gz";
       file_2.open(file_name.c_str());
@@ -2527,12 +2529,13 @@ namespace firefly {
 
   void RatReconst::save_zero_state() {
     ogzstream file;
-    std::string file_name = "ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz";
+    std::string file_name = "ff_save/tmp/" + tag + "_" + std::to_string(prime_number) + ".gz";
     file.open(file_name.c_str());
     file << "ZERO\n";
     interpolations > 1 ? file << "1\n" : file << "0\n";
     file << tag_name << "\n";
     file.close();
+    std::rename(file_name.c_str(), ("ff_save/states/" + tag + "_" + std::to_string(prime_number) + ".gz").c_str());
   }
 
   void RatReconst::save_zero_consecutive_prime() {
-- 
2.43.0


From 899d7caa3d7e57424be6a19add8bcd069cf45d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:58 +0000
Subject: [PATCH 33/47] fix: replace the saved anchor points and shift
 atomically

---
 source/include/firefly/Reconstructor.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index e0f27fd..3c44168 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -1011,7 +1011,7 @@ namespace firefly {
       if (save_states && !load_anchor_points) {
         std::string tmp_str = "";
         std::ofstream file;
-        file.open("ff_save/shift");
+        file.open("ff_save/tmp/shift");
         tmp_str = "";
 
         for (const auto & el : tmp_rec.get_zi_shift_vec()) {
@@ -1021,6 +1021,7 @@ namespace firefly {
         tmp_str += std::string("\n");
         file << tmp_str;
         file.close();
+        std::rename("ff_save/tmp/shift", "ff_save/shift");
       }
 
       run_until_done(prime_counter);
@@ -2148,7 +2149,7 @@ namespace firefly {
       mkdir("ff_save/tmp", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       mkdir("ff_save/probes", S_IRWXU | S_IRWXG | S_IROTH | S_IXOTH);
       std::ofstream anchor_file;
-      anchor_file.open("ff_save/anchor_points");
+      anchor_file.open("ff_save/tmp/anchor_points");
 
       std::string tmp_str = "";
 
@@ -2159,6 +2160,7 @@ namespace firefly {
       tmp_str += std::string("\n");
       anchor_file << tmp_str;
       anchor_file.close();
+      std::rename("ff_save/tmp/anchor_points", "ff_save/anchor_points");
 
       file.open("ff_save/validation.gz");
 
@@ -2603,9 +2605,8 @@ namespace firefly {
         shift = tmp_rec.get_zi_shift_vec();
 
         if (save_states) {
-          std::remove("ff_save/anchor_points");
           std::ofstream file;
-          file.open("ff_save/anchor_points");
+          file.open("ff_save/tmp/anchor_points");
           std::string tmp_str = "";
 
           for (const auto & el : tmp_rec.get_anchor_points()) {
@@ -2615,9 +2616,9 @@ namespace firefly {
           tmp_str += std::string("\n");
           file << tmp_str;
           file.close();
+          std::rename("ff_save/tmp/anchor_points", "ff_save/anchor_points");
 
-          std::remove("ff_save/shift");
-          file.open("ff_save/shift");
+          file.open("ff_save/tmp/shift");
           tmp_str = "";
 
           for (const auto & el : tmp_rec.get_zi_shift_vec()) {
@@ -2627,6 +2628,7 @@ namespace firefly {
           tmp_str += std::string("\n");
           file << tmp_str;
           file.close();
+          std::rename("ff_save/tmp/shift", "ff_save/shift");
         }
 
         // start only thr_n jobs first, because the reconstruction can be done after the first feed
-- 
2.43.0


From d85d31f336c501d193e8d038de4b206578fe1a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 34/47] fix: read the files of requested probes of univariate
 functions

Without a zi_order the lines start with the delimiter; they were rejected
as having a wrong format.
---
 source/include/firefly/Reconstructor.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 3c44168..274cffb 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3776,7 +3776,8 @@ namespace firefly {
       std::string line;
 
       while (std::getline(gzfile, line)) {
-        std::size_t first_delim = line.find(" | ");
+        // without a zi_order the line starts with the delimiter
+        std::size_t first_delim = n == 1 ? line.find("| ") : line.find(" | ");
 
         if (first_delim == std::string::npos) {
           WARNING_MSG(file_name + " has a wrong format!");
@@ -3784,8 +3785,8 @@ namespace firefly {
           throw std::runtime_error(file_name + " has a wrong format!");
         }
 
-        std::string zi_order_string = line.substr(0, first_delim + 1);
-        std::string remainder = line.substr(first_delim + 3);
+        std::string zi_order_string = n == 1 ? "" : line.substr(0, first_delim + 1);
+        std::string remainder = line.substr(first_delim + (n == 1 ? 2 : 3));
 
         std::size_t second_delim = remainder.find(" | ");
 
-- 
2.43.0


From fb3a17405b4ba2372eb6909af65a6e70715b04e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 35/47] fix: load the supplied probes when resuming in a prime
 field

The probes of the field were only loaded when a new field was started, so
a resumed run waited for probes which never came. Probes which have been
restored from the saved state are skipped.
---
 source/include/firefly/Reconstructor.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 274cffb..3bb080f 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2339,6 +2339,10 @@ namespace firefly {
         logger << "Resuming in prime field: F(" << std::to_string(primes()[prime_it]) << ")\n";
         INFO_MSG("Resuming in prime field: F(" + std::to_string(primes()[prime_it]) + ")");
 
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         {
           std::lock_guard<std::mutex> lock_status(feed_control);
 
@@ -3806,6 +3810,11 @@ namespace firefly {
           throw std::runtime_error(file_name + " has a wrong format!");
         }
 
+        // skip probes which are repeated or have been restored from a saved state
+        if (!chosen_t[zi_order].emplace(t.n).second) {
+          continue;
+        }
+
         size_t pos = 0;
         std::string delimiter = " ";
         std::vector<std::vector<FFInt>> probes {};
-- 
2.43.0


From 14a077155fd828ae53937044a3b7876b80b7c02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:35 +0000
Subject: [PATCH 36/47] fix: write the requested probes if no supplied probe is
 left

A run with too few supplied probes waited forever for the next one and a
missing file of a new prime field ended the run without the requests.
---
 source/include/firefly/Reconstructor.hpp | 44 ++++++++++++++++++++----
 1 file changed, 38 insertions(+), 6 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 3bb080f..81176a8 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2035,12 +2035,20 @@ namespace firefly {
 #ifndef WITH_MPI
     (void) first; // void cast to silence unused parameter warning
 
+    if (precomputed_probes) {
+      load_precomputed_probes_from_file();
+    }
+
     uint32_t to_start = thr_n;//* bunch_size;
     queue_probes(zi_order, to_start);
     started_probes.emplace(zi_order, to_start);
 
-    if (precomputed_probes) {
-      load_precomputed_probes_from_file();
+    if (precomputed_probes && computed_probes.empty()) {
+      ERROR_MSG("No probes were supplied!");
+      logger << "No probes were supplied!\n";
+      write_requested_probes_to_file();
+      logger.close();
+      std::exit(EXIT_FAILURE);
     }
 #else
     if (first) {
@@ -2635,6 +2643,10 @@ namespace firefly {
           std::rename("ff_save/tmp/shift", "ff_save/shift");
         }
 
+        if (precomputed_probes) {
+          load_precomputed_probes_from_file();
+        }
+
         // start only thr_n jobs first, because the reconstruction can be done after the first feed
         uint32_t to_start = 0;
 
@@ -2699,9 +2711,6 @@ namespace firefly {
 #ifndef WITH_MPI
         }
 
-        if (precomputed_probes) {
-          load_precomputed_probes_from_file();
-        }
 #else
           cond_val.notify_one();
 
@@ -2724,6 +2733,30 @@ namespace firefly {
         probes_for_next_prime = 0;
       }
 
+      // There may be no supplied probe (left)
+      if (precomputed_probes && computed_probes.empty()) {
+        {
+          std::unique_lock<std::mutex> lock_feed(feed_control);
+
+          condition_feed.wait(lock_feed, [this](){return feed_jobs == 0 && interpolate_jobs == 0;});
+        }
+
+        {
+          std::lock_guard<std::mutex> lock_status(status_control);
+
+          if (items_done == items) {
+            done = true;
+            continue;
+          } else if (items_done + items_new_prime == items) {
+            new_prime = true;
+            continue;
+          }
+        }
+
+        write_requested_probes_to_file();
+        return;
+      }
+
       std::vector<uint64_t> indices;
       std::vector<std::vector<FFInt>> probes;
 
@@ -3840,7 +3873,6 @@ namespace firefly {
     } else {
       WARNING_MSG("Cannot find " + file_name + "!");
       logger << "Cannot find " + file_name + "!\n";
-      std::exit(EXIT_FAILURE);
     }
   }
 
-- 
2.43.0


From b05ce2a78f6eb174ecf785c03410b6f058952452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 37/47] fix: keep a thread for the reconstruction when started
 with one thread and MPI

One thread is set aside for the communication; started with a single thread
the Reconstructor waited forever for a thread pool without threads.
---
 source/include/firefly/Reconstructor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 81176a8..f89174e 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -381,7 +381,7 @@ namespace firefly {
 #ifndef WITH_MPI
                                const int verbosity_): n(n_), thr_n(thr_n_), bb(bb_), verbosity(verbosity_), tp(thr_n_) {
 #else
-                               int verbosity_): n(n_), thr_n(thr_n_ - 1), bb(bb_), verbosity(verbosity_), tp(thr_n) {
+                               int verbosity_): n(n_), thr_n(thr_n_ > 1 ? thr_n_ - 1 : 1), bb(bb_), verbosity(verbosity_), tp(thr_n) {
 #endif
     if (n == 0) {
       ERROR_MSG("FireFly does not support functional reconstructions without variables!\n               If you want to continue, set n at least to 1.");
@@ -417,7 +417,7 @@ namespace firefly {
 #ifndef WITH_MPI
                                BlackBoxBase<BlackBoxTemp>& bb_, const int verbosity_): n(n_), thr_n(thr_n_), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n_) {
 #else
-                               BlackBoxBase<BlackBoxTemp>& bb_, int verbosity_): n(n_), thr_n(thr_n_ - 1), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n) {
+                               BlackBoxBase<BlackBoxTemp>& bb_, int verbosity_): n(n_), thr_n(thr_n_ > 1 ? thr_n_ - 1 : 1), bunch_size(bunch_size_), bb(bb_), verbosity(verbosity_), tp(thr_n) {
 #endif
     if (n == 0) {
       ERROR_MSG("FireFly does not support functional reconstructions without variables!\n               If you want to continue, set n at least to 1.");
-- 
2.43.0


From 53ac8855067fe2c2a1b4eb4a14c33196b9626729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:21 +0000
Subject: [PATCH 38/47] fix: lock the list of requested probes in
 Reconstructor::get_job with MPI

compute_probe() unlocks the list, whose size was then read while other
threads changed it.
---
 source/include/firefly/Reconstructor.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index f89174e..ae60a97 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -3412,6 +3412,9 @@ namespace firefly {
       }
 
 #ifdef WITH_MPI
+      // compute_probe() has unlocked the queue
+      lock_probe_queue.lock();
+
       if (requested_probes.empty()) {
         new_jobs = false;
       }
-- 
2.43.0


From bf8ee3f9fba5dd8f6b13e2a7cf16e217c8227ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:38:48 +0000
Subject: [PATCH 39/47] fix: do not write the number of functions while the MPI
 communication reads it

---
 source/include/firefly/Reconstructor.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index ae60a97..2c53de1 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2125,7 +2125,11 @@ namespace firefly {
       }
     }
 
-    items = static_cast<uint32_t>(probes.size());
+    // With MPI, the communication thread may already use items
+    if (items != static_cast<uint32_t>(probes.size())) {
+      items = static_cast<uint32_t>(probes.size());
+    }
+
     size_t tag_size = tags.size();
 
 #ifdef WITH_MPI
-- 
2.43.0


From fef910eab4e33f1746e86390bcf7c80320933936 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:57 +0000
Subject: [PATCH 40/47] fix: do not wait for a probe after the last prime field
 with MPI

reconstruct(prime_counter) waited forever for a probe, because the
communication has ended as soon as done is set.
---
 source/include/firefly/Reconstructor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 2c53de1..ae84ba4 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2735,6 +2735,13 @@ namespace firefly {
 #endif
 
         probes_for_next_prime = 0;
+
+#ifdef WITH_MPI
+        // The communication ends when done is set, thus there may be no more probe
+        if (done) {
+          break;
+        }
+#endif
       }
 
       // There may be no supplied probe (left)
-- 
2.43.0


From e1e9141aac85fa2c9b413387d246b7c92fe9a15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:50:05 +0000
Subject: [PATCH 41/47] fix: end the workers and the communication after the
 factor scan with MPI

stop_after_factor_scan() left them waiting for the next prime field and the
Reconstructor never returned.
---
 source/include/firefly/Reconstructor.hpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index ae84ba4..24c77d0 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -966,7 +966,24 @@ namespace firefly {
         }
 
 	if (stop_after_factors) {
+#ifndef WITH_MPI
 	  return;
+#else
+	  // the workers and the communication wait for the next prime field; let them end
+	  scan = false;
+	  done = true;
+	  empty_bb = true;
+
+	  std::unique_lock<std::mutex> lock_probe_queue(mutex_probe_queue);
+
+	  new_jobs = true;
+
+	  cond_val.notify_one();
+
+	  cond_val.wait(lock_probe_queue, [this](){return proceed;});
+
+	  proceed = false;
+#endif
 	}
       }
 
@@ -982,7 +999,7 @@ namespace firefly {
         } else {
           queue_new_ones();
         }
-      } else {
+      } else if (!done) {
         if (scanned_factors && items == 0) {
           done = true;
 #ifdef WITH_MPI
-- 
2.43.0


From 024dc26bde4f43c5df918f37c444e8a480c40c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:43 +0000
Subject: [PATCH 42/47] fix: use the whole name of a function in
 AmplitudeParser::parse_string

The name was searched for with every family, thus depending on their order
a sign was lost or a function was reported as unknown if the name of one
family is part of the name of another one.
---
 source/AmplitudeParser.cpp | 23 +++++++++--------------
 1 file changed, 9 insertions(+), 14 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 2a82d54..6a7f051 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -118,13 +118,16 @@ namespace firefly {
         std::size_t fo = seed.find('[');
         std::string int_fam = seed.substr(0, fo);
 
+        // The name of the function starts behind the last operator
+        size_t fo2 = int_fam.find_last_of("+-*/^()[],");
+        fo2 = fo2 == std::string::npos ? 0 : fo2 + 1;
+
         bool found_integral = false;
 
         for (const auto& fam : integral_families) {
-          size_t fo2 = int_fam.find(fam);
           std::string coefficient;
 
-          if (fo2 != std::string::npos) {
+          if (int_fam.compare(fo2, fam.size(), fam) == 0) {
             found_integral = true;
             std::string prefac = "";
 
@@ -144,18 +147,10 @@ namespace firefly {
               if (fo_2 != std::string::npos) {
                 std::string seed_2 = amplitude.substr(found + 1, fo_2 - (found + 1));
 
-                for (const auto& tmp_fam : integral_families) {
-                  std::size_t tmp_found = seed_2.rfind(tmp_fam);
-
-                  if (tmp_found != std::string::npos) {
-                    if (seed_2[0] == '*')
-                      coefficient = seed_2.substr(1, tmp_found - 2);
-                    else
-                      coefficient = seed_2.substr(0, tmp_found - 2);
-
-                    found = fo_2 - tmp_fam.size() - 2;
-                  }
-                }
+                // The next term starts with the operator in front of the name of its function
+                std::size_t tmp_found = seed_2.find_last_of("+-*/^()[],");
+                coefficient = seed_2.substr(1, tmp_found == 0 ? 0 : tmp_found - 1);
+                found += tmp_found;
               } else {
                 coefficient = amplitude.substr(found + 2);
               }
-- 
2.43.0


From 0680859e8dc592a3c45dfe12bc011b56b1028b8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:03 +0000
Subject: [PATCH 43/47] fix: refuse terms which are not of the form FUNCTION*c_
 in AmplitudeParser::parse_string

Divisions, sums, powers, factors around functions, and terms without a
function were dropped or attributed to another function.
---
 source/AmplitudeParser.cpp | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 6a7f051..893da8e 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -95,6 +95,30 @@ namespace firefly {
   std::vector<std::pair<std::string, std::string>> AmplitudeParser::parse_string(std::string& amplitude, bool replacement) {
     std::vector<std::pair<std::string, std::string>> parsed_integrals {};
 
+    const auto refuse = [&](const std::string& text) {
+      ERROR_MSG("Expected 'FUNCTION*c_' instead of: " + text);
+      logger.open("ff_insert.log", std::ios_base::app);
+      logger << "Expected 'FUNCTION*c_' instead of: " << text << "\n";
+      logger.close();
+      std::exit(EXIT_FAILURE);
+    };
+
+    // A coefficient is a product, i.e. sums are enclosed in parentheses
+    const auto is_product = [](const std::string& text) {
+      int depth = 0;
+
+      for (std::size_t i = 0; i != text.size(); ++i) {
+        if (text[i] == '(')
+          ++depth;
+        else if (text[i] == ')' && --depth < 0)
+          return false;
+        else if (depth == 0 && i != 0 && (text[i] == '+' || text[i] == '-') && text[i - 1] != '*' && text[i - 1] != '/' && text[i - 1] != '^')
+          return false;
+      }
+
+      return depth == 0 && !text.empty();
+    };
+
     if (!replacement) {
       amplitude.erase(std::remove(amplitude.begin(), amplitude.end(), ' '), amplitude.end());
       amplitude.erase(std::remove(amplitude.begin(), amplitude.end(), '\t'), amplitude.end());
@@ -103,7 +127,7 @@ namespace firefly {
       if (amplitude[0] == '{')
         amplitude.erase(0, 1);
 
-      if (amplitude[amplitude.size() - 1] == '}')
+      if (!amplitude.empty() && amplitude[amplitude.size() - 1] == '}')
         amplitude.erase(amplitude.size() - 1, 1);
     }
 
@@ -122,6 +146,10 @@ namespace firefly {
         size_t fo2 = int_fam.find_last_of("+-*/^()[],");
         fo2 = fo2 == std::string::npos ? 0 : fo2 + 1;
 
+        // Only a sign is allowed in between two terms
+        if (fo == std::string::npos || fo2 > 1 || (fo2 == 0 && old_pos != 0) || (fo2 == 1 && seed[0] != '+' && seed[0] != '-' && seed[0] != '*'))
+          refuse(seed);
+
         bool found_integral = false;
 
         for (const auto& fam : integral_families) {
@@ -153,7 +181,11 @@ namespace firefly {
                 found += tmp_found;
               } else {
                 coefficient = amplitude.substr(found + 2);
+                found = amplitude_size - 1;
               }
+
+              if (!is_product(coefficient))
+                refuse(integral + "*" + coefficient);
             } else
               coefficient = "1";
 
@@ -178,6 +210,10 @@ namespace firefly {
         old_pos = found + 1;
         found = amplitude.find(']', found + 1);
       }
+
+      // Only a vanishing right-hand side of a replacement rule does not contain a function
+      if (old_pos != amplitude_size && !(replacement && amplitude == "0"))
+        refuse(amplitude.substr(old_pos));
     } else {
       ERROR_MSG("Expression has no content");
       logger.open("ff_insert.log", std::ios_base::app);
-- 
2.43.0


From dfd4636b84741541dc667b11129ae0eab427103f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:16:18 +0000
Subject: [PATCH 44/47] fix: refuse malformed replacement rules in
 AmplitudeParser

A left-hand side without a function crashed, factors of the left-hand side
were dropped, and missing commas shifted the rules.
---
 source/AmplitudeParser.cpp | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/source/AmplitudeParser.cpp b/source/AmplitudeParser.cpp
index 893da8e..f1935f7 100644
--- a/source/AmplitudeParser.cpp
+++ b/source/AmplitudeParser.cpp
@@ -277,10 +277,22 @@ namespace firefly {
     if (ibp_table[0] == '{')
       ibp_table.erase(0, 1);
 
-    if (ibp_table[ibp_table.size() - 1] == '}')
+    if (!ibp_table.empty() && ibp_table[ibp_table.size() - 1] == '}')
       ibp_table.erase(ibp_table.size() - 1, 1);
 
+    const auto refuse = [&](const std::string& text) {
+      ERROR_MSG("Expected 'FUNCTION -> FUNCTION*c_ + ...' instead of: " + text);
+      logger.open("ff_insert.log", std::ios_base::app);
+      logger << "Expected 'FUNCTION -> FUNCTION*c_ + ...' instead of: " << text << "\n";
+      logger.close();
+      std::exit(EXIT_FAILURE);
+    };
+
     size_t pos = ibp_table.find("->");
+
+    if (pos == std::string::npos && !ibp_table.empty())
+      refuse(ibp_table);
+
     size_t old_pos = 0;
     size_t required_repl_counter = 0;
 
@@ -295,6 +307,9 @@ namespace firefly {
         rhs = ibp_table.substr(old_pos);
         auto repl_lhs = parse_string(lhs, true);
 
+        if (repl_lhs.size() != 1 || repl_lhs[0].first != lhs)
+          refuse(lhs + "->" + rhs);
+
         if (integrals.find(repl_lhs[0].first) != integrals.end()) {
           if (repl_integrals.find(repl_lhs[0].first) != repl_integrals.end()) {
             ERROR_MSG("Multiple replacement rules for function: " + repl_lhs[0].first);
@@ -327,13 +342,20 @@ namespace firefly {
       } else {
         tmp_pos = ibp_table.rfind("[", tmp_pos);
         tmp_pos = ibp_table.rfind(",", tmp_pos);
+
+        if (tmp_pos == std::string::npos || tmp_pos < old_pos)
+          refuse(ibp_table.substr(pos - lhs.size()));
+
         rhs = ibp_table.substr(old_pos, tmp_pos - old_pos);
-        old_pos = tmp_pos;
+        old_pos = tmp_pos + 1;
         pos = ibp_table.find("->", old_pos);
       }
 
       auto repl_lhs = parse_string(lhs, true);
 
+      if (repl_lhs.size() != 1 || repl_lhs[0].first != lhs)
+        refuse(lhs + "->" + rhs);
+
       if (integrals.find(repl_lhs[0].first) != integrals.end()) {
         if (repl_integrals.find(repl_lhs[0].first) != repl_integrals.end()) {
           ERROR_MSG("Multiple replacement rules for function: " + repl_lhs[0].first);
-- 
2.43.0


From 7042d1045aee8bab06d7da28e08431d0fd975f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 45/47] fix: separate expressions without leading sign when
 merging them in ff_insert

---
 ff_insert.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ff_insert.cpp b/ff_insert.cpp
index b7267a4..bbd5256 100644
--- a/ff_insert.cpp
+++ b/ff_insert.cpp
@@ -530,9 +530,13 @@ int main(int argc, char* argv[]) {
         if (line[0] == '{')
           line.erase(0, 1);
 
-        if (line[line.size() - 1] == '}')
+        if (!line.empty() && line[line.size() - 1] == '}')
           line.erase(line.size() - 1, 1);
 
+        // Keep the terms of different files apart
+        if (!line.empty() && line[0] != '+' && line[0] != '-')
+          line.insert(0, "+");
+
         ofile << line << "\n";
       }
 
-- 
2.43.0


From 7f8a05e397aa5933073c95b73db2a17b793d357a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:49 +0000
Subject: [PATCH 46/47] fix: keep the saved states and coefficients of
 different expressions and functions apart in ff_insert

With several expressions the state of a function was resumed for the same
function of another expression, which fails to validate. The coefficients of
functions with slashes in their arguments could not be written.
---
 ff_insert.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ff_insert.cpp b/ff_insert.cpp
index bbd5256..cfbae60 100644
--- a/ff_insert.cpp
+++ b/ff_insert.cpp
@@ -26,6 +26,12 @@ bool is_number(const std::string& s){
     s.end(), [](unsigned char c) { return !std::isdigit(c); }) == s.end();
 }
 
+// Arguments of functions can contain slashes
+std::string file_name_of(std::string function) {
+  std::replace(function.begin(), function.end(), '/', '_');
+  return function;
+}
+
 using namespace firefly;
 int main(int argc, char* argv[]) {
   auto time0 = std::chrono::high_resolution_clock::now();
@@ -331,7 +337,7 @@ int main(int argc, char* argv[]) {
             bool renamed_ff_save = false;
 
             if (save_mode) {
-              std::string tmp = "ff_save_" + ap.get_master(i);
+              std::string tmp = "ff_save_" + fn + "_" + file_name_of(ap.get_master(i));
               struct stat buffer;
 
               if (stat(tmp.c_str(), &buffer) == 0) {
@@ -368,7 +374,7 @@ int main(int argc, char* argv[]) {
 	    }
 
             if (save_mode) {
-              std::string tmp = "ff_save_" + ap.get_master(i);
+              std::string tmp = "ff_save_" + fn + "_" + file_name_of(ap.get_master(i));
               std::rename("ff_save", tmp.c_str());
 
               if (renamed_ff_save)
@@ -448,7 +454,7 @@ int main(int argc, char* argv[]) {
             skipped = true;
           } else {
             std::ofstream coef_file;
-            std::string file_name = "coefficients_" + fn + "/" + ap.get_master(i) + ".m";
+            std::string file_name = "coefficients_" + fn + "/" + file_name_of(ap.get_master(i)) + ".m";
             coef_file.open(file_name.c_str());
             coef_file << "{\n + " << ap.get_master(i) + "*(" << ap.get_unsimplified_coef(i) << ")\n}\n";
             coef_file.close();
-- 
2.43.0


From 93f1ad90cf2478a74894a8f811d73cdc0ae83d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:52:43 +0000
Subject: [PATCH 47/47] fix: start no probes in the next prime field after the
 last interpolation

---
 source/include/firefly/Reconstructor.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/source/include/firefly/Reconstructor.hpp b/source/include/firefly/Reconstructor.hpp
index 24c77d0..b6d4b84 100644
--- a/source/include/firefly/Reconstructor.hpp
+++ b/source/include/firefly/Reconstructor.hpp
@@ -2664,6 +2664,13 @@ namespace firefly {
           std::rename("ff_save/tmp/shift", "ff_save/shift");
         }
 
+#ifndef WITH_MPI
+        // No probe may be fed after the last interpolation, it would change the results of the last prime field
+        if (done) {
+          break;
+        }
+#endif
+
         if (precomputed_probes) {
           load_precomputed_probes_from_file();
         }
-- 
2.43.0

