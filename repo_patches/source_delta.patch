From 4cc7b5dfc02fbaed5c494052b58c17abb73271d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:01 +0000
Subject: [PATCH 01/23] fix: pass the row-major leading dimension of C to cblas
 gemm (non-square products)

---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From ddeb904f6c6801d03a024f9a148e2de1209e8f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:15 +0000
Subject: [PATCH 02/23] fix: keep beta * y in the aliased BLAS matrix-vector
 product

---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From 6b042e29fab5a5ee884375c1f3fa6d6d9b216a63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:30 +0000
Subject: [PATCH 03/23] fix: sparse matrix-vector product storing into its own
 operand

---
 include/lalib/ops/mat_vec_ops_core.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..0cc098c 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,6 +53,20 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
+    // If the pointers of the multiplier and one storing the result are the same
+    if (x == y) {
+        auto tmp = std::make_unique<T[]>(n);
+        std::copy(y, y + n, tmp.get());
+        for (auto i = 0u; i < n; ++i) {
+            tmp[i] = beta * tmp[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                tmp[i] += alpha * mat[k] * x[col_ids[k]];
+            }
+        }
+        std::copy(tmp.get(), tmp.get() + n, y);
+        return y;
+    }
+
     #pragma omp simd
     for (auto i = 0u; i < n; ++i) {
         y[i] = beta * y[i];
-- 
2.43.0


From 2f9a70dec2ba25d224f8cb1a6da39bb0d34459e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:12 +0000
Subject: [PATCH 04/23] fix: merge rows that are empty on the left-hand side of
 SpCooMat::operator+=

---
 include/lalib/mat/sp_mat.hpp | 34 +++++++---------------------------
 1 file changed, 7 insertions(+), 27 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..cf65859 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -378,41 +378,21 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
 
         auto cursor = std::distance(this->_row_ids.begin(), row_iter);
         auto rcursor = std::distance(mat._row_ids.begin(), rrow_iter);
-        auto cursor_end = std::distance(this->_row_ids.begin(), row_iter_end) - 1;
-        auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
+        auto cursor_end = std::distance(this->_row_ids.begin(), row_iter_end);
+        auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end);
 
-        while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
-                this->_val[cursor] += mat._val[rcursor];
+        for (; rcursor < rcursor_end; ++rcursor) {
+            while (cursor < cursor_end && this->_col_ids[cursor] < mat._col_ids[rcursor]) { ++cursor; }
 
-                if (rcursor == rcursor_end) { break; }
-                else {
-                    if (cursor < cursor_end) { ++cursor; }
-                    if (rcursor < rcursor_end) { ++rcursor; }
-                }
-            }
-            else if (this->_col_ids[cursor] < mat._col_ids[rcursor]) {
-                if (cursor < cursor_end) { ++cursor; }
-                else {
-                    this->_val.emplace_back(mat._val[rcursor]);
-                    this->_row_ids.emplace_back(i);
-                    this->_col_ids.emplace_back(mat._col_ids[rcursor]);
-
-                    if (rcursor == rcursor_end) { break; }
-                    else { ++rcursor; }
-                }
+            if (cursor < cursor_end && this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+                this->_val[cursor] += mat._val[rcursor];
             }
             else {
                 this->_val.emplace_back(mat._val[rcursor]);
                 this->_row_ids.emplace_back(i);
                 this->_col_ids.emplace_back(mat._col_ids[rcursor]);
-
-                if (rcursor == rcursor_end) { break; }
-                else { 
-                    if (rcursor < rcursor_end) { ++rcursor; }
-                }
             }
-        } 
+        }
 
         row_iter = row_iter_end;
         rrow_iter = rrow_iter_end;
-- 
2.43.0


From fb01be7e168b8702b5c9b80a5ed030e0c85f8fb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:28 +0000
Subject: [PATCH 05/23] fix: shape of a sparse matrix without elements

---
 include/lalib/mat/sp_mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index cf65859..1b3bd2f 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,6 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_val.empty()) { return std::make_pair(0, 0); }
+
     size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
@@ -500,8 +502,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From dc528703c719133180b7fad2f913bc902efb01de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:55 +0000
Subject: [PATCH 06/23] fix: SpMat::mut_at throws std::out_of_range for a row
 index out of range, as documented

---
 include/lalib/mat/sp_mat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 1b3bd2f..87b8309 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -530,6 +530,9 @@ auto SpMat<T>::at(size_t i, size_t j) const noexcept -> const T& {
 
 template<typename T>
 auto SpMat<T>::mut_at(size_t i, size_t j) -> T& {
+    if (this->_row_ptr.empty() || i >= this->_row_ptr.size() - 1) {
+        throw std::out_of_range("Index out of range or does not point to a non-zero element.");
+    }
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
-- 
2.43.0


From 27fa401e438cd34939c739a31158cde591615822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:17 +0000
Subject: [PATCH 07/23] fix: tri-diagonal element access returned a reference
 to a temporary zero

---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..62974a8 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..57a48b7 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 626c5e518a7450bb94fc661fe3f994932b67352d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:39:50 +0000
Subject: [PATCH 08/23] fix: DynUpperTriMat reports an invalid element count
 and starts empty

---
 include/lalib/mat/dyn_mat.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 62974a8..77f3b8b 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -496,7 +496,7 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -531,7 +531,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
@@ -550,7 +550,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From adfb12127a813ee731ee348d23b46533283c92cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:10 +0000
Subject: [PATCH 09/23] fix: the upper part of a lower triangular matrix reads
 as zero

---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 77f3b8b..d3c5ac8 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -659,6 +659,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template<typename T>
@@ -674,13 +676,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index 57a48b7..14b8944 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    static inline const T _zero = Zero<T>::value();
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From 188bcdee041c50f8dd5a4c5a3697bcd6d277eb42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:00 +0000
Subject: [PATCH 10/23] fix: report vector size mismatches instead of
 terminating or writing out of bounds

---
 include/lalib/ops/vec_ops.hpp   | 14 ++++++++------
 include/lalib/vec/sized_vec.hpp |  8 ++++++--
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..845213b 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -373,7 +375,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -458,7 +460,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..fef8212 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -7,6 +7,7 @@
 #include <vector>
 #include <initializer_list>
 #include "lalib/ops/vec_ops_core.hpp"
+#include "lalib/err/error.hpp"
 
 namespace lalib {
 
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (this->size() != v.size()) {
+        throw vec_error::SizeMismatched(this->size(), v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From 129483f3ef526a853efc72bbe2304a265629a3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:14 +0000
Subject: [PATCH 11/23] fix: sub(SizedVec, DynVec, SizedVec) returns the result
 vector

---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 845213b..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -330,7 +330,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From c2eaa2ef16a42b00077a2a382c06acb62a274f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:35 +0000
Subject: [PATCH 12/23] fix: dot product of empty vectors and of generic
 element types

---
 include/lalib/ops/vec_ops_core.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..acd0743 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,9 +205,9 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
-    auto r = v1[0] * v2[0];
+    T r = 0;
     #pragma omp simd reduction(+:r)
-    for (auto i = 1u; i < size; ++i) {
+    for (auto i = 0u; i < size; ++i) {
         r += v1[i] * v2[i];
     }
     return r;
@@ -215,8 +215,7 @@ inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
 
 template<typename T>
 inline auto dot_core(const T* v1, const T* v2, size_t size) -> T {
-    __dot_core_simd(v1, v2, size);
-    return v2;
+    return __dot_core_simd(v1, v2, size);
 }
 
 template<>
-- 
2.43.0


From db99e3fb9a462bf5f2a1861a4a6bba146b226696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:40 +0000
Subject: [PATCH 13/23] fix: tri-diagonal solver read out of bounds for a 1x1
 matrix

---
 include/lalib/solver/internal/tdma.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..5c062c4 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,6 +10,11 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 1) {
+        for (auto k = 0u; k < nrow; ++k) { x[k] = b[k] / d[0]; }
+        return x;
+    }
+
     for (auto k = 0u; k < nrow; ++k) {
         std::vector<T> p, q;
         p.reserve(n);
-- 
2.43.0


From d951d50cbee9b63bcbd23cd2312131f341df6271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:41:48 +0000
Subject: [PATCH 14/23] fix: LAPACK tri-diagonal solver destroyed its matrix on
 the first solve

---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..a757d62 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -55,7 +55,8 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    auto mat = this->_mat;  // gtsv overwrites the matrix with its factors
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -75,7 +76,8 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
 
     #if defined(LALIB_LAPACK_BACKEND)
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    auto mat = this->_mat;  // gtsv overwrites the matrix with its factors
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From 6abe0c59562da4c4ee01366fd2cdd9c4b3bfbacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:11 +0000
Subject: [PATCH 15/23] fix: Cholesky factorization accepted a matrix whose
 first pivot is not positive

---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..d63b896 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -36,11 +36,8 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 			l[index<MType>(n, i, i)] -= std::pow(l[index<MType>(n, i, k)], 2); 
 		} 
 
-		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
-		} 
-		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
+		if (!(l[index<MType>(n, i, i)] > 0)) { 
+            return i + 1;
 		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
-- 
2.43.0


From aad2f1813c5c8eb7cb288507d947aaf77199517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:21 +0000
Subject: [PATCH 16/23] fix: Cholesky factorizations of single precision
 matrices

---
 include/lalib/solver/cholesky_factorization.hpp  | 16 ++++++++--------
 .../solver/internal/cholesky_decomposition.hpp   |  8 ++++----
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..2982ebc 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -107,7 +107,7 @@ template<Vector V>
 inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -118,7 +118,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const V& rhs) const ->
    	assert(this->_data.shape().first == rhs.size());
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.size(), 1, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -130,7 +130,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M&
    	assert(rhs.shape().first == rhs.shape().first);
    	assert(rhs.shape().second == rhs.shape().second);
 
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rhs.data());
 	return rhs;
 }
@@ -143,7 +143,7 @@ inline auto DynTriCholeskyFactorization<T>::solve_linear(const M& rhs) const ->
    	assert(rhs.shape().second == rhs.shape().second);
 
 	auto rslt = rhs;
-	_internal_::cholesky_linear<double, _internal_::MemType::Triangle>
+	_internal_::cholesky_linear<T, _internal_::MemType::Triangle>
 		(rhs.shape().first, rhs.shape().second, this->_data.lower_data(), rhs.data(), rslt.data());
 	return rslt;
 }
@@ -179,7 +179,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -194,7 +194,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
@@ -210,7 +210,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
 	#endif
 	return rhs;
@@ -227,7 +227,7 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 	#if defined LALIB_LAPACK_BACKEND
 	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
 	#else
-	_internal_::cholesky_linear<double, _internal_::MemType::Square>
+	_internal_::cholesky_linear<T, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
 	#endif
 	return rslt;
diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index d63b896..7d763d7 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -23,7 +23,7 @@ inline constexpr auto index<MemType::Triangle>(size_t, size_t i, size_t j) noexc
 
 
 template<typename T, MemType MType>
-auto cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto cholesky_decomposition(size_t n, T* l) -> int32_t {
     for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j < i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -46,7 +46,7 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs, double* rslt) -> double* {
+auto cholesky_linear(size_t n, size_t nrow, const T* l, const T* rhs, T* rslt) -> T* {
 	for (auto k = 0u; k < nrow; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
@@ -69,7 +69,7 @@ auto cholesky_linear(size_t n, size_t nrow, const double* l, const double* rhs,
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
+auto mod_cholesky_decomposition(size_t n, T* l) -> int32_t {
 	for (auto i = 0u; i < n; ++i) {
 		for (auto j = 0u; j <= i; ++j) {
 			for (auto k = 0u; k < j; ++k) { 
@@ -84,7 +84,7 @@ auto mod_cholesky_decomposition(size_t n, double* l) -> int32_t {
 }
 
 template<typename T, MemType MType>
-auto mod_cholesky_linear(size_t n, size_t nrhs, const double* l, const double* rhs, double* rslt) {
+auto mod_cholesky_linear(size_t n, size_t nrhs, const T* l, const T* rhs, T* rslt) {
 	for (auto k = 0u; k < nrhs; ++k) {
 		// Forward process
 		for (auto i = 0u; i < n; ++i) {
-- 
2.43.0


From 20a6f3006c1a0fafe053e6bb99d2ee9912ecd170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:42:37 +0000
Subject: [PATCH 17/23] fix: ILU reports a zero pivot in a row that no later
 row eliminates with

---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From 4758da3699e30180817f00a73d740c6f05372c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:19 +0000
Subject: [PATCH 18/23] fix: GMRES returned NaN for a zero right-hand side and
 for an exact breakdown

---
 include/lalib/solver/gmres.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..7ecba36 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == Zero<T>::value()) { return lalib::DynVec<T>::filled(n, Zero<T>::value()); }
     q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
@@ -72,7 +73,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
         this->_givens_rot(hess, h, s, c, r, beta);
 
         // Check the convergence
-        if (std::abs(beta.back()) < this->_tol) { break; }
+        if (std::abs(beta.back()) <= this->_tol) { break; }
     }
 
     // Solve the uper triangle system
-- 
2.43.0


From 6d0ae4c912bddd049401f3e980d23b021353be3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:43:45 +0000
Subject: [PATCH 19/23] fix: operators, inversion and GMRES for element types
 other than double

---
 include/lalib/mat.hpp             |  8 ++++----
 include/lalib/ops/mat_mat_ops.hpp |  6 +++---
 include/lalib/ops/mat_ops.hpp     |  8 ++++----
 include/lalib/ops/mat_vec_ops.hpp | 10 +++++-----
 include/lalib/ops/ops_traits.hpp  |  4 ++--
 include/lalib/solver/gmres.hpp    |  8 ++++----
 6 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/include/lalib/mat.hpp b/include/lalib/mat.hpp
index 15b8c71..8791c3e 100644
--- a/include/lalib/mat.hpp
+++ b/include/lalib/mat.hpp
@@ -34,14 +34,14 @@ inline auto invert(const SizedMat<T, 2, 2>& mat, SizedMat<T, 2, 2>& rmat) -> Siz
         rmat(1, 1) = mat(0, 0);
         rmat(0, 1) = -mat(0, 1);
         rmat(1, 0) = -mat(1, 0);
-        scale(1.0 / denom, rmat);
+        scale(One<T>::value() / denom, rmat);
         return rmat;
     } else {
         auto denom = mat(0, 0) * mat(1, 1) - mat(0, 1) * mat(1, 0);
         std::swap(rmat(0, 0), rmat(1, 1));
-        rmat(0, 1) *= -1.0;
-        rmat(1, 0) *= -1.0;
-        scale(1.0 / denom, rmat);
+        rmat(0, 1) = -rmat(0, 1);
+        rmat(1, 0) = -rmat(1, 0);
+        scale(One<T>::value() / denom, rmat);
         return rmat;
     }
 }
diff --git a/include/lalib/ops/mat_mat_ops.hpp b/include/lalib/ops/mat_mat_ops.hpp
index 2bef08f..c3ca7bb 100644
--- a/include/lalib/ops/mat_mat_ops.hpp
+++ b/include/lalib/ops/mat_mat_ops.hpp
@@ -142,7 +142,7 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, SizedMa
 
 template<typename T, size_t N, size_t M, size_t L>
 inline auto mul(T alpha, const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b, T beta, DynMat<T>& c) noexcept -> DynMat<T>& {
-    assert(c.shape().frist == N);
+    assert(c.shape().first == N);
     assert(c.shape().second == M);
     mul_core(N, M, L, alpha, a.data(), b.data(), beta, c.data());
     return c;
@@ -183,14 +183,14 @@ inline auto mul(T alpha, const DynMat<T>& a, const DynMat<T>& b, T beta, DynMat<
 template<typename T, size_t N, size_t M, size_t L>
 inline auto operator*(const SizedMat<T, N, L>& a, const SizedMat<T, L, M>& b) noexcept -> SizedMat<T, N, M> {
     auto mr = lalib::SizedMat<T, N, M>::uninit();
-    mul(1.0, a, b, 0.0, mr);
+    mul(One<T>::value(), a, b, Zero<T>::value(), mr);
     return mr;
 }
 
 template<typename T>
 inline auto operator*(const DynMat<T>& a, const DynMat<T>& b) noexcept -> DynMat<T> {
     auto mr = lalib::DynMat<T>::uninit(a.shape().first, b.shape().second);
-    mul(1.0, a, b, 0.0, mr);
+    mul(One<T>::value(), a, b, Zero<T>::value(), mr);
     return mr;
 }
 
diff --git a/include/lalib/ops/mat_ops.hpp b/include/lalib/ops/mat_ops.hpp
index 7182db1..3c2520d 100644
--- a/include/lalib/ops/mat_ops.hpp
+++ b/include/lalib/ops/mat_ops.hpp
@@ -78,7 +78,7 @@ template<typename T, size_t N, size_t M>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SizedMat<T, N, M>& mat) noexcept -> SizedMat<T, N, M> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -86,7 +86,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const DynMat<T>& mat) noexcept -> DynMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -94,7 +94,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpCooMat<T>& mat) noexcept -> SpCooMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
@@ -102,7 +102,7 @@ template<typename T>
 requires std::is_integral_v<T> || std::is_floating_point_v<T>
 inline auto operator-(const SpMat<T>& mat) noexcept -> SpMat<T> {
     auto rmat = mat;
-    scale(-1.0, rmat);
+    scale(static_cast<T>(-1), rmat);
     return rmat;
 }
 
diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index c2370b8..348a452 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -59,7 +59,7 @@ inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec
 template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const SizedVec<T, M>& vec) noexcept -> SizedVec<T, N> {
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, One<T>::value(), mat.data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
 }
 
@@ -67,7 +67,7 @@ template<typename T, size_t N, size_t M>
 inline auto operator*(const SizedMat<T, N, M>& mat, const DynVec<T>& vec) noexcept -> SizedVec<T, N> {
     assert(M == vec.size());
     auto vr = SizedVec<T, N>::uninit();
-    mul_core(N, M, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(N, M, One<T>::value(), mat.data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
 }
 
@@ -76,7 +76,7 @@ inline auto operator*(const DynMat<T>& mat, const SizedVec<T, N>& vec) noexcept
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, One<T>::value(), mat.data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
 }
 
@@ -85,7 +85,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    mul_core(n, m, 1.0, mat.data(), vec.data(), 0.0, vr.data());
+    mul_core(n, m, One<T>::value(), mat.data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
 }
 
@@ -94,7 +94,7 @@ inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> Dyn
     auto [n, m] = mat.shape();
     assert(m == vec.size());
     auto vr = DynVec<T>::uninit(n);
-    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), 1.0, mat.values().data(), vec.data(), 0.0, vr.data());
+    _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), One<T>::value(), mat.values().data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
 }
 
diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 3c00e25..4c257f1 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -41,13 +41,13 @@ struct One<std::complex<T>> {
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const T& val) noexcept {
-    return 1.0 / val;
+    return T(1) / val;
 }
 
 template<typename T>
 requires std::floating_point<T>
 constexpr auto reciprocal(const std::complex<T>& val) noexcept {
-    return 1.0 / val;
+    return T(1) / val;
 }
 
 }
diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index 7ecba36..97cde46 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -49,7 +49,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
     if (b_prime.norm2() == Zero<T>::value()) { return lalib::DynVec<T>::filled(n, Zero<T>::value()); }
-    q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
+    q.emplace_back((One<T>::value() / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
     auto c = std::vector<T>();
@@ -83,7 +83,7 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     // Transform the solution from the Krylov subspace
     auto x = lalib::DynVec<T>::filled(n, Zero<T>::value());
     for (auto i = 0u; i < beta.size() - 1; ++i) {
-        axpy(1.0, beta[i] * q[i], x);
+        axpy(One<T>::value(), beta[i] * q[i], x);
     }
 
     return x;
@@ -106,11 +106,11 @@ void Gmres<T, M>::_arnoldi(std::vector<DynVec<T>>& q, HessenbergMat<T>& hess, T&
         hess(j, i) = dot(q[j], v);
     }
     for (auto j: std::views::iota(0u, i + 1)) {
-        axpy(-1.0, hess(j, i) * q[j], v);
+        axpy(-One<T>::value(), hess(j, i) * q[j], v);
     }
 
     h = v.norm2();
-    q.emplace_back((1.0 / h) * v);
+    q.emplace_back((One<T>::value() / h) * v);
 }
 
 template<typename T, typename M>
-- 
2.43.0


From 17ecb2e41a2836fafa8b5fe362447cc8b653f70f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:49 +0000
Subject: [PATCH 20/23] fix: zero and one of complex element types (matrices,
 identities, products)

---
 include/lalib/ops/ops_traits.hpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/ops_traits.hpp b/include/lalib/ops/ops_traits.hpp
index 4c257f1..7993319 100644
--- a/include/lalib/ops/ops_traits.hpp
+++ b/include/lalib/ops/ops_traits.hpp
@@ -9,30 +9,36 @@ namespace lalib {
 
 // === Zero === //
 
+template<typename T>
+struct Zero;
+
 template<typename T>
 requires std::floating_point<T>
-struct Zero {
+struct Zero<T> {
     static auto value() noexcept -> T { return 0.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct Zero<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(0.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(0.0, 0.0); }
 };
 
 // === One === //
 
+template<typename T>
+struct One;
+
 template<typename T>
 requires std::floating_point<T>
-struct One {
+struct One<T> {
     static auto value() noexcept -> T { return 1.0; }
 };
 
 template<typename T>
 requires std::floating_point<T>
 struct One<std::complex<T>> {
-    static auto value() noexcept -> T { return std::complex<T>(1.0, 0.0); }
+    static auto value() noexcept -> std::complex<T> { return std::complex<T>(1.0, 0.0); }
 };
 
 
-- 
2.43.0


From 5339233404374d7af47f576f0555b2787fdd7949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:52:47 +0000
Subject: [PATCH 21/23] fix: cross products of a dynamic with a sized vector
 did not compile

---
 include/lalib/ops/vec_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 1d28130..02b8714 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -541,7 +541,7 @@ inline auto cross(const SizedVec<T, 3>& x, const DynVec<T>& y, DynVec<T>& vr) no
 template<typename T>
 inline auto cross(const DynVec<T>& x, const SizedVec<T, 3>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
@@ -563,7 +563,7 @@ template<typename T>
 inline auto cross(const DynVec<T>& x, const DynVec<T>& y) noexcept -> SizedVec<T, 3> {
     assert(x.size() == 3);
     assert(y.size() == 3);
-    auto vr = x;
+    auto vr = SizedVec<T, 3>::uninit();
     cross3_core(x.data(), y.data(), vr.data());
     return vr;
 }
-- 
2.43.0


From e7732d172f382435c78222fff5ef38ba103ff557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:05:32 +0000
Subject: [PATCH 22/23] fix: complex axpy of a vector onto itself with the BLAS
 backend

---
 include/lalib/ops/vec_ops_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index acd0743..0ee6a1a 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -183,7 +183,9 @@ inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t
 template<>
 inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std::complex<float>* vx, std::complex<float>* vy, size_t size) noexcept -> std::complex<float>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow its operands to overlap
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_caxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -193,7 +195,9 @@ inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std:
 template<>
 inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const std::complex<double>* vx, std::complex<double>* vy, size_t size) noexcept -> std::complex<double>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow its operands to overlap
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_zaxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
-- 
2.43.0


From faf8d7b471c99606ecf253c09d4cb1aba14b9ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:12 +0000
Subject: [PATCH 23/23] fix: a sparse matrix may be narrower than the vector it
 is multiplied with

---
 include/lalib/ops/mat_vec_ops.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/mat_vec_ops.hpp b/include/lalib/ops/mat_vec_ops.hpp
index 348a452..264a0e9 100644
--- a/include/lalib/ops/mat_vec_ops.hpp
+++ b/include/lalib/ops/mat_vec_ops.hpp
@@ -49,7 +49,7 @@ inline auto mul(T alpha, const DynMat<T>& mat, const DynVec<T>& v, T beta, DynVe
 template<typename T>
 inline auto mul(T alpha, const SpMat<T>& mat, const DynVec<T>& v, T beta, DynVec<T>& vr) noexcept -> DynVec<T>& {
     auto [n, m] = mat.shape();
-    assert(m == v.size());
+    assert(m <= v.size());
     assert(n == vr.size());
     _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), alpha, mat.values().data(), v.data(), beta, vr.data());
     return vr;
@@ -92,7 +92,7 @@ inline auto operator*(const DynMat<T>& mat, const DynVec<T>& vec) noexcept -> Dy
 template<typename T>
 inline auto operator*(const SpMat<T>& mat, const DynVec<T>& vec) noexcept -> DynVec<T> {
     auto [n, m] = mat.shape();
-    assert(m == vec.size());
+    assert(m <= vec.size());
     auto vr = DynVec<T>::uninit(n);
     _sp_mul_core(n, mat.col_indices().data(), mat.row_ptr().data(), One<T>::value(), mat.values().data(), vec.data(), Zero<T>::value(), vr.data());
     return vr;
-- 
2.43.0

