From a4a7069d81f0df1b95d93e0181d3cf23cc348f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 01/25] fix: pass the row stride of C to gemm as leading
 dimension

The row-major C of an n x m product has stride m, not n: non-square products
were laid out wrongly or written past the end of the result.
---
 include/lalib/ops/mat_mat_ops_core.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lalib/ops/mat_mat_ops_core.hpp b/include/lalib/ops/mat_mat_ops_core.hpp
index be1f614..0d30a8f 100644
--- a/include/lalib/ops/mat_mat_ops_core.hpp
+++ b/include/lalib/ops/mat_mat_ops_core.hpp
@@ -61,10 +61,10 @@ inline auto mul_core<float>(size_t n, size_t m, size_t l, float alpha, const flo
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<float[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_sgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
@@ -78,10 +78,10 @@ inline auto mul_core<double>(size_t n, size_t m, size_t l, double alpha, const d
     if (mata == matc || matb == matc) {
         auto tmp = std::make_unique<double[]>(n * m);
         std::copy(matc, matc + n * m, tmp.get());
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, tmp.get(), m);
         std::copy(tmp.get(), tmp.get() + n * m, matc);
     } else {
-        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, n);
+        cblas_dgemm(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, CBLAS_TRANSPOSE::CblasNoTrans, n, m, l, alpha, mata, l, matb, m, beta, matc, m);
     }
     #else
     __mul_core_simd(n, m, l, alpha, mata, matb, beta, matc);
-- 
2.43.0


From 7d37e8a414e1a9c48f0a6a8d84102a82a9ddfbad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 02/25] fix: keep beta * y when the BLAS mat-vec product is
 computed in place

The temporary result was not initialised with y, so the beta term was lost.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index d5db0dc..59cd56e 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -74,6 +74,7 @@ inline auto mul_core<float>(size_t n, size_t m, float alpha, const float* mat, c
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<float[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_sgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
@@ -90,6 +91,7 @@ inline auto mul_core<double>(size_t n, size_t m, double alpha, const double* mat
     #if defined(LALIB_BLAS_BACKEND)
     if (x == y) {
         auto tmp = std::make_unique<double[]>(n);
+        std::copy(y, y + n, tmp.get());
         cblas_dgemv(CBLAS_LAYOUT::CblasRowMajor, CBLAS_TRANSPOSE::CblasNoTrans, n, m, alpha, mat, std::max<size_t>(1u, m), x, 1, beta, tmp.get(), 1);
         std::copy(tmp.get(), tmp.get() + n, y);
     } else {
-- 
2.43.0


From ef081967feec078c4fa312c8892d36f21b93be25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 03/25] fix: report a Cholesky breakdown at the first pivot

The row index was returned as the error code, so a failure at row 0 looked
like success. Return the order of the failing minor, as potrf does.
---
 include/lalib/solver/internal/cholesky_decomposition.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/internal/cholesky_decomposition.hpp b/include/lalib/solver/internal/cholesky_decomposition.hpp
index dcd5c4b..2cbea97 100644
--- a/include/lalib/solver/internal/cholesky_decomposition.hpp
+++ b/include/lalib/solver/internal/cholesky_decomposition.hpp
@@ -37,10 +37,10 @@ auto cholesky_decomposition(size_t n, double* l) -> int32_t {
 		} 
 
 		if (l[index<MType>(n, i, i)] == 0) { 
-            return i;
+            return i + 1;
 		} 
 		else if (l[index<MType>(n, i, i)] < 0) { 
-            return i;
+            return i + 1;
 		}
 
 		l[index<MType>(n, i, i)] = std::sqrt( l[index<MType>(n, i, i)] );
-- 
2.43.0


From 7694a1b9ee8e4e4b7c4d29ade381695cf2bc49fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 04/25] fix: do not return a dangling reference for off-band
 tri-diagonal elements

---
 include/lalib/mat/dyn_mat.hpp   | 4 +++-
 include/lalib/mat/sized_mat.hpp | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index f81c6c1..330b0bb 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -265,6 +265,8 @@ private:
     std::vector<T> _dl;
     std::vector<T> _d;
     std::vector<T> _du;
+
+    static constexpr T _zero{};
 };
 
 template <typename T>
@@ -290,7 +292,7 @@ inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) const ->
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T>
 inline constexpr auto DynTriDiagMat<T>::operator()(size_t i, size_t j) -> T &
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index d2bba69..cd59480 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -285,6 +285,8 @@ private:
     std::array<T, N - 1>    _dl;
     std::array<T, N>        _d;
     std::array<T, N - 1>    _du;
+
+    static constexpr T _zero{};
 };
 
 template <typename T, size_t N>
@@ -304,7 +306,7 @@ inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) cons
     if (i == j)             return this->_d[i];
     else if ( i == j - 1 )  return this->_du[i];
     else if ( i == j + 1 )  return this->_dl[i - 1];
-    else                    return Zero<T>::value();
+    else                    return _zero;
 }
 template <typename T, size_t N>
 inline constexpr auto SizedTriDiagMat<T, N>::operator()(size_t i, size_t j) -> T &
-- 
2.43.0


From 4a5680c1b4c987653befdc85d042abae3d34ce58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 05/25] fix: do not read the first elements of empty vectors in
 dot

---
 include/lalib/ops/vec_ops_core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 4babe41..478cfe7 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -205,7 +205,8 @@ inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const st
 
 template<typename T>
 inline auto __dot_core_simd(const T* v1, const T* v2, size_t size) -> T {
-    auto r = v1[0] * v2[0];
+    if (size == 0) { return T(); }
+    T r = v1[0] * v2[0];
     #pragma omp simd reduction(+:r)
     for (auto i = 1u; i < size; ++i) {
         r += v1[i] * v2[i];
-- 
2.43.0


From 4dea248922857c00e75f01421f89cbd13dd1f333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 06/25] fix: reject a result vector of another size in add and
 sub

The operation wrote past the end of a shorter result vector.
---
 include/lalib/ops/vec_ops.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 2694bcb..a4ff004 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -296,6 +296,7 @@ auto add(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto add(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     add_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
@@ -343,6 +344,7 @@ auto sub(const DynVec<T> &v1, const SizedVec<T, N> &v2, SizedVec<T, N> &vr) -> S
 template<typename T>
 inline auto sub(const DynVec<T>& v1, const DynVec<T>& v2, DynVec<T>& vr) -> DynVec<T>& {
     __check_size(v1.size(), v2.size());
+    __check_size(v1.size(), vr.size());
     sub_core(v1.data(), v2.data(), vr.data(), v1.size());
     return vr;
 }
-- 
2.43.0


From 5495417b8ac59ba33dedb68647b65441a92e5b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 07/25] fix: let SizeMismatched leave neg, axpy and dot of
 dynamic vectors

They check the sizes and throw, but were noexcept: a mismatch ended the program.
---
 include/lalib/ops/vec_ops.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index a4ff004..845213b 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -24,7 +24,7 @@ template<typename T, size_t N>
 inline auto neg(const SizedVec<T, N>& v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto neg(const DynVec<T>& v, DynVec<T>& vr) noexcept -> DynVec<T>&;
+inline auto neg(const DynVec<T>& v, DynVec<T>& vr) -> DynVec<T>&;
 
 
 template<typename T, size_t N>
@@ -113,7 +113,7 @@ template<typename T, size_t N>
 inline auto axpy(T alpha, const SizedVec<T, N>& x, SizedVec<T, N>& y) noexcept -> SizedVec<T, N>&;
 
 template<typename T>
-inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) noexcept -> DynVec<T>&;
+inline auto axpy(T alpha, const DynVec<T>& x, DynVec<T>& y) -> DynVec<T>&;
 
 
 /// @brief      Calculate scalar multipliation of vectors
@@ -160,7 +160,7 @@ template<typename T, size_t N>
 inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T;
 
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T;
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T;
 
 
 template<typename T>
@@ -245,7 +245,7 @@ auto neg(const SizedVec<T, N> &v, SizedVec<T, N>& vr) noexcept -> SizedVec<T, N>
 }
 
 template <typename T>
-auto neg(const DynVec<T> &v, DynVec<T>& vr) noexcept -> DynVec<T> &
+auto neg(const DynVec<T> &v, DynVec<T>& vr) -> DynVec<T> &
 {
     __check_size(v.size(), vr.size());
     __neg_core_simd(v.data(), vr.data(), v.size());
@@ -375,7 +375,7 @@ auto axpy(T alpha, const SizedVec<T, N> &x, SizedVec<T, N> &y) noexcept -> Sized
     return y;
 }
 template <typename T>
-auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) noexcept -> DynVec<T> &
+auto axpy(T alpha, const DynVec<T> &x, DynVec<T> &y) -> DynVec<T> &
 {
     __check_size(x.size(), y.size());
     axpy_core(alpha, x.data(), y.data(), x.size());
@@ -460,7 +460,7 @@ inline auto dot(const SizedVec<T, N>& x, const SizedVec<T, N>& y) noexcept -> T
     return d;
 }
 template<typename T>
-inline auto dot(const DynVec<T>& x, const DynVec<T>& y) noexcept -> T {
+inline auto dot(const DynVec<T>& x, const DynVec<T>& y) -> T {
     T d;
     __check_size(x.size(), y.size());
     d = dot_core(x.data(), y.data(), x.size());
-- 
2.43.0


From cde9c5de9fea3e33c1f2ee20f3a8e770d7e800e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 08/25] fix: return the result of sub(SizedVec, DynVec,
 SizedVec)

It returned the const first operand and did not compile when used.
---
 include/lalib/ops/vec_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/ops/vec_ops.hpp b/include/lalib/ops/vec_ops.hpp
index 845213b..1d28130 100644
--- a/include/lalib/ops/vec_ops.hpp
+++ b/include/lalib/ops/vec_ops.hpp
@@ -330,7 +330,7 @@ auto sub(const SizedVec<T, N> &v1, const DynVec<T> &v2, SizedVec<T, N> &vr) -> S
 {
     __check_size(v1.size(), v2.size());
     sub_core(v1.data(), v2.data(), vr.data(), N);
-    return v1;
+    return vr;
 }
 
 template <typename T, size_t N>
-- 
2.43.0


From 1f6675a34cdd9c9e9fb8fb905453bba391c5c08a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:03 +0000
Subject: [PATCH 09/25] fix: check the size in SizedVec::dot(DynVec)

As DynVec::dot does; a shorter vector was read past its end.
---
 include/lalib/vec/sized_vec.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/vec/sized_vec.hpp b/include/lalib/vec/sized_vec.hpp
index 0236cb8..fab5f42 100644
--- a/include/lalib/vec/sized_vec.hpp
+++ b/include/lalib/vec/sized_vec.hpp
@@ -6,6 +6,7 @@
 #include <array>
 #include <vector>
 #include <initializer_list>
+#include "lalib/err/error.hpp"
 #include "lalib/ops/vec_ops_core.hpp"
 
 namespace lalib {
@@ -74,7 +75,7 @@ public:
 
     // === Operations === //
     constexpr auto dot(const SizedVec<T, N>& v) const noexcept -> T;
-    constexpr auto dot(const DynVec<T>& v) const noexcept -> T;
+    constexpr auto dot(const DynVec<T>& v) const -> T;
 
     constexpr auto norm2() const noexcept -> T;
 
@@ -205,9 +206,12 @@ inline constexpr auto SizedVec<T, N>::dot(const SizedVec<T, N> &v) const noexcep
 }
 
 template <typename T, size_t N>
-inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const noexcept -> T
+inline constexpr auto SizedVec<T, N>::dot(const DynVec<T> &v) const -> T
 {
     T d;
+    if (v.size() != N) {
+        throw vec_error::SizeMismatched(N, v.size());
+    }
     d = dot_core(this->data(), v.data(), this->size());
     return d;
 }
-- 
2.43.0


From 616d81b67328c64fdc15e03810e1e70c7b2c28a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 10/25] fix: keep the matrix of TriDiag intact across LAPACK
 solves

gtsv overwrites the diagonals with factors, so only the first solve was right.
---
 include/lalib/solver/tri_diag.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 844ddd1..5b25154 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -54,8 +54,9 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
     auto n = this->_mat.shape().first;
 
     #if defined(LALIB_LAPACK_BACKEND)
+    auto mat = this->_mat;  // gtsv overwrites the diagonals
     rslt = b;
-    _lapack_::gtsv(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), 1);
+    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -74,8 +75,9 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
     auto nrow = b.shape().second;
 
     #if defined(LALIB_LAPACK_BACKEND)
+    auto mat = this->_mat;  // gtsv overwrites the diagonals
     rslt = b;
-    _lapack_::gtsv(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), rslt.data(), rslt.shape().second);
+    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From b7b40641f52aadd1e64906588ee420f6cdfcd2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 11/25] fix: report a failed tri-diagonal LAPACK solve

The status of gtsv was ignored and the failed result returned as a solution.
---
 include/lalib/solver/tri_diag.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/lalib/solver/tri_diag.hpp b/include/lalib/solver/tri_diag.hpp
index 5b25154..518ad6d 100644
--- a/include/lalib/solver/tri_diag.hpp
+++ b/include/lalib/solver/tri_diag.hpp
@@ -6,6 +6,8 @@
 #include "lalib/vec.hpp"
 #include "lalib/type_traits.hpp"
 #include <concepts>
+#include <stdexcept>
+#include <string>
 #include <vector>
 #include <utility>
 
@@ -25,10 +27,10 @@ public:
     TriDiag(M&& mat) noexcept;
 
     template<Vector V>
-    auto solve_linear(const V& b, V& rslt) noexcept -> V&;
+    auto solve_linear(const V& b, V& rslt) -> V&;
 
     template<Matrix M1>
-    auto solve_linear(const M1& b, M1& rslt) noexcept -> M1&;
+    auto solve_linear(const M1& b, M1& rslt) -> M1&;
 
 private:
     M _mat;
@@ -48,7 +50,7 @@ inline TriDiag<M>::TriDiag(M &&mat) noexcept: _mat(std::move(mat))
 template <TriDiagMatrix M>
 requires std::floating_point<typename M::ElemType>
 template <Vector V>
-inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
+inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) -> V &
 {
     assert(this->_mat.shape().first == b.size());
     auto n = this->_mat.shape().first;
@@ -56,7 +58,10 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
     #if defined(LALIB_LAPACK_BACKEND)
     auto mat = this->_mat;  // gtsv overwrites the diagonals
     rslt = b;
-    _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
+    auto info = _lapack_::gtsv(n, 1, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), 1);
+    if (info != 0) {
+        throw std::runtime_error("[error] fail to solve the tri-diagonal system (exit with code: " + std::to_string(info) + ")");
+    }
     #else
     _internal_::tdma(n, 1, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
@@ -67,7 +72,7 @@ inline auto TriDiag<M>::solve_linear(const V &b, V &rslt) noexcept -> V &
 template<TriDiagMatrix M>
 requires std::floating_point<typename M::ElemType>
 template<Matrix M1>
-inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noexcept -> M1 &
+inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) -> M1 &
 {
     assert(this->_mat.shape().first == b.shape().first);
     assert(b.shape() == rslt.shape());
@@ -77,7 +82,10 @@ inline auto lalib::solver::TriDiag<M>::solve_linear(const M1 & b, M1 & rslt) noe
     #if defined(LALIB_LAPACK_BACKEND)
     auto mat = this->_mat;  // gtsv overwrites the diagonals
     rslt = b;
-    _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
+    auto info = _lapack_::gtsv(n, nrow, mat.data_dl(), mat.data_d(), mat.data_du(), rslt.data(), rslt.shape().second);
+    if (info != 0) {
+        throw std::runtime_error("[error] fail to solve the tri-diagonal system (exit with code: " + std::to_string(info) + ")");
+    }
     #else
     _internal_::tdma(n, nrow, this->_mat.data_dl(), this->_mat.data_d(), this->_mat.data_du(), b.data(), rslt.data());
     #endif
-- 
2.43.0


From ccc949ab07a92f8af80ed6c38145e80013508120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 12/25] fix: report a failed LAPACK solve of a Cholesky
 factorization

The status of potrs was ignored and the untouched rhs returned as a solution.
---
 .../lalib/solver/cholesky_factorization.hpp   | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lalib/solver/cholesky_factorization.hpp b/include/lalib/solver/cholesky_factorization.hpp
index 9b94a40..a1f2b4e 100644
--- a/include/lalib/solver/cholesky_factorization.hpp
+++ b/include/lalib/solver/cholesky_factorization.hpp
@@ -177,7 +177,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(V& rhs) const -> V& {
    	assert(this->_data.shape().first == rhs.size());
 
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
+	auto info = _lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rhs.data(), 1);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the factorized system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<double, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rhs.data());
@@ -192,7 +195,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const V& rhs) const -> V {
 
 	auto rslt = rhs;
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
+	auto info = _lapack_::potrs(rhs.size(), 1, this->_data.data(), this->_n, rslt.data(), 1);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the factorized system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<double, _internal_::MemType::Square>
 		(rhs.size(), 1, this->_data.data(), rhs.data(), rslt.data());
@@ -208,7 +214,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear_mut(M& rhs) const -> M& {
    	assert(rhs.shape().second == rhs.shape().second);
 
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
+	auto info = _lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rhs.data(), rhs.shape().second);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the factorized system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<double, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rhs.data());
@@ -225,7 +234,10 @@ inline auto DynCholeskyFactorization<T>::solve_linear(const M& rhs) const -> M {
 
 	auto rslt = rhs;
 	#if defined LALIB_LAPACK_BACKEND
-	_lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
+	auto info = _lapack_::potrs(rhs.shape().first, rhs.shape().second, this->_data.data(), this->_n, rslt.data(), rslt.shape().second);
+	if (info != 0) {
+		throw std::runtime_error("[error] fail to solve the factorized system (exit with code: " + std::to_string(info) + ")");
+	}
 	#else
 	_internal_::cholesky_linear<double, _internal_::MemType::Square>
 		(rhs.shape().first, rhs.shape().second, this->_data.data(), rhs.data(), rslt.data());
-- 
2.43.0


From 5dee2b4e83206d5140de4d292085696096ca5f51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 13/25] fix: add a row of a COO matrix to a matrix where that
 row is empty

The cursor of the empty row pointed into the next row (or past the end), so
elements were added to an element of another row.
---
 include/lalib/mat/sp_mat.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index d8401c9..7e712bf 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -382,7 +382,7 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
         auto rcursor_end = std::distance(mat._row_ids.begin(), rrow_iter_end) - 1;
 
         while (rcursor <= rcursor_end) {
-            if (this->_col_ids[cursor] == mat._col_ids[rcursor]) {
+            if (cursor <= cursor_end && this->_col_ids[cursor] == mat._col_ids[rcursor]) {
                 this->_val[cursor] += mat._val[rcursor];
 
                 if (rcursor == rcursor_end) { break; }
@@ -391,7 +391,7 @@ auto SpCooMat<T>::operator+=(const SpCooMat<T>& mat) -> SpCooMat<T>& {
                     if (rcursor < rcursor_end) { ++rcursor; }
                 }
             }
-            else if (this->_col_ids[cursor] < mat._col_ids[rcursor]) {
+            else if (cursor <= cursor_end && this->_col_ids[cursor] < mat._col_ids[rcursor]) {
                 if (cursor < cursor_end) { ++cursor; }
                 else {
                     this->_val.emplace_back(mat._val[rcursor]);
-- 
2.43.0


From 3717236973c873ff59042fbae07c36da85ce91fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 14/25] fix: give empty sparse matrices a shape without reading
 past their end

---
 include/lalib/mat/sp_mat.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index 7e712bf..a4320a4 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -308,6 +308,8 @@ auto SpCooMat<T>::unit(size_t n) -> SpCooMat<T> {
 
 template<typename T>
 constexpr auto SpCooMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
+    if (this->_val.empty()) { return std::make_pair(0, 0); }
+
     size_t nrow = *std::ranges::max_element(this->_row_ids) + 1;
     size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
 
@@ -520,8 +522,8 @@ auto SpMat<T>::unit(size_t n) -> SpMat<T> {
 
 template<typename T>
 constexpr auto SpMat<T>::shape() const noexcept -> std::pair<size_t, size_t> {
-    size_t nrow = this->_row_ptr.size() - 1;
-    size_t ncol = *std::ranges::max_element(this->_col_ids) + 1;
+    size_t nrow = this->_row_ptr.empty() ? 0 : this->_row_ptr.size() - 1;
+    size_t ncol = this->_col_ids.empty() ? 0 : *std::ranges::max_element(this->_col_ids) + 1;
 
     return std::make_pair(nrow, ncol);
 }
-- 
2.43.0


From ab6dcba4ba14cf143ea0dc858a04ca301c7b4e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 15/25] fix: initialise the size of a default-constructed upper
 triangular matrix

---
 include/lalib/mat/dyn_mat.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 330b0bb..b42fec3 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -531,7 +531,7 @@ struct DynUpperTriMat {
     auto data() noexcept -> T*;
 
 private:
-    size_t _n;
+    size_t _n = 0;
     std::vector<T> _upper_elems;
 
     const T _zero = Zero<T>::value();
-- 
2.43.0


From 63de1620d7cbde8ffa51da76d6c8715b02aedd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 16/25] fix: extend an empty Hessenberg matrix with its single
 element

Two elements were required, which misaligned every column added afterwards.
---
 include/lalib/mat/dyn_mat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index b42fec3..3a4e329 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -466,8 +466,9 @@ void HessenbergMat<T>::extend_with_zero() noexcept {
 
 template<typename T>
 void HessenbergMat<T>::extend_with(std::vector<T>&& new_elems) {
-    if (new_elems.size() != this->_n + 2) {
-        throw std::invalid_argument("New components must have length n + 2 = " + std::to_string(this->_n + 2));
+    auto len = this->_n == 0 ? 1 : this->_n + 2;
+    if (new_elems.size() != len) {
+        throw std::invalid_argument("New components must have length " + std::to_string(len));
     }
     this->_h.insert(this->_h.end(), new_elems.begin(), new_elems.end());
     this->_n += 1;
-- 
2.43.0


From 80ead0a302378111e39e926c7c7ba4ac5aff0fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 17/25] fix: solve tri-diagonal systems of order 0 and 1
 without reading outside the diagonals

---
 include/lalib/solver/internal/tdma.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/lalib/solver/internal/tdma.hpp b/include/lalib/solver/internal/tdma.hpp
index 23fcb3e..2b65576 100644
--- a/include/lalib/solver/internal/tdma.hpp
+++ b/include/lalib/solver/internal/tdma.hpp
@@ -10,7 +10,13 @@ namespace lalib::solver::_internal_ {
 template<typename T>
 requires ::std::floating_point<T>
 auto tdma(size_t n, size_t nrow, const T* dl, const T* d, const T* du, const T* b, T* x) -> T* {
+    if (n == 0) { return x; }
     for (auto k = 0u; k < nrow; ++k) {
+        if (n == 1) {
+            x[k] = b[k] / d[0];
+            continue;
+        }
+
         std::vector<T> p, q;
         p.reserve(n);
         q.reserve(n);
-- 
2.43.0


From 01a0862296f380a94d6d0587bfe3520c81c380c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 18/25] fix: report a zero pivot in any row of the LU
 factorization

Only pivots used by a later row were checked, so a singular matrix with a zero
last pivot was accepted and solved by a division by zero.
---
 include/lalib/solver/ilu.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lalib/solver/ilu.hpp b/include/lalib/solver/ilu.hpp
index 13dff23..45bddfe 100644
--- a/include/lalib/solver/ilu.hpp
+++ b/include/lalib/solver/ilu.hpp
@@ -57,6 +57,8 @@ namespace internal {
                     mat.mut_at(i, j) = sum;
                 }
             }
+
+            if (mat(i, i) == 0) { return false; }
         }
 
         return true;
-- 
2.43.0


From fc6efe864b853496fba9ee3bb3ad52c13d89e632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 19/25] fix: return the zero solution of GMRES for a zero
 right-hand side

The first basis vector was normalised by zero and the solution was NaN.
---
 include/lalib/solver/gmres.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/solver/gmres.hpp b/include/lalib/solver/gmres.hpp
index ca0684e..c29d983 100644
--- a/include/lalib/solver/gmres.hpp
+++ b/include/lalib/solver/gmres.hpp
@@ -48,6 +48,9 @@ auto Gmres<T, M>::solve(const lalib::DynVec<T>& rhs) const -> lalib::DynVec<T> {
     
     // Initial Krylov subspace basis
     auto b_prime = this->_lu.solve(rhs);
+    if (b_prime.norm2() == 0) {
+        return lalib::DynVec<T>::filled(n, Zero<T>::value());
+    }
     q.emplace_back((1.0 / b_prime.norm2()) * b_prime);
 
     // Givens rotation components
-- 
2.43.0


From 77720fb395c6e54f6b7d438b6fa4cb7238f083de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:45 +0000
Subject: [PATCH 20/25] fix: compute in-place sparse mat-vec products from the
 original vector

As the dense product does: later rows used elements already overwritten.
---
 include/lalib/ops/mat_vec_ops_core.hpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/lalib/ops/mat_vec_ops_core.hpp b/include/lalib/ops/mat_vec_ops_core.hpp
index 59cd56e..89134c1 100644
--- a/include/lalib/ops/mat_vec_ops_core.hpp
+++ b/include/lalib/ops/mat_vec_ops_core.hpp
@@ -53,6 +53,19 @@ inline auto __mul_core_simd(size_t n, size_t m, T alpha, const T* mat, const T*
 
 template<typename T>
 inline auto _sp_mul_core(size_t n, const size_t* col_ids, const size_t* row_ptr, T alpha, const T* mat, const T* x, T beta, T* y) noexcept -> T* {
+    // If the pointers of the multiplier and one storing the result are the same
+    if (x == y) {
+        auto tmp = std::make_unique<T[]>(n);
+        for (auto i = 0u; i < n; ++i) {
+            tmp[i] = beta * y[i];
+            for (auto k = row_ptr[i]; k < row_ptr[i + 1]; ++k) {
+                tmp[i] += alpha * mat[k] * x[col_ids[k]];
+            }
+        }
+        std::copy(tmp.get(), tmp.get() + n, y);
+        return y;
+    }
+
     #pragma omp simd
     for (auto i = 0u; i < n; ++i) {
         y[i] = beta * y[i];
-- 
2.43.0


From c9d9b98795f6f8ff074399bcd84987c7de991bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:46 +0000
Subject: [PATCH 21/25] fix: complex axpy with the same vector as both operands
 on the BLAS backend

---
 include/lalib/ops/vec_ops_core.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 478cfe7..896563a 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -183,7 +183,9 @@ inline auto axpy_core<double>(double alpha, const double* vx, double* vy, size_t
 template<>
 inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std::complex<float>* vx, std::complex<float>* vy, size_t size) noexcept -> std::complex<float>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_caxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow its operands to overlap.
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_caxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
@@ -193,7 +195,9 @@ inline auto axpy_core<std::complex<float>>(std::complex<float> alpha, const std:
 template<>
 inline auto axpy_core<std::complex<double>>(std::complex<double> alpha, const std::complex<double>* vx, std::complex<double>* vy, size_t size) noexcept -> std::complex<double>* {
     #ifdef LALIB_BLAS_BACKEND
-    cblas_zaxpy(size, &alpha, vx, 1, vy, 1);
+    // BLAS does not allow its operands to overlap.
+    if (vx == vy) { __axpy_core_simd(alpha, vx, vy, size); }
+    else { cblas_zaxpy(size, &alpha, vx, 1, vy, 1); }
     #else
     __axpy_core_simd(alpha, vx, vy, size);
     #endif
-- 
2.43.0


From 322ef0e35915d4376b5f2c80eccfa2fb18a83c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:13 +0000
Subject: [PATCH 22/25] fix: SpMat::mut_at rejects rows outside the matrix

---
 include/lalib/mat/sp_mat.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lalib/mat/sp_mat.hpp b/include/lalib/mat/sp_mat.hpp
index a4320a4..ba9c6f7 100644
--- a/include/lalib/mat/sp_mat.hpp
+++ b/include/lalib/mat/sp_mat.hpp
@@ -550,6 +550,9 @@ auto SpMat<T>::at(size_t i, size_t j) const noexcept -> const T& {
 
 template<typename T>
 auto SpMat<T>::mut_at(size_t i, size_t j) -> T& {
+    if (i >= this->shape().first) {
+        throw std::out_of_range("Index out of range or does not point to a non-zero element.");
+    }
     for (auto cnt: std::views::iota(this->_row_ptr[i], this->_row_ptr[i + 1])) {
         if (this->_col_ids[cnt] == j) {
             return this->_val[cnt];
-- 
2.43.0


From cab519475aba0fff7b2491be5584df8e35269c2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:56 +0000
Subject: [PATCH 23/25] fix: DynUpperTriMat rejects elements of the wrong
 number instead of terminating

---
 include/lalib/mat/dyn_mat.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index 3a4e329..cd03c2a 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -497,7 +497,8 @@ struct DynUpperTriMat {
     DynUpperTriMat() noexcept = default;
 
     /// @brief Creates a upper triangular matrix with given elements.
-    DynUpperTriMat(std::vector<T>&& upper_elems) noexcept;
+    /// @exception std::invalid_argument if the number of elements does not fit any upper triangular matrix.
+    DynUpperTriMat(std::vector<T>&& upper_elems);
 
     /// @brief Creates an empty upper triangular matrix by allocating memory for the given capacity.
     static constexpr auto with_capacity(size_t cap) noexcept -> DynUpperTriMat<T>;
@@ -551,7 +552,7 @@ private:
 };
 
 template<typename T>
-DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems) noexcept:
+DynUpperTriMat<T>::DynUpperTriMat(std::vector<T>&& upper_elems):
     _n(_calc_size(upper_elems.size())),
     _upper_elems(std::move(upper_elems))
 {}
-- 
2.43.0


From 18d67d65468bc1c856406bf905597dd05548f47a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:26 +0000
Subject: [PATCH 24/25] fix: lower triangular matrices are zero above the
 diagonal

---
 include/lalib/mat/dyn_mat.hpp   | 6 ++++--
 include/lalib/mat/sized_mat.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/lalib/mat/dyn_mat.hpp b/include/lalib/mat/dyn_mat.hpp
index cd03c2a..c78a3b8 100644
--- a/include/lalib/mat/dyn_mat.hpp
+++ b/include/lalib/mat/dyn_mat.hpp
@@ -661,6 +661,8 @@ struct DynLowerTriMat {
 private:
     size_t _n;
     std::vector<T> _lower_elems;
+
+    static constexpr T _zero{};
 };
 
 template<typename T>
@@ -676,13 +678,13 @@ constexpr auto DynLowerTriMat<T>::shape() const noexcept -> std::pair<size_t, si
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T>
 constexpr auto DynLowerTriMat<T>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
diff --git a/include/lalib/mat/sized_mat.hpp b/include/lalib/mat/sized_mat.hpp
index cd59480..cace0f2 100644
--- a/include/lalib/mat/sized_mat.hpp
+++ b/include/lalib/mat/sized_mat.hpp
@@ -386,6 +386,8 @@ struct SizedLowerTriMat {
 
 private:
     std::array<T, N * (N + 1) / 2> _lower_elems;
+
+    static constexpr T _zero{};
 };
 
 template<typename T, size_t N>
@@ -401,13 +403,13 @@ constexpr auto SizedLowerTriMat<T, N>::shape() const noexcept -> std::pair<size_
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) const -> const T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { return _zero; }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
 template<typename T, size_t N>
 constexpr auto SizedLowerTriMat<T, N>::operator()(size_t i, size_t j) -> T& {
-    if (i < j) { std::swap(i, j); }
+    if (i < j) { throw std::invalid_argument("Zero component cannot be modified."); }
     return this->_lower_elems[i * (i + 1) / 2 + j];
 }
 
-- 
2.43.0


From 1ddcad9d162f29e75ef248d7443dfc3882b9b0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:24 +0000
Subject: [PATCH 25/25] fix: accelerated sums and differences map their
 operands to the device

---
 include/lalib/ops/vec_ops_core.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/lalib/ops/vec_ops_core.hpp b/include/lalib/ops/vec_ops_core.hpp
index 896563a..de7a32f 100644
--- a/include/lalib/ops/vec_ops_core.hpp
+++ b/include/lalib/ops/vec_ops_core.hpp
@@ -47,7 +47,10 @@ inline auto __add_core_parallel(const T* v1, const T* v2, T* vr, size_t size) no
 
 template<typename T>
 inline auto __add_core_accelerator(const T* v1, const T* v2, T* vr, size_t size) noexcept -> T* {
-    #pragma omp target teams distribute parallel for
+    // The operands may be one and the same object: one construct for each of them.
+    #pragma omp target data map(to: v1[0:size])
+    #pragma omp target data map(to: v2[0:size])
+    #pragma omp target teams distribute parallel for map(always, tofrom: vr[0:size])
     for (auto i = 0u; i < size; ++i) {
         vr[i] = v1[i] + v2[i];
     }
@@ -97,7 +100,10 @@ inline auto __sub_core_parallel(const T* v1, const T* v2, T* vr, size_t size) no
 
 template<typename T>
 inline auto __sub_core_accelerator(const T* v1, const T* v2, T* vr, size_t size) noexcept -> T* {
-    #pragma omp target teams distribute parallel for
+    // The operands may be one and the same object: one construct for each of them.
+    #pragma omp target data map(to: v1[0:size])
+    #pragma omp target data map(to: v2[0:size])
+    #pragma omp target teams distribute parallel for map(always, tofrom: vr[0:size])
     for (auto i = 0u; i < size; ++i) {
         vr[i] = v1[i] - v2[i];
     }
@@ -147,7 +153,8 @@ inline auto __axpy_core_parallel(T alpha, const T* vx, T* vy, size_t size) noexc
 
 template<typename T>
 inline auto __axpy_core_accelerator(T alpha, const T* vx, T* vy, size_t size) noexcept -> T* {
-    #pragma omp target teams distribute parallel for
+    #pragma omp target data map(to: vx[0:size])
+    #pragma omp target teams distribute parallel for map(always, tofrom: vy[0:size])
     for (auto i = 0u; i < size; ++i) {
         vy[i] = alpha * vx[i] + vy[i];
     }
-- 
2.43.0

