// Numerical backend seam: argument checks, range events, real OpenBLAS/LAPACKE or
// a simulated backend that partitions the work at seed-chosen places, and
// injected workspace failures.
#include "rt_int.hpp"
#include <cblas.h>
#include <lapacke.h>
#include <cmath>
#include <complex>
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default"), used))

static void args_bad(const char* f, const char* why) { violation("backend-args", "%s called with invalid arguments: %s", f, why); }
static void vec(const char* f, const void* p, long n, long inc, size_t es, bool wr) {
    if (n <= 0) return;
    if (inc < 0) inc = -inc;
    size_t bytes = ((size_t)(n - 1) * inc + 1) * es;
    if (!range_ok(p, bytes)) { char b[160]; describe_block((u64)p, b, sizeof b); violation("backend-args", "%s is given a vector of %ld elements that leaves live memory (%s)", f, n, b); }
    check_addressable((u64)p, es, wr); race_only((u64)p, bytes, wr);
}
static void mat(const char* f, const void* p, long r, long c, long ld, size_t es, bool wr) {
    if (r <= 0 || c <= 0) return;
    for (long i = 0; i < r; i++) {
        const char* q = (const char*)p + (size_t)i * ld * es;
        if (!range_ok(q, (size_t)c * es)) { char b[160]; describe_block((u64)p, b, sizeof b); violation("backend-args", "%s is given a %ld x %ld matrix (ld %ld) that leaves live memory (%s)", f, r, c, ld, b); }
        race_only((u64)q, (size_t)c * es, wr);
    }
}
struct Opaque { Opaque() { opaque_enter(); } ~Opaque() { opaque_leave(); } };
// the simulated backend hands parts of its work to other threads: others may run in between
static void part() { point(K_BLAS, 1); R->chunks++; }
static bool simulated() { bool s = cfg.blas_sim && choice(2); if (s) R->blas_simulated++; else R->blas_real++; return s; }
static long cut(long left) { return left <= 1 ? left : 1 + (long)choice((u64)left); }

template<class T> static void s_axpy(long n, T a, const T* x, T* y) { for (long i = 0; i < n;) { long c = cut(n - i); for (long k = i; k < i + c; k++) y[k] += a * x[k]; i += c; part(); } }
template<class T> static void s_scal(long n, T a, T* x) { for (long i = 0; i < n;) { long c = cut(n - i); for (long k = i; k < i + c; k++) x[k] = a * x[k]; i += c; part(); } }
template<class T> static T s_dot(long n, const T* x, const T* y) {
    T tot = 0; bool rev = choice(2);
    for (long i = 0; i < n;) { long c = cut(n - i); T p = 0; if (rev) for (long k = i + c; k-- > i;) p += x[k] * y[k]; else for (long k = i; k < i + c; k++) p += x[k] * y[k]; tot = choice(2) ? tot + p : p + tot; i += c; part(); }
    return tot;
}
template<class T> static void s_gemv(long n, long m, T al, const T* a, long lda, const T* x, T be, T* y) {
    for (long i = 0; i < n; i++) {
        T s = 0; for (long k = 0; k < m;) { long c = cut(m - k); T p = 0; for (long j = k; j < k + c; j++) p += a[i * lda + j] * x[j]; s += p; k += c; }
        y[i] = be == T(0) ? al * s : al * s + be * y[i]; if (choice(4) == 0) part();
    }
}
template<class T> static void s_gemm(long n, long m, long l, T al, const T* a, long lda, const T* b, long ldb, T be, T* c, long ldc) {
    for (long i = 0; i < n; i++) { for (long j = 0; j < m; j++) c[i * ldc + j] = be == T(0) ? T(0) : be * c[i * ldc + j]; }
    part();
    for (long k = 0; k < l;) { long w = cut(l - k); for (long i = 0; i < n; i++) for (long j = 0; j < m; j++) { T s = 0; for (long q = k; q < k + w; q++) s += a[i * lda + q] * b[q * ldb + j]; c[i * ldc + j] += al * s; } k += w; part(); }
}
#define PRE(f, n, inc) if (!live()) { Opaque o; return f; } (void)0
#define AXPY(name, T, AT, DEREF) \
    EXP void sim_##name(int n, AT a, const T* x, int ix, T* y, int iy) { \
        if (!live()) { name(n, a, x, ix, y, iy); return; } \
        vec(#name, x, n, ix, sizeof(T), false); vec(#name, y, n, iy, sizeof(T), true); point(K_BLAS, 0); \
        if (ix == 1 && iy == 1 && simulated()) s_axpy<T>(n, DEREF, x, y); else { Opaque o; name(n, a, x, ix, y, iy); } point(K_BLAS, 2); }
AXPY(cblas_saxpy, float, float, a) AXPY(cblas_daxpy, double, double, a)
#define ZAXPY(name, T) \
    EXP void sim_##name(int n, const void* a, const void* x, int ix, void* y, int iy) { \
        if (!live()) { name(n, a, x, ix, y, iy); return; } \
        vec(#name, a, 1, 1, sizeof(T), false); vec(#name, x, n, ix, sizeof(T), false); vec(#name, y, n, iy, sizeof(T), true); point(K_BLAS, 0); \
        if (ix == 1 && iy == 1 && simulated()) s_axpy<T>(n, *(const T*)a, (const T*)x, (T*)y); else { Opaque o; name(n, a, x, ix, y, iy); } point(K_BLAS, 2); }
ZAXPY(cblas_caxpy, std::complex<float>) ZAXPY(cblas_zaxpy, std::complex<double>)
#define SCAL(name, T) EXP void sim_##name(int n, T a, T* x, int ix) { \
        if (!live()) { name(n, a, x, ix); return; } vec(#name, x, n, ix, sizeof(T), true); point(K_BLAS, 0); \
        if (ix == 1 && simulated()) s_scal<T>(n, a, x); else { Opaque o; name(n, a, x, ix); } point(K_BLAS, 2); }
SCAL(cblas_sscal, float) SCAL(cblas_dscal, double)
#define DOT(name, T) EXP T sim_##name(int n, const T* x, int ix, const T* y, int iy) { \
        if (!live()) return name(n, x, ix, y, iy); vec(#name, x, n, ix, sizeof(T), false); vec(#name, y, n, iy, sizeof(T), false); point(K_BLAS, 0); \
        T r; if (ix == 1 && iy == 1 && simulated()) r = s_dot<T>(n, x, y); else { Opaque o; r = name(n, x, ix, y, iy); } point(K_BLAS, 2); return r; }
DOT(cblas_sdot, float) DOT(cblas_ddot, double)
#define NRM(name, T) EXP T sim_##name(int n, const T* x, int ix) { \
        if (!live()) return name(n, x, ix); vec(#name, x, n, ix, sizeof(T), false); point(K_BLAS, 0); \
        T r; if (ix == 1 && n > 0 && simulated()) r = std::sqrt(s_dot<T>(n, x, x)); else { Opaque o; r = name(n, x, ix); } point(K_BLAS, 2); return r; }
NRM(cblas_snrm2, float) NRM(cblas_dnrm2, double)
#define ASUM(name, T) EXP T sim_##name(int n, const T* x, int ix) { if (live()) { vec(#name, x, n, ix, sizeof(T), false); point(K_BLAS, 0); } Opaque o; return name(n, x, ix); }
ASUM(cblas_sasum, float) ASUM(cblas_dasum, double)
#define COPY(name, T) EXP void sim_##name(int n, const T* x, int ix, T* y, int iy) { if (live()) { vec(#name, x, n, ix, sizeof(T), false); vec(#name, y, n, iy, sizeof(T), true); point(K_BLAS, 0); } Opaque o; name(n, x, ix, y, iy); }
COPY(cblas_scopy, float) COPY(cblas_dcopy, double)
#define GEMV(name, T) EXP void sim_##name(CBLAS_LAYOUT lay, CBLAS_TRANSPOSE tr, int n, int m, T al, const T* a, int lda, const T* x, int ix, T be, T* y, int iy) { \
        if (!live()) { name(lay, tr, n, m, al, a, lda, x, ix, be, y, iy); return; } \
        long rows = n, cols = m; if (lay == CblasColMajor) { rows = m; cols = n; } \
        bool t = tr != CblasNoTrans; \
        if (n < 0 || m < 0) args_bad(#name, "negative dimension"); if (lda < (cols > 1 ? cols : 1)) args_bad(#name, "leading dimension is smaller than the row length"); if (!ix || !iy) args_bad(#name, "zero increment"); \
        mat(#name, a, rows, cols, lda, sizeof(T), false); vec(#name, x, t ? n : m, ix, sizeof(T), false); vec(#name, y, t ? m : n, iy, sizeof(T), true); point(K_BLAS, 0); \
        if (lay == CblasRowMajor && !t && ix == 1 && iy == 1 && n && m && simulated()) s_gemv<T>(n, m, al, a, lda, x, be, y); else { Opaque o; name(lay, tr, n, m, al, a, lda, x, ix, be, y, iy); } point(K_BLAS, 2); }
GEMV(cblas_sgemv, float) GEMV(cblas_dgemv, double)
#define GEMM(name, T) EXP void sim_##name(CBLAS_LAYOUT lay, CBLAS_TRANSPOSE ta, CBLAS_TRANSPOSE tb, int n, int m, int l, T al, const T* a, int lda, const T* b, int ldb, T be, T* c, int ldc) { \
        if (!live()) { name(lay, ta, tb, n, m, l, al, a, lda, b, ldb, be, c, ldc); return; } \
        bool row = lay == CblasRowMajor; \
        long ar = ta == CblasNoTrans ? n : l, ac = ta == CblasNoTrans ? l : n, br = tb == CblasNoTrans ? l : m, bc = tb == CblasNoTrans ? m : l, cr = n, cc = m; \
        if (!row) { std::swap(ar, ac); std::swap(br, bc); std::swap(cr, cc); } \
        if (n < 0 || m < 0 || l < 0) args_bad(#name, "negative dimension"); \
        if (lda < (ac > 1 ? ac : 1) || ldb < (bc > 1 ? bc : 1) || ldc < (cc > 1 ? cc : 1)) args_bad(#name, "leading dimension is smaller than the row length"); \
        mat(#name, a, ar, ac, lda, sizeof(T), false); mat(#name, b, br, bc, ldb, sizeof(T), false); mat(#name, c, cr, cc, ldc, sizeof(T), true); point(K_BLAS, 0); \
        if (row && ta == CblasNoTrans && tb == CblasNoTrans && n && m && l && simulated()) s_gemm<T>(n, m, l, al, a, lda, b, ldb, be, c, ldc); else { Opaque o; name(lay, ta, tb, n, m, l, al, a, lda, b, ldb, be, c, ldc); } point(K_BLAS, 2); }
GEMM(cblas_sgemm, float) GEMM(cblas_dgemm, double)

static long ldmin(int lay, long r, long c) { return lay == LAPACK_ROW_MAJOR ? (c > 1 ? c : 1) : (r > 1 ? r : 1); }
static void lmat(const char* f, int lay, const void* p, long r, long c, long ld, size_t es, bool wr) { if (lay == LAPACK_ROW_MAJOR) mat(f, p, r, c, ld, es, wr); else mat(f, p, c, r, ld, es, wr); }
#define POTRF(name, T) EXP int sim_##name(int lay, char up, int n, T* a, int lda) { \
        if (!live()) return name(lay, up, n, a, lda); R->lapack_calls++; \
        if (lda < ldmin(lay, n, n)) args_bad(#name, "leading dimension is smaller than the order"); lmat(#name, lay, a, n, n, lda, sizeof(T), true); point(K_BLAS, 0); \
        if (int c = fault_lapack_now()) return c; \
        int r; { Opaque o; r = name(lay, up, n, a, lda); } point(K_BLAS, 2); return r; }
POTRF(LAPACKE_spotrf, float) POTRF(LAPACKE_dpotrf, double)
#define POTRS(name, T) EXP int sim_##name(int lay, char up, int n, int nrhs, const T* a, int lda, T* b, int ldb) { \
        if (!live()) return name(lay, up, n, nrhs, a, lda, b, ldb); R->lapack_calls++; \
        if (lda < ldmin(lay, n, n) || ldb < ldmin(lay, n, nrhs)) args_bad(#name, "leading dimension too small"); \
        lmat(#name, lay, a, n, n, lda, sizeof(T), false); lmat(#name, lay, b, n, nrhs, ldb, sizeof(T), true); point(K_BLAS, 0); \
        if (int c = fault_lapack_now()) return c; \
        int r; { Opaque o; r = name(lay, up, n, nrhs, a, lda, b, ldb); } point(K_BLAS, 2); return r; }
POTRS(LAPACKE_spotrs, float) POTRS(LAPACKE_dpotrs, double)
#define GTSV(name, T) EXP int sim_##name(int lay, int n, int nrhs, T* dl, T* d, T* du, T* b, int ldb) { \
        if (!live()) return name(lay, n, nrhs, dl, d, du, b, ldb); R->lapack_calls++; \
        if (ldb < ldmin(lay, n, nrhs)) args_bad(#name, "leading dimension too small"); \
        vec(#name, dl, n - 1, 1, sizeof(T), true); vec(#name, d, n, 1, sizeof(T), true); vec(#name, du, n - 1, 1, sizeof(T), true); lmat(#name, lay, b, n, nrhs, ldb, sizeof(T), true); point(K_BLAS, 0); \
        if (int c = fault_lapack_now()) return c; \
        int r; { Opaque o; r = name(lay, n, nrhs, dl, d, du, b, ldb); } point(K_BLAS, 2); return r; }
GTSV(LAPACKE_sgtsv, float) GTSV(LAPACKE_dgtsv, double)
