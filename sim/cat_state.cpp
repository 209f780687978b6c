// Value objects: every way of creating, reading and writing them (C16), histories of copies,
// assignments and moves over a pool and a shared constant source (C12), growing packed
// matrices (C08), rejected calls (C13), allocation failures within them (C06).
// CT=1 2 3 4
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "types.hpp"
#include <span>
using namespace lalib;
namespace cat { namespace {
using G = Grid<T>;
constexpr bool FP = !num<T>::cx;
// prepared material of one creation
struct Mk { int way = 0; size_t n = 0, m = 0; std::vector<T> v, d, u; T x{}; size_t cap = 0; };
template<class M, class F> void fillg(G& o, const M& m, F f) { auto s = m.shape(); o.size(s.first, s.second); for (size_t i = 0; i < o.r; i++) for (size_t j = 0; j < o.c; j++) o.g[i * o.c + j] = f(i, j); }
static G dense(size_t n, size_t m, const std::vector<T>& v) { G g; g.size(n, m); for (size_t i = 0; i < n * m; i++) { g.g[i] = v[i]; g.st[i] = 1; } return g; }
static T dval(Rng& r) { T x = rvals<T>(r, 1, V_UNI)[0]; Re<T> f = (Re<T>)(r.one_in(2) ? 1.5 : -1.5); return x * T((Re<T>)0.5) + T(f); }

template<class V> struct Tr;
struct TrBase { static constexpr bool assign = true, move_assign = false, sym = false, grow = false, solve = false; static constexpr int zx = X_NONE, badx = X_NONE; };

// --- vectors ---------------------------------------------------------------------------
template<> struct Tr<DynVec<T>> : TrBase {
    using V = DynVec<T>; static constexpr const char* nm = "DynVec"; static constexpr bool move_assign = true;
    static constexpr int NRC = 5, NR = 8, NW = 3;
    static G plan(Rng& r, Mk& k, int n, int) { k.way = (int)r.below(6); k.n = (size_t)(k.way == 1 ? 3 : k.way == 5 ? 0 : r.one_in(8) ? 0 : n); k.v = rvals<T>(r, k.n, pick_vals(r, true)); k.x = rvals<T>(r, 1, pick_vals(r, true))[0]; if (k.way == 2) k.v.assign(k.n, k.x); return dense(k.n, 1, k.v); }
    static V make(const Mk& k) {
        switch (k.way) {
        case 0: return V(k.v);
        case 1: return V{k.v[0], k.v[1], k.v[2]};
        case 2: return V::filled(k.n, k.x);
        case 3: { V v = V::uninit(k.n); for (size_t i = 0; i < k.n; i++) v[i] = k.v[i]; return v; }
        case 4: { auto c = k.v; return V(std::move(c)); }
        default: return V();
        }
    }
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.size(); o.size(n, 1); size_t k = 0;
        switch (p) {
        case 0: for (size_t i = 0; i < n; i++) o.g[i] = v[i]; break;
        case 1: { const T* d = v.data(); for (size_t i = 0; i < n; i++) o.g[i] = d[i]; break; }
        case 2: for (auto it = v.begin(); it != v.end(); ++it) o.g[k++] = *it; if (k != n) o.r = k; break;
        case 3: for (auto it = v.cbegin(); it != v.cend(); ++it) o.g[k++] = *it; if (k != n) o.r = k; break;
        case 4: if ((size_t)(v.end() - v.begin()) != n) o.r = n + 1; else for (auto& x : v) o.g[k++] = x; break;
        case 5: for (size_t i = 0; i < n; i++) o.g[i] = (*w)[i]; break;
        case 6: { T* d = w->data(); for (size_t i = 0; i < n; i++) o.g[i] = d[i]; break; }
        default: for (auto it = w->begin(); it != w->end(); ++it) o.g[k++] = *it; if (k != n) o.r = k; break;
        }
    }
    static void write(int p, V& v, size_t i, size_t, T x) { if (p == 0) v[i] = x; else if (p == 1) v.data()[i] = x; else *(v.begin() + (long)i) = x; }
};
template<size_t N> struct Tr<SizedVec<T, N>> : TrBase {
    using V = SizedVec<T, N>; static constexpr const char* nm = "SizedVec"; static constexpr int badx = X_RUNTIME;
    static constexpr int NRC = 4, NR = 7, NW = 3;
    static G plan(Rng& r, Mk& k, int, int) { k.way = (int)r.below(5); if (k.way == 4 && N != 3) k.way = 0; k.n = N; k.v = rvals<T>(r, N, pick_vals(r, true)); k.x = rvals<T>(r, 1, pick_vals(r, true))[0]; if (k.way == 2) k.v.assign(N, k.x); return dense(N, 1, k.v); }
    static V make(const Mk& k) {
        switch (k.way) {
        case 0: return V(k.v);
        case 1: { std::array<T, N> a; for (size_t i = 0; i < N; i++) a[i] = k.v[i]; return V(a); }
        case 2: return V::filled(k.x);
        case 3: { V v = V::uninit(); for (size_t i = 0; i < N; i++) v[i] = k.v[i]; return v; }
        default: if constexpr (N == 3) return V{k.v[0], k.v[1], k.v[2]}; else return V(k.v);
        }
    }
    static void plan_bad(Rng& r, Mk& k, int) { k.way = (int)r.below(2); if (N == 2 || N == 3) {} size_t n; do n = r.below(N + 4); while (n == N); if (k.way == 1 && N == 2) k.way = 0; k.v = rvals<T>(r, n, V_UNI); if (k.v.empty()) k.way = 0; }
    static void make_bad(const Mk& k) { if (k.way == 0) { V v(k.v); (void)v; } else if constexpr (N != 2) { V v{k.v[0], k.v[0]}; (void)v; } }
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.size(); o.size(n, 1); size_t k = 0;
        switch (p) {
        case 0: for (size_t i = 0; i < n; i++) o.g[i] = v[i]; break;
        case 1: { const T* d = v.data(); for (size_t i = 0; i < n; i++) o.g[i] = d[i]; break; }
        case 2: if ((size_t)(v.end() - v.begin()) != n) o.r = n + 1; else for (auto it = v.begin(); it != v.end(); ++it) o.g[k++] = *it; break;
        case 3: if ((size_t)(v.cend() - v.cbegin()) != n) o.r = n + 1; else for (auto it = v.cbegin(); it != v.cend(); ++it) o.g[k++] = *it; break;
        case 4: for (size_t i = 0; i < n; i++) o.g[i] = (*w)[i]; break;
        case 5: { T* d = w->data(); for (size_t i = 0; i < n; i++) o.g[i] = d[i]; break; }
        default: if ((size_t)(w->end() - w->begin()) != n) o.r = n + 1; else for (auto it = w->begin(); it != w->end(); ++it) o.g[k++] = *it; break;
        }
    }
    static void write(int p, V& v, size_t i, size_t, T x) { if (p == 0) v[i] = x; else if (p == 1) v.data()[i] = x; else *(v.begin() + (long)i) = x; }
};
// --- dense matrices -------------------------------------------------------------------------
template<class V> struct DenseIO {
    static constexpr int NRC = 5, NR = 9, NW = 4;
    static void read(int p, const V& v, V* w, G& o) {
        auto s = v.shape(); size_t n = s.first, m = s.second, k = 0; o.size(n, m);
        switch (p) {
        case 0: fillg(o, v, [&](size_t i, size_t j) { return v(i, j); }); break;
        case 1: fillg(o, v, [&](size_t i, size_t j) { return v.at(i, j); }); break;
        case 2: { const T* d = v.data(); for (size_t i = 0; i < n * m; i++) o.g[i] = d[i]; break; }
        case 3: if ((size_t)(v.end() - v.begin()) != n * m) o.r = n + 1; else for (auto it = v.begin(); it != v.end(); ++it) o.g[k++] = *it; break;
        case 4: if ((size_t)(v.cend() - v.cbegin()) != n * m) o.r = n + 1; else for (auto it = v.cbegin(); it != v.cend(); ++it) o.g[k++] = *it; break;
        case 5: fillg(o, v, [&](size_t i, size_t j) { return (*w)(i, j); }); break;
        case 6: fillg(o, v, [&](size_t i, size_t j) { return w->mut_at(i, j); }); break;
        case 7: { T* d = w->data(); for (size_t i = 0; i < n * m; i++) o.g[i] = d[i]; break; }
        default: if ((size_t)(w->end() - w->begin()) != n * m) o.r = n + 1; else for (auto it = w->begin(); it != w->end(); ++it) o.g[k++] = *it; break;
        }
    }
    static void write(int p, V& v, size_t i, size_t j, T x) { size_t m = v.shape().second; switch (p) { case 0: v(i, j) = x; break; case 1: v.mut_at(i, j) = x; break; case 2: v.data()[i * m + j] = x; break; default: *(v.begin() + (long)(i * m + j)) = x; } }
};
template<> struct Tr<DynMat<T>> : TrBase, DenseIO<DynMat<T>> {
    using V = DynMat<T>; static constexpr const char* nm = "DynMat";
    static G plan(Rng& r, Mk& k, int n, int m) {
        k.way = (int)r.below(FP ? 7 : 6); k.n = (size_t)n; k.m = (size_t)m; k.x = rvals<T>(r, 1, pick_vals(r, true))[0];
        if (k.way == 1) { k.n = 2; k.m = 3; }
        if (k.way >= 4) k.m = k.n;
        if (k.way == 4) { k.d = rvals<T>(r, k.n, pick_vals(r, true)); } else if (k.way == 5) k.d.assign(k.n, k.x); else if (k.way == 6) k.d.assign(k.n, T(1));
        if (k.way >= 4) { k.v.assign(k.n * k.n, T(0)); for (size_t i = 0; i < k.n; i++) k.v[i * k.n + i] = k.d[i]; }
        else if (k.way == 2) k.v.assign(k.n * k.m, k.x); else k.v = rvals<T>(r, k.n * k.m, pick_vals(r, true));
        return dense(k.n, k.m, k.v);
    }
    static V make(const Mk& k) {
        switch (k.way) {
        case 0: return V(k.n, k.m, k.v);
        case 1: return V(2, 3, {k.v[0], k.v[1], k.v[2], k.v[3], k.v[4], k.v[5]});
        case 2: return V::filled(k.x, k.n, k.m);
        case 3: { V v = V::uninit(k.n, k.m); for (size_t i = 0; i < k.n; i++) for (size_t j = 0; j < k.m; j++) v(i, j) = k.v[i * k.m + j]; return v; }
        case 4: return V::diag(k.d);
        case 5: return V::diag(k.x, k.n);
        default: if constexpr (FP) return V::identity(k.n); else return V(k.n, k.m, k.v);
        }
    }
};
template<size_t N, size_t M> struct Tr<SizedMat<T, N, M>> : TrBase, DenseIO<SizedMat<T, N, M>> {
    using V = SizedMat<T, N, M>; static constexpr const char* nm = "SizedMat"; static constexpr int badx = X_RUNTIME;
    static G plan(Rng& r, Mk& k, int, int) {
        k.way = (int)r.below(N == M ? (FP ? 8 : 7) : 5); k.n = N; k.m = M; k.x = rvals<T>(r, 1, pick_vals(r, true))[0];
        if (k.way == 4 && N * M != 15) k.way = 0;
        if (k.way == 5) k.d = rvals<T>(r, N, pick_vals(r, true)); else if (k.way == 6) k.d.assign(N, k.x); else if (k.way == 7) k.d.assign(N, T(1));
        if (k.way >= 5) { k.v.assign(N * M, T(0)); for (size_t i = 0; i < N; i++) k.v[i * M + i] = k.d[i]; }
        else if (k.way == 2) k.v.assign(N * M, k.x); else k.v = rvals<T>(r, N * M, pick_vals(r, true));
        return dense(N, M, k.v);
    }
    static V make(const Mk& k) {
        switch (k.way) {
        case 0: return V(k.v);
        case 1: { std::array<T, N * M> a; for (size_t i = 0; i < N * M; i++) a[i] = k.v[i]; return V(a); }
        case 2: return V::filled(k.x);
        case 3: { V v = V::uninit(); for (size_t i = 0; i < N; i++) for (size_t j = 0; j < M; j++) v(i, j) = k.v[i * M + j]; return v; }
        case 4: if constexpr (N * M == 15) { auto& q = k.v; return V{q[0], q[1], q[2], q[3], q[4], q[5], q[6], q[7], q[8], q[9], q[10], q[11], q[12], q[13], q[14]}; } else return V(k.v);
        case 5: if constexpr (N == M) { std::array<T, N> a; for (size_t i = 0; i < N; i++) a[i] = k.d[i]; return V::diag(a); } else return V(k.v);
        case 6: if constexpr (N == M) return V::diag(k.x); else return V(k.v);
        default: if constexpr (N == M && FP) return V::identity(); else return V(k.v);
        }
    }
    static void plan_bad(Rng& r, Mk& k, int) { k.way = (int)r.below(2); size_t n; do n = r.one_in(2) ? r.below(N * M + 4) : N * M + r.range(-1, 1); while (n == N * M); k.v = rvals<T>(r, n, V_UNI); if (k.v.empty() || N * M == 2) k.way = 0; }
    static void make_bad(const Mk& k) { if (k.way == 0) { V v(k.v); (void)v; } else { V v{k.v[0], k.v[0]}; (void)v; } }
};
// --- tri-diagonal -------------------------------------------------------------------------------
static G tri_grid(const Mk& k) { G g; g.size(k.n, k.n); for (size_t i = 0; i < k.n; i++) { g.set(i, i, k.d[i]); if (i + 1 < k.n) { g.set(i, i + 1, k.u[i]); g.set(i + 1, i, k.v[i]); } } return g; }
static void tri_plan(Rng& r, Mk& k, size_t n) { int mode = pick_vals(r, true); k.n = n; k.v = rvals<T>(r, n ? n - 1 : 0, mode); k.d = rvals<T>(r, n, mode); k.u = rvals<T>(r, n ? n - 1 : 0, mode); k.way = (int)r.below(2); }
template<class V> struct TriIO : TrBase {
    static constexpr int NRC = 3, NR = 6, NW = 3;
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.shape().first; o.size(n, v.shape().second);
        auto band = [&](const T* l, const T* d, const T* u) { for (size_t i = 0; i < n; i++) { o.g[i * n + i] = d[i]; if (i + 1 < n) { o.g[i * n + i + 1] = u[i]; o.g[(i + 1) * n + i] = l[i]; } } };
        auto diff = [](size_t i, size_t j) { return i > j ? i - j : j - i; };
        switch (p) {
        case 0: fillg(o, v, [&](size_t i, size_t j) { return v(i, j); }); break;
        case 1: fillg(o, v, [&](size_t i, size_t j) { return v.at(i, j); }); break;
        case 2: band(v.data_dl(), v.data_d(), v.data_du()); break;
        case 3: band(w->data_dl(), w->data_d(), w->data_du()); break;
        case 4: fillg(o, v, [&](size_t i, size_t j) { return diff(i, j) <= 1 ? (*w)(i, j) : T(0); }); break;
        default: fillg(o, v, [&](size_t i, size_t j) { return diff(i, j) <= 1 ? w->mut_at(i, j) : T(0); }); break;
        }
    }
    static void write(int p, V& v, size_t i, size_t j, T x) {
        if (p == 0) v(i, j) = x; else if (p == 1) v.mut_at(i, j) = x;
        else if (i == j) v.data_d()[i] = x; else if (i + 1 == j) v.data_du()[i] = x; else if (j + 1 == i) v.data_dl()[j] = x; else v(i, j) = x;
    }
};
template<> struct Tr<DynTriDiagMat<T>> : TriIO<DynTriDiagMat<T>> {
    using V = DynTriDiagMat<T>; static constexpr const char* nm = "DynTriDiagMat"; static constexpr int zx = X_INVALID; static constexpr bool move_assign = true;
    static G plan(Rng& r, Mk& k, int n, int) { tri_plan(r, k, (size_t)n); return tri_grid(k); }
    static V make(const Mk& k) { if (k.way == 0) return V(k.v, k.d, k.u); auto a = k.v; auto b = k.d; auto c = k.u; return V(std::move(a), std::move(b), std::move(c)); }
};
template<size_t N> struct Tr<SizedTriDiagMat<T, N>> : TriIO<SizedTriDiagMat<T, N>> {
    using V = SizedTriDiagMat<T, N>; static constexpr const char* nm = "SizedTriDiagMat"; static constexpr int zx = X_RANGE; static constexpr bool move_assign = true;
    static G plan(Rng& r, Mk& k, int, int) { tri_plan(r, k, N); return tri_grid(k); }
    static V make(const Mk& k) { std::array<T, N - 1> a, c; std::array<T, N> b; for (size_t i = 0; i < N; i++) b[i] = k.d[i]; for (size_t i = 0; i + 1 < N; i++) { a[i] = k.v[i]; c[i] = k.u[i]; } return V(a, b, c); }
};
// --- packed lower triangular, symmetric ------------------------------------------------------------
static G low_grid(size_t n, const std::vector<T>& v, bool sym) { G g; g.size(n, n); size_t k = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++, k++) { g.set(i, j, v[k]); if (sym) g.set(j, i, v[k]); } return g; }
template<class V, bool SYM> struct LowIO : TrBase {
    static constexpr int NRC = 3, NR = 6, NW = 3; static constexpr bool sym = SYM, move_assign = true; static constexpr int zx = SYM ? X_NONE : X_INVALID;
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.shape().first; o.size(n, v.shape().second);
        auto raw = [&](const T* d) { size_t k = 0; for (size_t i = 0; i < n; i++) for (size_t j = 0; j <= i; j++, k++) { o.g[i * n + j] = d[k]; if (SYM) o.g[j * n + i] = d[k]; } };
        switch (p) {
        case 0: fillg(o, v, [&](size_t i, size_t j) { return v(i, j); }); break;
        case 1: fillg(o, v, [&](size_t i, size_t j) { return v.at(i, j); }); break;
        case 2: raw(v.lower_data()); break;
        case 3: raw(w->lower_data()); break;
        case 4: fillg(o, v, [&](size_t i, size_t j) { return SYM || j <= i ? (*w)(i, j) : T(0); }); break;
        default: if constexpr (SYM) { V c(v); auto l = c.into_lower_mat(); if (l.shape() != v.shape()) { o.r = n + 1; break; } fillg(o, v, [&](size_t i, size_t j) { const auto& cl = l; return i < j ? cl(j, i) + cl(i, j) : cl(i, j); }); }
                 else fillg(o, v, [&](size_t i, size_t j) { return j <= i ? w->mut_at(i, j) : T(0); }); break;
        }
    }
    static void write(int p, V& v, size_t i, size_t j, T x) { if (p == 0) v(i, j) = x; else if (p == 1) v.mut_at(i, j) = x; else if (j <= i) v.lower_data()[i * (i + 1) / 2 + j] = x; else v(i, j) = x; }
};
template<class V, bool SYM> struct DynLow : LowIO<V, SYM> {
    static G plan(Rng& r, Mk& k, int n, int) { k.n = (size_t)n; k.v = rvals<T>(r, k.n * (k.n + 1) / 2, pick_vals(r)); return low_grid(k.n, k.v, SYM); }
    static V make(const Mk& k) { auto a = k.v; return V(k.n, std::move(a)); }
};
template<class V, size_t N, bool SYM> struct SizedLow : LowIO<V, SYM> {
    static G plan(Rng& r, Mk& k, int, int) { k.n = N; k.v = rvals<T>(r, N * (N + 1) / 2, pick_vals(r)); return low_grid(N, k.v, SYM); }
    static V make(const Mk& k) { std::array<T, N*(N + 1) / 2> a; for (size_t i = 0; i < a.size(); i++) a[i] = k.v[i]; return V(a); }
};
template<> struct Tr<DynLowerTriMat<T>> : DynLow<DynLowerTriMat<T>, false> { using V = DynLowerTriMat<T>; static constexpr const char* nm = "DynLowerTriMat"; };
template<> struct Tr<DynHermiteMat<T>> : DynLow<DynHermiteMat<T>, true> { using V = DynHermiteMat<T>; static constexpr const char* nm = "DynHermiteMat"; };
template<size_t N> struct Tr<SizedLowerTriMat<T, N>> : SizedLow<SizedLowerTriMat<T, N>, N, false> { using V = SizedLowerTriMat<T, N>; static constexpr const char* nm = "SizedLowerTriMat"; };
template<size_t N> struct Tr<SizedHermiteMat<T, N>> : SizedLow<SizedHermiteMat<T, N>, N, true> { using V = SizedHermiteMat<T, N>; static constexpr const char* nm = "SizedHermiteMat"; };
#if CT <= 2
// --- growing packed matrices -----------------------------------------------------------------------
static bool is_hess_len(size_t l) { for (size_t n = 1; n < 60; n++) if (n * (n + 3) / 2 - 1 == l) return true; return l == 0; }
static bool is_tri_len(size_t l) { for (size_t n = 0; n < 60; n++) if (n * (n + 1) / 2 == l) return true; return false; }
template<> struct Tr<HessenbergMat<T>> : TrBase {
    using V = HessenbergMat<T>; static constexpr const char* nm = "HessenbergMat"; static constexpr bool assign = false, grow = true; static constexpr int zx = X_INVALID, badx = X_INVALID;
    static constexpr int NRC = 3, NR = 6, NW = 3;
    static size_t growlen(size_t n) { return n ? n + 2 : 1; }
    static void grown(G& g, const std::vector<T>& e) { size_t n = g.r; G h; h.size(n + 1, n + 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { h.g[i * (n + 1) + j] = g.g[i * n + j]; h.st[i * (n + 1) + j] = g.st[i * n + j]; } size_t k = 0; if (n) h.set(n, n - 1, e[k++]); for (size_t i = 0; i <= n; i++) h.set(i, n, e[k++]); g = h; }
    static G plan(Rng& r, Mk& k, int n, int) {
        k.way = (int)r.below(3); k.n = (size_t)(r.one_in(4) ? 0 : n); G g; g.size(0, 0);
        if (k.way == 1) { k.n = 0; k.cap = r.below(60); return g; }
        int mode = pick_vals(r); for (size_t i = 0; i < k.n; i++) { auto e = rvals<T>(r, growlen(i), mode); k.v.insert(k.v.end(), e.begin(), e.end()); grown(g, e); }
        return g;
    }
    static V make(const Mk& k) { if (k.way == 1) return V::with_capacity(k.cap); auto a = k.v; if (k.way == 2) a.reserve(a.size() + 40); return V(std::move(a)); }
    static void plan_bad(Rng& r, Mk& k, int) { size_t n; do n = r.below(40); while (is_hess_len(n)); k.v = rvals<T>(r, n, V_UNI); }
    static void make_bad(const Mk& k) { auto a = k.v; V v(std::move(a)); (void)v; }
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.shape().first; o.size(n, v.shape().second);
        switch (p) {
        case 0: fillg(o, v, [&](size_t i, size_t j) { return v(i, j); }); break;
        case 1: fillg(o, v, [&](size_t i, size_t j) { return v.at(i, j); }); break;
        case 2: for (size_t j = 0; j < n; j++) { auto c = v.get_col(j); if (c.size() != std::min(j + 2, n)) { o.r = n + 1; break; } for (size_t i = 0; i < c.size(); i++) o.g[i * n + j] = c[i]; } break;
        case 3: { T* d = w->data(); size_t k = 0; for (size_t j = 0; j < n; j++) for (size_t i = 0; i < std::min(j + 2, n); i++) o.g[i * n + j] = d[k++]; break; }
        case 4: fillg(o, v, [&](size_t i, size_t j) { return i <= j + 1 ? (*w)(i, j) : T(0); }); break;
        default: fillg(o, v, [&](size_t i, size_t j) { return i <= j + 1 ? w->mut_at(i, j) : T(0); }); break;
        }
    }
    static void write(int p, V& v, size_t i, size_t j, T x) { if (p == 0) v(i, j) = x; else if (p == 1) v.mut_at(i, j) = x; else { if (i > j + 1) { v(i, j) = x; return; } size_t k = 0; for (size_t q = 0; q < j; q++) k += q + 2; v.data()[k + i] = x; } }
};
template<> struct Tr<DynUpperTriMat<T>> : TrBase {
    using V = DynUpperTriMat<T>; static constexpr const char* nm = "DynUpperTriMat"; static constexpr bool assign = false, grow = true, solve = true; static constexpr int zx = X_INVALID, badx = X_INVALID;
    static constexpr int NRC = 2, NR = 5, NW = 3;
    static size_t growlen(size_t n) { return n + 1; }
    static void grown(G& g, const std::vector<T>& e) { size_t n = g.r; G h; h.size(n + 1, n + 1); for (size_t i = 0; i < n; i++) for (size_t j = 0; j < n; j++) { h.g[i * (n + 1) + j] = g.g[i * n + j]; h.st[i * (n + 1) + j] = g.st[i * n + j]; } for (size_t i = 0; i <= n; i++) h.set(i, n, e[i]); g = h; }
    static G plan(Rng& r, Mk& k, int n, int) {
        k.way = (int)r.below(4); k.n = (size_t)(r.one_in(4) ? 0 : n); G g; g.size(0, 0);
        if (k.way == 1) { k.n = 0; k.cap = r.below(60); return g; }
        if (k.way == 3) { k.n = 0; return g; }
        for (size_t i = 0; i < k.n; i++) { auto e = rvals<T>(r, i + 1, V_UNI); e[i] = dval(r); k.v.insert(k.v.end(), e.begin(), e.end()); grown(g, e); }
        return g;
    }
    static V make(const Mk& k) { if (k.way == 1) return V::with_capacity(k.cap); if (k.way == 3) return V(); auto a = k.v; if (k.way == 2) a.reserve(a.size() + 40); return V(std::move(a)); }
    static void plan_bad(Rng& r, Mk& k, int) { size_t n; do n = r.below(40); while (is_tri_len(n)); k.v = rvals<T>(r, n, V_UNI); }
    static void make_bad(const Mk& k) { auto a = k.v; V v(std::move(a)); (void)v; }
    static void read(int p, const V& v, V* w, G& o) {
        size_t n = v.shape().first; o.size(n, v.shape().second);
        switch (p) {
        case 0: fillg(o, v, [&](size_t i, size_t j) { return v(i, j); }); break;
        case 1: fillg(o, v, [&](size_t i, size_t j) { return v.at(i, j); }); break;
        case 2: { T* d = w->data(); size_t k = 0; for (size_t j = 0; j < n; j++) for (size_t i = 0; i <= j; i++) o.g[i * n + j] = d[k++]; break; }
        case 3: fillg(o, v, [&](size_t i, size_t j) { return i <= j ? (*w)(i, j) : T(0); }); break;
        default: fillg(o, v, [&](size_t i, size_t j) { return i <= j ? w->mut_at(i, j) : T(0); }); break;
        }
    }
    static void write(int p, V& v, size_t i, size_t j, T x) { if (p == 0 || i > j) v(i, j) = x; else if (p == 1) v.mut_at(i, j) = x; else v.data()[j * (j + 1) / 2 + i] = x; }
};
#endif

// --- a program over a pool of three objects and the shared constant source ------------------------------
enum { MAKE, COPY, MOVE_CTOR, ASSIGN, ASSIGN_BASE, SELF, MOVE_ASSIGN, SWAP, WRITE, ZERO_WRITE, GROW, GROW_ZERO, GROW_BAD, BACK_SUB, BACK_SUB_BAD, MAKE_BAD, DROP, READ, READ_BASE, NACT };
static const char* act_name[NACT] = {"creation", "copy construction", "move construction", "copy assignment", "copy assignment from the shared source", "self-assignment", "move assignment", "swap", "element write", "write to a structural zero", "extension", "extension with zero", "extension with a wrong number of elements", "back substitution", "back substitution with a wrong length", "creation from a wrong number of elements", "destruction", "read", "read of the shared source"};
struct Act { int kind = READ, i = 0, j = 0, path = 0, rp = 0; size_t r = 0, c = 0; T x{}; Mk k; int want = X_NONE; };
enum Flavour { F_COPY, F_ACCESS, F_GROW, F_REJECT };
constexpr int POOL = 3;
template<class V> struct Program : Inst {
    using R = Tr<V>;
    std::unique_ptr<const V> base; G bg; int n, m; Flavour fl;
    struct Z : Slot {
        std::optional<V> o[POOL]; std::vector<Act> acts; std::vector<std::array<std::pair<bool, G>, POOL>> st; // state before each act, and after the last
        std::vector<G> seen; std::vector<int> threw; std::vector<std::vector<T>> sol; std::array<G, POOL> last; G lastb; std::vector<int> lp; int lbp = 0;
        size_t cur = 0; bool post = false, self_ok = true;
    };
    Program(Rng& r, int n, int m, Flavour f) : n(n), m(m), fl(f) { name = R::nm; Mk k; bg = R::plan(r, k, n, m); base.reset(new V(R::make(k))); }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; std::array<std::pair<bool, G>, POOL> cur; for (auto& c : cur) c.first = false;
        const bool wide = n > 14 || m > 14; int len = wide ? (int)r.range(2, 8) : (int)(fl == F_GROW ? r.range(3, r.one_in(12) ? 60 : 22) : r.range(2, r.one_in(16) ? 40 : 12));
        for (int t = 0; t < len; t++) {
            Act a; a.i = (int)r.below(POOL); a.j = (int)r.below(POOL); a.path = (int)r.below(R::NW); a.rp = (int)r.below(R::NR); a.x = rvals<T>(r, 1, V_UNI)[0];
            a.kind = (int)r.below(NACT);
            if (fl == F_GROW && r.one_in(2)) a.kind = GROW + (int)r.below(5);
            if (fl == F_ACCESS && r.one_in(2)) a.kind = r.one_in(2) ? WRITE : MAKE;
            if (fl == F_REJECT && r.one_in(2)) { static const int q[] = {ZERO_WRITE, GROW_BAD, BACK_SUB_BAD, MAKE_BAD}; a.kind = q[r.below(4)]; }
            // what the type does not have
            if ((a.kind == ASSIGN || a.kind == ASSIGN_BASE || a.kind == SELF || a.kind == SWAP) && !R::assign) a.kind = COPY;
            if (a.kind == MOVE_ASSIGN && !R::assign) a.kind = MOVE_CTOR;
            if (a.kind >= GROW && a.kind <= GROW_BAD && !R::grow) a.kind = WRITE;
            if ((a.kind == BACK_SUB || a.kind == BACK_SUB_BAD) && !R::solve) a.kind = R::zx ? ZERO_WRITE : READ;
            if (a.kind == MAKE_BAD && R::badx == X_NONE) a.kind = R::zx ? ZERO_WRITE : READ;
            if (a.kind == ZERO_WRITE && R::zx == X_NONE) a.kind = WRITE;
            // objects it needs
            bool two = a.kind == MOVE_CTOR || a.kind == ASSIGN || a.kind == MOVE_ASSIGN || a.kind == SWAP;
            if (two && a.i == a.j) a.j = (a.i + 1) % POOL;
            if (a.kind == COPY && a.j == a.i) a.j = -1;                  // from the shared source
            if (a.kind == COPY && a.j >= 0 && !cur[a.j].first) a.j = -1;
            if (two && !cur[a.j].first) { a.kind = COPY; a.j = -1; }
            if ((a.kind == ASSIGN || a.kind == MOVE_ASSIGN || a.kind == SWAP) && !cur[a.i].first) { a.kind = COPY; a.j = -1; }
            if ((a.kind == ASSIGN_BASE || a.kind == SELF || (a.kind >= WRITE && a.kind <= BACK_SUB_BAD) || a.kind == DROP || a.kind == READ) && !cur[a.i].first) { a.kind = r.one_in(2) ? COPY : MAKE; a.j = -1; }
            G& g = cur[a.i].second; bool& live = cur[a.i].first;
            if (a.kind == WRITE || a.kind == ZERO_WRITE) {
                bool want = a.kind == WRITE, found = false;
                if (g.r && g.c) for (int q = 0; q < 60 && !found; q++) { a.r = r.below(g.r); a.c = r.below(g.c); found = (bool)g.st[a.r * g.c + a.c] == want; }
                if (!found) a.kind = READ;
            }
            if (a.kind == READ_BASE) a.rp = (int)r.below(R::NRC);
            z->st.push_back(cur);
            switch (a.kind) {
            case MAKE: g = R::plan(r, a.k, n, m); live = true; break;
            case COPY: g = a.j < 0 ? bg : cur[a.j].second; live = true; break;
            case MOVE_CTOR: case MOVE_ASSIGN: { G t = cur[a.j].second; cur[a.j].first = false; cur[a.i].second = t; live = true; break; }
            case ASSIGN: g = cur[a.j].second; break;
            case ASSIGN_BASE: g = bg; break;
            case SWAP: std::swap(cur[a.i].second, cur[a.j].second); break;
            case WRITE: if (R::solve && a.r == a.c) a.x = dval(r); g.g[a.r * g.c + a.c] = a.x; if (R::sym) g.g[a.c * g.c + a.r] = a.x; break;
            case ZERO_WRITE: a.want = R::zx; break;
            case DROP: live = false; break;
            case MAKE_BAD: if constexpr (R::badx != X_NONE) R::plan_bad(r, a.k, n); a.want = R::badx; break;
            default: break;
            }
            if constexpr (R::grow) {
                if (a.kind == GROW || a.kind == GROW_ZERO) { size_t l = R::growlen(g.r); a.k.v = a.kind == GROW ? rvals<T>(r, l, V_UNI) : std::vector<T>(l, T(0)); if (R::solve && a.kind == GROW) a.k.v[l - 1] = dval(r); R::grown(g, a.k.v); }
                if (a.kind == GROW_BAD) { size_t l = R::growlen(g.r), q; do q = r.one_in(2) ? r.below(l + 4) : l + (size_t)r.range(-1, 1); while (q == l); a.k.v = rvals<T>(r, q, V_UNI); a.want = X_INVALID; }
            }
            if constexpr (R::solve) {
                bool zero = false; for (size_t q = 0; q < g.r; q++) if (g.g[q * g.r + q] == T(0)) zero = true;
                if (a.kind == BACK_SUB && zero) a.kind = READ;
                if (a.kind == BACK_SUB) { a.k.v = rvals<T>(r, g.r, V_UNI); a.path = (int)r.below(3); }
                if (a.kind == BACK_SUB_BAD) { size_t q; do q = r.below(g.r + 4); while (q == g.r); a.k.v = rvals<T>(r, q, V_UNI); a.path = (int)r.below(3); a.want = X_INVALID; }
            }
            z->acts.push_back(a);
        }
        z->st.push_back(cur);
        size_t k = z->acts.size(); z->seen.resize(k); z->threw.assign(k, X_NONE); z->sol.resize(k); for (int i = 0; i < POOL; i++) z->lp.push_back((int)r.below(R::NR)); z->lbp = (int)r.below(R::NRC);
        return z;
    }
    void act(Z& z, const Act& a, size_t t) {
        auto& o = z.o;
        switch (a.kind) {
        case MAKE: o[a.i].reset(); o[a.i].emplace(R::make(a.k)); break;
        case COPY: o[a.i].reset(); o[a.i].emplace(a.j < 0 ? *base : const_cast<const V&>(*o[a.j])); break;
        case MOVE_CTOR: o[a.i].reset(); o[a.i].emplace(std::move(*o[a.j])); o[a.j].reset(); break;
        case ASSIGN: if constexpr (R::assign) z.self_ok &= &(*o[a.i] = const_cast<const V&>(*o[a.j])) == &*o[a.i]; break;
        case ASSIGN_BASE: if constexpr (R::assign) z.self_ok &= &(*o[a.i] = *base) == &*o[a.i]; break;
        case SELF: if constexpr (R::assign) { const V& me = *o[a.i]; *o[a.i] = me; } break;
        case MOVE_ASSIGN: if constexpr (R::assign) { *o[a.i] = std::move(*o[a.j]); o[a.j].reset(); } break;
        case SWAP: if constexpr (R::assign) { V t(std::move(*o[a.i])); *o[a.i] = std::move(*o[a.j]); *o[a.j] = std::move(t); } break;
        case WRITE: case ZERO_WRITE: R::write(a.kind == ZERO_WRITE ? a.path % 2 : a.path, *o[a.i], a.r, a.c, a.x); break;
        case GROW: case GROW_BAD: if constexpr (R::grow) { auto e = a.k.v; o[a.i]->extend_with(std::move(e)); } break;
        case GROW_ZERO: if constexpr (R::grow) o[a.i]->extend_with_zero(); break;
        case BACK_SUB: case BACK_SUB_BAD: if constexpr (R::solve) {
            const V& u = *o[a.i];
            if (a.path == 0) { auto y = a.k.v; struct Keep { std::vector<T>& from; std::vector<T>& to; ~Keep() { to = from; } } keep{y, z.sol[t]}; u.back_sub(y); }
            else if (a.path == 1) { DynVec<T> y(a.k.v); struct Keep { DynVec<T>& from; std::vector<T>& to; ~Keep() { to.assign(from.data(), from.data() + from.size()); } } keep{y, z.sol[t]}; u.back_sub(y); }
            else { z.sol[t] = a.k.v; u.back_sub(std::span<T>(z.sol[t])); }
            } break;
        case MAKE_BAD: if constexpr (R::badx != X_NONE) R::make_bad(a.k); break;
        case DROP: o[a.i].reset(); break;
        default: break;
        }
    }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        for (size_t t = 0; t < z.acts.size(); t++) {
            const Act& a = z.acts[t]; z.cur = t; z.post = false;
            if (a.want == X_NONE) act(z, a, t);
            else try { act(z, a, t); } catch (const std::bad_alloc&) { throw; } catch (const std::invalid_argument&) { z.threw[t] = X_INVALID; } catch (const std::out_of_range&) { z.threw[t] = X_RANGE; } catch (const std::runtime_error&) { z.threw[t] = X_RUNTIME; }
            z.post = true;
            if (a.kind == READ_BASE) R::read(a.rp, *base, nullptr, z.seen[t]); else if (z.o[a.i]) R::read(a.rp, *z.o[a.i], &*z.o[a.i], z.seen[t]);
        }
        for (int i = 0; i < POOL; i++) if (z.o[i]) R::read(z.lp[i], *z.o[i], &*z.o[i], z.last[i]);
        R::read(z.lbp, *base, nullptr, z.lastb);
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); char b[120];
        for (size_t t = 0; t < z.acts.size(); t++) {
            const Act& a = z.acts[t];
            if (a.want != X_NONE && z.threw[t] == X_NONE) { snprintf(b, sizeof b, "%s: %s is accepted, it must throw %s", name, act_name[a.kind], exc_name(a.want)); violation("not-rejected", "%s", b); }
            if (a.want != z.threw[t]) { snprintf(b, sizeof b, "%s: %s throws %s, it must throw %s", name, act_name[a.kind], exc_name(z.threw[t]), exc_name(a.want)); violation("wrong-exception", "%s", b); }
            if (a.kind == READ_BASE) { judge_grid<T>(name, "the shared source", z.seen[t], bg); continue; }
            if (z.st[t + 1][a.i].first) { snprintf(b, sizeof b, "object %d after act %zu, %s (read path %d)", a.i, t, act_name[a.kind], a.rp); judge_grid<T>(name, b, z.seen[t], z.st[t + 1][a.i].second); }
            if constexpr (FP) {
                if (a.kind == BACK_SUB) judge_solve<T>("back substitution", (int)z.st[t][a.i].second.r, z.st[t][a.i].second.g, 1, a.k.v, z.sol[t].data(), z.sol[t].size());
                if (a.kind == BACK_SUB_BAD) { if (z.sol[t].size() != a.k.v.size()) wrong(name, "a rejected back substitution changes the length of its vector"); judge_same<T>("rejected back substitution", "vector", z.sol[t].data(), a.k.v); }
            }
        }
        if (!z.self_ok) wrong(name, "an assignment does not return its object");
        for (int i = 0; i < POOL; i++) if (z.st.back()[i].first) { snprintf(b, sizeof b, "object %d at the end (read path %d)", i, z.lp[i]); judge_grid<T>(name, b, z.last[i], z.st.back()[i].second); }
        judge_grid<T>(name, "the shared source", z.lastb, bg);
    }
    // an injected failure: what the interrupted step does not produce is as before
    void bad(Slot* p) override {
        Z& z = *static_cast<Z*>(p); char b[160];
        if (z.cur < z.acts.size()) {
            const Act& a = z.acts[z.cur]; auto& s = z.st[z.cur + (z.post ? 1 : 0)];
            bool made = !z.post && (a.kind == MAKE || a.kind == COPY || a.kind == MOVE_CTOR || a.kind == ASSIGN || a.kind == ASSIGN_BASE || a.kind == SELF || a.kind == MOVE_ASSIGN || a.kind == SWAP);
            for (int i = 0; i < POOL; i++) {
                if (made && (i == a.i || i == a.j)) continue;
                if (!s[i].first || !z.o[i]) continue;
                G g; R::read(0, *z.o[i], nullptr, g); snprintf(b, sizeof b, "object %d after a failed allocation in act %zu, %s", i, z.cur, act_name[a.kind]); judge_grid<T>(name, b, g, s[i].second);
            }
        }
        G g; R::read(0, *base, nullptr, g); judge_grid<T>(name, "the shared source after a failed allocation", g, bg);
    }
};
static int clampn(int n, int hi) { return n > hi ? n % hi + 1 : n; }
template<Flavour F> Inst* any(const Par& p, Rng& r) {
    int n = clampn(p.n, F == F_GROW ? 9 : 12), m = clampn(p.m, 12), t;
    if (r.one_in(16)) { n = clampn(p.n, 48); m = clampn(p.m, 48); if (r.one_in(4)) { n = (int)r.range(60, 70); if (r.one_in(2)) m = (int)r.range(1, 70); } }
    static const int rej[] = {2, 4, 5, 6, 7, 8, 9, 12, 13};        // the types with something to reject
    if (F == F_GROW) t = 12 + (int)r.below(2); else if (F == F_REJECT) t = rej[r.below(FP ? 9 : 7)]; else t = (int)r.below(FP ? 15 : 12);
    switch (t) {
    case 0: case 1: return new Program<DynVec<T>>(r, r.one_in(6) ? (r.one_in(3) ? (int)r.range(41, 300) : 40) : n, 1, F);
    case 2: if (r.one_in(2)) return new Program<SizedVec<T, 3>>(r, 3, 1, F); return new Program<SizedVec<T, 17>>(r, 17, 1, F);
    case 3: case 14: return new Program<DynMat<T>>(r, n, m, F);
    case 4: return new Program<SizedMat<T, 3, 5>>(r, 3, 5, F);
    case 5: return new Program<SizedMat<T, 4, 4>>(r, 4, 4, F);
    case 6: return new Program<DynTriDiagMat<T>>(r, n, n, F);
    case 7: return new Program<SizedTriDiagMat<T, 5>>(r, 5, 5, F);
    case 8: return new Program<DynLowerTriMat<T>>(r, n, n, F);
    case 9: return new Program<SizedLowerTriMat<T, 4>>(r, 4, 4, F);
    case 10: return new Program<DynHermiteMat<T>>(r, n, n, F);
    case 11: return new Program<SizedHermiteMat<T, 4>>(r, 4, 4, F);
#if CT <= 2
    case 12: return new Program<HessenbergMat<T>>(r, n, n, F);
    default: return new Program<DynUpperTriMat<T>>(r, n, n, F);
#else
    default: return new Program<DynVec<T>>(r, n, 1, F);
#endif
    }
}

// --- rejected vector calls: operands of differing lengths ------------------------------------------------
constexpr size_t SN = 7;
struct Reject : Inst {
    using DV = DynVec<T>; using SV = SizedVec<T, SN>;
    std::vector<T> xv, yv, sv; std::unique_ptr<const DV> x, y, sx; std::unique_ptr<const SV> s; size_t nx, ny;
    struct Z : Slot { int which; size_t nr; std::vector<T> r0; std::optional<DV> r; std::vector<T> q0; std::optional<SV> q; T al; };
    Reject(const Par& p, Rng& r) {
        name = "vector call with operands of differing lengths"; nx = (size_t)p.n;
        auto other = [&](size_t a) { size_t b; do { switch (r.below(5)) { case 0: b = 0; break; case 1: b = a + 1; break; case 2: b = a ? a - 1 : 1; break; case 3: b = a + r.below(40); break; default: b = r.below(30); } } while (b == a); return b; };
        ny = other(nx); int mode = pick_vals(r, true); xv = rvals<T>(r, nx, mode); yv = rvals<T>(r, ny, mode); sv = rvals<T>(r, SN, mode);
        x.reset(new DV(xv)); y.reset(new DV(yv)); s.reset(new SV(sv)); size_t k = other(SN); sx.reset(new DV(rvals<T>(r, k, mode)));
        lens = {nx, ny, nx + ny, 0};
    }
    std::vector<size_t> lens;
    int expect() override { return X_SIZE; }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->which = (int)r.below(FP ? 16 : 12); z->al = rcoef<T>(r);
        z->nr = r.one_in(2) ? nx : ny; if (z->which == 1 || z->which == 3) do z->nr = r.one_in(2) ? ny : r.below(nx + 4); while (z->nr == nx);   // operands agree, the result does not
        if (z->which == 5) do z->nr = r.one_in(2) ? ny : r.below(nx + 4); while (z->nr == nx);
        z->r0 = rvals<T>(r, z->nr, V_UNI); z->r.emplace(z->r0); z->q0 = rvals<T>(r, SN, V_UNI); z->q.emplace(z->q0); return z;
    }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); volatile Re<T> keep; (void)keep;
        switch (z.which) {
        case 0: add(*x, *y, *z.r); break;
        case 1: add(*x, *x, *z.r); break;
        case 2: sub(*x, *y, *z.r); break;
        case 3: sub(*x, *x, *z.r); break;
        case 4: { DV t = *x + *y; z.r.emplace(t); break; }
        case 5: neg(*x, *z.r); break;
        case 6: { DV t = *x - *y; z.r.emplace(t); break; }
        case 7: { z.r0 = yv; z.r.emplace(yv); axpy(z.al, *x, *z.r); break; }
        case 8: add(*s, *sx, *z.q); break;
        case 9: add(*sx, *s, *z.q); break;
        case 10: sub(*s, *sx, *z.q); break;
        case 11: sub(*sx, *s, *z.q); break;
#if CT <= 2
        case 12: keep = x->dot(*y); break;
        case 13: keep = dot(*x, *y); break;
        case 14: keep = s->dot(*sx); break;
        case 15: keep = sx->dot(*s); break;
#endif
        }
    }
    void ok(Slot* p) override { bad(p); R->verified++; }
    void bad(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        judge_same<T>(name, "first operand", x->data(), xv); judge_same<T>(name, "second operand", y->data(), yv); judge_same<T>(name, "fixed-size operand", s->data(), sv);
        if (x->size() != nx || y->size() != ny) wrong(name, "an operand changes its length");
        if (z.r->size() != z.r0.size()) wrong(name, "the result of a rejected call changes its length");
        judge_same<T>(name, "result of a rejected call", z.r->data(), z.r0); judge_same<T>(name, "fixed-size result of a rejected call", z.q->data(), z.q0);
    }
};
static Inst* mk_reject(const Par& p, Rng& r) { return new Reject(p, r); }
#if CT == 1
#define NM(x) x "_d"
#elif CT == 2
#define NM(x) x "_f"
#elif CT == 3
#define NM(x) x "_c"
#else
#define NM(x) x "_z"
#endif
constexpr int W = CT == 1 ? 3 : 2;
static Reg r1(NM("copies"), P2 | P3 | P6 | P10 | P12, {D_ORD, D_ORD}, SHARED, W, any<F_COPY>);
static Reg r2(NM("access"), P2 | P3 | P10 | P16, {D_ORD, D_ORD}, SHARED, W, any<F_ACCESS>);
static Reg r3(NM("badcalls"), P3 | P6 | P10 | P13, {D_ORD, D_ORD}, SHARED, W, any<F_REJECT>);
static Reg r4(NM("badlens"), P2 | P3 | P6 | P10 | P13, {D_VEC}, SHARED, W, mk_reject);
#if CT <= 2
static Reg r5(NM("growing"), P2 | P3 | P6 | P8 | P10, {D_ORD, D_ORD}, SHARED, W, any<F_GROW>);
#endif
} }
