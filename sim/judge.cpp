#include "judge.hpp"
namespace cat {
template<class T> void judge_same(const char* name, const char* what, const T* p, const std::vector<T>& want) { same<T>(name, what, p, want); }
template<class T> void judge_state(const T* p, size_t n) { sigv<T>(p, n); }
template<class T> std::vector<T> rvals(Rng& r, size_t n, int mode) { return vals<T>(r, n, mode); }
template<class T> T rcoef(Rng& r) { return coef<T>(r); }

template<class T> void judge_operands(const EwSpec<T>& sp, const T* a, const T* b) {
    if (a) same<T>(sp.name, "first operand", a, sp.a);
    if (b) same<T>(sp.name, "second operand", b, sp.b);
}
template<class T> void judge_ew(const EwSpec<T>& sp, const T* a, const T* b, const T* y, size_t ylen, bool ret_ok) {
    if (!ret_ok) wrong(sp.name, "the call does not return its destination");
    if (ylen != sp.a.size()) wrong(sp.name, "the result has another length");
    Lg<T> A = up<T>(sp.al);
    for (size_t i = 0; i < ylen; i++) {
        T x = sp.a[i]; T w = sp.b.empty() ? T(0) : sp.b[i];
        Lg<T> lx = up<T>(x), lw = up<T>(w);
        switch (sp.op) {
        case EW_ADD: exact<T>(sp.name, "sum", (long)i, 0, y[i], T(x + w)); break;
        case EW_SUB: exact<T>(sp.name, "difference", (long)i, 0, y[i], T(x - w)); break;
        case EW_NEG: exact<T>(sp.name, "negation", (long)i, 0, y[i], T(-x)); break;
        case EW_SCALE: need<T>(sp.name, "scaling", (long)i, 0, y[i], A * lx, ab(A) * ab(lx), 2); break;
        case EW_DIV: need<T>(sp.name, "quotient", (long)i, 0, y[i], lx / A, ab(lx) / ab(A) * 4, 4); break;
        case EW_AXPY: need<T>(sp.name, "axpy", (long)i, 0, y[i], A * lx + lw, ab(A) * ab(lx) + ab(lw), 3); break;
        case EW_AXPYSELF: need<T>(sp.name, "axpy(x,x)", (long)i, 0, y[i], A * lx + lx, ab(A) * ab(lx) + ab(lx), 3); break;
        }
    }
    sigv<T>(y, ylen);
    judge_operands(sp, a, b);
}
template<class T> void judge_dot(const char* name, const std::vector<T>& x, const std::vector<T>& y, T d, T n1, T n2) {
    if constexpr (!num<T>::cx) {
        long double s = 0, m = 0, a = 0, b = 0; size_t n = x.size();
        for (size_t i = 0; i < n; i++) { long double p = x[i], q = y[i]; s += p * q; m += fabsl(p * q); a += p * p; b += q * q; }
        need<T>(name, "inner product", (long)n, 0, d, s, m, (double)n);
        need<T>(name, "norm", (long)n, 0, n1, sqrtl(a), sqrtl(a), (double)n); need<T>(name, "norm", (long)n, 1, n2, sqrtl(b), sqrtl(b), (double)n);
        sig(&d, sizeof d); sig(&n1, sizeof n1);
    }
}
template<class T> void judge_mv(const char* name, int n, int m, T alpha, const std::vector<T>& A, const std::vector<T>& x, T beta, const std::vector<T>& y0, const T* y, size_t ylen) {
    if (ylen != (size_t)n) wrong(name, "the product has another length");
    for (int i = 0; i < n; i++) {
        Lg<T> s(0); long double mag = 0;
        for (int j = 0; j < m; j++) { Lg<T> p = up<T>(A[(size_t)i * m + j]) * up<T>(x[j]); s += p; mag += ab(p); }
        Lg<T> al = up<T>(alpha), be = up<T>(beta);
        s *= al; mag *= ab(al);
        if (beta != T(0)) { s += be * up<T>(y0[i]); mag += ab(be) * ab(up<T>(y0[i])); }
        need<T>(name, "product", i, 0, y[i], s, mag, m + 2);
    }
    sigv<T>(y, ylen);
}
template<class T> void judge_mm(const char* name, int n, int k, int m, T alpha, const std::vector<T>& A, const std::vector<T>& B, T beta, const std::vector<T>& C0, const T* C, size_t clen) {
    if (clen != (size_t)n * m) wrong(name, "the product has another size");
    Lg<T> al = up<T>(alpha), be = up<T>(beta);
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        Lg<T> s(0); long double mag = 0;
        for (int l = 0; l < k; l++) { Lg<T> p = up<T>(A[(size_t)i * k + l]) * up<T>(B[(size_t)l * m + j]); s += p; mag += ab(p); }
        s *= al; mag *= ab(al);
        if (beta != T(0)) { Lg<T> c = be * up<T>(C0[(size_t)i * m + j]); s += c; mag += ab(c); }
        need<T>(name, "product", i, j, C[(size_t)i * m + j], s, mag, k + 2);
    }
    sigv<T>(C, clen);
}
template<class T> void judge_cross(const char* name, int dim, const std::vector<T>& x, const std::vector<T>& y, const std::vector<T>& c0, const T* c, size_t clen) {
    if (clen != (dim == 2 ? 1u : 3u)) wrong(name, "the result has another length");
    for (int i = 0; i < (dim == 2 ? 1 : 3); i++) {
        int a = dim == 2 ? 0 : (i + 1) % 3, b = dim == 2 ? 1 : (i + 2) % 3;
        Lg<T> p = up<T>(x[a]) * up<T>(y[b]), q = up<T>(y[a]) * up<T>(x[b]), z = c0.empty() ? Lg<T>(0) : up<T>(c0[i]);
        need<T>(name, "cross product", i, 0, c[i], p - q + z, ab(p) + ab(q) + ab(z), 6);
    }
    sigv<T>(c, clen);
}
template<class T> std::vector<T> inv2_matrix(Rng& r) { auto a = vals<T>(r, 4, V_UNI); int o = r.one_in(3) ? 1 : 0, e = !r.one_in(4) ? 6 : std::is_same_v<Re<T>, float> ? 20 : 100; Re<T> s = (Re<T>)std::ldexp(1.0, (int)r.range(-e, e)); a[o ? 1 : 0] += T(r.one_in(2) ? 3 : -3); a[o ? 2 : 3] += T(r.one_in(2) ? 3 : -3); for (auto& x : a) x = x * s; return a; }
template<class T> void judge_inv2(const char* name, const std::vector<T>& a, const T* g) {
    Lg<T> p = up<T>(a[0]) * up<T>(a[3]), q = up<T>(a[1]) * up<T>(a[2]), d = p - q; long double c = (ab(p) + ab(q)) / ab(d);
    Lg<T> w[4] = {up<T>(a[3]) / d, -up<T>(a[1]) / d, -up<T>(a[2]) / d, up<T>(a[0]) / d};
    for (int i = 0; i < 4; i++) need<T>(name, "inverse", i / 2, i % 2, g[i], w[i], ab(w[i]) * c * 2, 12);
    sigv<T>(g, 4);
}
// well separated directions: component i%m is dominant in vector i%m
template<class T> std::vector<T> cgs_family(Rng& r, int n, int m) { std::vector<T> v = vals<T>(r, (size_t)n * m, V_UNI); for (int j = 0; j < m; j++) { for (int i = 0; i < n; i++) if (i % m == j) v[(size_t)j * n + i] += T(r.one_in(2) ? 2 + m : -2 - m); int e = !r.one_in(4) ? 8 : std::is_same_v<Re<T>, float> ? 15 : 60; Re<T> s = (Re<T>)std::ldexp(1.0, (int)r.range(-e, e)); for (int i = 0; i < n; i++) v[(size_t)j * n + i] *= s; } return v; }
template<class T> void judge_cgs(const char* name, int n, int m, const std::vector<T>& v0, const std::vector<T>& v) {
    if (v.size() != v0.size()) wrong(name, "the family has another size");
    if constexpr (!num<T>::cx) {
        std::vector<long double> u(v0.begin(), v0.end());
        for (int j = 0; j < m; j++) {
            long double* uj = &u[(size_t)j * n]; long double mag = 0; for (int i = 0; i < n; i++) mag = std::max(mag, fabsl((long double)v0[(size_t)j * n + i]));
            for (int k = 0; k < j; k++) { long double* uk = &u[(size_t)k * n]; long double s = 0, q = 0; for (int i = 0; i < n; i++) { s += uk[i] * uj[i]; q += uk[i] * uk[i]; } for (int i = 0; i < n; i++) uj[i] -= s / q * uk[i]; }
            for (int i = 0; i < n; i++) need<T>(name, "orthogonalised vector", j, i, v[(size_t)j * n + i], uj[i], mag * (j + 1) * 8, n + 8.0 * m);
        }
    }
    sigv<T>(v.data(), v.size());
}
// --- linear systems -------------------------------------------------------------------
template<class T> void judge_solve(const char* name, int n, const std::vector<T>& A, int k, const std::vector<T>& b, const T* x, size_t xlen, double extra) {
    if (xlen != (size_t)n * k) wrong(name, "the solution has another size");
    long double eps = std::numeric_limits<T>::epsilon();
    for (int c = 0; c < k; c++) {
        long double na = 0, nx = 0, nb = 0;
        for (int i = 0; i < n; i++) { long double s = 0; for (int j = 0; j < n; j++) s += fabsl((long double)A[(size_t)i * n + j]); na = std::max(na, s); nx = std::max(nx, fabsl((long double)x[(size_t)i * k + c])); nb = std::max(nb, fabsl((long double)b[(size_t)i * k + c])); }
        long double tol = 64 * (n + 4) * eps * (na * nx + nb) + extra;
        for (int i = 0; i < n; i++) {
            long double s = b[(size_t)i * k + c]; for (int j = 0; j < n; j++) s -= (long double)A[(size_t)i * n + j] * x[(size_t)j * k + c];
            if (!(fabsl(s) <= tol)) { char m[300]; snprintf(m, sizeof m, "order %d, right-hand side %d of %d: the residual of equation %d is %.3Lg (allowed %.3Lg, |b| %.3Lg, |x| %.3Lg)", n, c, k, i, s, tol, nb, nx); wrong(name, m); }
        }
    }
    sigv<T>(x, xlen);
}
template<class T> void judge_finite_or_threw(const char* name, bool threw, const T* x, size_t n) {
    if (threw) return;
    for (size_t i = 0; i < n; i++) if (!std::isfinite(x[i])) return;
    wrong(name, "a finite vector is returned as the solution of an exactly singular system");
}
template<class T> std::vector<T> dominant(Rng& r, int n) {
    auto a = vals<T>(r, (size_t)n * n, V_UNI); for (auto& x : a) if (x == 0) x = (T)0.5;
    for (int i = 0; i < n; i++) { T s = 0, q = 0; for (int j = 0; j < n; j++) if (j != i) { s += std::fabs(a[(size_t)i * n + j]); q += std::fabs(a[(size_t)j * n + i]); } T d = std::max(s, q) + 1 + (T)r.unit(); a[(size_t)i * n + i] = r.one_in(3) ? -d : d; }
    T f = (T)std::ldexp(1.0, (int)r.range(-8, 8)); for (auto& x : a) x *= f;
    return a;
}
template<class T> std::vector<T> spd(Rng& r, int n) {
    std::vector<T> a((size_t)n * n);
    if (r.one_in(2)) { auto b = vals<T>(r, (size_t)n * n, V_UNI); for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) { T s = i == j ? (T)(1 + n / 4) : 0; for (int k = 0; k < n; k++) s += b[(size_t)i * n + k] * b[(size_t)j * n + k]; a[(size_t)i * n + j] = a[(size_t)j * n + i] = s; } }
    else { for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) a[(size_t)i * n + j] = a[(size_t)j * n + i] = r.one_in(5) ? 0 : (T)r.sym(); for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) if (j != i) s += std::fabs(a[(size_t)i * n + j]); a[(size_t)i * n + i] = s + 1 + (T)r.unit(); } }
    T f = size_of_system<T>(r); for (auto& x : a) x *= f;
    return a;
}
template<class T> std::vector<T> mul_plain(int n, const std::vector<T>& A, const std::vector<T>& v) { std::vector<T> y(n); for (int i = 0; i < n; i++) { long double s = 0; for (int j = 0; j < n; j++) s += (long double)A[(size_t)i * n + j] * v[j]; y[i] = (T)s; } return y; }
int g_prop = 0;
template<class T> std::vector<T> rhs_for(Rng& r, int n, int k, const std::vector<T>& A, bool wide) {
    std::vector<T> b((size_t)n * k, T(0));
    for (int c = 0; c < k; c++) {
        std::vector<T> v(n, T(0)); int e = !std::is_same_v<T, float> && wide && r.one_in(6) ? 60 : 6; T f = (T)std::ldexp(1.0, (int)r.range(-e, e));
        switch (r.below(8)) {
        case 0: break;                                                           // zero
        case 1: v[r.below(n)] = 1; break;                                        // unit vector
        case 2: { std::vector<T> e(n, T(0)); e[r.below(n)] = 1; v = mul_plain<T>(n, A, e); break; }      // the solution is a unit vector
        case 3: { std::vector<T> e(n, T(1)); v = mul_plain<T>(n, A, e); break; }
        case 4: v = vals<T>(r, n, V_WIDE); break;
        case 5: v = vals<T>(r, n, V_INT); break;
        default: v = vals<T>(r, n, V_UNI); break;
        }
        for (int i = 0; i < n; i++) b[(size_t)i * k + c] = v[i] * f;
    }
    return b;
}
std::vector<double> bad_spd(Rng& r, int n, bool zero) {
    if (n > 10) n = 10;
    std::vector<double> l((size_t)n * n, 0.0), d(n), a((size_t)n * n, 0.0); int k = (int)r.below(n);
    for (int i = 0; i < n; i++) { d[i] = r.one_in(2) ? 1 : 4; l[(size_t)i * n + i] = 1; for (int j = 0; j < i; j++) l[(size_t)i * n + j] = (double)r.range(-2, 2); }
    d[k] = zero ? 0 : r.one_in(2) ? -1 : -4;
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < n; q++) a[(size_t)i * n + j] += l[(size_t)i * n + q] * d[q] * l[(size_t)j * n + q];
    int e = r.one_in(4) ? 50 : 4; double f = std::ldexp(1.0, 2 * (int)r.range(-e, e)); for (auto& x : a) x *= f;
    return a;
}
std::vector<double> bad_lu(Rng& r, int n, bool band) {
    if (n > 10) n = 10;
    std::vector<double> l((size_t)n * n, 0.0), u((size_t)n * n, 0.0), a((size_t)n * n, 0.0); int k = (int)r.below(n);
    for (int i = 0; i < n; i++) { l[(size_t)i * n + i] = 1; u[(size_t)i * n + i] = i == k ? 0 : 1; for (int j = 0; j < n; j++) { if (band && abs(i - j) > 1) continue; if (j < i) l[(size_t)i * n + j] = (double)r.range(1, 2); if (j > i) u[(size_t)i * n + j] = (double)r.range(1, 2); } }
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) for (int q = 0; q < n; q++) a[(size_t)i * n + j] += l[(size_t)i * n + q] * u[(size_t)q * n + j];
    if (r.one_in(2)) { double f = size_of_system<double>(r); for (auto& x : a) x *= f; }
    return a;
}
template<class T> T norm_of(const std::vector<T>& v) { long double s = 0; for (auto x : v) s += (long double)x * x; return (T)sqrtl(s); }
template<class T> T norm_mat(int n, const std::vector<T>& A) { T m = 0; for (int i = 0; i < n; i++) { T s = 0; for (int j = 0; j < n; j++) s += std::fabs(A[(size_t)i * n + j]); m = std::max(m, s); } return m; }
// --- sparse ------------------------------------------------------------------------
template<class T> void judge_sp(const char* name, const char* which, const SpView<T>& v, const SpModel<T>& m, bool exact_values) {
    char b[300]; auto fail = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); wrong(name, std::string(which) + ": " + b); };
    Key sh = sp_shape(m, v.csr);
    if (v.nnz != m.e.size()) fail("nnz() is %zu, %zu elements are stored", v.nnz, m.e.size());
    if (v.r != sh.first || v.c != sh.second) fail("shape() is (%zu,%zu), expected (%zu,%zu)", v.r, v.c, sh.first, sh.second);
    if (v.val.size() != v.nnz || v.b.size() != v.nnz) fail("%zu values and %zu column indices for %zu elements", v.val.size(), v.b.size(), v.nnz);
    if (!v.csr && v.a.size() != v.nnz) fail("%zu row indices for %zu elements", v.a.size(), v.nnz);
    if (v.csr && v.a.size() != (m.rows || v.a.size() ? m.rows + 1 : 0)) fail("%zu row pointers for %zu rows", v.a.size(), m.rows);
    size_t k = 0;
    for (auto& [key, val] : m.e) {
        size_t row = v.csr ? 0 : v.a[k];
        if (v.csr && key.first + 1 < v.a.size() && v.a[key.first] <= k && k < v.a[key.first + 1]) row = key.first;
        else if (v.csr) { while (row + 1 < v.a.size() && !(v.a[row] <= k && k < v.a[row + 1])) row++; }
        if (row != key.first || v.b[k] != key.second) fail("stored element %zu is at (%zu,%zu), expected (%zu,%zu)", k, row, v.b[k], key.first, key.second);
        if (exact_values) exact<T>(name, which, (long)key.first, (long)key.second, v.val[k], val); else need<T>(name, which, (long)key.first, (long)key.second, v.val[k], up<T>(val), ab(up<T>(val)), 4);
        k++;
    }
    if (v.csr) for (size_t i = 0; i + 1 < v.a.size(); i++) if (v.a[i] > v.a[i + 1]) fail("row pointer %zu decreases", i);
    if (v.csr && !v.a.empty() && (v.a[0] != 0 || v.a.back() != v.nnz)) fail("row pointers start at %zu and end at %zu", v.a[0], v.a.back());
    if (v.full) for (size_t i = 0; i < sh.first; i++) for (size_t j = 0; j < sh.second; j++) {
        auto it = m.e.find({i, j}); T want = T(0); if (it != m.e.end()) { size_t pos = (size_t)std::distance(m.e.begin(), it); want = v.val[pos]; }
        exact<T>(name, "operator()", (long)i, (long)j, v.grid[i * sh.second + j], want);
        exact<T>(name, "at()", (long)i, (long)j, v.grid2[i * sh.second + j], want);
    }
    sigv<T>(v.val.data(), v.val.size());
}
template<class T> void judge_sp_adopt(SpModel<T>& m, const SpView<T>& v) { size_t k = 0; for (auto& [key, val] : m.e) { (void)key; val = v.val[k++]; } }
template<class T> SpModel<T> sp_random(Rng& r, int n, int m, int permille, int mode) { SpModel<T> x; for (int i = 0; i < n; i++) { if (r.one_in(5)) continue; for (int j = 0; j < m; j++) if ((int)r.below(1000) < permille) x.e[{(size_t)i, (size_t)j}] = val<T>(r, mode); } x.rows = sp_shape(x, false).first; return x; }
template<class T> std::vector<T> sp_dense(const SpModel<T>& m, size_t r, size_t c) { std::vector<T> d(r * c, T(0)); for (auto& [k, v] : m.e) d[k.first * c + k.second] = v; return d; }
template<class T> void judge_spmv(const char* name, size_t n, size_t m, T alpha, const SpModel<T>& A, const std::vector<T>& x, T beta, const std::vector<T>& y0, const T* y, size_t ylen) {
    if (ylen != n) wrong(name, "the product has another length");
    auto it = A.e.begin();
    for (size_t i = 0; i < n; i++) {
        Lg<T> s(0), al = up<T>(alpha), be = up<T>(beta); long double mag = 0; int k = 0;
        for (; it != A.e.end() && it->first.first == i; ++it, k++) { Lg<T> p = up<T>(it->second) * up<T>(x[it->first.second]); s += p; mag += ab(p); }
        s *= al; mag *= ab(al);
        if (beta != T(0)) { s += be * up<T>(y0[i]); mag += ab(be) * ab(up<T>(y0[i])); }
        need<T>(name, "product", (long)i, 0, y[i], s, mag, k + 2);
    }
    (void)m; sigv<T>(y, ylen);
}
template<class T> T sp_at(const SpModel<T>& m, size_t i, size_t j) { auto it = m.e.find({i, j}); return it == m.e.end() ? T(0) : it->second; }
template<class T> void sp_lists(Rng& r, const SpModel<T>& m, bool shuffle, std::vector<T>& v, std::vector<size_t>& a, std::vector<size_t>& b) {
    std::vector<std::pair<Key, T>> l(m.e.begin(), m.e.end());
    if (shuffle) for (size_t i = l.size(); i > 1; i--) std::swap(l[i - 1], l[r.below(i)]);
    for (auto& x : l) { v.push_back(x.second); a.push_back(x.first.first); b.push_back(x.first.second); }
}
template<class T> void sp_csr(const SpModel<T>& m, std::vector<T>& v, std::vector<size_t>& rp, std::vector<size_t>& c) { rp.assign(m.rows + 1, 0); for (auto& [k, x] : m.e) { v.push_back(x); c.push_back(k.second); rp[k.first + 1]++; } for (size_t i = 0; i < m.rows; i++) rp[i + 1] += rp[i]; }
template<class T> void judge_grid(const char* name, const char* when, const Grid<T>& got, const Grid<T>& want) {
    if (got.r != want.r || got.c != want.c) { char b[200]; snprintf(b, sizeof b, "%s: shape (%zu,%zu), expected (%zu,%zu)", when, got.r, got.c, want.r, want.c); wrong(name, b); }
    for (size_t i = 0; i < want.r; i++) for (size_t j = 0; j < want.c; j++) exact<T>(name, when, (long)i, (long)j, got.g[i * want.c + j], want.g[i * want.c + j]);
    sigv<T>(got.g.data(), got.g.size());
}
#define INST(T) template void judge_grid<T>(const char*, const char*, const Grid<T>&, const Grid<T>&); \
    template void judge_same<T>(const char*, const char*, const T*, const std::vector<T>&); template void judge_state<T>(const T*, size_t); \
    template std::vector<T> rvals<T>(Rng&, size_t, int); template T rcoef<T>(Rng&); \
    template void judge_operands<T>(const EwSpec<T>&, const T*, const T*); template void judge_ew<T>(const EwSpec<T>&, const T*, const T*, const T*, size_t, bool); \
    template void judge_dot<T>(const char*, const std::vector<T>&, const std::vector<T>&, T, T, T); \
    template void judge_mv<T>(const char*, int, int, T, const std::vector<T>&, const std::vector<T>&, T, const std::vector<T>&, const T*, size_t); \
    template void judge_mm<T>(const char*, int, int, int, T, const std::vector<T>&, const std::vector<T>&, T, const std::vector<T>&, const T*, size_t);
#define INSP(T) \
    template void judge_sp<T>(const char*, const char*, const SpView<T>&, const SpModel<T>&, bool); template void judge_sp_adopt<T>(SpModel<T>&, const SpView<T>&); \
    template SpModel<T> sp_random<T>(Rng&, int, int, int, int); template std::vector<T> sp_dense<T>(const SpModel<T>&, size_t, size_t); template void judge_spmv<T>(const char*, size_t, size_t, T, const SpModel<T>&, const std::vector<T>&, T, const std::vector<T>&, const T*, size_t); template T sp_at<T>(const SpModel<T>&, size_t, size_t); \
    template void sp_lists<T>(Rng&, const SpModel<T>&, bool, std::vector<T>&, std::vector<size_t>&, std::vector<size_t>&); template void sp_csr<T>(const SpModel<T>&, std::vector<T>&, std::vector<size_t>&, std::vector<size_t>&);
#define INSO(T) template void judge_cross<T>(const char*, int, const std::vector<T>&, const std::vector<T>&, const std::vector<T>&, const T*, size_t); \
    template void judge_inv2<T>(const char*, const std::vector<T>&, const T*); template std::vector<T> cgs_family<T>(Rng&, int, int); template void judge_cgs<T>(const char*, int, int, const std::vector<T>&, const std::vector<T>&); template std::vector<T> inv2_matrix<T>(Rng&);
INSO(float) INSO(double) INSO(std::complex<float>) INSO(std::complex<double>)
#define INSL(T) template void judge_solve<T>(const char*, int, const std::vector<T>&, int, const std::vector<T>&, const T*, size_t, double); template void judge_finite_or_threw<T>(const char*, bool, const T*, size_t); \
    template std::vector<T> dominant<T>(Rng&, int); template std::vector<T> spd<T>(Rng&, int); template std::vector<T> rhs_for<T>(Rng&, int, int, const std::vector<T>&, bool); template std::vector<T> mul_plain<T>(int, const std::vector<T>&, const std::vector<T>&); template T norm_of<T>(const std::vector<T>&); template T norm_mat<T>(int, const std::vector<T>&);
INSL(float) INSL(double)
INSP(float) INSP(double) INSP(std::complex<double>)
INST(float) INST(double) INST(std::complex<float>) INST(std::complex<double>)

std::vector<OpDef>& registry() { static std::vector<OpDef> r; return r; }
const char* exc_name(int e) { static const char* n[] = {"none", "vec_error::SizeMismatched", "std::invalid_argument", "std::out_of_range", "std::runtime_error", "std::bad_alloc", "std::exception", "unknown"}; return n[e]; }
}
