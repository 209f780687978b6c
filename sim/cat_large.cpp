// Objects with many elements: packed offsets beyond 8 and 16 bits, long sparse matrices. Each run touches a sample of
// the positions through every access path.
// CT=1 2
#include "judge.hpp"
#include <span>
#include <utility>
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "types.hpp"
using namespace lalib;
namespace cat { namespace {
struct Ix { size_t n, m; };
// where element (i, j) is in the list the object is made of; -1: structurally zero
template<class V> struct Lay;
template<> struct Lay<DynMat<T>> { static constexpr const char* nm = "large DynMat"; static size_t len(Ix s) { return s.n * s.m; } static long at(Ix s, size_t i, size_t j) { return (long)(i * s.m + j); } static DynMat<T> make(Ix s, std::vector<T> v) { return DynMat<T>(s.n, s.m, std::move(v)); } };
template<> struct Lay<DynLowerTriMat<T>> { static constexpr const char* nm = "large DynLowerTriMat"; static size_t len(Ix s) { return s.n * (s.n + 1) / 2; } static long at(Ix, size_t i, size_t j) { return j <= i ? (long)(i * (i + 1) / 2 + j) : -1; } static DynLowerTriMat<T> make(Ix s, std::vector<T> v) { return DynLowerTriMat<T>(s.n, std::move(v)); } };
template<> struct Lay<DynHermiteMat<T>> { static constexpr const char* nm = "large DynHermiteMat"; static size_t len(Ix s) { return s.n * (s.n + 1) / 2; } static long at(Ix, size_t i, size_t j) { if (i < j) std::swap(i, j); return (long)(i * (i + 1) / 2 + j); } static DynHermiteMat<T> make(Ix s, std::vector<T> v) { return DynHermiteMat<T>(s.n, std::move(v)); } };
template<> struct Lay<DynUpperTriMat<T>> { static constexpr const char* nm = "large DynUpperTriMat"; static size_t len(Ix s) { return s.n * (s.n + 1) / 2; } static long at(Ix, size_t i, size_t j) { return i <= j ? (long)(j * (j + 1) / 2 + i) : -1; } static DynUpperTriMat<T> make(Ix, std::vector<T> v) { return DynUpperTriMat<T>(std::move(v)); } };
template<> struct Lay<HessenbergMat<T>> { static constexpr const char* nm = "large HessenbergMat"; static size_t len(Ix s) { return s.n * (s.n + 3) / 2 - 1; } static long at(Ix, size_t i, size_t j) { return i <= j + 1 ? (long)(j * (j + 3) / 2 + i) : -1; } static HessenbergMat<T> make(Ix, std::vector<T> v) { return HessenbergMat<T>(std::move(v)); } };
template<> struct Lay<DynTriDiagMat<T>> { static constexpr const char* nm = "large DynTriDiagMat"; static size_t len(Ix s) { return 3 * s.n - 2; }
    static long at(Ix s, size_t i, size_t j) { if (i == j + 1) return (long)j; if (i == j) return (long)(s.n - 1 + i); if (i + 1 == j) return (long)(2 * s.n - 1 + i); return -1; }
    static DynTriDiagMat<T> make(Ix s, std::vector<T> v) { auto b = v.begin(); long n = (long)s.n; return DynTriDiagMat<T>(std::vector<T>(b, b + n - 1), std::vector<T>(b + n - 1, b + 2 * n - 1), std::vector<T>(b + 2 * n - 1, v.end())); } };

template<class V> struct Large : Inst {
    Ix s; std::vector<T> v; std::unique_ptr<const V> a;
    struct Pt { size_t i, j; T w, r[3], back; };
    struct Z : Slot { std::vector<Pt> pt; std::optional<V> c; std::vector<T> now; Ix sh{}, shc{}; };
    Large(Rng& r, Ix q) : s(q) { name = Lay<V>::nm; v = rvals<T>(r, Lay<V>::len(s), V_UNI); a.reset(new V(Lay<V>::make(s, v))); }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->now = v; z->c.emplace(*a);
        for (int k = 0; k < 60; k++) {
            Pt p{}; p.i = r.one_in(3) ? s.n - 1 - r.below(std::min<size_t>(s.n, 3)) : r.below(s.n); p.j = r.one_in(3) ? s.m - 1 - r.below(std::min<size_t>(s.m, 3)) : r.below(s.m);
            if (Lay<V>::at(s, p.i, p.j) < 0 && !r.one_in(4)) { p.j = std::min(p.i + r.below(2), s.m - 1); if (Lay<V>::at(s, p.i, p.j) < 0) p.j = p.i; }
            p.w = rcoef<T>(r); z->pt.push_back(p);
        }
        return z;
    }
    void run(Slot* q) override {
        Z& z = *static_cast<Z*>(q); V& c = *z.c; auto sh = a->shape(); z.sh = {sh.first, sh.second};
        for (auto& p : z.pt) { p.r[0] = (*a)(p.i, p.j); p.r[1] = a->at(p.i, p.j); }
        for (auto& p : z.pt) if (Lay<V>::at(s, p.i, p.j) >= 0) { p.r[2] = c(p.i, p.j); c.mut_at(p.i, p.j) = p.w; }
        const V d(c); auto sc = d.shape(); z.shc = {sc.first, sc.second};
        for (auto& p : z.pt) p.back = d(p.i, p.j);
    }
    void ok(Slot* q) override {
        Z& z = *static_cast<Z*>(q);
        if (z.sh.n != s.n || z.sh.m != s.m || z.shc.n != s.n || z.shc.m != s.m) wrong(name, "the matrix has another shape");
        for (auto& p : z.pt) { long k = Lay<V>::at(s, p.i, p.j); T w = k < 0 ? T(0) : v[k]; exact<T>(name, "constant read: ", (long)p.i, (long)p.j, p.r[0], w); exact<T>(name, "at: ", (long)p.i, (long)p.j, p.r[1], w); if (k >= 0) { exact<T>(name, "read before a write: ", (long)p.i, (long)p.j, p.r[2], z.now[k]); z.now[k] = p.w; } }
        for (auto& p : z.pt) { long k = Lay<V>::at(s, p.i, p.j); exact<T>(name, "read after the writes: ", (long)p.i, (long)p.j, p.back, k < 0 ? T(0) : z.now[k]); }
        R->verified++;
    }
};
static Inst* mk_large(const Par& p, Rng& r) {
    Ix q{(size_t)p.n, (size_t)p.n};
    switch (r.below(6)) {
    case 0: { size_t m = r.one_in(2) ? 1 + r.below(4) : (size_t)std::max(1, p.n + (int)r.range(-3, 3)); if (m < 5) q.n *= 80; q.m = m; if (r.one_in(2)) std::swap(q.n, q.m); return new Large<DynMat<T>>(r, q); }
    case 1: return new Large<DynLowerTriMat<T>>(r, q);
    case 2: return new Large<DynHermiteMat<T>>(r, q);
    case 3: return new Large<DynUpperTriMat<T>>(r, q);
    case 4: return new Large<HessenbergMat<T>>(r, q);
    default: q.n *= 80; q.m = q.n; return new Large<DynTriDiagMat<T>>(r, q);
    }
}

// --- growing packed matrices at large orders ---------------------------------------------------------
template<class V> struct LargeGrow : Inst {
    static constexpr bool UP = std::is_same_v<V, DynUpperTriMat<T>>;
    size_t n0; std::vector<T> v; std::unique_ptr<const V> a;
    static size_t glen(size_t n) { return UP ? n + 1 : n ? n + 2 : 1; }
    struct Step { int kind; std::vector<T> e; size_t i = 0, j = 0; T w{}, r{}; bool threw = false; };
    struct Z : Slot { std::optional<V> c; std::vector<Step> st; std::vector<std::pair<size_t, size_t>> pt; std::vector<T> out, kept, y, x; size_t n = 0, m = 0, cols = 0; bool solve = false, done = false; };
    std::vector<T> col(Rng& r, size_t n, bool zero) const { auto e = rvals<T>(r, glen(n), V_UNI); if (zero) e.assign(e.size(), T(0)); return e; }
    LargeGrow(const Par& p, Rng& r) { name = UP ? "growing large DynUpperTriMat" : "growing large HessenbergMat"; n0 = (size_t)p.n; if (n0 > 400 && !r.one_in(6)) n0 = 359 + n0 % 17; v = rvals<T>(r, Lay<V>::len({n0, n0}), V_UNI); if (UP) for (size_t i = 0; i < n0; i++) v[i * (i + 3) / 2] = T((Re<T>)(r.one_in(2) ? -1 : 1) * (Re<T>)(n0 + 8)); a.reset(new V(Lay<V>::make({n0, n0}, v))); }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->c.emplace(*a); size_t n = n0; bool zero = false; int k = (int)r.range(1, 12);
        for (int q = 0; q < k; q++) {
            Step s{(int)r.below(5), {}};
            if (s.kind == 0 && UP && r.one_in(2)) s.kind = 1;
            if (s.kind <= 1) { s.e = col(r, n, s.kind == 0); if (UP && s.kind) s.e[n] = T((Re<T>)(n0 + 8)); zero |= UP && s.kind == 0; n++; }
            else if (s.kind == 2) { s.e = rvals<T>(r, glen(n) + (r.one_in(2) ? 1 : -1), V_UNI); }
            else { s.i = r.one_in(2) ? n - 1 - r.below(std::min<size_t>(n, 4)) : r.below(n); s.j = s.i + r.below(n - s.i); if (!UP && s.j && r.one_in(3)) s.j = s.i ? s.i - 1 : 0; s.w = rcoef<T>(r); if (UP && s.i == s.j) s.kind = 4; }
            z->st.push_back(std::move(s));
        }
        for (int q = 0; q < 60; q++) { size_t i = r.one_in(2) ? n - 1 - r.below(std::min<size_t>(n, 14)) : r.below(n), j = r.one_in(2) ? n - 1 - r.below(std::min<size_t>(n, 14)) : r.below(n); z->pt.push_back({i, j}); }
        z->out.resize(z->pt.size()); z->kept = z->out;
        if (UP && !zero && n < 400) { z->solve = true; z->y = rvals<T>(r, n, V_UNI); z->x = z->y; }
        return z;
    }
    void run(Slot* q) override {
        Z& z = *static_cast<Z*>(q); V& c = *z.c;
        for (auto& s : z.st) switch (s.kind) {
            case 0: c.extend_with_zero(); break;
            case 1: { auto e = s.e; c.extend_with(std::move(e)); break; }
            case 2: { auto e = s.e; try { c.extend_with(std::move(e)); } catch (const std::invalid_argument&) { s.threw = true; } break; }
            case 3: s.r = c(s.i, s.j); c.mut_at(s.i, s.j) = s.w; break;
            default: s.r = std::as_const(c).at(s.i, s.j); break;
        }
        const V d(c); auto h = d.shape(); z.n = h.first; z.m = h.second;
        if (z.n == z.m) for (size_t k = 0; k < z.pt.size(); k++) if (z.pt[k].first < z.n && z.pt[k].second < z.n) { z.out[k] = d(z.pt[k].first, z.pt[k].second); z.kept[k] = d.at(z.pt[k].first, z.pt[k].second); }
        if constexpr (UP) if (z.solve) d.back_sub(std::span<T>(z.x));
        z.done = true;
    }
    void ok(Slot* q) override {
        Z& z = *static_cast<Z*>(q); std::vector<T> w = v; size_t n = n0;
        auto look = [&](size_t i, size_t j) { long k = Lay<V>::at({n, n}, i, j); return k < 0 ? T(0) : w[k]; };
        for (auto& s : z.st) switch (s.kind) {
            case 0: case 1: w.insert(w.end(), s.e.begin(), s.e.end()); n++; break;
            case 2: if (!s.threw) wrong(name, "an extension with the wrong number of elements is accepted"); break;
            case 3: exact<T>(name, "read before a write: ", (long)s.i, (long)s.j, s.r, look(s.i, s.j)); w[Lay<V>::at({n, n}, s.i, s.j)] = s.w; break;
            default: exact<T>(name, "read between extensions: ", (long)s.i, (long)s.j, s.r, look(s.i, s.j));
        }
        if (z.n != n || z.m != n) wrong(name, "the matrix has another shape");
        for (size_t k = 0; k < z.pt.size(); k++) { auto [i, j] = z.pt[k]; exact<T>(name, "element after growing: ", (long)i, (long)j, z.out[k], look(i, j)); exact<T>(name, "element (at) after growing: ", (long)i, (long)j, z.kept[k], look(i, j)); }
        if (z.solve) { std::vector<T> D(n * n); for (size_t i = 0; i < n; i++) for (size_t j = i; j < n; j++) D[i * n + j] = look(i, j); judge_solve<T>(name, (int)n, D, 1, z.y, z.x.data(), z.x.size()); }
        bad(q);
    }
    void bad(Slot*) override { const size_t n = n0; auto h = a->shape(); if (h.first != n || h.second != n) wrong(name, "the original has another shape"); Rng r(n * 77 + 5); for (int k = 0; k < 40; k++) { size_t i = r.below(n), j = r.below(n); long q = Lay<V>::at({n, n}, i, j); exact<T>(name, "original of the grown copies: ", (long)i, (long)j, (*a)(i, j), q < 0 ? T(0) : v[q]); } }
};
static Inst* mk_largegrow(const Par& p, Rng& r) { if (r.one_in(2)) return new LargeGrow<HessenbergMat<T>>(p, r); return new LargeGrow<DynUpperTriMat<T>>(p, r); }

// --- long sparse matrices: few entries in many rows and columns, or one entry in each row -------------
using Coo = SpCooMat<T>; using Csr = SpMat<T>; using Model = SpModel<T>; using View = SpView<T>;
struct LongSp : Inst {
    Model m; std::unique_ptr<const Coo> a; std::unique_ptr<const Csr> s; std::unique_ptr<const DynVec<T>> x; std::vector<T> xv; size_t n, c; T al, be; bool dense;
    struct Pt { size_t i, j; T r[4], w; };
    struct Z : Slot { int which; std::vector<Pt> pt; std::vector<T> y0; std::optional<DynVec<T>> y; Model b; std::vector<T> bv; std::vector<size_t> bi, bj; View v; std::optional<Coo> cc; std::optional<Csr> cs; };
    LongSp(const Par& p, Rng& r) {
        name = "long sparse matrix"; n = (size_t)p.n; c = r.one_in(2) ? n : r.one_in(2) ? 5 : (size_t)p.n / 2 + 7; dense = r.one_in(6);
        if (r.one_in(4)) std::swap(n, c);
        auto put = [&](size_t i, size_t j) { m.e[{i, j}] = rvals<T>(r, 1, V_UNI)[0]; };
        if (dense) { for (size_t i = 0; i < n; i++) m.e[{i, (i * 7 + 3) % c}] = T(1) + T((double)(i % 97)); }
        for (int k = 0; k < 40; k++) { put(r.below(n), r.below(c)); if (r.one_in(3)) put(n - 1 - r.below(std::min<size_t>(n, 30)), r.below(c)); if (r.one_in(4)) put(r.below(std::min<size_t>(n, 4)), c - 1 - r.below(std::min<size_t>(c, 30))); }
        put(n - 1, c - 1); m.rows = n;
        std::vector<T> v; std::vector<size_t> i, j; sp_lists<T>(r, m, !dense && r.one_in(2), v, i, j); a.reset(new Coo(v, i, j)); s.reset(new Csr(*a));
        xv = rvals<T>(r, c, V_UNI); x.reset(new DynVec<T>(xv)); al = rcoef<T>(r); be = rcoef<T>(r);
    }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->which = dense ? (int)r.below(2) : (int)r.below(5); z->y0 = rvals<T>(r, z->which == 0 ? n : 0, V_UNI);
        std::vector<Key> ks; for (int k = 0; k < 24; k++) { auto it = m.e.lower_bound({r.below(n), r.below(c)}); if (it != m.e.end()) ks.push_back(it->first); } ks.push_back(m.e.rbegin()->first);
        for (auto& k : ks) { z->pt.push_back({k.first, k.second, {}, rcoef<T>(r)}); if (r.one_in(3)) z->pt.push_back({r.below(n), r.below(c), {}, T(0)}); }
        if (z->which == 0) z->y.emplace(z->y0);
        if (z->which == 2 || z->which == 3) { for (int k = 0; k < 3; k++) { Key q = r.one_in(2) ? ks[r.below(ks.size())] : Key{r.below(n), r.below(c)}; z->b.e[q] = rvals<T>(r, 1, V_UNI)[0]; } sp_lists<T>(r, z->b, true, z->bv, z->bi, z->bj); }
        return z;
    }
    static void look(const Coo& q, View& v) { auto h = q.shape(); v.csr = false; v.r = h.first; v.c = h.second; v.nnz = q.nnz(); v.val = q.values(); v.a = q.row_indices(); v.b = q.col_indices(); }
    static void look(const Csr& q, View& v) { auto h = q.shape(); v.csr = true; v.r = h.first; v.c = h.second; v.nnz = q.nnz(); v.val = q.values(); v.a = q.row_ptr(); v.b = q.col_indices(); }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        switch (z.which) {
        case 0: mul(al, *s, *x, be, *z.y); break;
        case 1: for (auto& t : z.pt) { t.r[0] = (*a)(t.i, t.j); t.r[1] = a->at(t.i, t.j); t.r[2] = (*s)(t.i, t.j); t.r[3] = s->at(t.i, t.j); } break;
        case 2: { Coo b(z.bv, z.bi, z.bj); look(*a + b, z.v); break; }
        case 3: { Coo b(z.bv, z.bi, z.bj); z.cc.emplace(*a); *z.cc += b; look(*z.cc, z.v); break; }
        default: z.cc.emplace(*a); z.cs.emplace(*s); for (auto& t : z.pt) if (t.w != T(0)) { z.cc->mut_at(t.i, t.j) = t.w; z.cs->mut_at(t.i, t.j) = t.w; } look(Csr(*z.cc), z.v); break;
        }
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); Model t = m;
        switch (z.which) {
        case 0: judge_spmv<T>(name, n, c, al, m, xv, be, z.y0, z.y->data(), z.y->size()); break;
        case 1: for (auto& q : z.pt) { T w = sp_at<T>(m, q.i, q.j); static const char* nm[] = {"COO read: ", "COO at: ", "row-compressed read: ", "row-compressed at: "}; for (int k = 0; k < 4; k++) exact<T>(name, nm[k], (long)q.i, (long)q.j, q.r[k], w); } break;
        case 2: case 3: for (auto& [k, v] : z.b.e) { auto it = t.e.find(k); if (it == t.e.end()) t.e[k] = v; else it->second = it->second + v; } judge_sp<T>(name, z.which == 2 ? "A+B" : "A+=B", z.v, t, true); break;
        default: { for (auto& q : z.pt) if (q.w != T(0)) t.e[{q.i, q.j}] = q.w; judge_sp<T>(name, "COO after writes, converted", z.v, t, true); View w; look(*z.cs, w); judge_sp<T>(name, "row-compressed after writes", w, t, true); }
        }
        bad(p);
    }
    void bad(Slot*) override { View w, q; look(*s, w); judge_sp<T>(name, "row-compressed operand", w, m, true); look(*a, q); judge_sp<T>(name, "COO operand", q, m, true); judge_same<T>(name, "vector", x->data(), xv); }
};
static Inst* mk_longsp(const Par& p, Rng& r) { return new LongSp(p, r); }
// --- long tri-diagonal systems -------------------------------------------------------------------------
struct TriLong : Inst {
    size_t n; std::vector<T> dl, d, du; bool sing; std::unique_ptr<const DynTriDiagMat<T>> a;
    struct Call { size_t k; bool inpl; std::vector<T> b, x, left; bool threw = false; };
    struct Z : Slot { std::vector<Call> c; std::vector<DynVec<T>> vb, vx; std::vector<DynMat<T>> mb, mx; bool copy = false; };
    TriLong(const Par& p, Rng& r, bool s) : sing(s) {
        static const size_t f[] = {1, 1, 2, 8, 60, 180}; n = (size_t)p.n * f[r.below(6)]; if (n > 70000) n = 65536 + r.below(70); name = s ? "long singular tri-diagonal system" : "long tri-diagonal system";
        dl = rvals<T>(r, n - 1, V_UNI); du = rvals<T>(r, n - 1, V_UNI); d.resize(n);
        for (size_t i = 0; i < n; i++) { T s1 = (i ? std::fabs(dl[i - 1]) : 0) + (i + 1 < n ? std::fabs(du[i]) : 0), q = (i ? std::fabs(du[i - 1]) : 0) + (i + 1 < n ? std::fabs(dl[i]) : 0); d[i] = (std::max(s1, q) + (T)0.25 + (T)r.unit()) * (T)(r.one_in(3) ? -1 : 1); }
        if (sing) { size_t k = r.one_in(3) ? n - 1 - r.below(2) : r.one_in(3) ? r.below(2) : r.below(n); d[k] = 0; if (r.one_in(2)) { if (k) dl[k - 1] = 0; if (k + 1 < n) du[k] = 0; } else { if (k) du[k - 1] = 0; if (k + 1 < n) dl[k] = 0; } }
        a.reset(new DynTriDiagMat<T>(dl, d, du));
    }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->copy = r.one_in(2); int q = n > 5000 ? 1 : (int)r.range(1, 2);
        for (int i = 0; i < q; i++) {
            Call c; c.k = r.one_in(2) ? 1 : 2 + r.below(n > 5000 ? 2 : r.one_in(3) ? 40 : 6); c.inpl = r.one_in(3); c.b = rvals<T>(r, n * c.k, V_UNI);
            if (r.one_in(6)) { c.b.assign(n * c.k, T(0)); c.b[r.below(n * c.k)] = T(1); }
            if (c.k == 1) { z->vb.emplace_back(c.b); z->vx.emplace_back(rvals<T>(r, n, V_UNI)); } else { z->mb.emplace_back(n, c.k, c.b); z->mx.emplace_back(n, c.k, rvals<T>(r, n * c.k, V_UNI)); }
            z->c.push_back(std::move(c));
        }
        return z;
    }
    template<class S, class V> void go(S& s, Call& c, V& b, V& x) { V& o = c.inpl ? b : x; try { s.solve_linear(b, o); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { if (!sing) throw; c.threw = true; return; } c.x.assign(o.data(), o.data() + n * c.k); if (!c.inpl) c.left.assign(b.data(), b.data() + n * c.k); }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); size_t v = 0, m = 0; DynTriDiagMat<T> own(*a);
        auto all = [&](auto& s) { for (auto& c : z.c) { if (c.k == 1) { go(s, c, z.vb[v], z.vx[v]); v++; } else { go(s, c, z.mb[m], z.mx[m]); m++; } } };
        if (z.copy) { solver::TriDiag<DynTriDiagMat<T>> s(own); own.data_d()[n / 2] = T(0); all(s); } else { solver::TriDiag<DynTriDiagMat<T>> s(std::move(own)); all(s); }
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const long double eps = std::numeric_limits<T>::epsilon();
        for (auto& c : z.c) {
            if (sing) { if (!c.threw) for (size_t q = 0; q < c.k; q++) { bool fin = true; for (size_t i = 0; i < n; i++) if (!std::isfinite(c.x[i * c.k + q])) fin = false; if (fin) wrong(name, "a finite vector is returned as the solution of an exactly singular system"); } continue; }
            if (c.x.size() != n * c.k) wrong(name, "the solution has another size");
            for (size_t q = 0; q < c.k; q++) {
                long double nx = 0, nb = 0; for (size_t i = 0; i < n; i++) { nx = std::max(nx, fabsl((long double)c.x[i * c.k + q])); nb = std::max(nb, fabsl((long double)c.b[i * c.k + q])); }
                for (size_t i = 0; i < n; i++) {
                    long double e = c.b[i * c.k + q] - (long double)d[i] * c.x[i * c.k + q]; if (i) e -= (long double)dl[i - 1] * c.x[(i - 1) * c.k + q]; if (i + 1 < n) e -= (long double)du[i] * c.x[(i + 1) * c.k + q];
                    if (!(fabsl(e) <= 512 * eps * (4 * nx + nb))) { char t[200]; snprintf(t, sizeof t, "order %zu, right-hand side %zu of %zu: the residual of equation %zu is %.3Lg (|b| %.3Lg, |x| %.3Lg)", n, q, c.k, i, e, nb, nx); wrong(name, t); }
                }
            }
            R->verified += n * c.k;
            if (!c.inpl) judge_same<T>(name, "right-hand side", c.left.data(), c.b);
        }
        bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "sub-diagonal of the matrix", a->data_dl(), dl); judge_same<T>(name, "diagonal of the matrix", a->data_d(), d); judge_same<T>(name, "super-diagonal of the matrix", a->data_du(), du); }
};
static Inst* mk_trilong(const Par& p, Rng& r) { return new TriLong(p, r, false); }
static Inst* mk_trilongsing(const Par& p, Rng& r) { return new TriLong(p, r, true); }
#define NM(x) CT == 1 ? x "_d" : x "_f"
static Reg r1(NM("large"), P16, {D_BIG}, SHARED, 1, mk_large);
static Reg r3(NM("largegrow"), P8, {D_BIG}, SHARED, 1, mk_largegrow);
static Reg r4(NM("trilong"), P4, {D_BIG}, SHARED, 1, mk_trilong);
static Reg r5(NM("trilongsing"), P5, {D_BIG}, SHARED, 1, mk_trilongsing);
static Reg r2(NM("longsp"), P7 | P9, {D_LONG}, SHARED, 1, mk_longsp);
} }
