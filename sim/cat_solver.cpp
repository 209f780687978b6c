// Linear solvers: histories of solves (C04), reported failures (C05), shared use (C02),
// allocation and backend failures (C06), GMRES (C11).
// CT=1 2
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/solver/tri_diag.hpp"
#include "lalib/solver/cholesky_factorization.hpp"
#include "lalib/solver/ilu.hpp"
#include "lalib/solver/gmres.hpp"
#include "types.hpp"
using namespace lalib;
namespace cat { namespace {
using DV = DynVec<T>; using DM = DynMat<T>;
template<size_t N> using SV = SizedVec<T, N>;
template<size_t N, size_t M> using SM = SizedMat<T, N, M>;
static DM dm(int n, int m, const std::vector<T>& v) { return DM((size_t)n, (size_t)m, v); }

// --- tri-diagonal -----------------------------------------------------------------------
struct Tri { int n; std::vector<T> dl, d, du, full; };
static void tri_full(Tri& t) { int n = t.n; t.full.assign((size_t)n * n, T(0)); for (int i = 0; i < n; i++) { t.full[(size_t)i * n + i] = t.d[i]; if (i + 1 < n) { t.full[(size_t)i * n + i + 1] = t.du[i]; t.full[(size_t)(i + 1) * n + i] = t.dl[i]; } } }
static Tri make_tri(Rng& r, int n) {
    Tri t; t.n = n; t.dl = rvals<T>(r, n - 1, V_UNI); t.du = rvals<T>(r, n - 1, V_UNI); t.d.resize(n);
    for (auto* v : {&t.dl, &t.du}) for (auto& x : *v) if (r.one_in(8)) x = 0;
    T f = size_of_system<T>(r);
    for (int i = 0; i < n; i++) { T s = (i ? std::fabs(t.dl[i - 1]) : 0) + (i + 1 < n ? std::fabs(t.du[i]) : 0), q = (i ? std::fabs(t.du[i - 1]) : 0) + (i + 1 < n ? std::fabs(t.dl[i]) : 0); t.d[i] = std::max(s, q) + (T)0.25 + (T)r.unit(); if (r.one_in(3)) t.d[i] = -t.d[i]; t.d[i] *= f; }
    for (auto& x : t.dl) x *= f;
    for (auto& x : t.du) x *= f;
    tri_full(t); return t;
}
// a diagonal block whose rows sum to zero (elimination is exact and meets a zero pivot at the end of the block), cut off
// from the rows before it and from one side of the rows after it
static void sing_block(Rng& r, Tri& t) {
    int n = t.n, k = r.one_in(2) ? std::min(n, 2) : (int)r.range(2, std::min(n, 7)), a = (int)r.below((u64)(n - k + 1)); T f = (T)std::ldexp(1.0, (int)r.range(-6, 6)); bool tr = r.one_in(3);
    for (int i = a; i < a + k; i++) {
        T w = f * (T)std::ldexp(r.one_in(2) ? 1.0 : -1.0, (int)r.range(-2, 2)); t.d[i] = T(0);
        if (i > a) { t.dl[i - 1] = -w; t.d[i] += w; }
        if (i + 1 < a + k) { t.du[i] = -w; t.d[i] += w; }
    }
    if (a) t.dl[a - 1] = 0;
    if (a + k < n) { if (r.one_in(2)) t.du[a + k - 1] = 0; else t.dl[a + k - 1] = 0; }
    if (tr) { for (int i = a; i + 1 < a + k; i++) std::swap(t.dl[i], t.du[i]); }        // columns that sum to zero
    tri_full(t);
}
template<class M> struct tmk { static M make(const Tri& t, bool mv) { if (!mv) return M(t.dl, t.d, t.du); auto a = t.dl; auto b = t.d; auto c = t.du; return M(std::move(a), std::move(b), std::move(c)); } };
template<class E, size_t N> struct tmk<SizedTriDiagMat<E, N>> { static SizedTriDiagMat<E, N> make(const Tri& t, bool) { std::array<E, N - 1> a, c; std::array<E, N> b; for (size_t i = 0; i < N; i++) b[i] = t.d[i]; for (size_t i = 0; i + 1 < N; i++) { a[i] = t.dl[i]; c[i] = t.du[i]; } return SizedTriDiagMat<E, N>(a, b, c); } };

static int columns(Rng& r) { return !r.one_in(4) ? (int)r.range(1, 4) : !r.one_in(8) ? (int)r.range(5, 20) : (int)r.range(30, 70); }
enum { K_VEC, K_MAT };
struct SolveSlot : Slot { int k = 1; std::vector<T> b, x, left; bool ret = true, inpl = false; int shape = K_VEC; int variant = 0; };
template<class V> void out(SolveSlot& s, const V& v, size_t n) { s.x.assign(v.data(), v.data() + n); }

// a solver object with a history of solves, owned by one client
template<class M, size_t N> struct TriHist : Inst {
    Tri t; M a; std::optional<solver::TriDiag<M>> s; bool singular = false; int muts = 0;
    TriHist(Rng& r, const Tri& tri, const char* nm, bool by_move) : t(tri), a(tmk<M>::make(t, r.one_in(2))) {
        name = nm; if (by_move) { M c(a); s.emplace(std::move(c)); } else s.emplace(a);
    }
    struct Z : SolveSlot { std::optional<DV> vb, vx; std::optional<SV<N>> sb, sx; std::optional<DM> mb, mx; std::optional<SM<N, 2>> nb, nx; };
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->variant = (int)r.below(N > 1 ? 4 : 2); z->k = z->variant == 1 ? columns(r) : z->variant == 3 ? 2 : 1; z->inpl = r.one_in(3);
        z->b = rhs_for<T>(r, t.n, z->k, t.full); auto junk = rvals<T>(r, (size_t)t.n * z->k, V_UNI);
        switch (z->variant) {
        case 0: z->vb.emplace(z->b); z->vx.emplace(junk); break;
        case 1: z->mb.emplace(dm(t.n, z->k, z->b)); z->mx.emplace(dm(t.n, z->k, junk)); break;
        case 2: z->sb.emplace(z->b); z->sx.emplace(junk); break;
        case 3: z->nb.emplace(z->b); z->nx.emplace(junk); break;
        }
        return z;
    }
    template<class V> void go(Z& z, V& b, V& x, size_t len) { if (z.inpl) { auto& q = s->solve_linear(b, b); z.ret = &q == &b; out(z, b, len); } else { auto& q = s->solve_linear(b, x); z.ret = &q == &x; out(z, x, len); z.left.assign(b.data(), b.data() + len); } }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); size_t len = (size_t)t.n * z.k;
        switch (z.variant) { case 0: go(z, *z.vb, *z.vx, len); break; case 1: go(z, *z.mb, *z.mx, len); break; case 2: go(z, *z.sb, *z.sx, len); break; default: go(z, *z.nb, *z.nx, len); break; }
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); if (!z.ret) wrong(name, "the call does not return its result");
        judge_solve<T>(name, t.n, t.full, z.k, z.b, z.x.data(), z.x.size());
        if (!z.inpl) judge_same<T>(name, "right-hand side", z.left.data(), z.b);
        bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "sub-diagonal of the matrix", a.data_dl(), t.dl); judge_same<T>(name, "diagonal of the matrix", a.data_d(), t.d); judge_same<T>(name, "super-diagonal of the matrix", a.data_du(), t.du); }
};
static Inst* tri_hist(const Par& p, Rng& r) {
    u64 c = r.below(10); bool mv = r.one_in(2);
    if (c < 7) return new TriHist<DynTriDiagMat<T>, 1>(r, make_tri(r, p.n), "tri-diagonal solver (dynamic)", mv);
    if (c < 8) return new TriHist<SizedTriDiagMat<T, 2>, 2>(r, make_tri(r, 2), "tri-diagonal solver (sized 2)", mv);
    if (c < 9) return new TriHist<SizedTriDiagMat<T, 5>, 5>(r, make_tri(r, 5), "tri-diagonal solver (sized 5)", mv);
    return new TriHist<SizedTriDiagMat<T, 17>, 17>(r, make_tri(r, 17), "tri-diagonal solver (sized 17)", mv);
}
// build and solve in one call, from a shared constant matrix
struct TriOnce : Inst {
    Tri t; std::unique_ptr<const DynTriDiagMat<T>> a; bool singular;
    struct Z : SolveSlot { std::optional<DV> vb, vx; bool threw = false; };
    TriOnce(const Par& p, Rng& r, bool sing) : singular(sing) {
        name = sing ? "singular tri-diagonal system" : "tri-diagonal build and solve"; t = make_tri(r, p.n);
        if (sing && t.n > 1 && r.one_in(2)) sing_block(r, t);
        else if (sing) { int k = (int)r.below(t.n), n = t.n; t.d[k] = 0; if (r.one_in(2)) { if (k) t.dl[k - 1] = 0; if (k + 1 < n) t.du[k] = 0; } else { if (k) t.du[k - 1] = 0; if (k + 1 < n) t.dl[k] = 0; } tri_full(t); }
        a.reset(new DynTriDiagMat<T>(t.dl, t.d, t.du));
    }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->b = rhs_for<T>(r, t.n, 1, t.full); z->inpl = r.one_in(3); z->vb.emplace(z->b); z->vx.emplace(singular ? z->b : rvals<T>(r, t.n, V_UNI)); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        solver::TriDiag<DynTriDiagMat<T>> s{DynTriDiagMat<T>(*a)};
        DV& x = z.inpl ? *z.vb : *z.vx;
        if (singular) { try { s.solve_linear(*z.vb, x); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) { z.threw = true; return; } }
        else s.solve_linear(*z.vb, x);
        out(z, x, t.n); z.left.assign(z.vb->data(), z.vb->data() + t.n);
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        if (singular) { judge_finite_or_threw<T>(name, z.threw, z.x.data(), z.x.size()); sig(&singular, 1); }
        else judge_solve<T>(name, t.n, t.full, 1, z.b, z.x.data(), z.x.size());
        if (!z.inpl && !z.threw) judge_same<T>(name, "right-hand side", z.left.data(), z.b);
        bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "sub-diagonal of the matrix", a->data_dl(), t.dl); judge_same<T>(name, "diagonal of the matrix", a->data_d(), t.d); judge_same<T>(name, "super-diagonal of the matrix", a->data_du(), t.du); }
};
static Inst* tri_once(const Par& p, Rng& r) { return new TriOnce(p, r, false); }
static Inst* tri_sing(const Par& p, Rng& r) { return new TriOnce(p, r, true); }
#define NM(x) CT == 1 ? x "_d" : x "_f"
static Reg r1(NM("trihist"), P3 | P4 | P5 | P6 | P10, {D_ORD}, OWNED, CT == 1 ? 4 : 2, tri_hist);
static Reg r2(NM("trionce"), P2 | P3 | P4 | P5 | P6 | P10, {D_ORD}, SHARED, CT == 1 ? 3 : 2, tri_once);
static Reg r3(NM("trising"), P3 | P5 | P10, {D_ORD}, SHARED, CT == 1 ? 3 : 2, tri_sing);

#if CT == 1
// --- Cholesky-type factorizations ------------------------------------------------------------
enum { C_PACK, C_FULL, C_MOD };
static const char* cnames[] = {"packed Cholesky", "Cholesky", "square-root-free Cholesky"};
using FP = solver::DynTriCholeskyFactorization<double>; using FF = solver::DynCholeskyFactorization<double>; using FM = solver::DynModCholeskyFactorization<double>;
static std::vector<T> packed(int n, const std::vector<T>& a) { std::vector<T> l; for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) l.push_back(a[(size_t)i * n + j]); return l; }
template<class F> struct fmk { static F make(int n, const std::vector<T>& a) { return F(DM((size_t)n, (size_t)n, a)); } };
template<> struct fmk<FP> { static FP make(int n, const std::vector<T>& a) { return FP(DynHermiteMat<double>((size_t)n, packed(n, a))); } };
static void factor(const FP& f, int n, std::vector<T>& o) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) o.push_back(f.lower_mat()((size_t)i, (size_t)j)); }
static void factor(const FF& f, int n, std::vector<T>& o) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) o.push_back(f.factor_mat()((size_t)i, (size_t)j)); }
static void factor(const FM& f, int n, std::vector<T>& o) { for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) o.push_back(f.factor_mat()((size_t)i, (size_t)j)); }
// 0 vector 1 vector in place 2 matrix 3 matrix in place 4 sized vector 5 sized vector in place 6 sized matrix 7 sized matrix in place
struct CholSlot : SolveSlot { std::optional<DV> vb; std::optional<DM> mb; std::optional<SV<6>> sb; std::optional<SM<6, 3>> nb; };
static CholSlot* chol_slot(Rng& r, int n, const std::vector<T>& A) {
    CholSlot* z = new CholSlot; z->variant = (int)r.below(n == 6 ? 8 : 4); int v = z->variant; z->k = v / 2 == 1 ? columns(r) : v / 2 == 3 ? 3 : 1; z->inpl = v & 1; z->b = rhs_for<T>(r, n, z->k, A);
    switch (v / 2) { case 0: z->vb.emplace(z->b); break; case 1: z->mb.emplace(dm(n, z->k, z->b)); break; case 2: z->sb.emplace(z->b); break; default: z->nb.emplace(z->b); break; }
    return z;
}
template<class F, class V> void chol_go(const F& f, CholSlot& z, V& b, size_t len) { if (z.inpl) { auto& q = f.solve_linear_mut(b); z.ret = &q == &b; out(z, b, len); } else { const V& c = b; auto x = f.solve_linear(c); out(z, x, len); z.left.assign(b.data(), b.data() + len); } }
template<class F> void chol_run(const F& f, CholSlot& z, int n) { size_t len = (size_t)n * z.k; switch (z.variant / 2) { case 0: chol_go(f, z, *z.vb, len); break; case 1: chol_go(f, z, *z.mb, len); break; case 2: chol_go(f, z, *z.sb, len); break; default: chol_go(f, z, *z.nb, len); break; } }
template<class F> struct CholShared : Inst {
    int n; std::vector<T> A, L0; std::unique_ptr<const F> f;
    CholShared(int n, Rng& r, const char* nm) : n(n) { name = nm; A = spd<T>(r, n); f.reset(new F(fmk<F>::make(n, A))); factor(*f, n, L0); }
    Slot* slot(Rng& r, int) override { return chol_slot(r, n, A); }
    void run(Slot* p) override { chol_run(*f, *static_cast<CholSlot*>(p), n); }
    void ok(Slot* p) override {
        CholSlot& z = *static_cast<CholSlot*>(p); if (!z.ret) wrong(name, "the call does not return its argument");
        judge_solve<T>(name, n, A, z.k, z.b, z.x.data(), z.x.size()); if (!z.inpl) judge_same<T>(name, "right-hand side", z.left.data(), z.b); bad(p);
    }
    void bad(Slot*) override { std::vector<T> l; factor(*f, n, l); judge_same<T>(name, "factorization", l.data(), L0); }
};
static Inst* chol_shared(const Par& p, Rng& r) { int n = r.one_in(5) ? 6 : p.n; switch (r.below(3)) { case 0: return new CholShared<FP>(n, r, cnames[0]); case 1: return new CholShared<FF>(n, r, cnames[1]); default: return new CholShared<FM>(n, r, cnames[2]); } }
// factorize from a private copy, then solve twice
template<class F> struct CholOnce : Inst {
    int n; std::vector<T> A; const bool broken;
    struct Z : Slot { std::vector<T> a; CholSlot *z1, *z2; ~Z() override { delete z1; delete z2; } };
    CholOnce(int n, Rng& r, const char* nm, int brk) : n(n), broken(brk) { name = nm; if (brk) { A = bad_spd(r, n, brk == 2 || std::is_same_v<F, FM>); this->n = n > 10 ? 10 : n; } else A = spd<T>(r, n); }
    int expect() override { return broken ? X_UNKNOWN : X_NONE; }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->a = A; z->z1 = chol_slot(r, n, A); z->z2 = chol_slot(r, n, A); return z; }
    void run(Slot* p) override { Z& z = *static_cast<Z*>(p); const F f(fmk<F>::make(n, z.a)); chol_run(f, *z.z1, n); chol_run(f, *z.z2, n); }
    void ok(Slot* p) override { if (broken) { R->verified++; return; } Z& z = *static_cast<Z*>(p); for (CholSlot* q : {z.z1, z.z2}) { judge_solve<T>(name, n, A, q->k, q->b, q->x.data(), q->x.size()); if (!q->inpl) judge_same<T>(name, "right-hand side", q->left.data(), q->b); } }
};
static Inst* chol_once(const Par& p, Rng& r) { switch (r.below(3)) { case 0: return new CholOnce<FP>(p.n, r, cnames[0], 0); case 1: return new CholOnce<FF>(p.n, r, cnames[1], 0); default: return new CholOnce<FM>(p.n, r, cnames[2], 0); } }
static Inst* chol_bad(const Par& p, Rng& r) {
    int b = 1 + (int)r.below(2);
    switch (r.below(3)) { case 0: return new CholOnce<FP>(p.n, r, "packed Cholesky of a matrix that is not positive definite", b); case 1: return new CholOnce<FF>(p.n, r, "Cholesky of a matrix that is not positive definite", b); default: return new CholOnce<FM>(p.n, r, "square-root-free Cholesky with a zero pivot", b); }
}
static Reg r4("chol", P2 | P3 | P4 | P5 | P6 | P10, {D_ORD}, SHARED, 5, chol_shared);
static Reg r5("cholonce", P2 | P3 | P4 | P5 | P6 | P10, {D_ORD}, SHARED, 4, chol_once);
static Reg r6("cholbad", P3 | P5 | P6 | P10, {D_ORD}, SHARED, 5, chol_bad);
#endif

// --- LU and GMRES -----------------------------------------------------------------------------
using Coo = SpCooMat<T>; using Csr = SpMat<T>;
// patterns: 0 dense 1 tri-diagonal 2 arrow 3 diagonal 4 blocks 5 lower 6 upper 7 random (fill-in ignored by the factorization)
static std::vector<T> pattern(Rng& r, int n, int pat, bool wide) {
    auto a = dominant<T>(r, n);
    if (wide && r.one_in(4)) { T f = size_of_system<T>(r); for (auto& x : a) x *= f; }
    int bs = (int)r.range(1, 4);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (i != j) {
        bool keep = true;
        switch (pat) { case 1: keep = abs(i - j) == 1; break; case 2: keep = i == n - 1 || j == n - 1; break; case 3: keep = false; break; case 4: keep = i / bs == j / bs; break; case 5: keep = j < i; break; case 6: keep = j > i; break; case 7: keep = r.below(10) < 3; break; }
        if (!keep) a[(size_t)i * n + j] = 0;
    }
    return a;
}
// [I B; C I] with B diagonal and C a shifted diagonal: the factorization drops the fill-in, the Krylov space has dimension n/2
static std::vector<T> slow_pattern(Rng& r, int n) {
    std::vector<T> a((size_t)n * n, T(0)); int h = n / 2, sh = h > 1 ? (int)r.range(1, h - 1) : 0; T q = (T)(0.3 + 0.6 * r.unit());
    if (r.one_in(3)) sh = h > 1 ? 1 : 0;
    T f = (T)std::ldexp(1.0, (int)r.range(-6, 6));
    for (int i = 0; i < h; i++) { a[(size_t)i * n + i] = a[(size_t)(h + i) * n + h + i] = f; a[(size_t)i * n + h + i] = f * (r.one_in(2) ? 1 : -1); a[(size_t)(h + i) * n + (i + sh) % h] = f * q * (r.one_in(2) ? 1 : -1); }
    return a;
}
template<class M> struct lmk { static M make(Rng& r, int n, const std::vector<T>& a) { SpModel<T> m; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) if (a[(size_t)i * n + j] != 0) m.e[{(size_t)i, (size_t)j}] = a[(size_t)i * n + j]; std::vector<T> v; std::vector<size_t> p, q; sp_lists<T>(r, m, true, v, p, q); return M(Coo(v, p, q)); } };
template<> struct lmk<DM> { static DM make(Rng&, int n, const std::vector<T>& a) { return dm(n, n, a); } };
struct VSlot : SolveSlot { std::optional<DV> vb; };
static Slot* vslot(Rng& r, int n, const std::vector<T>& A) { VSlot* z = new VSlot; z->b = rhs_for<T>(r, n, 1, A); z->vb.emplace(z->b); return z; }
// orders: element access of the sparse forms is a linear search
template<class M> int order(int n) { int lim = std::is_same_v<M, Coo> ? 9 : std::is_same_v<M, Csr> ? 18 : 40; return n > lim ? lim : n; }
template<class M> struct IluShared : Inst {
    int n; std::vector<T> A, L0; std::unique_ptr<const solver::Ilu<T, M>> f;
    IluShared(const Par& p, Rng& r, const char* nm) : n(order<M>(p.n)) { name = nm; A = pattern(r, n, std::is_same_v<M, DM> ? 0 : (int)r.below(7), true); f.reset(new solver::Ilu<T, M>(lmk<M>::make(r, n, A))); fac(L0); }
    void fac(std::vector<T>& o) { for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) o.push_back(f->mat()((size_t)i, (size_t)j)); }
    Slot* slot(Rng& r, int) override { return vslot(r, n, A); }
    void run(Slot* p) override { VSlot& z = *static_cast<VSlot*>(p); auto x = f->solve(*z.vb); out(z, x, x.size()); z.left.assign(z.vb->data(), z.vb->data() + n); }
    void ok(Slot* p) override { VSlot& z = *static_cast<VSlot*>(p); judge_solve<T>(name, n, A, 1, z.b, z.x.data(), z.x.size()); judge_same<T>(name, "right-hand side", z.left.data(), z.b); bad(p); }
    void bad(Slot*) override { std::vector<T> o; fac(o); judge_same<T>(name, "factorization", o.data(), L0); }
};
template<class M> struct IluOnce : Inst {
    int n; std::vector<T> A; bool broken;
    struct Z : VSlot { std::optional<M> a; };
    IluOnce(const Par& p, Rng& r, const char* nm, bool brk) : n(order<M>(p.n)), broken(brk) { name = nm; constexpr bool dense = std::is_same_v<M, DM>; if (brk) { auto q = bad_lu(r, n, !dense && r.one_in(2)); if (n > 10) n = 10; A.assign(q.begin(), q.end()); } else A = pattern(r, n, dense ? 0 : (int)r.below(7), true); if (!dense && brk && A[(size_t)n * n - 1] == 0) zero_tail = true; }
    bool zero_tail = false;
    int expect() override { return broken ? X_RUNTIME : X_NONE; }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->b = rhs_for<T>(r, n, 1, A); z->vb.emplace(z->b); z->a.emplace(lmk<M>::make(r, n, A)); return z; }
    void run(Slot* p) override { Z& z = *static_cast<Z*>(p); const solver::Ilu<T, M> f(M(*z.a)); auto x = f.solve(*z.vb); out(z, x, x.size()); }
    void ok(Slot* p) override { if (broken) { R->verified++; return; } Z& z = *static_cast<Z*>(p); judge_solve<T>(name, n, A, 1, z.b, z.x.data(), z.x.size()); }
};
static Inst* ilu_shared(const Par& p, Rng& r) { switch (r.below(3)) { case 0: return new IluShared<Csr>(p, r, "LU (row-compressed)"); case 1: return new IluShared<Coo>(p, r, "LU (COO)"); default: return new IluShared<DM>(p, r, "LU (dense)"); } }
static Inst* ilu_once(const Par& p, Rng& r) { switch (r.below(3)) { case 0: return new IluOnce<Csr>(p, r, "LU build and solve (row-compressed)", false); case 1: return new IluOnce<Coo>(p, r, "LU build and solve (COO)", false); default: return new IluOnce<DM>(p, r, "LU build and solve (dense)", false); } }
static Inst* ilu_bad(const Par& p, Rng& r) { Par q = p; if (q.n == 1 && r.one_in(2)) q.n = 2; switch (q.n < 2 ? 2 : r.below(3)) { case 0: return new IluOnce<Csr>(q, r, "LU with a zero pivot (row-compressed)", true); case 1: return new IluOnce<Coo>(q, r, "LU with a zero pivot (COO)", true); default: return new IluOnce<DM>(q, r, "LU with a zero pivot (dense)", true); } }
static Reg r7(NM("ilu"), P2 | P3 | P4 | P5 | P6 | P10, {D_ORD}, SHARED, CT == 1 ? 4 : 2, ilu_shared);
static Reg r8(NM("iluonce"), P2 | P3 | P4 | P5 | P6 | P10, {D_ORD}, SHARED, CT == 1 ? 3 : 1, ilu_once);
static Reg r9(NM("ilubad"), P3 | P5 | P6 | P10, {D_ORD}, SHARED, CT == 1 ? 4 : 2, ilu_bad);

// Right-hand sides for which the absolute tolerance can be reached: otherwise the iteration runs on after it has converged,
// and what it does then depends on the kind of orthogonalization. The other properties leave that to C11.
[[maybe_unused]] static std::vector<T> reachable(std::vector<T> b, int n, const std::vector<T>& A, double tol) {
    if (g_prop == 11) return b;
    T d = 0; for (int i = 0; i < n; i++) { T q = std::fabs(A[(size_t)i * n + i]); if (i == 0 || q < d) d = q; }
    T m = 8 * norm_of<T>(b) / d * (T)1e-14; int e = 0; while (m > tol && e > -400) { m /= 1024; e -= 10; }
    if (e) for (auto& v : b) v = std::ldexp(v, e);
    return b;
}
#if CT == 1
template<class M> struct GmresShared : Inst {
    int n; std::vector<T> A; std::unique_ptr<const solver::Gmres<T, M>> f; double rel, tol;
    struct Z : VSlot { std::optional<M> a; };
    bool once, broken;
    GmresShared(const Par& p, Rng& r, const char* nm, bool once, bool brk) : n(order<M>(p.n)), once(once), broken(brk) {
        name = nm; constexpr bool dense = std::is_same_v<M, DM>;
        if (n > 24) n = 24;
        bool slow = !dense && !brk && r.one_in(5);
        if (slow) { n = r.one_in(40) ? 2 * (int)r.range(33, 36) : n < 2 ? 2 : n & ~1; A = slow_pattern(r, n); }
        else if (brk) { auto q = bad_lu(r, n, !dense && r.one_in(2)); if (n > 10) n = 10; A.assign(q.begin(), q.end()); } else A = pattern(r, n, dense ? 0 : (int)r.below(8), false);
        static const double tols[] = {1e-4, 1e-6, 1e-8, 1e-10, 1e-12}; rel = tols[r.below(5)]; tol = rel;
        if (!once) f.reset(new solver::Gmres<T, M>(lmk<M>::make(r, n, A), tol));
    }
    int expect() override { return broken ? X_RUNTIME : X_NONE; }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->b = reachable(rhs_for<T>(r, n, 1, A, false), n, A, tol); z->vb.emplace(z->b); if (once) z->a.emplace(lmk<M>::make(r, n, A)); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        if (once) { const solver::Gmres<T, M> g(M(*z.a), tol); auto x = g.solve(*z.vb); out(z, x, x.size()); }
        else { auto x = f->solve(*z.vb); out(z, x, x.size()); }
        z.left.assign(z.vb->data(), z.vb->data() + n);
    }
    // the method stops on the preconditioned residual: allow the norm of the matrix
    void ok(Slot* p) override { if (broken) { R->verified++; return; } Z& z = *static_cast<Z*>(p); judge_solve<T>(name, n, A, 1, z.b, z.x.data(), z.x.size(), 4 * tol * norm_mat<T>(n, A)); judge_same<T>(name, "right-hand side", z.left.data(), z.b); }
};
static Inst* gmres_shared(const Par& p, Rng& r) { switch (r.below(3)) { case 0: return new GmresShared<Csr>(p, r, "GMRES (row-compressed)", false, false); default: return new GmresShared<DM>(p, r, "GMRES (dense)", false, false); case 1: return new GmresShared<Csr>(p, r, "GMRES (row-compressed, built per call)", true, false); } }
static Inst* gmres_bad(const Par& p, Rng& r) { Par q = p; if (q.n < 2) q.n = 2; if (r.one_in(2)) return new GmresShared<Csr>(q, r, "GMRES with a zero pivot (row-compressed)", true, true); return new GmresShared<DM>(q, r, "GMRES with a zero pivot (dense)", true, true); }
static Reg rA("gmres", P2 | P3 | P6 | P10 | P11, {D_ORD}, SHARED, 4, gmres_shared);
static Reg rB("gmresbad", P5 | P11 | P6 | P10, {D_ORD}, SHARED, 1, gmres_bad);
#endif

// --- copies of solvers: a pool of three next to two shared constant solvers of different systems ------------------
template<class F> struct mof; 
template<class M> struct mof<solver::TriDiag<M>> { using type = M; static constexpr bool tri = true; };
template<class M> struct mof<solver::Ilu<T, M>> { using type = M; static constexpr bool tri = false; };
#if CT == 1
template<> struct mof<FP> { using type = DynHermiteMat<double>; static constexpr bool tri = false; };
template<> struct mof<FF> { using type = DM; static constexpr bool tri = false; };
template<> struct mof<FM> { using type = DM; static constexpr bool tri = false; };
template<class M> struct mof<solver::Gmres<T, M>> { using type = M; static constexpr bool tri = false; };
#endif
template<class F> struct SolverPool : Inst {
    using M = typename mof<F>::type; static constexpr bool tri = mof<F>::tri, asg = std::is_copy_assignable_v<F>, masg = std::is_move_assignable_v<F>;
    static constexpr bool iter = std::is_constructible_v<F, M&&, T>;
    enum { BUILD, BUILD_COPY, COPY, COPY_SRC, MOVE, ASSIGN, ASSIGN_SRC, MASSIGN, SELF, DROP, SOLVE, NK };
    struct A1 { int kind, i, j, s; std::vector<T> b, x; };
    int n[2]; std::vector<T> A[2]; std::unique_ptr<const M> mat[2]; std::unique_ptr<const F> src[2];
    struct Z : Slot { std::optional<F> o[3]; std::vector<A1> acts; std::vector<int> who; /* system solved by each SOLVE */ };
    std::vector<T> rhs(Rng& r, int s) { if constexpr (iter) return reachable(rhs_for<T>(r, n[s], 1, A[s]), n[s], A[s], 1e-9); else return rhs_for<T>(r, n[s], 1, A[s]); }
    static F build(M&& m) { if constexpr (iter) return F(std::move(m), (T)1e-9); else return F(std::move(m)); }
    template<class G> SolverPool(Rng& r, int n0, const char* nm, G gen) {
        name = nm; n[0] = n0; n[1] = r.one_in(2) ? n0 : 1 + (int)r.below((u64)n0);
        for (int s = 0; s < 2; s++) { mat[s] = gen(n[s], A[s]); src[s].reset(new F(build(M(*mat[s])))); }
    }
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; int st[3] = {-1, -1, -1}; int len = (int)r.range(3, 12);
        for (int t = 0; t < len; t++) {
            A1 a{}; a.kind = (int)r.below(NK + 4); if (a.kind >= NK) a.kind = SOLVE; a.i = (int)r.below(3); a.j = (a.i + 1 + (int)r.below(2)) % 3; a.s = (int)r.below(2);
            if (a.kind == BUILD_COPY && !tri) a.kind = BUILD;
            if ((a.kind == ASSIGN || a.kind == ASSIGN_SRC || a.kind == SELF) && !asg) a.kind = a.kind == ASSIGN ? COPY : COPY_SRC;
            if (a.kind == MASSIGN && !masg) a.kind = MOVE;
            if ((a.kind == ASSIGN || a.kind == ASSIGN_SRC || a.kind == MASSIGN || a.kind == SELF || a.kind == DROP || a.kind == SOLVE) && st[a.i] < 0) a.kind = COPY_SRC;
            if ((a.kind == COPY || a.kind == MOVE || a.kind == ASSIGN || a.kind == MASSIGN) && st[a.j] < 0) a.kind = COPY_SRC;
            switch (a.kind) {
            case BUILD: case BUILD_COPY: case COPY_SRC: case ASSIGN_SRC: st[a.i] = a.s; break;
            case COPY: case ASSIGN: st[a.i] = st[a.j]; break;
            case MOVE: case MASSIGN: st[a.i] = st[a.j]; st[a.j] = -1; break;
            case DROP: st[a.i] = -1; break;
            case SOLVE: a.s = st[a.i]; a.b = rhs(r, a.s); break;
            }
            z->acts.push_back(a);
        }
        for (int i = 0; i < 3; i++) if (st[i] >= 0) { A1 a{}; a.kind = SOLVE; a.i = i; a.s = st[i]; a.b = rhs(r, a.s); z->acts.push_back(a); }
        return z;
    }
    template<class Q> static void solve(Q& f, const std::vector<T>& b, std::vector<T>& x) {
        DV v(b);
        if constexpr (tri) { DV w = DV::filled(b.size(), T(7)); f.solve_linear(v, w); x.assign(w.data(), w.data() + w.size()); }
        else if constexpr (requires { f.solve_linear(v); }) { auto w = f.solve_linear(v); x.assign(w.data(), w.data() + w.size()); }
        else { auto w = f.solve(v); x.assign(w.data(), w.data() + w.size()); }
    }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); auto& o = z.o;
        for (auto& a : z.acts) switch (a.kind) {
            case BUILD: { M c(*mat[a.s]); o[a.i].reset(); o[a.i].emplace(build(std::move(c))); c = *mat[1 - a.s]; break; }
            case BUILD_COPY: if constexpr (tri) { M c(*mat[a.s]); o[a.i].reset(); o[a.i].emplace(c); c.data_d()[0] = T(0); c = *mat[1 - a.s]; } break;
            case COPY: o[a.i].reset(); o[a.i].emplace(const_cast<const F&>(*o[a.j])); break;
            case COPY_SRC: o[a.i].reset(); o[a.i].emplace(*src[a.s]); break;
            case MOVE: o[a.i].reset(); o[a.i].emplace(std::move(*o[a.j])); o[a.j].reset(); break;
            case ASSIGN: if constexpr (asg) *o[a.i] = const_cast<const F&>(*o[a.j]); break;
            case ASSIGN_SRC: if constexpr (asg) *o[a.i] = *src[a.s]; break;
            case MASSIGN: if constexpr (masg) { *o[a.i] = std::move(*o[a.j]); o[a.j].reset(); } break;
            case SELF: if constexpr (asg) { const F& me = *o[a.i]; *o[a.i] = me; } break;
            case DROP: o[a.i].reset(); break;
            case SOLVE: solve(*o[a.i], a.b, a.x); break;
        }
    }
    void ok(Slot* p) override { Z& z = *static_cast<Z*>(p); for (auto& a : z.acts) if (a.kind == SOLVE) judge_solve<T>(name, n[a.s], A[a.s], 1, a.b, a.x.data(), a.x.size(), iter ? 4e-9 * norm_mat<T>(n[a.s], A[a.s]) : 0); bad(p); }
    void bad(Slot*) override { for (int s = 0; s < 2; s++) { std::vector<T> b(n[s], T(1)), x; if constexpr (tri) { F c(*src[s]); solve(c, b, x); } else solve(*src[s], b, x); judge_solve<T>(name, n[s], A[s], 1, b, x.data(), x.size(), iter ? 4e-9 * norm_mat<T>(n[s], A[s]) : 0); } }
};
static Inst* pool_any(const Par& p, Rng& r) {
    int n = p.n > 14 ? p.n % 14 + 1 : p.n;
    auto tri = [&](int k, std::vector<T>& A) { auto t = make_tri(r, k); A = t.full; return std::unique_ptr<const DynTriDiagMat<T>>(new DynTriDiagMat<T>(tmk<DynTriDiagMat<T>>::make(t, false))); };
    auto tri5 = [&](int, std::vector<T>& A) { auto t = make_tri(r, 5); A = t.full; return std::unique_ptr<const SizedTriDiagMat<T, 5>>(new SizedTriDiagMat<T, 5>(tmk<SizedTriDiagMat<T, 5>>::make(t, false))); };
    auto den = [&](int k, std::vector<T>& A) { A = pattern(r, k, 0, false); return std::unique_ptr<const DM>(new DM(dm(k, k, A))); };
    auto csr = [&](int k, std::vector<T>& A) { A = pattern(r, k, (int)r.below(7), false); return std::unique_ptr<const Csr>(new Csr(lmk<Csr>::make(r, k, A))); };
    switch (r.below(CT == 1 ? 8 : 4)) {
    case 0: return new SolverPool<solver::TriDiag<DynTriDiagMat<T>>>(r, n, "copies of tri-diagonal solvers", tri);
    case 1: { auto* q = new SolverPool<solver::TriDiag<SizedTriDiagMat<T, 5>>>(r, 5, "copies of tri-diagonal solvers (sized)", tri5); q->n[0] = q->n[1] = 5; return q; }
    case 2: return new SolverPool<solver::Ilu<T, Csr>>(r, n > 9 ? 9 : n, "copies of LU factorizations (row-compressed)", csr);
    case 3: return new SolverPool<solver::Ilu<T, DM>>(r, n, "copies of LU factorizations (dense)", den);
#if CT == 1
    case 4: { auto pk = [&](int k, std::vector<T>& A) { A = spd<T>(r, k); return std::unique_ptr<const DynHermiteMat<double>>(new DynHermiteMat<double>((size_t)k, packed(k, A))); }; return new SolverPool<FP>(r, n, "copies of packed Cholesky factorizations", pk); }
    case 5: { auto fu = [&](int k, std::vector<T>& A) { A = spd<T>(r, k); return std::unique_ptr<const DM>(new DM(dm(k, k, A))); }; if (r.one_in(2)) return new SolverPool<FF>(r, n, "copies of Cholesky factorizations", fu); return new SolverPool<FM>(r, n, "copies of square-root-free Cholesky factorizations", fu); }
    case 6: return new SolverPool<solver::Gmres<T, Csr>>(r, n > 9 ? 9 : n, "copies of GMRES solvers (row-compressed)", csr);
    default: return new SolverPool<solver::Gmres<T, DM>>(r, n, "copies of GMRES solvers (dense)", den);
#endif
    }
    return nullptr;
}
static Reg rC(NM("solvercopies"), P2 | P3 | P6 | P10 | P12, {D_ORD}, SHARED, CT == 1 ? 3 : 2, pool_any);
} }
