// Dense matrices: element-wise operations (C01) and products (C09).
// CT=1 2 3 4
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "types.hpp"
using namespace lalib;
namespace cat { namespace {
using DV = DynVec<T>; using DM = DynMat<T>;
template<size_t N> using SV = SizedVec<T, N>;
template<size_t N, size_t M> using SM = SizedMat<T, N, M>;
template<class A> struct mk { static A make(int, int, const std::vector<T>& v) { return A(v); } };
template<> struct mk<DM> { static DM make(int n, int m, const std::vector<T>& v) { return DM((size_t)n, (size_t)m, v); } };

// --- element-wise ---------------------------------------------------------------
template<class MA, class MB, class MR> struct MAddSub : EwInst<T> {
    int n, m; std::unique_ptr<const MA> a; std::unique_ptr<const MB> b; bool twin = false;
    struct Z : EwInst<T>::S { MR v; Z(MR&& x) : v(x) {} };
    MAddSub(Rng& r, int n, int m, const char* nm) : n(n), m(m) {
        base(r, nm, n * m, r.one_in(2) ? EW_ADD : EW_SUB, true);
        u64 c = r.below(4);
        if constexpr (std::is_same_v<MA, MB>) { twin = r.one_in(8); if (twin) sp.b = sp.a; }
        if constexpr (std::is_same_v<MR, MA>) if (c == 1) alias = 1;
        if constexpr (std::is_same_v<MR, MB>) if (c == 2) alias = 2;
        a.reset(new MA(mk<MA>::make(n, m, sp.a))); b.reset(new MB(mk<MB>::make(n, m, sp.b)));
    }
    const T* pa() override { return a->data(); } const T* pb() override { return b->data(); }
    Slot* slot(Rng& r, int) override { return new Z(mk<MR>::make(n, m, alias == 1 ? sp.a : alias == 2 ? sp.b : rvals<T>(r, n * m, V_UNI))); }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const MA* x = a.get(); const MB* y = b.get();
        if constexpr (std::is_same_v<MR, MA>) if (alias == 1) x = &z.v;
        if constexpr (std::is_same_v<MR, MB>) if (alias == 2) y = &z.v;
        if constexpr (std::is_same_v<MA, MB>) if (twin) { if (alias == 2) x = y; else y = x; }
        MR& q = sp.op == EW_ADD ? add(*x, *y, z.v) : sub(*x, *y, z.v);
        auto sh = z.v.shape();
        z.ret = &q == &z.v && sh.first == (size_t)n && sh.second == (size_t)m; z.y = z.v.data(); z.len = sh.first * sh.second;
    }
};
template<class M> struct MOper : EwInst<T> {
    int n, m, which; std::unique_ptr<const M> a, b;
    struct Z : EwInst<T>::S { std::optional<M> v; };
    MOper(Rng& r, int n, int m, const char* nm) : n(n), m(m) {
        which = (int)r.below(5);      // 0 + 1 - 2 a*A 3 scale in place 4 neg
        if (which == 4 && !std::is_same_v<T, double>) which = 2;
        static const int ops[] = {EW_ADD, EW_SUB, EW_SCALE, EW_SCALE, EW_NEG};
        base(r, nm, n * m, ops[which], which <= 1);
        a.reset(new M(mk<M>::make(n, m, sp.a))); b.reset(new M(mk<M>::make(n, m, sp.b)));
    }
    const T* pa() override { return a->data(); } const T* pb() override { return b->data(); }
    Slot* slot(Rng&, int) override { Z* z = new Z; if (which == 3) { z->v.emplace(mk<M>::make(n, m, sp.a)); z->y0 = sp.a; } return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        switch (which) {
        case 0: z.v.emplace(*a + *b); break;
        case 1: z.v.emplace(*a - *b); break;
        case 2: z.v.emplace(sp.al * *a); break;
        case 3: { auto& q = scale(EwInst<T>::scalar(z, z.v->data()), *z.v); z.ret = &q == &*z.v; break; }
        case 4: if constexpr (std::is_same_v<T, double>) z.v.emplace(-*a); break;
        }
        auto sh = z.v->shape();
        z.ret = z.ret && sh.first == (size_t)n && sh.second == (size_t)m; z.y = z.v->data(); z.len = sh.first * sh.second;
    }
};
template<class F> Inst* shapes(Rng& r, F f) {
    switch (r.below(3)) { case 0: return f(Ic<3>{}, Ic<5>{}); case 1: return f(Ic<4>{}, Ic<4>{}); default: return f(Ic<17>{}, Ic<1>{}); }
}
static Inst* mat_any(const Par& p, Rng& r) {
    switch (r.below(7)) {
    case 0: case 1: return new MAddSub<DM, DM, DM>(r, p.n, p.m, "matrix add/sub (dynamic)");
    case 2: return shapes(r, [&](auto N, auto M) -> Inst* { return new MAddSub<SM<N(), M()>, SM<N(), M()>, SM<N(), M()>>(r, N(), M(), "matrix add/sub (sized)"); });
    case 3: return shapes(r, [&](auto N, auto M) -> Inst* { return new MAddSub<SM<N(), M()>, DM, SM<N(), M()>>(r, N(), M(), "matrix add/sub (sized, dynamic)"); });
    case 4: return shapes(r, [&](auto N, auto M) -> Inst* { return new MAddSub<DM, SM<N(), M()>, SM<N(), M()>>(r, N(), M(), "matrix add/sub (dynamic, sized)"); });
    case 5: return new MOper<DM>(r, p.n, p.m, "matrix operators (dynamic)");
    default: return shapes(r, [&](auto N, auto M) -> Inst* { return new MOper<SM<N(), M()>>(r, N(), M(), "matrix operators (sized)"); });
    }
}

// --- matrix * vector ----------------------------------------------------------------
struct MvBase : Inst {
    int n, m, mode; std::vector<T> A, x; T al, be; bool inpl = false, oper = false; int el = 0;   // el: 1 alpha, 2 beta, 3 both are elements of the destination
    struct S : Slot { T al{}, be{}; std::vector<T> y0; const T* y = nullptr; size_t len = 0; bool ret = true; };
    MvBase(Rng& r, int n, int m, const char* nm) : n(n), m(m) { name = nm; mode = pick_vals(r); A = rvals<T>(r, (size_t)n * m, mode); x = rvals<T>(r, m, mode); al = rcoef<T>(r); be = rcoef<T>(r); if (n && r.one_in(6)) el = (int)r.range(1, 3); }
    virtual const T* pA() = 0; virtual const T* px() = 0;
    void ok(Slot* p) override {
        S* s = static_cast<S*>(p); if (!s->ret) wrong(name, "the call does not return its destination");
        judge_mv<T>(name, n, m, oper ? T(1) : s->al, A, inpl ? s->y0 : x, oper ? T(0) : s->be, s->y0, s->y, s->len); bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "matrix", pA(), A); judge_same<T>(name, "vector", px(), x); }
};
template<class MA, class VX, class VY> struct Mv : MvBase {
    std::unique_ptr<const MA> a; std::unique_ptr<const VX> v;
    struct Z : S { std::optional<VY> y; };
    Mv(Rng& r, int n, int m, const char* nm) : MvBase(r, n, m, nm) {
        a.reset(new MA(mk<MA>::make(n, m, A))); v.reset(new VX(x));
        if constexpr (std::is_same_v<VX, VY>) inpl = n == m && r.one_in(4);
        if constexpr (std::is_same_v<T, double>) oper = !inpl && r.one_in(4);
    }
    const T* pA() override { return a->data(); } const T* px() override { return v->data(); }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->y0 = rvals<T>(r, n, mode); if (!oper) z->y.emplace(z->y0); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        if constexpr (std::is_same_v<T, double>) if (oper) { z.y.emplace(*a * *v); MvBase::S& s = z; s.y = z.y->data(); s.len = z.y->size(); return; }
        const VX* q = v.get(); if constexpr (std::is_same_v<VX, VY>) if (inpl) q = &*z.y;
        const T& c = el & 1 ? z.y->data()[0] : al; const T& d = el & 2 ? z.y->data()[n / 2] : be; z.al = c; z.be = d;
        VY& w = mul(c, *a, *q, d, *z.y);
        z.ret = &w == &*z.y; MvBase::S& s = z; s.y = z.y->data(); s.len = z.y->size();
    }
};
// --- matrix * matrix ------------------------------------------------------------------
struct MmBase : Inst {
    int n, k, m, mode; std::vector<T> A, B; T al, be; int alias = 0, el = 0; bool oper = false;   // alias: 1 c==a, 2 c==b, 3 a==b, 4 all the same
    struct S : Slot { T al{}, be{}; std::vector<T> c0; const T* c = nullptr; size_t len = 0; bool ret = true; };
    MmBase(Rng& r, int n, int k, int m, const char* nm) : n(n), k(k), m(m) { name = nm; mode = pick_vals(r); A = rvals<T>(r, (size_t)n * k, mode); B = rvals<T>(r, (size_t)k * m, mode); al = rcoef<T>(r); be = rcoef<T>(r); if (n && m && r.one_in(6)) el = (int)r.range(1, 3); }
    virtual const T* pA() = 0; virtual const T* pB() = 0;
    void ok(Slot* p) override {
        S* s = static_cast<S*>(p); if (!s->ret) wrong(name, "the call does not return its destination, or its shape is wrong");
        judge_mm<T>(name, n, k, m, oper ? T(1) : s->al, alias == 1 || alias == 4 ? s->c0 : A, alias == 2 || alias == 4 ? s->c0 : alias == 3 ? A : B, oper ? T(0) : s->be, s->c0, s->c, s->len); bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "left factor", pA(), A); judge_same<T>(name, "right factor", pB(), B); }
};
template<class MA, class MB, class MC> struct Mm : MmBase {
    std::unique_ptr<const MA> a; std::unique_ptr<const MB> b;
    struct Z : S { std::optional<MC> v; };
    Mm(Rng& r, int n, int k, int m, const char* nm) : MmBase(r, n, k, m, nm) {
        a.reset(new MA(mk<MA>::make(n, k, A))); b.reset(new MB(mk<MB>::make(k, m, B)));
        u64 c = r.below(6);
        if constexpr (std::is_same_v<MA, MC>) if (c == 0 && k == m) alias = 1;
        if constexpr (std::is_same_v<MB, MC>) if (c == 1 && n == k) alias = 2;
        if constexpr (std::is_same_v<MA, MB>) if (c == 2 && n == k && k == m) alias = 3;
        if constexpr (std::is_same_v<MA, MB> && std::is_same_v<MA, MC>) if (c == 3 && n == k && k == m) alias = 4;
        if constexpr (std::is_same_v<T, double> && std::is_same_v<MA, DM> == std::is_same_v<MB, DM> && std::is_same_v<MA, DM> == std::is_same_v<MC, DM>) oper = alias == 0 && r.one_in(4);
    }
    const T* pA() override { return a->data(); } const T* pB() override { return b->data(); }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->c0 = rvals<T>(r, (size_t)n * m, mode); if (!oper) z->v.emplace(mk<MC>::make(n, m, z->c0)); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const MA* x = a.get(); const MB* y = b.get();
        if constexpr (std::is_same_v<T, double> && std::is_same_v<MA, DM> == std::is_same_v<MB, DM> && std::is_same_v<MA, DM> == std::is_same_v<MC, DM>) if (oper) { z.v.emplace(*x * *y); fin(z); return; }
        if constexpr (std::is_same_v<MA, MC>) if (alias == 1 || alias == 4) x = &*z.v;
        if constexpr (std::is_same_v<MB, MC>) if (alias == 2 || alias == 4) y = &*z.v;
        if constexpr (std::is_same_v<MA, MB>) if (alias == 3) y = x;
        const T& c = el & 1 ? z.v->data()[0] : al; const T& d = el & 2 ? z.v->data()[(size_t)n * m / 2] : be; z.al = c; z.be = d;
        MC& w = mul(c, *x, *y, d, *z.v);
        z.ret = &w == &*z.v; fin(z);
    }
    void fin(Z& z) { auto sh = z.v->shape(); z.ret = z.ret && sh.first == (size_t)n && sh.second == (size_t)m; z.c = z.v->data(); z.len = sh.first * sh.second; }
};
template<class F> Inst* mvshapes(Rng& r, F f) { switch (r.below(3)) { case 0: return f(Ic<3>{}, Ic<5>{}); case 1: return f(Ic<6>{}, Ic<6>{}); default: return f(Ic<17>{}, Ic<2>{}); } }
static Inst* mv_any(const Par& p, Rng& r) {
    int m = r.one_in(2) && p.n <= 600 ? p.n : p.m;
    switch (r.below(6)) {
    case 0: case 1: case 2: return new Mv<DM, DV, DV>(r, p.n, m, "mat-vec (dynamic)");
    case 3: return mvshapes(r, [&](auto N, auto M) -> Inst* { return new Mv<SM<N(), M()>, SV<M()>, SV<N()>>(r, N(), M(), "mat-vec (sized)"); });
    case 4: return mvshapes(r, [&](auto N, auto M) -> Inst* { return new Mv<SM<N(), M()>, DV, SV<N()>>(r, N(), M(), "mat-vec (sized matrix, dynamic vector)"); });
    default: return mvshapes(r, [&](auto, auto M) -> Inst* { return new Mv<DM, SV<M()>, DV>(r, p.n, M(), "mat-vec (dynamic matrix, sized vector)"); });
    }
}
template<class F> Inst* mmshapes(Rng& r, F f) { if (r.one_in(2)) return f(Ic<3>{}, Ic<5>{}, Ic<2>{}); return f(Ic<4>{}, Ic<4>{}, Ic<4>{}); }
static Inst* mm_any(const Par& p, Rng& r) {
    switch (r.below(11)) {
    case 0: case 1: return new Mm<DM, DM, DM>(r, p.n, p.m, p.k, "mat-mat (D,D,D)");
    case 2: return new Mm<DM, DM, DM>(r, p.n, p.n > 64 ? p.m : p.n, p.n > 20 ? p.k : p.n, "mat-mat (D,D,D)");
    case 3: return mmshapes(r, [&](auto N, auto L, auto M) -> Inst* { return new Mm<SM<N(), L()>, SM<L(), M()>, SM<N(), M()>>(r, N(), L(), M(), "mat-mat (S,S,S)"); });
    case 4: return mmshapes(r, [&](auto N, auto L, auto M) -> Inst* { return new Mm<DM, SM<L(), M()>, SM<N(), M()>>(r, N(), L(), M(), "mat-mat (D,S,S)"); });
    case 5: return mmshapes(r, [&](auto N, auto L, auto M) -> Inst* { return new Mm<SM<N(), L()>, DM, SM<N(), M()>>(r, N(), L(), M(), "mat-mat (S,D,S)"); });
    case 6: return mmshapes(r, [&](auto N, auto, auto M) -> Inst* { return new Mm<DM, DM, SM<N(), M()>>(r, N(), p.m, M(), "mat-mat (D,D,S)"); });
    case 7: return mmshapes(r, [&](auto N, auto L, auto M) -> Inst* { return new Mm<SM<N(), L()>, SM<L(), M()>, DM>(r, N(), L(), M(), "mat-mat (S,S,D)"); });
    case 8: return mmshapes(r, [&](auto, auto L, auto M) -> Inst* { return new Mm<DM, SM<L(), M()>, DM>(r, p.n, L(), M(), "mat-mat (D,S,D)"); });
    case 9: return mmshapes(r, [&](auto N, auto L, auto) -> Inst* { return new Mm<SM<N(), L()>, DM, DM>(r, N(), L(), p.m, "mat-mat (S,D,D)"); });
    default: return new Mm<DM, DM, DM>(r, p.n, p.m, p.m > 64 ? p.k : p.m, "mat-mat (D,D,D)");
    }
}
#define NM(x) CT == 1 ? x "_d" : CT == 2 ? x "_f" : CT == 3 ? x "_c" : x "_z"
static Reg r1(NM("mat"), P1 | P2 | P3 | P6 | P10 | P18, {D_MAT, D_MAT}, SHARED, CT == 1 ? 3 : 2, mat_any);
static Reg r2(NM("mv"), P2 | P3 | P6 | P9 | P10, {D_MAT, D_MAT}, SHARED, CT == 1 ? 3 : 2, mv_any);
static Reg r3(NM("mm"), P2 | P3 | P6 | P9 | P10, {D_MAT, D_MAT, D_MAT}, SHARED, CT == 1 ? 3 : 2, mm_any);
} }
