// Element-wise vector operations, inner products, norms (C01, C14 and shared use).
// CT=1 2 3 4
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "types.hpp"
using namespace lalib;
namespace cat { namespace {
using DV = DynVec<T>;
template<size_t N> using SV = SizedVec<T, N>;
constexpr bool REAL = !num<T>::cx, DIVS = std::is_same_v<T, double> || std::is_same_v<T, std::complex<double>>;
#if CT == 1
using NL = NList<T, 1, 7, 16, 17>;
#elif CT == 2
using NL = NList<T, 5, 16, 19>;
#else
using NL = NList<T, 2, 16, 21>;
#endif

using EwBase = EwInst<T>;
// add/sub into a destination, with every admissible aliasing
template<class VA, class VB, class VR> struct AddSub : EwBase {
    std::unique_ptr<const VA> a; std::unique_ptr<const VB> b; bool twin = false;
    struct Z : EwBase::S { VR v; Z(const std::vector<T>& x) : v(x) {} };
    AddSub(Rng& r, int n, const char* nm) {
        base(r, nm, n, r.one_in(2) ? EW_ADD : EW_SUB, true);
        u64 c = r.below(4);
        if constexpr (std::is_same_v<VA, VB>) { twin = r.one_in(8); if (twin) sp.b = sp.a; }
        if constexpr (std::is_same_v<VR, VA>) if (c == 1) alias = 1;
        if constexpr (std::is_same_v<VR, VB>) if (c == 2) alias = 2;
        a.reset(new VA(sp.a)); b.reset(new VB(sp.b));
    }
    const T* pa() override { return a->data(); } const T* pb() override { return b->data(); }
    Slot* slot(Rng& r, int) override { return new Z(alias == 1 ? sp.a : alias == 2 ? sp.b : rvals<T>(r, sp.a.size(), V_UNI)); }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const VA* x = a.get(); const VB* y = b.get();
        if constexpr (std::is_same_v<VR, VA>) if (alias == 1) x = &z.v;
        if constexpr (std::is_same_v<VR, VB>) if (alias == 2) y = &z.v;
        if constexpr (std::is_same_v<VA, VB>) if (twin) { if (alias == 2) x = y; else y = x; }
        VR& q = sp.op == EW_ADD ? add(*x, *y, z.v) : sub(*x, *y, z.v);
        z.ret = &q == &z.v; z.y = z.v.data(); z.len = z.v.size();
    }
};
// operators that create their result
template<class V> struct Oper : EwBase {
    std::unique_ptr<const V> a, b; int which;
    struct Z : EwBase::S { std::optional<V> v; };
    Oper(Rng& r, int n, const char* nm) {
        which = (int)r.below(8);      // 0 + 1 - 2 neg 3 a*x 4 x*a 5 x/a 6 scaled 7 neg()
        if (which == 5 && !DIVS) which = 3;
        static const int ops[] = {EW_ADD, EW_SUB, EW_NEG, EW_SCALE, EW_SCALE, EW_DIV, EW_SCALE, EW_NEG};
        base(r, nm, n, ops[which], which <= 2 || which == 7);
        if (which == 5 && sp.al == T(0)) sp.al = T(3);
        a.reset(new V(sp.a)); b.reset(new V(sp.b));
    }
    const T* pa() override { return a->data(); } const T* pb() override { return b->data(); }
    Slot* slot(Rng& r, int) override { Z* z = new Z; if (which == 7) z->v.emplace(rvals<T>(r, sp.a.size(), V_UNI)); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        switch (which) {
        case 0: z.v.emplace(*a + *b); break;
        case 1: z.v.emplace(*a - *b); break;
        case 2: z.v.emplace(-*a); break;
        case 3: z.v.emplace(sp.al * *a); break;
        case 4: z.v.emplace(*a * sp.al); break;
        case 5: if constexpr (DIVS) z.v.emplace(*a / sp.al); break;
        case 6: z.v.emplace(scaled(sp.al, *a)); break;
        case 7: { auto& q = neg(*a, *z.v); z.ret = &q == &*z.v; break; }
        }
        z.y = z.v->data(); z.len = z.v->size();
    }
};
// axpy / scale / neg in place
template<class V> struct Axpy : EwBase {
    std::unique_ptr<const V> a;
    struct Z : EwBase::S { V v; Z(const std::vector<T>& x) : v(x) { y0 = x; } };
    Axpy(Rng& r, int n, const char* nm) { static const int ops[] = {EW_AXPY, EW_AXPY, EW_AXPYSELF, EW_SCALE, EW_NEG}; base(r, nm, n, ops[r.below(5)], false); a.reset(new V(sp.a)); }
    const T* pa() override { return a->data(); }
    Slot* slot(Rng& r, int) override { return new Z(rvals<T>(r, sp.a.size(), mode)); }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        V& q = sp.op == EW_SCALE ? scale(EwBase::scalar(z, z.v.data()), z.v) : sp.op == EW_NEG ? neg(z.v, z.v) : axpy(EwBase::scalar(z, z.v.data()), sp.op == EW_AXPYSELF ? z.v : *a, z.v);
        z.ret = &q == &z.v; z.y = z.v.data(); z.len = z.v.size();
    }
    void bad(Slot*) override { judge_operands<T>(sp, pa(), nullptr); }
};

static Inst* vec_any(const Par& p, Rng& r) {
    switch (r.below(9)) {
    case 0: case 1: return new AddSub<DV, DV, DV>(r, p.n, "add/sub (dynamic)");
    case 2: return NL::go(p.n, [&](auto N) -> Inst* { return new AddSub<SV<N()>, SV<N()>, SV<N()>>(r, N(), "add/sub (sized)"); });
    case 3: return NL::go(p.n, [&](auto N) -> Inst* { return new AddSub<SV<N()>, DV, SV<N()>>(r, N(), "add/sub (sized, dynamic)"); });
    case 4: return NL::go(p.n, [&](auto N) -> Inst* { return new AddSub<DV, SV<N()>, SV<N()>>(r, N(), "add/sub (dynamic, sized)"); });
    case 5: return new Oper<DV>(r, p.n, "vector operators (dynamic)");
    case 6: return NL::go(p.n, [&](auto N) -> Inst* { return new Oper<SV<N()>>(r, N(), "vector operators (sized)"); });
    case 7: return new Axpy<DV>(r, p.n, "axpy/scale (dynamic)");
    default: return NL::go(p.n, [&](auto N) -> Inst* { return new Axpy<SV<N()>>(r, N(), "axpy/scale (sized)"); });
    }
}
#if CT <= 2
struct DotBase : Inst {
    std::vector<T> xv, yv; bool sq = false;
    struct S : Slot { T d{}, d2{}, n1{}, n2{}; };
    void base(Rng& r, int n, const char* nm, bool may_sq) {
        name = nm; int mode = pick_vals(r); xv = rvals<T>(r, n, mode); yv = rvals<T>(r, n, mode);
        // weight where a lost head, tail or chunk boundary changes the result in full
        if (r.one_in(4)) for (int i = 0; i < n; i++) { xv[i] = T(1); yv[i] = T(i == 0 || i == n - 1 || i % 16 == 15 ? 1000 + i : 1); }
        if (may_sq && r.one_in(6)) { sq = true; yv = xv; }
    }
    Slot* slot(Rng&, int) override { return new S; }
    virtual const T* px() = 0; virtual const T* py() = 0;
    void ok(Slot* p) override { S* s = static_cast<S*>(p); judge_dot<T>(name, xv, yv, s->d, s->n1, s->n2); judge_dot<T>(name, xv, yv, s->d2, s->n1, s->n2); bad(p); }
    void bad(Slot*) override { judge_same<T>(name, "first operand", px(), xv); judge_same<T>(name, "second operand", py(), yv); }
};
template<class VA, class VB> struct Dot : DotBase {
    std::unique_ptr<const VA> x; std::unique_ptr<const VB> y;
    Dot(Rng& r, int n, const char* nm) { base(r, n, nm, std::is_same_v<VA, VB>); x.reset(new VA(xv)); y.reset(new VB(yv)); }
    const T* px() override { return x->data(); } const T* py() override { return y->data(); }
    void run(Slot* p) override {
        S& s = *static_cast<S*>(p);
        if constexpr (std::is_same_v<VA, VB>) { const VB& w = sq ? *x : *y; s.d = x->dot(w); s.d2 = dot(*x, w); }
        else s.d = s.d2 = x->dot(*y);
        s.n1 = x->norm2(); s.n2 = y->norm2();
    }
};
static Inst* dot_any(const Par& p, Rng& r) {
    switch (r.below(5)) {
    case 0: case 1: return new Dot<DV, DV>(r, p.n, "dot (dynamic)");
    case 2: return NL::go(p.n, [&](auto N) -> Inst* { return new Dot<SV<N()>, SV<N()>>(r, N(), "dot (sized)"); });
    case 3: return NL::go(p.n, [&](auto N) -> Inst* { return new Dot<SV<N()>, DV>(r, N(), "dot (sized, dynamic)"); });
    default: return NL::go(p.n, [&](auto N) -> Inst* { return new Dot<DV, SV<N()>>(r, N(), "dot (dynamic, sized)"); });
    }
}
#endif
constexpr u64 EV = P1 | P2 | P3 | P6 | P10 | P18, DT = P2 | P3 | P10 | P14;
#if CT == 1
static Reg r1("vec_d", EV, {D_VEC}, SHARED, 3, vec_any), r2("dot_d", DT, {D_VEC}, SHARED, 2, dot_any);
#elif CT == 2
static Reg r1("vec_f", EV, {D_VEC}, SHARED, 2, vec_any), r2("dot_f", DT, {D_VEC}, SHARED, 2, dot_any);
#elif CT == 3
static Reg r1("vec_c", EV, {D_VEC}, SHARED, 2, vec_any);
#else
static Reg r1("vec_z", EV, {D_VEC}, SHARED, 2, vec_any);
#endif
} }
