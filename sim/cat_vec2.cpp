// Small kernels and orthogonalisation: cross products, 2x2 inverses, Gram-Schmidt (C15).
// CT=1 2 3 4
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "lalib/ops/orthogonal.hpp"
#include "types.hpp"
#include <deque>
using namespace lalib;
namespace cat { namespace {
using DV = DynVec<T>;
template<size_t N> using SV = SizedVec<T, N>;
template<class V> constexpr bool dyn = std::is_same_v<V, DV>;

struct CrossBase : Inst {
    int dim = 3; std::vector<T> x, y; int alias = 0; bool acc = false, twin = false; int mode;
    struct S : Slot { std::vector<T> c0; std::vector<T> c; bool ret = true; };
    CrossBase(Rng& r, const char* nm, int d) : dim(d) { name = nm; mode = pick_vals(r); x = rvals<T>(r, d, mode); y = rvals<T>(r, d, mode); }
    virtual const T* px() = 0; virtual const T* py() = 0;
    void ok(Slot* p) override {
        S* s = static_cast<S*>(p); if (!s->ret) wrong(name, "the call does not return its destination");
        const auto& X = alias == 1 ? s->c0 : x; const auto& Y = alias == 2 ? s->c0 : twin ? x : y;
        judge_cross<T>(name, dim, X, Y, acc ? s->c0 : std::vector<T>(), s->c.data(), s->c.size()); bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "first operand", px(), x); judge_same<T>(name, "second operand", py(), y); }
};
// into a destination
template<class VA, class VB, class VR> struct Cross3 : CrossBase {
    std::unique_ptr<const VA> a; std::unique_ptr<const VB> b;
    struct Z : S { VR v; Z(const std::vector<T>& q) : v(q) {} };
    Cross3(Rng& r, const char* nm) : CrossBase(r, nm, 3) {
        a.reset(new VA(x)); b.reset(new VB(y)); acc = r.one_in(2); u64 c = r.below(4);
        if constexpr (std::is_same_v<VA, VR>) if (c == 1) alias = 1;
        if constexpr (std::is_same_v<VB, VR>) if (c == 2) alias = 2;
        if constexpr (std::is_same_v<VA, VB>) twin = alias == 0 && r.one_in(8);
    }
    const T* px() override { return a->data(); } const T* py() override { return b->data(); }
    Slot* slot(Rng& r, int) override { auto q = rvals<T>(r, 3, mode); Z* z = new Z(q); z->c0 = q; return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const VA* l = a.get(); const VB* m = b.get();
        if constexpr (std::is_same_v<VA, VR>) if (alias == 1) l = &z.v;
        if constexpr (std::is_same_v<VB, VR>) if (alias == 2) m = &z.v;
        if constexpr (std::is_same_v<VA, VB>) if (twin) m = l;
        VR& q = acc ? cross_acc(*l, *m, z.v) : cross(*l, *m, z.v);
        z.ret = &q == &z.v; z.c.assign(z.v.data(), z.v.data() + z.v.size());
    }
};
// returned by value
template<class VA, class VB, int D> struct CrossRet : CrossBase {
    std::unique_ptr<const VA> a; std::unique_ptr<const VB> b;
    CrossRet(Rng& r, const char* nm) : CrossBase(r, nm, D) { a.reset(new VA(x)); b.reset(new VB(y)); if constexpr (std::is_same_v<VA, VB>) twin = r.one_in(8); }
    const T* px() override { return a->data(); } const T* py() override { return b->data(); }
    Slot* slot(Rng&, int) override { return new S; }
    void run(Slot* p) override {
        S& z = *static_cast<S*>(p); const VB* m = b.get(); if constexpr (std::is_same_v<VA, VB>) if (twin) m = a.get();
        if constexpr (D == 2) { T c = cross(*a, *m); z.c.assign(1, c); } else { SV<3> c = cross(*a, *m); z.c.assign(c.data(), c.data() + c.size()); }
    }
};
static Inst* cross_any(const Par&, Rng& r) {
    switch (r.below(13)) {
    case 0: return new Cross3<SV<3>, SV<3>, SV<3>>(r, "cross (S,S,S)");
    case 1: return new Cross3<SV<3>, SV<3>, DV>(r, "cross (S,S,D)");
    case 2: return new Cross3<SV<3>, DV, SV<3>>(r, "cross (S,D,S)");
    case 3: return new Cross3<SV<3>, DV, DV>(r, "cross (S,D,D)");
    case 4: return new Cross3<DV, SV<3>, SV<3>>(r, "cross (D,S,S)");
    case 5: return new Cross3<DV, SV<3>, DV>(r, "cross (D,S,D)");
    case 6: return new Cross3<DV, DV, SV<3>>(r, "cross (D,D,S)");
    case 7: return new Cross3<DV, DV, DV>(r, "cross (D,D,D)");
    case 8: return new CrossRet<SV<2>, SV<2>, 2>(r, "cross 2D (S,S)");
    case 9: return new CrossRet<SV<2>, DV, 2>(r, "cross 2D (S,D)");
    case 10: return new CrossRet<DV, SV<2>, 2>(r, "cross 2D (D,S)");
    case 11: return new CrossRet<SV<3>, SV<3>, 3>(r, "cross 3D (S,S)");
    default: return new CrossRet<SV<3>, DV, 3>(r, "cross 3D (S,D)");
    }
}
#if CT == 1 || CT == 4
struct Inv2 : Inst {
    std::vector<T> a0; std::unique_ptr<const SizedMat<T, 2, 2>> a; int how;      // 0 inverted 1 invert(a, r) 2 invert(a) in place 3 invert(a, a)
    struct S : Slot { SizedMat<T, 2, 2> v; std::vector<T> c; bool ret = true; S(const std::vector<T>& q) : v(q) {} };
    Inv2(Rng& r) { name = "2x2 inverse"; a0 = inv2_matrix<T>(r); a.reset(new SizedMat<T, 2, 2>(a0)); how = (int)r.below(4); }
    Slot* slot(Rng& r, int) override { return new S(how >= 2 ? a0 : rvals<T>(r, 4, V_UNI)); }
    void run(Slot* p) override {
        S& s = *static_cast<S*>(p);
        switch (how) { case 0: { auto q = inverted(*a); s.c.assign(q.data(), q.data() + 4); return; } case 1: { auto q = invert(*a, s.v); s.ret = true; for (int i = 0; i < 4; i++) { T u = q.data()[i], w = s.v.data()[i]; if (!(u == w)) s.ret = false; } break; } case 2: s.ret = &invert(s.v) == &s.v; break; default: invert(s.v, s.v); break; }
        s.c.assign(s.v.data(), s.v.data() + 4);
    }
    void ok(Slot* p) override { S& s = *static_cast<S*>(p); if (!s.ret) wrong(name, "the returned matrix is not the inverse that was stored"); judge_inv2<T>(name, a0, s.c.data()); bad(p); }
    void bad(Slot*) override { judge_same<T>(name, "matrix", a->data(), a0); }
};
static Inst* inv_any(const Par&, Rng& r) { return new Inv2(r); }
static Reg r2(CT == 1 ? "inv2_d" : "inv2_z", P2 | P3 | P10 | P15, {}, SHARED, 2, inv_any);
#endif
#if CT <= 2
template<class C, class V> struct Cgs : Inst {
    int n, m; std::vector<T> v0;
    struct S : Slot { C c; std::vector<T> out; };
    Cgs(Rng& r, int n, int m, const char* nm) : n(n), m(m) { name = nm; v0 = cgs_family<T>(r, n, m); }
    Slot* slot(Rng&, int) override { S* s = new S; for (int j = 0; j < m; j++) s->c.push_back(V(std::vector<T>(v0.begin() + (long)j * n, v0.begin() + (long)(j + 1) * n))); return s; }
    void run(Slot* p) override { S& s = *static_cast<S*>(p); orth::cgs(s.c); for (auto& v : s.c) s.out.insert(s.out.end(), v.data(), v.data() + v.size()); }
    void ok(Slot* p) override { judge_cgs<T>(name, n, m, v0, static_cast<S*>(p)->out); }
};
static Inst* cgs_any(const Par& p, Rng& r) {
    int n = p.n < 1 ? 1 : p.n > 300 ? 300 : p.n; int m = p.m; if (m > n) m = n;
    switch (r.below(5)) {
    case 0: case 1: return new Cgs<std::vector<DV>, DV>(r, n, m, "Gram-Schmidt (dynamic)");
    case 2: return new Cgs<std::deque<DV>, DV>(r, n, m, "Gram-Schmidt (dynamic, deque)");
    case 3: return new Cgs<std::vector<SV<3>>, SV<3>>(r, 3, m > 3 ? 3 : m, "Gram-Schmidt (sized 3)");
    default: return new Cgs<std::vector<SV<19>>, SV<19>>(r, 19, m, "Gram-Schmidt (sized 19)");
    }
}
static Reg r3(CT == 1 ? "cgs_d" : "cgs_f", P2 | P3 | P6 | P10 | P15, {D_VEC, D_SMALL}, SHARED, CT == 1 ? 3 : 2, cgs_any);
#endif
#define NM(x) CT == 1 ? x "_d" : CT == 2 ? x "_f" : CT == 3 ? x "_c" : x "_z"
static Reg r1(NM("cross"), P2 | P3 | P6 | P10 | P15, {}, SHARED, 2, cross_any);
} }
