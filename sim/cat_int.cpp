// Element-wise operations on other element types: integers and long double (C01 and shared use).
#include "judge.hpp"
#include "lalib/vec.hpp"
using namespace lalib;
namespace cat { namespace {
constexpr u64 EV = P1 | P2 | P3 | P6 | P10 | P18;
template<class T, class V> struct Ints : Inst {
    std::vector<T> av, bv; T al; std::unique_ptr<const V> a, b; int which, alias;
    struct Z : Slot { std::optional<V> v; std::vector<T> y0; bool ret = true; };
    static T one(Rng& r) { return std::is_same_v<T, long double> ? (T)r.sym() : r.one_in(4) ? (T)(r.next() % 1000) : (T)r.range(0, 9); }
    static std::vector<T> many(Rng& r, size_t n) { std::vector<T> v(n); for (auto& x : v) x = one(r); return v; }
    Ints(Rng& r, size_t n) { name = "element-wise (other element types)"; av = many(r, n); bv = many(r, n); al = (T)r.range(0, 3); which = (int)r.below(10); alias = (int)r.below(4); a.reset(new V(av)); b.reset(new V(bv)); }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->y0 = alias == 1 && which >= 4 ? av : alias == 2 && which >= 4 ? bv : many(r, av.size()); if (which >= 4) z->v.emplace(z->y0); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); const V* x = a.get(); const V* y = b.get(); V* q = nullptr;
        if (which >= 4) { if (alias == 1) x = &*z.v; if (alias == 2) y = &*z.v; }
        switch (which) {
        case 0: z.v.emplace(*x + *y); break;
        case 1: z.v.emplace(*x - *y); break;
        case 2: z.v.emplace(-*x); break;
        case 3: z.v.emplace(al * *x); break;
        case 4: q = &add(*x, *y, *z.v); break;
        case 5: q = &sub(*x, *y, *z.v); break;
        case 6: q = &neg(*x, *z.v); break;
        case 7: q = &scale(al, *z.v); break;
        default: q = &axpy(al, *x, *z.v); break;
        }
        if (q) z.ret = q == &*z.v;
    }
    void check(const V& v, const std::vector<T>& w, const char* what) {
        if (v.size() != w.size()) wrong(name, std::string(what) + ": wrong length");
        const T* p = v.data();
        for (size_t i = 0; i < w.size(); i++) if (!(p[i] == w[i] || (std::is_same_v<T, long double> && (which == 3 || which >= 7) && std::fabs((double)(p[i] - w[i])) < 1e-17))) {
            char m[160]; snprintf(m, sizeof m, "%s: element %zu of %zu (operation %d, alias %d, %zu-byte elements) is %.17g, expected %.17g", what, i, w.size(), which, alias, sizeof(T), (double)p[i], (double)w[i]); if (what[0] == 'r') wrong(name, m); violation("operand-changed", "%s: %s", name, m); }
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); std::vector<T> w(av.size());
        for (size_t i = 0; i < w.size(); i++) switch (which) {
            case 0: case 4: w[i] = (T)(av[i] + bv[i]); break;
            case 1: case 5: w[i] = (T)(av[i] - bv[i]); break;
            case 2: case 6: w[i] = (T)-av[i]; break;
            case 3: w[i] = (T)(al * av[i]); break;
            case 7: w[i] = (T)(al * z.y0[i]); break;
            default: w[i] = (T)(al * (alias == 1 ? z.y0[i] : av[i]) + z.y0[i]); }
        check(*z.v, w, "result"); if (!z.ret) wrong(name, "the call does not return its destination"); bad(p); R->verified += w.size();
    }
    void bad(Slot*) override { check(*a, av, "first operand"); check(*b, bv, "second operand"); }
};
template<class T> static Inst* pick(const Par& p, Rng& r) {
    if (r.one_in(4)) return NList<T, 1, 8, 16, 18>::go(p.n, [&](auto N) -> Inst* { return new Ints<T, SizedVec<T, N()>>(r, N()); });
    return new Ints<T, DynVec<T>>(r, (size_t)p.n);
}
static Inst* ints(const Par& p, Rng& r) {
    switch (r.below(5)) { case 0: return pick<int>(p, r); case 1: return pick<u32>(p, r); case 2: return pick<long>(p, r); case 3: return pick<unsigned char>(p, r); default: return pick<long double>(p, r); }
}
static Reg r1("vec_other", EV, {D_VEC}, SHARED, 1, ints);
} }
