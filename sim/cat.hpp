// Catalogue of library operations: what a client task can do, and the scalar
// reference each result is judged against. Uses the public API only.
#pragma once
#include "rt.hpp"
#include <array>
#include <cmath>
#include <complex>
#include <cstdio>
#include <cstring>
#include <limits>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <vector>

namespace cat {
using namespace sim;
using sim::u32; using sim::u64;

enum : u64 { P1 = 1ull << 1, P2 = 1ull << 2, P3 = 1ull << 3, P4 = 1ull << 4, P5 = 1ull << 5, P6 = 1ull << 6, P7 = 1ull << 7, P8 = 1ull << 8,
    P9 = 1ull << 9, P10 = 1ull << 10, P11 = 1ull << 11, P12 = 1ull << 12, P13 = 1ull << 13, P14 = 1ull << 14, P15 = 1ull << 15, P16 = 1ull << 16, P17 = 1ull << 17, P18 = 1ull << 18 };
// how an object may be used
enum { SHARED = 0, OWNED = 1 /* one client only */, PARTED = 2 /* each client works on its own part */ };
// which sizes matter: vector length class / matrix dimension class / order class / history class
enum Dim { D_NONE, D_VEC, D_MAT, D_ORD, D_SMALL, D_BIG /* packed offsets beyond 16 bits */, D_LONG /* indices beyond 16 bits */ };

struct Par { int n = 1, m = 1, k = 1; u64 seed = 1; };

enum Exc { X_NONE, X_SIZE, X_INVALID, X_RANGE, X_RUNTIME, X_ALLOC, X_OTHER_STD, X_UNKNOWN };
const char* exc_name(int);

extern int g_prop;     // the property the script belongs to
struct Slot { virtual ~Slot() {} };
struct Inst {
    const char* name = "";
    virtual ~Inst() {}
    virtual Slot* slot(Rng&, int client) = 0;   // private operands of one call
    virtual void run(Slot*) = 0;                // the instrumented call(s)
    virtual void ok(Slot*) = 0;                 // judge a call that returned
    virtual void bad(Slot*) {}                  // judge what is left after an injected failure made it throw
    virtual int expect() { return X_NONE; }     // X_NONE: must return; X_UNKNOWN: must throw something; else: must throw this
    virtual int expect(Slot*) { return expect(); }
};

struct OpDef { const char* name; u64 props; Dim dim[3]; int use; int weight; Inst* (*make)(const Par&, Rng&); };
std::vector<OpDef>& registry();
struct Reg { Reg(const char* n, u64 p, std::array<Dim, 3> d, int use, int w, Inst* (*mk)(const Par&, Rng&)) { registry().push_back(OpDef{n, p, {d[0], d[1], d[2]}, use, w, mk}); } };

// --- numbers ------------------------------------------------------------------
template<class T> struct num { using R = T; using L = long double; static constexpr bool cx = false; };
template<class T> struct num<std::complex<T>> { using R = T; using L = std::complex<long double>; static constexpr bool cx = true; };
template<class T> using Lg = typename num<T>::L;
template<class T> using Re = typename num<T>::R;
template<class T> Lg<T> up(const T& v) { if constexpr (num<T>::cx) return Lg<T>(v.real(), v.imag()); else return (long double)v; }
inline long double ab(long double v) { return std::fabs(v); }
inline long double ab(const std::complex<long double>& v) { return std::fabs(v.real()) + std::fabs(v.imag()); }
template<class T> const char* tyname() { if constexpr (std::is_same_v<T, float>) return "float"; else if constexpr (std::is_same_v<T, double>) return "double"; else if constexpr (std::is_same_v<T, std::complex<float>>) return "complex<float>"; else return "complex<double>"; }

enum Vals { V_UNI, V_INT, V_WIDE, V_SPECIAL, V_FAR };       // V_FAR: all elements of a vector or matrix far from 1 together
inline int pick_vals(Rng& r, bool special = false) { u64 c = r.below(special ? 11 : 10); return c < 5 ? V_UNI : c < 7 ? V_INT : c < 9 ? V_WIDE : c < 10 ? V_FAR : V_SPECIAL; }
template<class F> constexpr int FAR_EXP = std::is_same_v<F, float> ? 25 : 100;
template<class F> F real_val(Rng& r, int mode) {
    switch (mode) {
    case V_INT: return (F)r.range(-4, 4);
    case V_WIDE: return (F)std::ldexp(r.sym(), (int)r.range(-15, 15));
    case V_SPECIAL: switch (r.below(8)) { case 0: return std::numeric_limits<F>::quiet_NaN(); case 1: return std::numeric_limits<F>::infinity(); case 2: return -std::numeric_limits<F>::infinity(); case 3: return (F)-0.0; case 4: return std::numeric_limits<F>::denorm_min(); case 5: return std::numeric_limits<F>::max() / 4; default: return (F)r.sym(); }
    default: return (F)r.sym();
    }
}
template<class T> T val(Rng& r, int mode = V_UNI) { if constexpr (num<T>::cx) { auto a = real_val<Re<T>>(r, mode); auto b = real_val<Re<T>>(r, mode); return T(a, b); } else return real_val<T>(r, mode); }
template<class T> std::vector<T> vals(Rng& r, size_t n, int mode = V_UNI) {
    std::vector<T> v(n); Re<T> f = mode == V_FAR ? (Re<T>)std::ldexp(1.0, (int)r.range(-FAR_EXP<Re<T>>, FAR_EXP<Re<T>>)) : 1;
    for (auto& x : v) { x = val<T>(r, mode); if (mode == V_FAR) x = x * f; }
    return v;
}
template<class T> T coef(Rng& r) { switch (r.below(12)) { case 0: case 6: return T(0); case 1: case 7: return T(1); case 2: case 8: return T(-1); case 3: return T((Re<T>)0.5); case 4: return val<T>(r, V_UNI) * (Re<T>)std::ldexp(1.0, (int)r.range(-FAR_EXP<Re<T>> / 2, FAR_EXP<Re<T>> / 2)); default: return val<T>(r, V_UNI); } }

// --- judging ------------------------------------------------------------------
template<class T> std::string show(const T& v) { char b[96]; if constexpr (num<T>::cx) snprintf(b, sizeof b, "(%.17g,%.17g)", (double)v.real(), (double)v.imag()); else snprintf(b, sizeof b, "%.17g", (double)v); return b; }
[[noreturn]] inline void wrong(const char* op, const std::string& what) { violation("wrong-result", "%s: %s", op, what.c_str()); }
template<class T> void must_be(const char* op, bool c, const T& what) { if (!c) wrong(op, what); }
inline void sig(const void* p, size_t n) { const unsigned char* b = (const unsigned char*)p; u64 h = R->state_hash ? R->state_hash : 0xcbf29ce484222325ull; for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001B3ull; } R->state_hash = h; R->verified++; }
template<class T> void sigv(const T* p, size_t n) { for (size_t i = 0; i < n; i++) { T x = p[i]; if constexpr (num<T>::cx) { if (x != x) continue; } else { if (x != x) continue; } sig(&x, sizeof(Re<T>) * (num<T>::cx ? 2 : 1)); } }

template<class F> bool bits_eq1(F a, F b) { if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b); return a == b && std::signbit(a) == std::signbit(b); }
template<class T> bool bits_eq(const T& a, const T& b) { if constexpr (num<T>::cx) return bits_eq1(a.real(), b.real()) && bits_eq1(a.imag(), b.imag()); else return bits_eq1(a, b); }
// got must equal ref up to the rounding of `terms` operations over terms of total magnitude mag
template<class T> bool near(const T& got, const Lg<T>& ref, long double mag, double terms) {
    using F = Re<T>;
    long double eps = std::numeric_limits<F>::epsilon(), tiny = std::numeric_limits<F>::min();
    long double tol = (terms + 8) * 4 * eps * (mag + ab(ref)) + (terms + 1) * tiny * 4;
    long double d = ab(up<T>(got) - ref);
    return d <= tol;       // false for NaN
}
template<class T> void need(const char* op, const char* what, long i, long j, const T& got, const Lg<T>& ref, long double mag, double terms) {
    if (near<T>(got, ref, mag, terms)) return;
    char b[400];
    if constexpr (num<T>::cx) snprintf(b, sizeof b, "%s<%s> element (%ld,%ld) is %s, expected (%.17Lg,%.17Lg)", what, tyname<T>(), i, j, show<T>(got).c_str(), ref.real(), ref.imag());
    else snprintf(b, sizeof b, "%s<%s> element (%ld,%ld) is %s, expected %.17Lg", what, tyname<T>(), i, j, show<T>(got).c_str(), ref);
    wrong(op, b);
}
template<class T> void exact(const char* op, const char* what, long i, long j, const T& got, const T& ref) {
    if (bits_eq<T>(got, ref)) return;
    char b[400]; snprintf(b, sizeof b, "%s<%s> element (%ld,%ld) is %s, expected exactly %s", what, tyname<T>(), i, j, show<T>(got).c_str(), show<T>(ref).c_str());
    wrong(op, b);
}
template<class T> void same(const char* op, const char* what, const T* p, const std::vector<T>& want) {
    for (size_t i = 0; i < want.size(); i++) if (!bits_eq<T>(p[i], want[i])) { char b[300]; snprintf(b, sizeof b, "%s changed: element %zu is %s, was %s", what, i, show<T>(p[i]).c_str(), show<T>(want[i]).c_str()); violation("operand-changed", "%s: %s", op, b); }
}

// --- dispatch of compile-time sizes -----------------------------------------------
template<size_t N> using Ic = std::integral_constant<size_t, N>;
template<class T, size_t... Ns> struct NList {
    template<class F> static Inst* go(int n, F f) { Inst* r = nullptr; size_t best = first(); ((Ns <= (size_t)n && Ns >= best ? (best = Ns, 0) : 0), ...); ((Ns == best && !r ? (r = f(Ic<Ns>{}), 0) : 0), ...); return r; }
    static constexpr size_t first() { size_t a[] = {Ns...}; return a[0]; }
};
}
