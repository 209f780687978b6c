// Sparse matrices: histories of a pool of COO and row-compressed matrices (C07, C12, C13),
// shared reads and arithmetic (C02), sparse products (C09).
// CT=1 2
#include "judge.hpp"
#include "lalib/vec.hpp"
#include "lalib/mat.hpp"
#include "types.hpp"
using namespace lalib;
namespace cat { namespace {
using Coo = SpCooMat<T>; using Csr = SpMat<T>; using Model = SpModel<T>; using View = SpView<T>;
constexpr bool DBL = std::is_same_v<T, double>;

static void look(const Coo& c, View& v, bool full) {
    auto s = c.shape(); v.csr = false; v.r = s.first; v.c = s.second; v.nnz = c.nnz(); v.val = c.values(); v.a = c.row_indices(); v.b = c.col_indices(); v.full = full;
    if (full) for (size_t i = 0; i < v.r; i++) for (size_t j = 0; j < v.c; j++) { v.grid.push_back(c(i, j)); v.grid2.push_back(c.at(i, j)); }
}
static void look(const Csr& c, View& v, bool full) {
    auto s = c.shape(); v.csr = true; v.r = s.first; v.c = s.second; v.nnz = c.nnz(); v.val = c.values(); v.a = c.row_ptr(); v.b = c.col_indices(); v.full = full;
    // the columns of a row may be stored in any order
    for (size_t i = 0; i + 1 < v.a.size(); i++) { size_t lo = v.a[i], hi = v.a[i + 1]; if (hi > v.b.size() || hi > v.val.size()) break; for (size_t k = lo + 1; k < hi; k++) for (size_t q = k; q > lo && v.b[q] < v.b[q - 1]; q--) { std::swap(v.b[q], v.b[q - 1]); T t = v.val[q]; v.val[q] = v.val[q - 1]; v.val[q - 1] = t; } }
    if (full) for (size_t i = 0; i < v.r; i++) for (size_t j = 0; j < v.c; j++) { v.grid.push_back(c(i, j)); v.grid2.push_back(c.at(i, j)); }
}
static Coo make_coo(Rng& r, const Model& m) { std::vector<T> v; std::vector<size_t> a, b; sp_lists<T>(r, m, true, v, a, b); return Coo(v, a, b); }

// --- a history over a pool ----------------------------------------------------------------
constexpr int NP = 3;
struct Machine : Inst {
    Coo coo[NP]; Model mc[NP]; std::unique_ptr<Csr> csr[NP]; Model ms[NP]; int n, m;
    enum { BUILD_COPY, BUILD_MOVE, UNIT, ACC, SUM, DIFF, NEG, TIMES, SCALE, WRITE, WRITE_ABSENT, COPY, MOVE, RESERVE, REJECT, RD, DROP_EMPTY, TO_CSR, TO_CSR_MOVE, S_BUILD, S_UNIT, S_TIMES, S_SCALE, S_WRITE, S_WRITE_ABSENT, S_COPY, S_MOVE, S_RESERVE, S_REJECT, S_NEG, NOPS };
    struct S : Slot { int op, i, j, k; bool flag; T al{}; Model fresh; std::vector<T> v; std::vector<size_t> a, b; size_t x = 0, y = 0; size_t cap = 0; int ex = X_NONE; bool touched_ret = true, done = false; View vc[NP], vs[NP]; };
    Machine(const Par& p, Rng& r) : n(p.n), m(p.m) {
        name = "sparse history"; if (n > 9) n = 9; if (m > 9) m = 9;
        for (int i = 0; i < NP; i++) { mc[i] = sp_random<T>(r, n, m, (int)r.range(0, 600), V_UNI); coo[i] = make_coo(r, mc[i]); ms[i] = mc[i]; csr[i].reset(new Csr(coo[i])); if (ms[i].e.empty()) ms[i].rows = 0; }
    }
    Slot* slot(Rng& r, int) override {
        S* s = new S; s->op = (int)r.below(NOPS); if (r.one_in(4)) s->op = r.one_in(2) ? ACC : SUM; s->i = (int)r.below(NP); s->j = (int)r.below(NP); s->k = (int)r.below(NP); s->flag = r.one_in(2); s->al = rcoef<T>(r);
        if (s->op == NEG && !DBL) s->op = TIMES;
        if (s->op == S_NEG && !DBL) s->op = S_TIMES;
        if (s->op == DIFF && !DBL) s->op = SUM;
        switch (s->op) {
        case BUILD_COPY: case BUILD_MOVE: s->fresh = sp_random<T>(r, n, m, (int)r.range(0, 700), pick_vals(r)); sp_lists<T>(r, s->fresh, true, s->v, s->a, s->b); break;
        case S_BUILD: s->fresh = sp_random<T>(r, n, m, (int)r.range(0, 700), pick_vals(r)); s->fresh.rows += r.below(3); sp_csr<T>(s->fresh, s->v, s->a, s->b); sp_shuffle<T>(r, s->v, s->a, s->b); break;
        case UNIT: case S_UNIT: s->x = r.below((u64)n + 1); break;
        case WRITE: if (mc[s->i].e.empty()) { s->op = RD; break; } { auto it = mc[s->i].e.begin(); std::advance(it, (long)r.below(mc[s->i].e.size())); s->x = it->first.first; s->y = it->first.second; s->al = rvals<T>(r, 1, V_UNI)[0]; } break;
        case S_WRITE: if (ms[s->i].e.empty()) { s->op = RD; break; } { auto it = ms[s->i].e.begin(); std::advance(it, (long)r.below(ms[s->i].e.size())); s->x = it->first.first; s->y = it->first.second; s->al = rvals<T>(r, 1, V_UNI)[0]; } break;
        case WRITE_ABSENT: case S_WRITE_ABSENT: { const Model& q = s->op == WRITE_ABSENT ? mc[s->i] : ms[s->i]; bool found = false; for (int t = 0; t < 40 && !found; t++) { s->x = r.below((u64)n + 2); s->y = r.below((u64)m + 2); found = !q.e.count({s->x, s->y}); } if (!found) { s->x = (size_t)n + 5; s->y = 0; } s->ex = X_RANGE; break; }
        case RESERVE: case S_RESERVE: s->cap = r.below(200); break;
        case SCALE: case S_SCALE: s->x = r.one_in(2) ? 0 : r.below(64); s->flag = r.one_in(4); break;   // flag: by an element of the matrix itself
        case REJECT: case S_REJECT: s->v = rvals<T>(r, 1 + r.below(5), V_UNI); s->a.assign(s->v.size(), 0); s->b.resize(s->v.size()); for (size_t t = 0; t < s->b.size(); t++) s->b[t] = t; if (s->op == REJECT && s->flag) s->a.pop_back(); else s->b.push_back(9); if (s->op == S_REJECT) s->a = {0, s->v.size()}; s->ex = X_RUNTIME; break;
        default: break;
        }
        return s;
    }
    int expect(Slot* p) override { return static_cast<S*>(p)->ex; }
    void run(Slot* p) override {
        S& s = *static_cast<S*>(p); Coo& C = coo[s.i]; const Coo& D = coo[s.j]; auto& X = csr[s.i]; auto& Y = csr[s.j];
        switch (s.op) {
        case BUILD_COPY: { Coo t(s.v, s.a, s.b); if (s.flag) C = t; else C = std::move(t); break; }
        case BUILD_MOVE: { auto v = s.v; auto a = s.a; auto b = s.b; C = Coo(std::move(v), std::move(a), std::move(b)); break; }
        case UNIT: C = Coo::unit(s.x); break;
        case ACC: s.touched_ret = &(C += D) == &C; break;
        case SUM: coo[s.k] = C + D; break;
        case DIFF: if constexpr (DBL) coo[s.k] = C - D; break;
        case NEG: if constexpr (DBL) coo[s.k] = -C; break;
        case TIMES: coo[s.k] = s.al * C; break;
        case SCALE: if (s.flag && C.nnz() && std::abs(C.values()[s.x % C.nnz()]) < 4) { const T& q = C.values()[s.x % C.nnz()]; s.al = q; s.touched_ret = &scale(q, C) == &C; } else s.touched_ret = &scale(s.al, C) == &C; break;
        case WRITE: case WRITE_ABSENT: C.mut_at(s.x, s.y) = s.al; break;
        case COPY: if (s.flag) s.touched_ret = &(C = D) == &C; else { Coo t(D); C = t; } break;
        case MOVE: { Coo t(D); Coo u(std::move(t)); if (s.flag) C = std::move(u); else { t = u; C = t; } break; }
        case RESERVE: C.reserve(s.cap); break;
        case REJECT: { if (s.flag) { Coo t(s.v, s.a, s.b); C = t; } else { auto v = s.v; auto a = s.a; auto b = s.b; Coo t(std::move(v), std::move(a), std::move(b)); C = t; } break; }
        case DROP_EMPTY: { Coo t; C = t; break; }
        case TO_CSR: X.reset(new Csr(D)); break;
        case TO_CSR_MOVE: { Coo t(D); X.reset(new Csr(std::move(t))); break; }
        case S_BUILD: if (s.flag) X.reset(new Csr(s.v, s.a, s.b)); else { auto v = s.v; auto a = s.a; auto b = s.b; X.reset(new Csr(std::move(v), std::move(a), std::move(b))); } break;
        case S_UNIT: *X = Csr::unit(s.x); break;
        case S_TIMES: *csr[s.k] = s.al * *X; break;
        case S_NEG: if constexpr (DBL) *csr[s.k] = -*X; break;
        case S_SCALE: if (s.flag && X->nnz() && std::abs(X->values()[s.x % X->nnz()]) < 4) { const T& q = X->values()[s.x % X->nnz()]; s.al = q; s.touched_ret = &scale(q, *X) == &*X; } else s.touched_ret = &scale(s.al, *X) == &*X; break;
        case S_WRITE: case S_WRITE_ABSENT: X->mut_at(s.x, s.y) = s.al; break;
        case S_COPY: if (s.flag) s.touched_ret = &(*X = *Y) == &*X; else X.reset(new Csr(*Y)); break;
        case S_MOVE: { Csr t(*Y); Csr u(std::move(t)); if (s.flag) *X = std::move(u); else { t = u; *X = t; } break; }
        case S_RESERVE: X->reserve(s.cap, s.cap / 2); break;
        case S_REJECT: if (s.flag) X.reset(new Csr(s.v, s.a, s.b)); else { auto v = s.v; auto a = s.a; auto b = s.b; X.reset(new Csr(std::move(v), std::move(a), std::move(b))); } break;
        default: break;
        }
        s.done = true;
        for (int q = 0; q < NP; q++) { look(coo[q], s.vc[q], q == s.i || q == s.k); look(*csr[q], s.vs[q], q == s.i || q == s.k); }
    }
    void ok(Slot* p) override {
        S& s = *static_cast<S*>(p);
        if (!s.touched_ret) wrong(name, "an in-place operation does not return its object");
        if (s.ex != X_NONE) { unchanged(); return; }
        Model& C = mc[s.i]; const Model D = mc[s.j]; Model& X = ms[s.i]; const Model Y = ms[s.j];
        auto comb = [](Model a, const Model& b, int sg) { for (auto& [k, v] : b.e) { auto it = a.e.find(k); T w = sg > 0 ? v : T(-v); if (it == a.e.end()) a.e[k] = w; else it->second = it->second + w; } return a; };
        bool ex = true;
        switch (s.op) {
        case BUILD_COPY: case BUILD_MOVE: C = s.fresh; break;
        case UNIT: C = Model(); for (size_t t = 0; t < s.x; t++) C.e[{t, t}] = T(1); break;
        case ACC: C = comb(C, D, 1); break;
        case SUM: mc[s.k] = comb(C, D, 1); break;
        case DIFF: mc[s.k] = comb(C, D, -1); break;
        case NEG: { Model t = C; for (auto& [k, v] : t.e) { (void)k; v = -v; } mc[s.k] = t; break; }
        case TIMES: { Model t = C; for (auto& [k, v] : t.e) { (void)k; v = s.al * v; } mc[s.k] = t; ex = false; break; }
        case SCALE: for (auto& [k, v] : C.e) { (void)k; v = s.al * v; } ex = false; break;
        case WRITE: C.e[{s.x, s.y}] = s.al; break;
        case COPY: case MOVE: C = D; break;
        case DROP_EMPTY: C = Model(); break;
        case TO_CSR: case TO_CSR_MOVE: X = D; X.rows = sp_shape(X, false).first; break;
        case S_BUILD: X = s.fresh; break;
        case S_UNIT: X = Model(); for (size_t t = 0; t < s.x; t++) X.e[{t, t}] = T(1); X.rows = s.x; break;
        case S_TIMES: { Model t = X; for (auto& [k, v] : t.e) { (void)k; v = s.al * v; } ms[s.k] = t; ex = false; break; }
        case S_NEG: { Model t = X; for (auto& [k, v] : t.e) { (void)k; v = -v; } ms[s.k] = t; break; }
        case S_SCALE: for (auto& [k, v] : X.e) { (void)k; v = s.al * v; } ex = false; break;
        case S_WRITE: X.e[{s.x, s.y}] = s.al; break;
        case S_COPY: case S_MOVE: X = Y; break;
        default: break;
        }
        static const char* nm[NOPS] = {"construct", "construct (moved lists)", "unit", "+=", "+", "-", "negation", "alpha*A", "scale", "mut_at", "mut_at (absent)", "copy", "move", "reserve", "rejected construction", "read", "empty", "to row-compressed", "to row-compressed (move)", "row-compressed construct", "row-compressed unit", "row-compressed alpha*A", "row-compressed scale", "row-compressed mut_at", "row-compressed mut_at (absent)", "row-compressed copy", "row-compressed move", "row-compressed reserve", "row-compressed rejected construction", "row-compressed negation"};
        char b[80];
        for (int q = 0; q < NP; q++) {
            snprintf(b, sizeof b, "matrix %d after %s(%d,%d,%d)", q, nm[s.op], s.i, s.j, s.k);
            judge_sp<T>("COO matrix", b, s.vc[q], mc[q], ex); judge_sp_adopt<T>(mc[q], s.vc[q]);
            judge_sp<T>("row-compressed matrix", b, s.vs[q], ms[q], ex); judge_sp_adopt<T>(ms[q], s.vs[q]);
        }
    }
    void unchanged() { for (int q = 0; q < NP; q++) { View a, b; look(coo[q], a, true); judge_sp<T>("COO matrix", "after a rejected or failed operation", a, mc[q], true); look(*csr[q], b, true); judge_sp<T>("row-compressed matrix", "after a rejected or failed operation", b, ms[q], true); } }
    // an injected failure: the operands are unchanged; the destination of an assignment holds its old value
    void bad(Slot* p) override { S& s = *static_cast<S*>(p); if (!s.done) { unchanged(); return; } for (int q = 0; q < NP; q++) { s.vc[q] = View(); s.vs[q] = View(); look(coo[q], s.vc[q], true); look(*csr[q], s.vs[q], true); } ok(p); }
};
static Inst* mk_machine(const Par& p, Rng& r) { return new Machine(p, r); }

// --- shared const use -------------------------------------------------------------------------
struct Shared : Inst {
    Model m1, m2; std::unique_ptr<const Coo> a, b; std::unique_ptr<const Csr> s; int which;
    struct S : Slot { View v; T al; };
    Shared(const Par& p, Rng& r) {
        name = "sparse operators"; int n = std::min(p.n, 14), m = std::min(p.m, 14); int mode = pick_vals(r);
        m1 = sp_random<T>(r, n, m, (int)r.range(50, 700), mode); m2 = sp_random<T>(r, n, m, (int)r.range(50, 700), mode);
        a.reset(new Coo(make_coo(r, m1))); b.reset(new Coo(make_coo(r, m2))); s.reset(new Csr(*a)); if (m1.e.empty()) m1.rows = 0;
    }
    struct Z : S { int which; std::vector<std::pair<Key, T>> w; };
    // 9-12: a copy of a shared matrix, changed by its owner while other threads use the original and copies of their own
    Slot* slot(Rng& r, int) override {
        Z* z = new Z; z->al = rcoef<T>(r); z->which = (int)r.below(13);
        if (z->which >= 9) for (auto& [k, v] : m1.e) { (void)v; if (r.one_in(2)) z->w.push_back({k, rcoef<T>(r)}); }
        if (!DBL && (z->which == 1 || z->which == 2 || z->which == 8)) z->which = 0;
        return z;
    }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p);
        switch (z.which) {
        case 0: look(*a + *b, z.v, true); break;
        case 1: if constexpr (DBL) look(*a - *b, z.v, true); break;
        case 2: if constexpr (DBL) look(-*a, z.v, true); break;
        case 3: look(z.al * *a, z.v, true); break;
        case 4: look(*a, z.v, true); break;
        case 5: look(*s, z.v, true); break;
        case 6: look(Csr(*a), z.v, true); break;
        case 7: look(z.al * *s, z.v, true); break;
        case 8: if constexpr (DBL) look(-*s, z.v, true); break;
        case 9: { Coo c(*a); for (auto& [k, t] : z.w) c.mut_at(k.first, k.second) = t; look(c, z.v, true); break; }
        case 10: { Csr c(*s); for (auto& [k, t] : z.w) c.mut_at(k.first, k.second) = t; look(c, z.v, true); break; }
        case 11: { Coo c(*b); c = *a; for (auto& [k, t] : z.w) c.mut_at(k.first, k.second) = t; look(c, z.v, true); break; }
        case 12: { Csr c(*b); c = *s; for (auto& [k, t] : z.w) c.mut_at(k.first, k.second) = t; look(c, z.v, true); break; }
        }
    }
    void ok(Slot* p) override {
        Z& z = *static_cast<Z*>(p); Model t = m1;
        if (z.which <= 1) for (auto& [k, v] : m2.e) { T w = z.which == 0 ? v : T(-v); auto it = t.e.find(k); if (it == t.e.end()) t.e[k] = w; else it->second = it->second + w; }
        if (z.which == 2 || z.which == 8) for (auto& [k, v] : t.e) { (void)k; v = -v; }
        if (z.which == 3 || z.which == 7) for (auto& [k, v] : t.e) { (void)k; v = z.al * v; }
        if (z.which >= 9) for (auto& [k, w] : z.w) t.e[k] = w;
        static const char* nm[] = {"A+B", "A-B", "-A", "alpha*A", "reads", "row-compressed reads", "conversion", "row-compressed alpha*A", "row-compressed -A", "a changed copy", "a changed row-compressed copy", "a changed assigned copy", "a changed assigned row-compressed copy"};
        judge_sp<T>(name, nm[z.which], z.v, t, z.which != 3 && z.which != 7); bad(p);
    }
    void bad(Slot*) override { View x, y, w; look(*a, x, false); judge_sp<T>(name, "left operand", x, m1, true); look(*b, y, false); judge_sp<T>(name, "right operand", y, m2, true); look(*s, w, false); judge_sp<T>(name, "row-compressed operand", w, m1, true); }
};
static Inst* mk_shared(const Par& p, Rng& r) { return new Shared(p, r); }

// --- sparse matrix * vector ------------------------------------------------------------------------
struct SpMv : Inst {
    Model mo; std::unique_ptr<const Csr> a; std::unique_ptr<const DynVec<T>> x; std::vector<T> xv, A; T al, be; bool oper = false, inpl = false; int el = 0; size_t n, m;
    struct S : Slot { T al{}, be{}; std::vector<T> y0; std::optional<DynVec<T>> y; bool ret = true; };
    SpMv(const Par& q, Rng& r) {
        Par p = q; p.n = std::min(p.n, 400); p.m = std::min(p.m, 400);          // longer ones: cat_large.cpp
        name = "sparse mat-vec"; int mode = pick_vals(r); bool sq = r.one_in(2);
        mo = sp_random<T>(r, p.n, sq ? p.n : p.m, (int)r.range(20, 700), mode);
        mo.rows = std::max<size_t>(mo.rows, 1); if (sq) { mo.e[{(size_t)p.n - 1, (size_t)p.n - 1}] = rvals<T>(r, 1, mode)[0]; mo.rows = (size_t)p.n; } else if (r.one_in(3)) mo.rows += r.below(3);
        if (mo.e.empty()) mo.e[{0, 0}] = T(1);
        if (mo.rows == sp_shape(mo, false).first && r.one_in(2)) a.reset(new Csr(make_coo(r, mo)));
        else { std::vector<T> v; std::vector<size_t> rp, c; sp_csr<T>(mo, v, rp, c); sp_shuffle<T>(r, v, rp, c); a.reset(new Csr(v, rp, c)); }
        auto sh = sp_shape(mo, true); n = sh.first; m = sh.second;
        xv = rvals<T>(r, m, mode); x.reset(new DynVec<T>(xv)); A = sp_dense<T>(mo, n, m); al = rcoef<T>(r); be = rcoef<T>(r);
        inpl = n == m && r.one_in(3); oper = DBL && !inpl && r.one_in(4); if (r.one_in(6)) el = (int)r.range(1, 3);   // el: 1 alpha, 2 beta, 3 both are elements of the destination
    }
    Slot* slot(Rng& r, int) override { S* s = new S; s->y0 = rvals<T>(r, n, V_UNI); if (!oper) s->y.emplace(s->y0); return s; }
    void run(Slot* p) override {
        S& s = *static_cast<S*>(p);
        if constexpr (DBL) if (oper) { s.y.emplace(*a * *x); return; }
        const T& c = el & 1 ? s.y->data()[0] : al; const T& d = el & 2 ? s.y->data()[n / 2] : be; s.al = c; s.be = d;
        auto& q = mul(c, *a, inpl ? *s.y : *x, d, *s.y); s.ret = &q == &*s.y;
    }
    void ok(Slot* p) override {
        S& s = *static_cast<S*>(p); if (!s.ret) wrong(name, "the call does not return its destination");
        judge_mv<T>(name, (int)n, (int)m, oper ? T(1) : s.al, A, inpl ? s.y0 : xv, oper ? T(0) : s.be, s.y0, s.y->data(), s.y->size()); bad(p);
    }
    void bad(Slot*) override { judge_same<T>(name, "vector", x->data(), xv); View v; look(*a, v, false); judge_sp<T>(name, "matrix", v, mo, true); }
};
static Inst* mk_spmv(const Par& p, Rng& r) { return new SpMv(p, r); }
#define NM(x) CT == 1 ? x "_d" : CT == 2 ? x "_f" : x "_z"
static Reg r1(NM("sphist"), P3 | P6 | P7 | P10 | P12 | P13, {D_ORD, D_ORD}, OWNED, CT == 1 ? 4 : 2, mk_machine);
static Reg r2(NM("spops"), P2 | P3 | P6 | P7 | P10 | P12, {D_MAT, D_MAT}, SHARED, CT == 1 ? 2 : 1, mk_shared);
static Reg r3(NM("spmv"), P2 | P3 | P6 | P9 | P10, {D_MAT, D_MAT}, SHARED, CT == 1 ? 4 : 2, mk_spmv);
} }
