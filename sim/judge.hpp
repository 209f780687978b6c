// Plain references (uninstrumented code, compiled once): the scalar formula of
// each operation, evaluated in long double, against what the call left behind.
#pragma once
#include "cat.hpp"
namespace cat {
enum { EW_ADD, EW_SUB, EW_NEG, EW_SCALE, EW_DIV, EW_AXPY, EW_AXPYSELF };

// What one element-wise call did: y = op(a, b, al), y0 the old content of y.
template<class T> struct EwSpec {
    const char* name; int op; T al{};
    std::vector<T> a, b;            // operand values (b: y0 for in-place)
};
template<class T> void judge_ew(const EwSpec<T>& sp, const T* a, const T* b, const T* y, size_t ylen, bool ret_ok);
template<class T> void judge_operands(const EwSpec<T>& sp, const T* a, const T* b);
template<class T> void judge_dot(const char* name, const std::vector<T>& x, const std::vector<T>& y, T d, T n1, T n2);
// y = alpha*A*x + beta*y0, A n x m row-major
template<class T> void judge_mv(const char* name, int n, int m, T alpha, const std::vector<T>& A, const std::vector<T>& x, T beta, const std::vector<T>& y0, const T* y, size_t ylen);
// C = alpha*A*B + beta*C0, A n x k, B k x m
template<class T> void judge_mm(const char* name, int n, int k, int m, T alpha, const std::vector<T>& A, const std::vector<T>& B, T beta, const std::vector<T>& C0, const T* C, size_t clen);
template<class T> void judge_same(const char* name, const char* what, const T* p, const std::vector<T>& want);
template<class T> void judge_state(const T* p, size_t n);
template<class T> std::vector<T> rvals(Rng& r, size_t n, int mode);
template<class T> T rcoef(Rng& r);

// Element-wise call on operands of one element type (vectors or matrices).
template<class T> struct EwInst : Inst {
    EwSpec<T> sp; int mode = 0; int alias = 0; int el = -1;   // el: the scalar is this element of the destination
    struct S : Slot { T al{}; std::vector<T> y0; const T* y = nullptr; size_t len = 0; bool ret = true; };
    void base(Rng& r, const char* nm, int n, int op, bool special) { name = sp.name = nm; sp.op = op; mode = pick_vals(r, special); sp.a = rvals<T>(r, n, mode); sp.b = rvals<T>(r, n, mode); sp.al = rcoef<T>(r); if (n && r.one_in(5)) el = r.one_in(2) ? 0 : (int)r.below((u64)n); }
    // the scalar of a call that changes v: given by reference to an element of v now and then
    const T& scalar(S& s, const T* v) { const T& q = el >= 0 ? v[el] : sp.al; s.al = q; return q; }
    virtual const T* pa() = 0;
    virtual const T* pb() { return nullptr; }
    void ok(Slot* p) override {
        S* s = static_cast<S*>(p);
        if (!s->y0.empty() || (sp.op == EW_AXPY)) { EwSpec<T> q; q.name = sp.name; q.op = sp.op; q.al = el >= 0 ? s->al : sp.al; q.a = sp.op == EW_AXPY ? sp.a : s->y0; q.b = s->y0; judge_ew<T>(q, nullptr, nullptr, s->y, s->len, s->ret); judge_operands<T>(sp, pa(), nullptr); }
        else judge_ew<T>(sp, pa(), pb(), s->y, s->len, s->ret);
    }
    void bad(Slot*) override { judge_operands<T>(sp, pa(), pb()); }
};

// cross product (dim 2 or 3; c0: accumulated onto), 2x2 inverse, Gram-Schmidt family (m vectors of length n, row by row)
template<class T> void judge_cross(const char* name, int dim, const std::vector<T>& x, const std::vector<T>& y, const std::vector<T>& c0, const T* c, size_t clen);
template<class T> void judge_inv2(const char* name, const std::vector<T>& a, const T* r);
template<class T> std::vector<T> cgs_family(Rng& r, int n, int m);
template<class T> void judge_cgs(const char* name, int n, int m, const std::vector<T>& v0, const std::vector<T>& v);
template<class T> std::vector<T> inv2_matrix(Rng& r);

// --- linear systems (A n x n row-major, b and x n x k) -------------------------------
// residual at rounding level in every right-hand side; extra: an absolute allowance (the tolerance of an iterative method)
template<class T> void judge_solve(const char* name, int n, const std::vector<T>& A, int k, const std::vector<T>& b, const T* x, size_t xlen, double extra = 0);
template<class T> void judge_finite_or_threw(const char* name, bool threw, const T* x, size_t n);
template<class T> T size_of_system(Rng& r) { int e = r.one_in(4) ? (std::is_same_v<T, float> ? 30 : 120) : 8; return (T)std::ldexp(1.0, (int)r.range(-e, e)); }   // conditioning does not depend on it
template<class T> std::vector<T> dominant(Rng& r, int n);                    // row and column dominant
template<class T> std::vector<T> spd(Rng& r, int n);
template<class T> std::vector<T> rhs_for(Rng& r, int n, int k, const std::vector<T>& A, bool wide = true);
template<class T> std::vector<T> mul_plain(int n, const std::vector<T>& A, const std::vector<T>& v);
std::vector<double> bad_spd(Rng& r, int n, bool zero);                       // zero pivot (exact), or a negative one, at a random place
std::vector<double> bad_lu(Rng& r, int n, bool band);                        // exact zero pivot at a random place
template<class T> T norm_of(const std::vector<T>& v);
template<class T> T norm_mat(int n, const std::vector<T>& A);

// --- sparse matrices: a map from coordinates to values -------------------------------
using Key = std::pair<size_t, size_t>;
template<class T> struct SpModel { std::map<Key, T> e; size_t rows = 0; /* row-compressed form: declared rows */ };
// what the public accessors of one sparse matrix say
template<class T> struct SpView { bool csr = false; size_t r = 0, c = 0, nnz = 0; std::vector<T> val; std::vector<size_t> a, b; /* COO: rows, cols; CSR: row_ptr, cols */ std::vector<T> grid, grid2; /* (i,j) and at(i,j), r x c */ bool full = false; };
template<class T> void judge_sp(const char* name, const char* which, const SpView<T>& v, const SpModel<T>& m, bool exact_values);
template<class T> void judge_sp_adopt(SpModel<T>& m, const SpView<T>& v);     // continue from the rounded values
template<class T> SpModel<T> sp_random(Rng& r, int n, int m, int permille, int mode);
template<class T> std::vector<T> sp_dense(const SpModel<T>& m, size_t r, size_t c);
// y = alpha*A*x + beta*y0 with a sparse n x m matrix
template<class T> void judge_spmv(const char* name, size_t n, size_t m, T alpha, const SpModel<T>& A, const std::vector<T>& x, T beta, const std::vector<T>& y0, const T* y, size_t ylen);
template<class T> T sp_at(const SpModel<T>& m, size_t i, size_t j);
template<class T> Key sp_shape(const SpModel<T>& m, bool csr) { size_t r = csr ? m.rows : 0, c = 0; for (auto& [k, v] : m.e) { (void)v; if (!csr && k.first + 1 > r) r = k.first + 1; if (k.second + 1 > c) c = k.second + 1; } return {r, c}; }
template<class T> void sp_lists(Rng& r, const SpModel<T>& m, bool shuffle, std::vector<T>& v, std::vector<size_t>& a, std::vector<size_t>& b);
// row-compressed data with the columns of each row in any order
template<class T> void sp_shuffle(Rng& r, std::vector<T>& v, const std::vector<size_t>& rp, std::vector<size_t>& c) {
    if (!r.one_in(3)) return;
    for (size_t i = 0; i + 1 < rp.size(); i++) for (size_t k = rp[i + 1]; k > rp[i] + 1; k--) { size_t q = rp[i] + (size_t)r.below(k - rp[i]); T t = v[k - 1]; v[k - 1] = v[q]; v[q] = t; std::swap(c[k - 1], c[q]); }
}
template<class T> void sp_csr(const SpModel<T>& m, std::vector<T>& v, std::vector<size_t>& rp, std::vector<size_t>& c);

// --- element grids: what a vector or matrix object holds, element by element ----------
template<class T> struct Grid { size_t r = 0, c = 0; std::vector<T> g; std::vector<char> st; /* stored (writable) positions */
    void size(size_t n, size_t m) { r = n; c = m; g.assign(n * m, T(0)); st.assign(n * m, 0); }
    void set(size_t i, size_t j, T v) { g[i * c + j] = v; st[i * c + j] = 1; } };
template<class T> void judge_grid(const char* name, const char* when, const Grid<T>& got, const Grid<T>& want);
}
