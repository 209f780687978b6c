// Script generation, run execution, search, gate, minimisation, replay.
#include "cat.hpp"
#include <algorithm>
#include <fcntl.h>
#include <sched.h>
#include <set>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
using namespace cat;
namespace cat { int classify_current(std::string*); }
extern "C" { void GOMP_parallel(void (*)(void*), void*, unsigned, unsigned); int omp_get_thread_num(); void openblas_set_num_threads(int); }

// ---------------------------------------------------------------------------
struct Obj { int op; Par p; };
struct Step { int client, obj; u64 seed; int par = 0; int rep = 1; int fail = 0; /* permille of the allocations, 0 none */ int lap = 0; int renew = 0; /* first replace the object by another of the same shape */ };
struct Script { Cfg c; int prop = 1; int clients = 1; int diff = 0; std::vector<Obj> objs; std::vector<Step> steps; std::vector<Dev> devs; };

static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9 * t.tv_nsec; }
static std::string variant = "?";

// --- text form ----------------------------------------------------------------
static std::string to_text(const Script& s, const char* cls, const char* msg) {
    std::string o; char b[512];
    auto add = [&](const char* f, auto... a) { snprintf(b, sizeof b, f, a...); o += b; };
    add("# violation %s\n", cls); o += "# " + std::string(msg) + "\n";
    add("variant %s\nproperty C%02d\n", variant.c_str(), s.prop);
    add("cfg seed=%llu policy=%d pparam=%ld pparam2=%ld fill=%d reuse=%d levels=%d team=%d blas=%d budget=%llu clients=%d diff=%d device=%d\n", (unsigned long long)s.c.seed, s.c.policy, s.c.pparam, s.c.pparam2, s.c.fill, s.c.reuse, s.c.max_levels, s.c.team_mode, s.c.blas_sim, (unsigned long long)s.c.budget, s.clients, s.diff, s.c.device);
    for (size_t i = 0; i < s.objs.size(); i++) add("obj %zu %s n=%d m=%d k=%d seed=%llu\n", i, registry()[s.objs[i].op].name, s.objs[i].p.n, s.objs[i].p.m, s.objs[i].p.k, (unsigned long long)s.objs[i].p.seed);
    for (auto& t : s.steps) add("step client=%d obj=%d seed=%llu par=%d rep=%d fail=%d lapack=%d%s\n", t.client, t.obj, (unsigned long long)t.seed, t.par, t.rep, t.fail, t.lap, t.renew ? " renew=1" : "");
    for (auto& d : s.devs) add("switch task=%u event=%llu to=%u%s\n", d.task, (unsigned long long)d.lev, d.target & 0x7FFFu, d.target & 0x8000u ? " stall=1" : "");
    return o;
}
static int find_op(const std::string& n) { for (size_t i = 0; i < registry().size(); i++) if (n == registry()[i].name) return (int)i; return -1; }
static bool from_text(const char* path, Script& s) {
    FILE* f = fopen(path, "r"); if (!f) return false;
    char l[2048];
    while (fgets(l, sizeof l, f)) {
        unsigned long long a, b; int i; char nm[64];
        if (sscanf(l, "property C%d", &i) == 1) s.prop = i;
        else if (!strncmp(l, "cfg ", 4)) {
            sscanf(l, "cfg seed=%llu policy=%d pparam=%ld pparam2=%ld fill=%d reuse=%d levels=%d team=%d blas=%d budget=%llu clients=%d diff=%d device=%d", &a, &s.c.policy, &s.c.pparam, &s.c.pparam2, &s.c.fill, &s.c.reuse, &s.c.max_levels, &s.c.team_mode, &s.c.blas_sim, &b, &s.clients, &s.diff, &s.c.device); s.c.seed = a; s.c.budget = b;
        } else if (!strncmp(l, "obj ", 4)) {
            Obj o; size_t ix; if (sscanf(l, "obj %zu %63s n=%d m=%d k=%d seed=%llu", &ix, nm, &o.p.n, &o.p.m, &o.p.k, &a) != 6) { fclose(f); return false; }
            o.p.seed = a; o.op = find_op(nm); if (o.op < 0) { fprintf(stderr, "unknown operation %s\n", nm); fclose(f); return false; } s.objs.push_back(o);
        } else if (!strncmp(l, "step ", 5)) {
            Step t{}; if (sscanf(l, "step client=%d obj=%d seed=%llu par=%d rep=%d fail=%d lapack=%d", &t.client, &t.obj, &a, &t.par, &t.rep, &t.fail, &t.lap) != 7) { fclose(f); return false; } t.seed = a; t.renew = strstr(l, "renew=1") != nullptr; s.steps.push_back(t);
        } else if (!strncmp(l, "switch ", 7)) {
            Dev d; unsigned tk, to; if (sscanf(l, "switch task=%u event=%llu to=%u", &tk, &a, &to) != 3) { fclose(f); return false; } d.task = tk; d.lev = a; d.target = to | (strstr(l, "stall=1") ? 0x8000u : 0); s.devs.push_back(d);
        }
    }
    fclose(f);
    return true;
}

// --- executing a script (in the child) -------------------------------------------
struct World { const Script* s; std::vector<Inst*> inst; };
struct ParArg { Inst* in; Slot** slots; int n; int ran[MAXTEAM]; int exc[MAXTEAM]; char what[MAXTEAM][100]; };
static void par_fn(void* a) {
    ParArg* p = (ParArg*)a; int t = omp_get_thread_num(); if (t >= p->n) return;
    p->ran[t] = 1;
    try { p->in->run(p->slots[t]); } catch (...) { set_active(false); std::string w; p->exc[t] = classify_current(&w); snprintf(p->what[t], 100, "%s", w.c_str()); set_active(true); }
}
static bool accepts(int expect, int got) { return expect == X_UNKNOWN ? got != X_NONE : got == expect || (expect == X_RUNTIME && got == X_SIZE); }

// One call: returns the exception code. fired: a fault was injected.
static void outcome(Inst* in, Slot* sl, int exc, const std::string& what, bool fired, bool lfired) {
    int want = in->expect(sl);
    if (exc != X_NONE) R->exceptions++;
    if (exc == X_NONE) {
        if (want != X_NONE && !lfired) violation("not-rejected", "%s: the call returned, but must throw %s", in->name, exc_name(want));
        if (fired || lfired) R->fail_completed++;
        if (want == X_NONE) in->ok(sl);
        return;
    }
    if (fired || lfired) { R->fail_reported++; in->bad(sl); return; }
    if (want == X_NONE) violation("unexpected-exception", "%s: unexpected %s: %s", in->name, exc_name(exc), what.c_str());
    if (!accepts(want, exc)) violation("wrong-exception", "%s: threw %s (%s), expected %s", in->name, exc_name(exc), what.c_str(), exc_name(want));
    in->ok(sl);
}
static FaultReport call(Inst* in, Slot* sl, const FaultPlan& fp) {
    int exc = X_NONE; std::string what;
    arm(fp);
    set_active(true);
    try { in->run(sl); } catch (...) { set_active(false); exc = classify_current(&what); set_active(true); }
    set_active(false);
    FaultReport fr = disarm();
    outcome(in, sl, exc, what, fr.fired > 0, fr.lapack_fired > 0);
    return fr;
}
static void drop(Slot* s) { set_active(true); delete s; set_active(false); }

static void do_step(World* w, int client, const Step& st, int k) {
    if (st.renew) { Par p = w->s->objs[st.obj].p; p.seed = mix(p.seed, st.seed) >> 8; delete w->inst[st.obj]; w->inst[st.obj] = nullptr; Rng rg(p.seed); w->inst[st.obj] = registry()[w->s->objs[st.obj].op].make(p, rg); }
    Inst* in = w->inst[st.obj]; bool owned = registry()[w->s->objs[st.obj].op].use == OWNED;
    note_step(k); R->steps_run++;
    if (st.par > 1 && registry()[w->s->objs[st.obj].op].use == SHARED) {
        ParArg pa; memset(&pa, 0, sizeof pa); pa.in = in; pa.n = st.par;
        Slot* sl[MAXTEAM]; for (int i = 0; i < st.par; i++) { Rng r(mix(st.seed, 100 + i)); sl[i] = in->slot(r, client); }
        pa.slots = sl;
        arm(FaultPlan{}); set_active(true); GOMP_parallel(par_fn, &pa, (unsigned)st.par, 0); set_active(false); disarm();
        for (int i = 0; i < st.par; i++) { if (pa.ran[i]) outcome(in, sl[i], pa.exc[i], pa.what[i], false, false); drop(sl[i]); }
        return;
    }
    if (st.fail && !owned) {
        Rng r0(st.seed); Slot* a = in->slot(r0, client); FaultReport fr = call(in, a, FaultPlan{}); drop(a);
        u64 n = fr.allocs;
        if (n) {
            FaultPlan fp; fp.alloc_nth = 1 + (long)(n * (u64)(st.fail - 1) / 1000); if (fp.alloc_nth > (long)n) fp.alloc_nth = (long)n;
            Rng r1(st.seed); Slot* b = in->slot(r1, client); call(in, b, fp); drop(b);
            Rng r2(st.seed); Slot* c = in->slot(r2, client); call(in, c, FaultPlan{}); drop(c);
        }
        return;
    }
    u64 live[16]; int rep = st.rep < 1 ? 1 : st.rep > 12 ? 12 : st.rep;
    for (int i = 0; i < rep; i++) {
        Rng r(st.seed); Slot* a = in->slot(r, client);
        FaultPlan fp;
        if (st.fail && owned) fp.alloc_nth = 1 + (st.fail - 1) % 6;
        if (st.lap) { fp.lapack_nth = 1; fp.lapack_code = st.lap; }
        call(in, a, fp);
        drop(a);
        live[i] = live_blocks();
    }
    if (rep >= 4 && w->s->clients == 1 && !owned) {
        bool grow = true; for (int i = 2; i < rep; i++) if (live[i] <= live[i - 1]) grow = false;
        if (grow) violation("leak", "%s: %llu more live allocation(s) after every repetition of the same call", in->name, (unsigned long long)(live[rep - 1] - live[rep - 2]));
    }
}
static void client_main(void* a, int i) {
    World* w = (World*)a;
    for (size_t k = 0; k < w->s->steps.size(); k++) if (w->s->steps[k].client == i) do_step(w, i, w->s->steps[k], (int)k);
}
[[noreturn]] static void run_child(const Script& s, Result* r) {
    Cfg c = s.c; c.devs = s.devs.empty() ? nullptr : s.devs.data(); c.ndevs = s.devs.size();
    begin_run(c, r);
    bool faults = false; for (auto& t : s.steps) if (t.fail || t.lap) faults = true;
    accept_terminate(faults);
    World* w = new World; w->s = &s;
    for (auto& o : s.objs) { Rng rg(o.p.seed); w->inst.push_back(registry()[o.op].make(o.p, rg)); }
    run_clients(s.clients, client_main, w);
    finish_run();
}
static Result* shared_result() { void* p = mmap(nullptr, sizeof(Result), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (p == MAP_FAILED) { perror("mmap"); _exit(3); } return (Result*)p; }
static void run_forked(const Script& s, Result* r) {
    memset(r, 0, offsetof(Result, devs)); r->ndev = 0; r->dev_overflow = 0;
    fflush(nullptr);
    pid_t p = fork();
    if (p < 0) { perror("fork"); _exit(3); }
    if (p == 0) {
        itimerval it{}; it.it_value.tv_sec = 40; setitimer(ITIMER_PROF, &it, nullptr);
        run_child(s, r);
    }
    int st; while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    if (!r->done && !r->violation) {
        int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
        if (code == 4) { r->done = 1; snprintf(r->cls, sizeof r->cls, "sim-limit"); snprintf(r->msg, sizeof r->msg, "arena exhausted"); return; }
        r->violation = 1; snprintf(r->cls, sizeof r->cls, "crash");
        if (WIFSIGNALED(st)) snprintf(r->msg, sizeof r->msg, "the process died from signal %d", WTERMSIG(st)); else snprintf(r->msg, sizeof r->msg, "the process ended with status %d", code);
    }
    if (r->violation && !strcmp(r->cls, "sim-limit")) { r->violation = 0; r->cls[0] = 0; }
}
// One evaluation of a script: one run, or several runs that must agree.
static void evaluate(const Script& s, Result* r) {
    g_prop = s.prop;
    run_forked(s, r);
    if (!s.diff || r->violation || r->terminated) return;
    u64 h0 = r->state_hash; static Result* r2 = nullptr; if (!r2) r2 = shared_result();
    for (int k = 0; k < 2; k++) {
        Script q = s; q.c.fill = k == 0 ? (s.c.fill == F_ZERO ? F_NAN : F_ZERO) : (s.c.fill == F_RANDOM ? F_STALE : F_RANDOM); if (k == 1) q.c.reuse = !s.c.reuse;
        run_forked(q, r2);
        if (r2->violation) { u64 t = r->ticks; memcpy((void*)r, r2, sizeof(Result)); r->ticks += t; char m[1400]; snprintf(m, sizeof m, "%.1300s [with fill %d, reuse %d]", r2->msg, q.c.fill, q.c.reuse); snprintf(r->msg, sizeof r->msg, "%s", m); return; }
        r->ticks += r2->ticks; r->steps_run += r2->steps_run; r->verified += r2->verified;
        if (!r2->terminated && r2->state_hash != h0) { r->violation = 1; r->step = -1; snprintf(r->cls, sizeof r->cls, "leftover-memory"); snprintf(r->msg, sizeof r->msg, "results differ between runs that differ only in the content of newly allocated memory (fill %d vs %d)", s.c.fill, q.c.fill); return; }
    }
}

// --- generating a script ------------------------------------------------------------
static int gen_vec(Rng& r) { u64 c = r.below(100); if (c < 38) return (int)r.range(13, 19); if (c < 55) return (int)r.range(0, 6); if (c < 85) return (int)r.range(7, 80); if (c < 96) return (int)r.range(81, 300); if (c < 99) return (int)r.range(301, 1100); if (!r.one_in(4)) return (int)r.range(1101, 5000);
    static const int far[] = {16384, 32768, 65536, 65536, 100000, 131072}; return r.one_in(16) ? (1 << 20) + (int)r.range(-3, 20) : far[r.below(6)] + (int)r.range(-4, 20); }
static int gen_mat(Rng& r) { u64 c = r.below(100); if (c < 45) return (int)r.range(1, 6); if (c < 80) return (int)r.range(7, 18); if (c < 96) return (int)r.range(19, 28); if (c < 98) return (int)r.range(29, 48); if (!r.one_in(8)) return (int)r.range(49, 140); return (int)(r.one_in(2) ? r.range(253, 270) : r.range(509, 530)); }
static int gen_ord(Rng& r) { u64 c = r.below(100); if (c < 50) return (int)r.range(1, 6); if (c < 89) return (int)r.range(7, 20); if (c < 99) return (int)r.range(21, 48); return r.one_in(30) ? (int)r.range(141, 280) : (int)r.range(49, 140); }
static int gen_big(Rng& r) { switch (r.below(12)) { case 0: return (int)r.range(2, 60); case 1: case 2: return (int)r.range(250, 262); case 3: return (int)r.range(508, 530); case 4: return r.one_in(2) ? (int)r.range(720, 735) : (int)r.range(1020, 1030); default: return (int)r.range(359, 375); } }
static int gen_dim(Rng& r, Dim d) { switch (d) { case D_VEC: return gen_vec(r); case D_MAT: return gen_mat(r); case D_ORD: return gen_ord(r); case D_SMALL: return (int)r.range(1, 8); case D_BIG: return gen_big(r); case D_LONG: return r.one_in(3) ? (int)r.range(66000, 140000) : (1 << 16) + (int)r.range(-3, 90); default: return 1; } }

static void gen_policy(Rng& r, Cfg& c, int clients) {
    u64 p = r.below(100);
    (void)clients;
    if (p < 6) c.policy = P_NONE;
    else if (p < 46) { static const long ps[] = {2, 3, 5, 8, 16, 32, 64, 200}; c.policy = P_RANDOM; c.pparam = ps[r.below(8)]; }
    else if (p < 70) { static const long hz[] = {60, 300, 1500, 8000, 40000}; c.policy = P_PCT; c.pparam = r.range(1, 6); c.pparam2 = hz[r.below(5)]; }
    else if (p < 82) { static const long q[] = {1, 1, 2, 3, 7, 20, 100}; c.policy = P_RR; c.pparam = q[r.below(7)]; }
    else { static const long hz[] = {20, 100, 600, 4000}; c.policy = P_STALL; c.pparam = (long)r.below((u64)hz[r.below(4)]); c.pparam2 = (long)r.below(r.one_in(2) ? 3 : 8); }
}
static Script generate(int prop, u64 seed) {
    Rng r(mix(seed, (u64)prop * 7919 + 5));
    Script s; s.prop = prop; s.c.seed = mix(seed, 77);
    u64 bit = 1ull << prop;
    std::vector<int> ops; std::vector<int> wts; int tot = 0;
    for (size_t i = 0; i < registry().size(); i++) if (registry()[i].props & bit) { ops.push_back((int)i); wts.push_back(registry()[i].weight); tot += registry()[i].weight; }
    if (ops.empty()) return s;
    auto pick_op = [&](int use) { for (int t = 0; t < 50; t++) { int x = (int)r.below(tot); size_t i = 0; while (x >= wts[i]) x -= wts[i++]; Dim d0 = registry()[ops[i]].dim[0]; if ((d0 == D_LONG && !r.one_in(12)) || (d0 == D_BIG && !r.one_in(3))) continue; if (use < 0 || registry()[ops[i]].use == use) return ops[i]; } return -1; };
    // environment
    { u64 f = r.below(10); s.c.fill = f < 5 ? F_NAN : f < 7 ? F_RANDOM : f < 9 ? F_STALE : F_ZERO; }
    s.c.reuse = r.below(2); s.c.blas_sim = r.below(3) != 0;
    { u64 l = r.below(10); s.c.max_levels = l < 5 ? 1 : l < 8 ? 2 : 3; }
    s.c.budget = 80000000;
    if (prop >= 17) { u64 d = r.below(8); s.c.device = d == 0 ? 0 : d < 4 ? 1 : 2; }
    bool many = prop == 2 || prop == 3, seq = prop == 6 || prop == 10;
    u64 cl = r.below(100);
    if (many) s.clients = cl < 55 ? 2 : cl < 80 ? 3 : cl < 93 ? 4 : 5;
    else if (seq) s.clients = cl < 70 ? 1 : 2;
    else s.clients = cl < 45 ? 1 : cl < 80 ? 2 : 3;
    if (many && cl >= 98) s.clients = 8;
    if (prop == 3 && r.one_in(3)) s.c.max_levels = 2 + (int)r.below(2);
    if (prop == 12 && s.clients == 1 && r.one_in(2)) s.clients = 2;
    gen_policy(r, s.c, s.clients);
    if (s.clients == 1 && r.one_in(40)) { s.c.max_levels = 1; s.c.team_mode = (int)(r.one_in(2) ? r.range(21, 40) : r.range(60, 70)); }      // machines with many cores
    // objects: few, so that clients meet on them
    long work = 0;                                            // elements of the largest object: bounds the history
    auto add_obj = [&](int use) {
        if (!s.objs.empty() && r.one_in(3)) { Obj o = s.objs[r.below(s.objs.size())]; if (use < 0 || registry()[o.op].use == use) { o.p.seed = r.next() >> 8; s.objs.push_back(o); return (int)s.objs.size() - 1; } }      // same shape, other content
        int op = pick_op(use); if (op < 0) return -1; Obj o; o.op = op; auto& d = registry()[op]; o.p.n = gen_dim(r, d.dim[0]); o.p.m = gen_dim(r, d.dim[1]); o.p.k = gen_dim(r, d.dim[2]);
        if (d.dim[2] == D_MAT) { long cap = r.one_in(25) ? 400000 : 9000; while ((long)o.p.n * o.p.m * o.p.k > cap) { int* q[3] = {&o.p.n, &o.p.m, &o.p.k}; int i = (int)r.below(3); if (*q[i] > 1) *q[i] /= 2; } }
        else if (d.dim[1] == D_MAT) {
            if ((long)o.p.n * o.p.m > 40000) (r.one_in(2) ? o.p.n : o.p.m) /= 8;
            if (r.one_in(250)) { static const int sh[][2] = {{65536, 1}, {32768, 2}, {16384, 4}, {256, 256}, {364, 362}, {1100, 70}, {100000, 1}, {22000, 3}}; auto& q = sh[r.below(8)]; o.p.n = q[0] + (int)r.range(-3, 9); o.p.m = q[1] > 4 ? q[1] + (int)r.range(-2, 5) : q[1]; if (r.one_in(2)) std::swap(o.p.n, o.p.m); }      // more than 65536 elements
        }
        else if (d.dim[1] == D_ORD) { if (o.p.n > 48) o.p.n = 48; if (o.p.m > 48) o.p.m = 48; }
        else if (d.dim[1] != D_NONE) { if (o.p.n > 5000) o.p.n = 5000; }
        work = std::max(work, d.dim[0] == D_ORD ? (long)o.p.n * o.p.n * o.p.n / 20 : d.dim[0] == D_BIG ? (long)o.p.n * o.p.n : (long)o.p.n * o.p.m * o.p.k);
        o.p.seed = r.next() >> 8; s.objs.push_back(o); return (int)s.objs.size() - 1; };
    int nsteps = (int)(r.one_in(4) ? r.range(1, 2) : r.range(1, 5));
    std::vector<int> sharable; std::vector<std::vector<int>> own(s.clients);
    if (prop == 2) { int k = r.one_in(3) ? 2 : 1; for (int i = 0; i < k; i++) { int o = add_obj(SHARED); if (o >= 0) sharable.push_back(o); } }
    else if (prop == 3) { for (int c = 0; c < s.clients; c++) { int k = r.one_in(3) ? 2 : 1; for (int i = 0; i < k; i++) { int o = add_obj(-1); if (o >= 0) own[c].push_back(o); } } }
    else {
        int k = r.one_in(2) ? 1 : (int)r.range(1, 3);
        for (int i = 0; i < k; i++) {
            int o = add_obj(-1); if (o < 0) continue;
            if (registry()[s.objs[o].op].use == OWNED) own[r.below(s.clients)].push_back(o); else sharable.push_back(o);
        }
        for (int c = 0; c < s.clients; c++) if (own[c].empty() && sharable.empty()) { int o = add_obj(-1); if (o < 0) continue; if (registry()[s.objs[o].op].use == OWNED) own[c].push_back(o); else sharable.push_back(o); }
    }
    for (int c = 0; c < s.clients; c++) {
        int my = nsteps; bool has_owned = false;
        for (int o : own[c]) if (registry()[s.objs[o].op].use == OWNED) has_owned = true;
        if (has_owned) my = (int)(r.one_in(12) ? r.range(17, 40) : r.range(3, 16));          // state machines: a history
        if (work > 20000 && my > 2) my = 2;
        if (work > 500000) my = 1;
        for (int i = 0; i < my; i++) {
            Step t{}; t.client = c; t.rep = 1;
            size_t tot2 = sharable.size() + own[c].size(); if (!tot2) break;
            size_t x = r.below(tot2);
            t.obj = x < sharable.size() ? sharable[x] : own[c][x - sharable.size()];
            t.seed = r.next() >> 8;
            int use = registry()[s.objs[t.obj].op].use;
            if (use == SHARED && (prop == 2 || prop == 3) && r.one_in(5)) t.par = (int)r.range(2, 4);
            else if (use == SHARED && prop != 6 && prop != 10 && r.one_in(16)) t.par = (int)r.range(2, 4);
            if (prop == 6 && r.below(10) < 8) t.fail = (int)r.range(1, 1000);
            if ((prop == 5 || prop == 4) && r.one_in(prop == 5 ? 3 : 12)) { static const int codes[] = {-1010, -1011, -1010}; t.lap = codes[r.below(3)]; }
            if (prop == 6 && r.one_in(6)) { t.fail = 0; t.lap = -1010; }
            if (prop == 10 && s.clients == 1 && use != OWNED && r.one_in(3)) t.rep = (int)r.range(4, 6);
            if ((s.clients == 1 || (own[c].size() && x >= sharable.size())) && i > 0 && r.one_in(has_owned ? 12 : 6)) t.renew = 1;
            if (work > 20000) { t.par = 0; if (t.rep > 1) t.rep = 4; }
            s.steps.push_back(t);
        }
    }
    if (prop == 10) s.diff = r.below(3) != 0;
    if (work > 20000) {        // long calls: only policies that switch rarely, and room for them
        s.c.budget = 250000000;
        switch (r.below(5)) { case 0: s.c.policy = P_NONE; break; case 1: s.c.policy = P_RANDOM; s.c.pparam = 3000; break; case 2: s.c.policy = P_RR; s.c.pparam = 2000; break; case 3: s.c.policy = P_STALL; s.c.pparam = (long)r.below(40000); s.c.pparam2 = (long)r.below(3); break; default: s.c.policy = P_PCT; s.c.pparam = r.range(1, 6); s.c.pparam2 = 200000; }
    }
    return s;
}

// --- minimisation ---------------------------------------------------------------------
static std::string key_of(const Result* r) { return r->cls; }
static Result* mr = nullptr; static double mend = 0; static int mruns = 0;
static bool fails(Script& s, const std::string& key) {     // keeps s (with a schedule that fails)
    Script q = s; int tries = s.c.policy == P_EXPLICIT || s.clients == 1 ? 2 : 5;
    for (int k = 0; k < tries; k++) {
        if (now() > mend) return false;
        q = s; if (k) { if (s.c.policy == P_EXPLICIT) break; q.c.seed = mix(s.c.seed, 1000 + k); }
        mruns++;
        evaluate(q, mr);
        if (mr->violation && key_of(mr) == key) { s = q; return true; }
    }
    return false;
}
static void compact(Script& s) {
    std::vector<int> use(s.objs.size(), 0), map(s.objs.size(), -1); for (auto& t : s.steps) use[t.obj] = 1;
    std::vector<Obj> o; for (size_t i = 0; i < s.objs.size(); i++) if (use[i]) { map[i] = (int)o.size(); o.push_back(s.objs[i]); }
    s.objs = o; for (auto& t : s.steps) t.obj = map[t.obj];
    std::map<int, int> cm; for (auto& t : s.steps) if (!cm.count(t.client)) { int k = (int)cm.size(); cm[t.client] = k; }
    for (auto& t : s.steps) t.client = cm[t.client];
    if (!cm.empty()) s.clients = (int)cm.size();
}
static void minimise(Script& s, const std::string& key, double wall) {
    mend = now() + wall; mruns = 0; if (!mr) mr = shared_result();
    auto attempt = [&](Script q) { if (fails(q, key)) { s = q; return true; } return false; };
    // steps (one pass of halves, then singles)
    for (size_t chunk = s.steps.size() / 2; chunk >= 1; chunk /= 2) for (size_t i = 0; i < s.steps.size() && s.steps.size() > 1 && now() < mend;) {
        Script q = s; q.steps.erase(q.steps.begin() + (long)i, q.steps.begin() + (long)std::min(i + chunk, q.steps.size()));
        if (q.steps.empty() || !attempt(q)) i += chunk;
    }
    { Script q = s; compact(q); attempt(q); }
    for (size_t i = 0; i < s.steps.size(); i++) {
        for (int v : {0, 2}) if (s.steps[i].par > v) { Script q = s; q.steps[i].par = v; if (attempt(q)) break; }
        if (s.steps[i].rep > 1) { Script q = s; q.steps[i].rep = 1; if (!attempt(q) && s.steps[i].rep > 4) { q = s; q.steps[i].rep = 4; attempt(q); } }
        if (s.steps[i].fail) { Script q = s; q.steps[i].fail = 0; attempt(q); }
        if (s.steps[i].renew) { Script q = s; q.steps[i].renew = 0; attempt(q); }
        if (s.steps[i].lap) { Script q = s; q.steps[i].lap = 0; attempt(q); }
    }
    for (size_t i = 0; i < s.objs.size(); i++) for (int Par::* f : {&Par::n, &Par::m, &Par::k}) {
        int lo = 0, cur = s.objs[i].p.*f;
        for (int v : {1, 2, 3, cur / 4, cur / 2, cur - 4, cur - 1}) if (v > lo && v < s.objs[i].p.*f && now() < mend) { Script q = s; q.objs[i].p.*f = v; if (attempt(q)) break; lo = v; }
    }
    if (s.c.policy != P_EXPLICIT && now() < mend) { Script q = s; q.c.policy = P_NONE; attempt(q); }
    if (s.c.max_levels > 1) { Script q = s; q.c.max_levels = 1; attempt(q); }
    for (int d : {0, 1}) if (s.c.device > d) { Script q = s; q.c.device = d; if (attempt(q)) break; }
    for (int t : {1, 2, 3}) if (s.c.team_mode != t && now() < mend) { Script q = s; q.c.team_mode = t; if (attempt(q)) break; }
    if (s.c.blas_sim) { Script q = s; q.c.blas_sim = 0; attempt(q); }
    // explicit schedule
    evaluate(s, mr);
    if (!mr->violation || key_of(mr) != key || mr->dev_overflow || s.diff) return;
    Script q = s; q.devs.assign(mr->devs, mr->devs + mr->ndev); q.c.policy = P_EXPLICIT;
    std::sort(q.devs.begin(), q.devs.end(), [](const Dev& a, const Dev& b) { return a.task != b.task ? a.task < b.task : a.lev < b.lev; });
    if (!attempt(q)) return;
    for (size_t chunk = std::max<size_t>(1, s.devs.size() / 2);; chunk /= 2) {
        for (size_t i = 0; i < s.devs.size() && now() < mend;) { Script c = s; c.devs.erase(c.devs.begin() + (long)i, c.devs.begin() + (long)std::min(i + chunk, c.devs.size())); if (!attempt(c)) i += chunk; }
        if (chunk <= 1 || now() > mend) break;
    }
}

// --- main -------------------------------------------------------------------------------
static const char* arg(int c, char** v, const char* k, const char* d) { for (int i = 1; i + 1 < c; i++) if (!strcmp(v[i], k)) return v[i + 1]; return d; }
static std::string esc(const char* s) { std::string o; for (; *s; s++) { if (*s == '"' || *s == '\\') o += '\\'; if ((unsigned char)*s < 32) { o += ' '; continue; } o += *s; } return o; }

int main(int argc, char** argv) {
    setenv("OPENBLAS_NUM_THREADS", "1", 1);
    init_process();
    std::sort(registry().begin(), registry().end(), [](const OpDef& a, const OpDef& b) { return strcmp(a.name, b.name) < 0; });
#ifdef HAVE_BLAS
    openblas_set_num_threads(1);
#endif
    variant = arg(argc, argv, "--variant", VARIANT_NAME);
    if (int cpu = atoi(arg(argc, argv, "--cpu", "-1")); cpu >= 0) {     // hand-offs between tasks are cheap on one core; only one task runs at a time anyway
        cpu_set_t have, want; CPU_ZERO(&want);
        if (!sched_getaffinity(0, sizeof have, &have)) { int n = CPU_COUNT(&have), k = n ? cpu % n : 0; for (int i = 0; i < CPU_SETSIZE; i++) if (CPU_ISSET(i, &have) && k-- == 0) { CPU_SET(i, &want); sched_setaffinity(0, sizeof want, &want); break; } }
    }
    std::string mode = argc > 1 ? argv[1] : "";
    if (mode == "ops") { for (auto& o : registry()) printf("%s %llx\n", o.name, (unsigned long long)o.props); return 0; }
    if (mode == "replay") {
        Script s; if (argc < 3 || !from_text(argv[2], s)) { fprintf(stderr, "cannot read the replay file\n"); return 2; }
        Result* r = shared_result(); evaluate(s, r);
        if (r->violation) { printf("REPRODUCED class=%s step=%d ticks=%llu hash=%016llx\n%s\n", r->cls, r->step, (unsigned long long)r->ticks, (unsigned long long)r->hash, r->msg); return 1; }
        printf("CLEAN ticks=%llu hash=%016llx\n", (unsigned long long)r->ticks, (unsigned long long)r->hash); return 0;
    }
    int prop = atoi(arg(argc, argv, "--prop", "1")); u64 seed = strtoull(arg(argc, argv, "--seed", "1"), nullptr, 10);
    u64 start = strtoull(arg(argc, argv, "--start", "0"), nullptr, 10), stride = strtoull(arg(argc, argv, "--stride", "1"), nullptr, 10), count = strtoull(arg(argc, argv, "--count", "100"), nullptr, 10);
    double wall = atof(arg(argc, argv, "--wall", "1e9")); const char* out = arg(argc, argv, "--out", ""); const char* hashes = arg(argc, argv, "--hashes", "");
    int maxv = atoi(arg(argc, argv, "--maxv", "1")); double minwall = atof(arg(argc, argv, "--minwall", "25"));
    const char* only = arg(argc, argv, "--only", "");
    Result* r = shared_result(); Result* g = shared_result();
    double t0 = now(); FILE* hf = *hashes ? fopen(hashes, "wb") : nullptr;
    if (mode == "show") { Script s = generate(prop, mix(seed, start)); fputs(to_text(s, "-", "-").c_str(), stdout); return 0; }
    if (mode == "trace") {       // one line per run: for determinism comparisons
        for (u64 i = start, n = 0; n < count; i += stride, n++) { Script s = generate(prop, mix(seed, i)); evaluate(s, r); printf("%llu %016llx %016llx %llu %s\n", (unsigned long long)i, (unsigned long long)r->hash, (unsigned long long)r->state_hash, (unsigned long long)r->ticks, r->violation ? r->cls : "ok"); }
        return 0;
    }
    if (mode != "search") { fprintf(stderr, "usage: search|replay|show|trace|ops\n"); return 2; }
    u64 runs = 0; int nviol = 0; std::map<std::string, u64> tot; std::map<std::string, u64> opcount; u64 policies[P_COUNT] = {}; bool unstable = false; std::string vio;
    for (u64 i = start; runs < count && now() - t0 < wall; i += stride) {
        Script s = generate(prop, mix(seed, i)); if (s.steps.empty()) { runs++; continue; }
        if (*only) { bool has = false; for (auto& o : s.objs) if (strstr(registry()[o.op].name, only)) has = true; if (!has) continue; }
        double r0 = now();
        evaluate(s, r); runs++; policies[s.c.policy]++;
        if (getenv("SIM_SLOW") && now() - r0 > 0.3) fprintf(stderr, "slow %llu %.2fs ticks=%llu %s\n", (unsigned long long)i, now() - r0, (unsigned long long)r->ticks, s.objs.empty() ? "" : registry()[s.objs[0].op].name);
        for (auto& o : s.objs) opcount[registry()[o.op].name]++;
        tot["ticks"] += r->ticks; tot["steps"] += r->steps_run; tot["switches"] += r->switches; tot["blocks"] += r->blocks; tot["teams"] += r->teams; tot["team_threads"] += r->team_threads; tot["nested_regions"] += r->nested_regions; tot["target_regions"] += r->target_regions; tot["device_teams"] += r->device_teams; tot["device_maps"] += r->device_maps;
        tot["alloc_failures_injected"] += r->alloc_faults; tot["lapack_failures_injected"] += r->lapack_faults; tot["stalled_threads"] += r->stalls; tot["blas_real_calls"] += r->blas_real; tot["blas_simulated_calls"] += r->blas_simulated; tot["lapack_calls"] += r->lapack_calls; tot["dirty_bytes"] += r->dirty_bytes;
        tot["exceptions"] += r->exceptions; tot["failed_calls_reported"] += r->fail_reported; tot["failed_calls_completed"] += r->fail_completed; tot["accepted_terminations"] += r->terminated; tot["race_checks"] += r->races_checked; tot["bounds_checks"] += r->oob_checked; tot["values_judged"] += r->verified; tot["allocations"] += r->allocs; tot["schedule_deviations"] += r->ndev;
        if (!r->violation && !strcmp(r->cls, "sim-limit")) tot["over_limit"]++;
        if (r->ticks > tot["max_ticks_in_a_run"]) tot["max_ticks_in_a_run"] = r->ticks;
        if (r->terminated) tot["runs_ended_by_terminate"]++;
        tot[s.c.fill == F_NAN ? "runs_memory_nan" : s.c.fill == F_RANDOM ? "runs_memory_random" : s.c.fill == F_STALE ? "runs_memory_stale" : "runs_memory_zero"]++; if (s.c.reuse) tot["runs_memory_reused_at_once"]++; if (s.clients > 1) tot["runs_several_clients"]++; if (s.c.device == 1) tot["runs_device_shared_memory"]++; if (s.c.device == 2) tot["runs_device_own_memory"]++;
        if (hf) { u64 h[4] = {mix(r->sched_hash, r->ticks), r->hash, r->switches, r->alloc_faults + r->lapack_faults + r->stalls}; fwrite(h, 8, 4, hf); }
        if (!r->violation) continue;
        // gate: the same seed must do the same thing again
        evaluate(s, g);
        std::string key = key_of(r); bool hang = key == "hang";
        if (!g->violation || key_of(g) != key || (!hang && (g->hash != r->hash || g->ticks != r->ticks))) { fprintf(stderr, "UNSTABLE run %llu prop %d: %s (%s) vs %s (%s)\n", (unsigned long long)i, prop, r->cls, r->msg, g->violation ? g->cls : "clean", g->msg); unstable = true; continue; }
        Script q = s; if (!hang) minimise(q, key, minwall);
        evaluate(q, g);
        if (!g->violation) { q = s; evaluate(q, g); }
        char path[600]; snprintf(path, sizeof path, "%s.%d.replay", *out ? out : "/tmp/sim", nviol);
        std::string txt = to_text(q, g->cls, g->msg); txt = "# seed " + std::to_string(seed) + " run " + std::to_string(i) + " (before minimisation: " + std::to_string(s.steps.size()) + " steps, " + std::to_string(s.clients) + " clients; after: " + std::to_string(q.steps.size()) + " steps, " + std::to_string(q.clients) + " clients, " + std::to_string(q.devs.size()) + " switches)\n" + txt;
        if (FILE* f = fopen(path, "w")) { fputs(txt.c_str(), f); fclose(f); }
        vio += std::string(vio.empty() ? "" : ",") + "{\"class\":\"" + g->cls + "\",\"msg\":\"" + esc(g->msg) + "\",\"replay\":\"" + path + "\",\"run\":" + std::to_string(i) + "}";
        if (++nviol >= maxv) break;
    }
    if (hf) fclose(hf);
    printf("{\"runs\":%llu,\"wall\":%.2f,\"unstable\":%s,\"violations\":[%s],\"totals\":{", (unsigned long long)runs, now() - t0, unstable ? "true" : "false", vio.c_str());
    bool first = true; for (auto& [k, v] : tot) { printf("%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
    printf("},\"ops\":{"); first = true; for (auto& [k, v] : opcount) { printf("%s\"%s\":%llu", first ? "" : ",", k.c_str(), (unsigned long long)v); first = false; }
    printf("},\"policies\":[%llu,%llu,%llu,%llu,%llu]}\n", (unsigned long long)policies[0], (unsigned long long)policies[1], (unsigned long long)policies[2], (unsigned long long)policies[3], (unsigned long long)policies[4]);
    return nviol ? 1 : unstable ? 2 : 0;
}
