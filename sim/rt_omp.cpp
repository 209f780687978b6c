// OpenMP runtime under the simulator: teams are simulator tasks, team sizes,
// chunk boundaries and all interleavings are chosen by the seed.
#include "rt_int.hpp"
#include <cstdlib>
#include <cstring>
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default"), used))

namespace sim {
struct WS { bool init = false; bool ull = false, up = true; u64 next = 0, end = 0, incr = 1, chunk = 1; int kind = 0; int nsec = 0; void* copy = nullptr; bool copy_ready = false; bool ordered = false; u64 tickets = 0, serving = 0; u32 ncounts = 0; long counts[8]; long* posted = nullptr; };
constexpr int NWS = 64;
struct TCtx { int pending = 0; bool made = false; };                       // an explicit or implicit task and its unfinished children
struct TGroup { int pending = 0; TGroup* outer; };
struct DTask { void (*fn)(void*); void* data; DTask* nx; TCtx* parent; TGroup* group; u32 vc[MAXV]; };
struct Team {
    Team* outer; int outer_tnum; u32 outer_ws; u64 outer_ticket; TCtx* outer_ctx; void* outer_group; int n; int level, active_level; int arrived = 0; u64 gen = 0; int done = 0; u32 bvc[MAXV]; Task* member[MAXTEAM];
    WS ws[NWS]; u32 wsbase = 0; DTask* dq = nullptr; DTask* dqtail = nullptr; bool cancelled = false;
};
}
static Team serial_team_proto;
static Team* team_freelist = nullptr;
static Team* team_new() {
    Team* t = team_freelist; if (t) team_freelist = t->outer; else t = (Team*)rt_alloc_raw(sizeof(Team));
    new (t) Team(); memset(t->bvc, 0, sizeof t->bvc); return t;
}
static void team_free(Team* t) { t->outer = team_freelist; team_freelist = t; }
static bool sim_on() { return self && in_run() && (self->active); }

// runs one explicit task in the calling thread
static void run_explicit(void (*fn)(void*), void* arg, TGroup* g) {
    Task* t = self; if (!t) { fn(arg); return; }
    TCtx* oc = t->tctx; void* og = t->tgroup; TCtx* mine = (TCtx*)rt_alloc_raw(sizeof(TCtx)); *mine = TCtx(); mine->made = true; t->tctx = mine; t->tgroup = g;
    fn(arg);
    t->tctx = oc; t->tgroup = og;
}
static TCtx* my_ctx() { Task* t = self; if (!t->tctx) { t->tctx = (TCtx*)rt_alloc_raw(sizeof(TCtx)); *t->tctx = TCtx(); } return t->tctx; }
// runs queued tasks: all, or the children of one task, or the members of one group
static void run_queued(Team* tm, TCtx* of, TGroup* in) {
    Task* t = self;
    for (;;) {
        DTask *prev = nullptr, *d = tm->dq; while (d && ((of && d->parent != of) || (in && d->group != in))) { prev = d; d = d->nx; }
        if (!d) return;
        if (prev) prev->nx = d->nx; else tm->dq = d->nx;
        if (tm->dqtail == d) tm->dqtail = prev;
        for (int i = 0; i < MAXV; i++) if (d->vc[i] > t->vc[i]) t->vc[i] = d->vc[i];
        tick_vc(t);
        run_explicit(d->fn, d->data, d->group);
        release(d->parent); if (--d->parent->pending == 0) wake_all(d->parent);
        if (d->group) { release(d->group); if (--d->group->pending == 0) wake_all(d->group); }
        release(&tm->dq);
    }
}
static void run_deferred(Team* tm) { run_queued(tm, nullptr, nullptr); acquire(&tm->dq); }
static void team_barrier(Team* tm) {
    Task* t = self;
    point(K_OMP, 2);
    run_deferred(tm);
    for (int i = 0; i < MAXV; i++) if (t->vc[i] > tm->bvc[i]) tm->bvc[i] = t->vc[i];
    tick_vc(t);
    u64 g = tm->gen;
    if (++tm->arrived == tm->n) { tm->arrived = 0; tm->gen++; wake_all(tm); }
    else while (tm->gen == g) block_on(tm);
    for (int i = 0; i < MAXV; i++) if (tm->bvc[i] > t->vc[i]) t->vc[i] = tm->bvc[i];
    point(K_OMP, 3);
}
static void worker_entry(Task* t) {
    Team* tm = t->team;
    point(K_OMP, 4);
    t->fn(t->fdata);
    point(K_OMP, 5);
    run_deferred(tm);
    for (int i = 0; i < MAXV; i++) if (t->vc[i] > tm->bvc[i]) tm->bvc[i] = t->vc[i];
    tm->done++; wake_all(&tm->done);
}
// The number of threads a program may ask for is an environment setting, fixed
// for a run; a team may get fewer (dynamic adjustment), never more.
static int icv_threads = 8;
namespace sim { void omp_begin_run() {
    static const int sz[] = {1, 2, 2, 3, 3, 4, 4, 5, 6, 7, 8, 8, 11, 16, 17, 20};
    icv_threads = cfg.team_mode > 0 ? (cfg.team_mode > MAXTEAM ? MAXTEAM : cfg.team_mode) : sz[choice(16)];
} }
static int choose_team(unsigned req) {
    Task* t = self;
    int lvl = t->team ? t->team->active_level : 0;
    if (lvl >= cfg.max_levels) return 1;
    if (t->league_n) return req ? (int)(req > 6 ? 6 : req) : 1 + (int)choice(5);
    int want = req > 0 ? (req > (unsigned)MAXTEAM ? MAXTEAM : (int)req) : t->nthreads_var > 0 ? t->nthreads_var : icv_threads;
    if (cfg.team_mode > 0) return want;
    if (lvl > 0 && want > 4) want = 1 + (int)choice(4);      // other regions use threads, too
    return choice(8) == 0 ? 1 + (int)choice((u64)want) : want;
}
static void run_parallel(void (*fn)(void*), void* data, unsigned req, const WS* ws, int league = 0) {
    Task* t = self;
    if (!sim_on()) {
        if (!t) { fn(data); return; }
        Team* tm = team_new(); tm->outer = t->team; tm->n = 1; tm->level = 1; Team* o = t->team; int on = t->tnum; u32 ow = t->wsidx;
        if (ws) { tm->ws[0] = *ws; } t->team = tm; t->tnum = 0; t->wsidx = 0; fn(data); t->team = o; t->tnum = on; t->wsidx = ow; team_free(tm); return;
    }
    int n = league ? league : choose_team(req);
    Team* tm = team_new();
    tm->outer = t->team; tm->outer_tnum = t->tnum; tm->outer_ws = t->wsidx; tm->outer_ticket = t->ticket; tm->outer_ctx = t->tctx; tm->outer_group = t->tgroup; tm->n = n;
    tm->level = (t->team ? t->team->level : 0) + 1; tm->active_level = (t->team ? t->team->active_level : 0) + (n > 1);
    if (ws) tm->ws[0] = *ws;
    R->teams++; R->team_threads += n; if (t->team && n > 1) R->nested_regions++;
    point(K_OMP, 1);
    int lv = t->team ? t->team->active_level & 3 : 0;      // a nested region needs other workers than the enclosing one
    if (league) lv = 6; else if (t->league_n) lv = 4 + (lv & 1);
    u32 mvc[MAXV]; memcpy(mvc, t->vc, sizeof mvc);
    for (int i = 1; i < n; i++) {
        if (!t->pool[lv][i]) t->pool[lv][i] = new_task();
        Task* w = t->pool[lv][i];
        w->entry = worker_entry; w->fn = fn; w->fdata = data; w->team = tm; w->tnum = i; w->wsidx = 0; w->ticket = ~0ull; w->tctx = nullptr; w->tgroup = nullptr; w->parent = t; w->active = true; w->opaque = 0; w->step = t->step; w->client = t->client; w->league_n = t->league_n; w->league_id = t->league_id;
        start_vc(w, mvc);
        w->state = READY; tm->member[i] = w;
    }
    tick_vc(t);
    t->team = tm; t->tnum = 0; t->wsidx = 0; t->ticket = ~0ull; t->tctx = nullptr; t->tgroup = nullptr;
    point(K_OMP, 6);
    fn(data);
    point(K_OMP, 7);
    run_deferred(tm);
    while (tm->done < n - 1) block_on(&tm->done);
    for (int i = 0; i < MAXV; i++) if (tm->bvc[i] > t->vc[i]) t->vc[i] = tm->bvc[i];
    run_deferred(tm);
    t->team = tm->outer; t->tnum = tm->outer_tnum; t->wsidx = tm->outer_ws; t->ticket = tm->outer_ticket; t->tctx = tm->outer_ctx; t->tgroup = tm->outer_group;
    team_free(tm);
    point(K_OMP, 8);
}
EXP void GOMP_parallel(void (*fn)(void*), void* data, unsigned n, unsigned) { run_parallel(fn, data, n, nullptr); }
EXP unsigned GOMP_parallel_reductions(void (*)(void*), void*, unsigned, unsigned) { violation("sim-limit", "simulator limit: reductions over tasks"); return 1; }
EXP void GOMP_parallel_start(void (*)(void*), void*, unsigned) { abort(); }

// --- work sharing -----------------------------------------------------------
enum { KS_STATIC, KS_DYNAMIC, KS_GUIDED, KS_RUNTIME };
static WS outside_ws;
static WS* my_ws() {      // the work-share construct the caller is currently in
    Task* t = self; if (!t || !t->team) return &outside_ws;
    return &t->team->ws[(t->wsidx ? t->wsidx - 1 : 0) % NWS];
}
static WS* enter_ws(bool* first) {
    Task* t = self;
    if (!t || !t->team) { outside_ws = WS(); *first = true; return &outside_ws; }
    u32 k = t->wsidx++;
    WS* w = &t->team->ws[k % NWS];
    *first = !w->init;
    if (*first) { WS* old = &t->team->ws[(k + NWS / 2) % NWS]; *old = WS(); }
    return w;
}
static void ws_setup(WS* w, bool ull, bool up, u64 s, u64 e, u64 inc, u64 chunk, int kind) {
    w->init = true; w->ull = ull; w->up = up; w->next = s; w->end = e; w->incr = inc; w->kind = kind; w->chunk = chunk ? chunk : 1;
    if (!ull) { w->up = (long)inc > 0; if (w->up ? (long)s > (long)e : (long)s < (long)e) w->end = s; }
    else if (up ? s > e : s < e) w->end = s;
    if (kind == KS_RUNTIME) { w->chunk = 1 + choice(7); }
}
// waits until the chunks before the caller's are finished
static void turn(WS* w) { while (w->serving != self->ticket) block_on(&w->serving); acquire(&w->serving); }
static bool ws_next(u64* is, u64* ie) {
    WS* w = my_ws();
    if (live()) point(K_OMP, 9);
    if (w->ordered && sim_on() && self->ticket != ~0ull) { turn(w); w->serving++; self->ticket = ~0ull; release(&w->serving); wake_all(&w->serving); }
    if (w->next == w->end) return false;
    u64 left = w->up ? (w->end - w->next) : (w->next - w->end);
    u64 step = w->up ? w->incr : (u64)(-(long)w->incr);
    u64 iters = (left + step - 1) / step;
    u64 c = w->chunk;
    int n = self && self->team ? self->team->n : 1;
    if (w->kind == KS_GUIDED) { u64 g = (iters + n - 1) / n; if (g > c) c = 1 + choice(g); if (c < w->chunk) c = w->chunk; }
    if (w->kind == KS_STATIC) { u64 g = (iters + n - 1) / n; if (w->chunk <= 1 && g > c) c = g; }
    if (c > iters) c = iters;
    *is = w->next;
    u64 adv = c * w->incr;
    u64 nx = w->next + adv;
    if (c == iters) nx = w->end;
    *ie = nx; w->next = nx;
    if (w->ordered && sim_on()) self->ticket = w->tickets++;
    if (R) R->chunks++;
    return true;
}
static bool doacross(unsigned nc, long* counts, long chunk, int kind, bool ull, u64* is, u64* ie) {
    bool f; WS* w = enter_ws(&f);
    if (f) { ws_setup(w, ull, true, 0, (u64)counts[0], 1, (u64)chunk, kind); w->ncounts = nc > 8 ? 8 : nc; memcpy(w->counts, counts, w->ncounts * sizeof(long)); w->posted = (long*)rt_alloc_raw((size_t)(counts[0] + 1) * sizeof(long)); memset(w->posted, 0, (size_t)(counts[0] + 1) * sizeof(long)); }
    return ws_next(is, ie);
}
static void post(long* at) {
    WS* w = my_ws(); if (!w->posted || !sim_on()) return;
    long in = 0; for (u32 i = 1; i < w->ncounts; i++) in = in * w->counts[i] + at[i];
    if (in + 1 > w->posted[at[0]]) w->posted[at[0]] = in + 1;
    release(&w->posted[at[0]]); wake_all(&w->posted[at[0]]); point(K_SYNC, 3);
}
static void await(long first, __builtin_va_list ap, u32) {
    WS* w = my_ws(); if (!w->posted || !sim_on()) return;
    long in = 0; for (u32 i = 1; i < w->ncounts; i++) in = in * w->counts[i] + __builtin_va_arg(ap, long);
    if (first < 0 || first >= w->counts[0]) return;
    point(K_SYNC, 4); while (w->posted[first] <= in) block_on(&w->posted[first]); acquire(&w->posted[first]);
}
EXP void GOMP_doacross_post(long* at) { post(at); }
EXP void GOMP_doacross_ull_post(unsigned long long* at) { post((long*)at); }
EXP void GOMP_doacross_wait(long first, ...) { __builtin_va_list ap; __builtin_va_start(ap, first); await(first, ap, 0); __builtin_va_end(ap); }
EXP void GOMP_doacross_ull_wait(unsigned long long first, ...) { __builtin_va_list ap; __builtin_va_start(ap, first); await((long)first, ap, 0); __builtin_va_end(ap); }
#define LOOPS(name, kind, CH, CHV) \
    EXP bool GOMP_loop_##name##_start(long s, long e, long inc CH, long* is, long* ie) { bool f; WS* w = enter_ws(&f); if (f) ws_setup(w, false, true, (u64)s, (u64)e, (u64)inc, CHV, kind); return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_##name##_next(long* is, long* ie) { return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ordered_##name##_start(long s, long e, long inc CH, long* is, long* ie) { bool f; WS* w = enter_ws(&f); if (f) ws_setup(w, false, true, (u64)s, (u64)e, (u64)inc, CHV, kind); w->ordered = true; return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ordered_##name##_next(long* is, long* ie) { return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ull_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc CH, unsigned long long* is, unsigned long long* ie) { bool f; WS* w = enter_ws(&f); if (f) ws_setup(w, true, up, s, e, inc, (u64)(CHV), kind); return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ull_ordered_##name##_start(bool up, unsigned long long s, unsigned long long e, unsigned long long inc CH, unsigned long long* is, unsigned long long* ie) { bool f; WS* w = enter_ws(&f); if (f) ws_setup(w, true, up, s, e, inc, (u64)(CHV), kind); w->ordered = true; return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ull_ordered_##name##_next(unsigned long long* is, unsigned long long* ie) { return ws_next((u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_doacross_##name##_start(unsigned nc, long* counts CH, long* is, long* ie) { return doacross(nc, counts, CHV, kind, false, (u64*)is, (u64*)ie); } \
    EXP bool GOMP_loop_ull_doacross_##name##_start(unsigned nc, long* counts CH, unsigned long long* is, unsigned long long* ie) { return doacross(nc, counts, CHV, kind, true, (u64*)is, (u64*)ie); } \
    EXP void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned n, long s, long e, long inc CH, unsigned) { WS w; ws_setup(&w, false, true, (u64)s, (u64)e, (u64)inc, CHV, kind); run_parallel(fn, d, n, &w); }
#define COMMA_CHUNK , long chunk
LOOPS(static, KS_STATIC, COMMA_CHUNK, chunk)
LOOPS(dynamic, KS_DYNAMIC, COMMA_CHUNK, chunk)
LOOPS(guided, KS_GUIDED, COMMA_CHUNK, chunk)
LOOPS(nonmonotonic_dynamic, KS_DYNAMIC, COMMA_CHUNK, chunk)
LOOPS(nonmonotonic_guided, KS_GUIDED, COMMA_CHUNK, chunk)
#define NOTHING
LOOPS(runtime, KS_RUNTIME, NOTHING, 0)
LOOPS(nonmonotonic_runtime, KS_RUNTIME, NOTHING, 0)
LOOPS(maybe_nonmonotonic_runtime, KS_RUNTIME, NOTHING, 0)
EXP void GOMP_loop_end() { Task* t = self; if (t && t->team && sim_on()) team_barrier(t->team); }
EXP bool GOMP_loop_end_cancel() { GOMP_loop_end(); return false; }
EXP void GOMP_loop_end_nowait() { if (live()) point(K_OMP, 10); }

EXP unsigned GOMP_sections_next() { WS* w = my_ws(); if (live()) point(K_OMP, 11); return (int)w->next <= w->nsec ? (unsigned)w->next++ : 0; }
EXP unsigned GOMP_sections_start(unsigned n) { bool f; WS* w = enter_ws(&f); if (f) { w->init = true; w->next = 1; w->nsec = (int)n; } return GOMP_sections_next(); }
// the general forms: memory shared by the team (scan, conditional lastprivate)
static void ws_mem(WS* w, bool first, uintptr_t* red, void** mem) {
    if (red && *red) violation("sim-limit", "simulator limit: reductions over tasks");
    if (!mem) return;
    size_t n = (size_t)*mem; if (first) { w->copy = rt_alloc_raw(n + 64); memset(w->copy, 0, n); }
    *mem = w->copy;
}
static int sched_kind(long s) { s &= 7; return s == 1 ? KS_STATIC : s == 2 ? KS_DYNAMIC : s == 3 ? KS_GUIDED : KS_RUNTIME; }
static bool general(bool ord, bool ull, bool up, u64 s, u64 e, u64 inc, long sched, u64 chunk, u64* is, u64* ie, uintptr_t* red, void** mem) {
    bool f; WS* w = enter_ws(&f); if (f) ws_setup(w, ull, up, s, e, inc, chunk, sched_kind(sched));
    ws_mem(w, f, red, mem); if (ord) w->ordered = true;
    return is ? ws_next(is, ie) : true;
}
EXP bool GOMP_loop_start(long s, long e, long inc, long sched, long chunk, long* is, long* ie, uintptr_t* red, void** mem) { return general(false, false, true, (u64)s, (u64)e, (u64)inc, sched, (u64)chunk, (u64*)is, (u64*)ie, red, mem); }
EXP bool GOMP_loop_ordered_start(long s, long e, long inc, long sched, long chunk, long* is, long* ie, uintptr_t* red, void** mem) { return general(true, false, true, (u64)s, (u64)e, (u64)inc, sched, (u64)chunk, (u64*)is, (u64*)ie, red, mem); }
EXP bool GOMP_loop_ull_start(bool up, u64 s, u64 e, u64 inc, long sched, u64 chunk, u64* is, u64* ie, uintptr_t* red, void** mem) { return general(false, true, up, s, e, inc, sched, chunk, is, ie, red, mem); }
EXP bool GOMP_loop_ull_ordered_start(bool up, u64 s, u64 e, u64 inc, long sched, u64 chunk, u64* is, u64* ie, uintptr_t* red, void** mem) { return general(true, true, up, s, e, inc, sched, chunk, is, ie, red, mem); }
EXP unsigned GOMP_sections2_start(unsigned n, uintptr_t* red, void** mem) { bool f; WS* w = enter_ws(&f); if (f) { w->init = true; w->next = 1; w->nsec = (int)n; } ws_mem(w, f, red, mem); return GOMP_sections_next(); }
EXP void GOMP_scope_start(uintptr_t* red) { bool f; WS* w = enter_ws(&f); w->init = true; ws_mem(w, f, red, nullptr); }
EXP void GOMP_workshare_task_reduction_unregister(bool) {}
EXP void GOMP_task_reduction_remap(size_t, size_t, void**) { violation("sim-limit", "simulator limit: reductions over tasks"); }
EXP bool GOMP_sections_end_cancel() { if (self && self->team && sim_on()) team_barrier(self->team); return false; }
EXP void GOMP_sections_end() { GOMP_loop_end(); }
EXP void GOMP_sections_end_nowait() { GOMP_loop_end_nowait(); }
EXP void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned n, unsigned count, unsigned) { WS w; w.init = true; w.next = 1; w.nsec = (int)count; run_parallel(fn, d, n, &w); }
EXP bool GOMP_single_start() { bool f; WS* w = enter_ws(&f); if (live()) point(K_OMP, 12); if (f || !w->init) { bool r = !w->init; w->init = true; return r; } return false; }
EXP void* GOMP_single_copy_start() {
    bool f; WS* w = enter_ws(&f); if (live()) point(K_OMP, 13);
    if (!w->init) { w->init = true; return nullptr; }
    while (!w->copy_ready) block_on(w);
    acquire(w); return w->copy;
}
EXP void GOMP_single_copy_end(void* d) { WS* w = my_ws(); w->copy = d; w->copy_ready = true; if (live()) { release(w); wake_all(w); } }

// --- mutual exclusion ---------------------------------------------------------
struct CLock { Task* owner = nullptr; int depth = 0; };
static CLock named[256]; static void* named_key[256];
static CLock g_crit, g_atomic;
static void lk(CLock* c) {
    if (!self || !sim_on()) return;
    point(K_SYNC, 0);
    while (c->owner) { if (c->owner == self) violation("deadlock", "a thread waits for a lock it already holds"); block_on(c); }
    c->owner = self; acquire(c);
}
static void unlk(CLock* c) { if (!self || !sim_on()) return; c->owner = nullptr; release(c); wake_all(c); point(K_SYNC, 1); }
static CLock* by_key(void* k) { for (int i = 0; i < 256; i++) { if (named_key[i] == k) return &named[i]; if (!named_key[i]) { named_key[i] = k; return &named[i]; } } return &g_crit; }
EXP void GOMP_critical_start() { lk(&g_crit); }
EXP void GOMP_critical_end() { unlk(&g_crit); }
EXP void GOMP_critical_name_start(void** p) { lk(by_key(p)); }
EXP void GOMP_critical_name_end(void** p) { unlk(by_key(p)); }
EXP void GOMP_atomic_start() { lk(&g_atomic); }
EXP void GOMP_atomic_end() { unlk(&g_atomic); }
EXP void GOMP_barrier() { Task* t = self; if (t && t->team && sim_on()) team_barrier(t->team); }
EXP bool GOMP_barrier_cancel() { GOMP_barrier(); return false; }
EXP bool GOMP_cancel(int, bool) { return false; }
EXP bool GOMP_cancellation_point(int) { return false; }
EXP void GOMP_ordered_start() { WS* w = my_ws(); if (w->ordered && sim_on() && self->ticket != ~0ull) { point(K_SYNC, 5); turn(w); } }
EXP void GOMP_ordered_end() { WS* w = my_ws(); if (w->ordered && sim_on()) { release(&w->serving); point(K_SYNC, 6); } }

// --- tasks: immediate or deferred, by seed ------------------------------------
static bool may_defer() { Task* t = self; return t && t->team && sim_on() && choice(2); }
static void task_at(bool defer, void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, long* range) {
    Task* t = self;
    if (al < 16) al = 16;
    if (!defer) {
        char* b = (char*)__builtin_alloca((size_t)(sz + al)); char* arg = (char*)(((u64)b + al - 1) & ~(u64)(al - 1));
        if (cpy) cpy(arg, data); else if (range) memcpy(arg, data, (size_t)sz); else arg = (char*)data;
        if (range) { ((long*)arg)[0] = range[0]; ((long*)arg)[1] = range[1]; }
        run_explicit(fn, arg, t ? (TGroup*)t->tgroup : nullptr); return;
    }
    char* b = (char*)rt_alloc_raw((size_t)(sz + al) + sizeof(DTask)); DTask* d = (DTask*)b;
    char* arg = (char*)(((u64)(b + sizeof(DTask)) + al - 1) & ~(u64)(al - 1));
    if (cpy) cpy(arg, data); else memcpy(arg, data, (size_t)sz);
    if (range) { ((long*)arg)[0] = range[0]; ((long*)arg)[1] = range[1]; }
    d->fn = fn; d->data = arg; d->nx = nullptr; d->parent = my_ctx(); d->parent->pending++; d->group = (TGroup*)t->tgroup; if (d->group) d->group->pending++;
    memcpy(d->vc, t->vc, sizeof d->vc); tick_vc(t);
    if (t->team->dqtail) t->team->dqtail->nx = d; else t->team->dq = d;
    t->team->dqtail = d;
    if (d->group) wake_all(d->group);
    point(K_OMP, 14);
}
// tasks with dependences run at once: in the order of their creation
EXP void GOMP_task(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, bool if_clause, unsigned flags, void**, int, void*) { task_at(if_clause && !(flags & 8) && may_defer(), fn, data, cpy, sz, al, nullptr); }
EXP void GOMP_taskwait() { Task* t = self; if (!t || !t->team || !sim_on() || !t->tctx) return; TCtx* c = t->tctx; point(K_OMP, 15); run_queued(t->team, c, nullptr); while (c->pending) block_on(c); acquire(c); }
EXP void GOMP_taskwait_depend(void**) { GOMP_taskwait(); }
EXP void GOMP_taskwait_depend_nowait(void**) {}
EXP void GOMP_taskyield() { if (live()) point(K_YIELD, 0); }
EXP void GOMP_taskgroup_start() { Task* t = self; if (!t || !t->team || !sim_on()) return; TGroup* g = (TGroup*)rt_alloc_raw(sizeof(TGroup)); g->pending = 0; g->outer = (TGroup*)t->tgroup; t->tgroup = g; }
EXP void GOMP_taskgroup_end() { Task* t = self; if (!t || !t->team || !sim_on() || !t->tgroup) return; TGroup* g = (TGroup*)t->tgroup; point(K_OMP, 16); for (;;) { run_queued(t->team, nullptr, g); if (!g->pending) break; block_on(g); } acquire(g); t->tgroup = g->outer; }
EXP void GOMP_taskgroup_reduction_register(uintptr_t*) { violation("sim-limit", "simulator limit: reductions over tasks"); }
EXP void GOMP_taskgroup_reduction_unregister(uintptr_t*) {}
static void taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long parts_, u64 n, u64 s, u64 e, u64 step) {
    if (!n) return;
    u64 parts = (flags & 512) && parts_ ? (n + parts_ - 1) / parts_ : parts_ ? parts_ : 1 + choice(6); if (parts > n) parts = n;      // 512: grainsize
    bool group = !(flags & 2048);                                  // 2048: nogroup
    if (group) GOMP_taskgroup_start();
    for (u64 k = 0; k < parts; k++) { long rg[2] = {(long)(s + step * (n * k / parts)), (long)(k + 1 == parts ? e : s + step * (n * (k + 1) / parts))}; task_at((flags & 1024) && may_defer(), fn, data, cpy, sz, al, rg); }
    if (group) GOMP_taskgroup_end();
}
EXP void GOMP_taskloop(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long parts, int, long s, long e, long step) {
    taskloop(fn, data, cpy, sz, al, flags, parts, step > 0 ? (s < e ? (u64)(e - s + step - 1) / (u64)step : 0) : (s > e ? (u64)(s - e - step - 1) / (u64)-step : 0), (u64)s, (u64)e, (u64)step);
}
EXP void GOMP_taskloop_ull(void (*fn)(void*), void* data, void (*cpy)(void*, void*), long sz, long al, unsigned flags, unsigned long parts, int, unsigned long long s, unsigned long long e, unsigned long long step) {
    u64 n = s < e ? (e - s + step - 1) / step : s > e ? (s - e - step - 1) / -step : 0;
    taskloop(fn, data, cpy, sz, al, flags, parts, n, s, e, step);
}
// --- target regions: a simulated accelerator ------------------------------------
// The device runs a league of teams as simulator tasks. It either shares the
// host's memory (1) or has its own (2): then only mapped data exists on it.
namespace {
struct DMap { u64 host, size; char* dev; int ref; bool back; DMap* nx; };
DMap* dmaps = nullptr;
enum { M_ALLOC, M_TO, M_FROM, M_TOFROM, M_POINTER, M_DELETE = 7, M_FIRSTPRIVATE = 12, M_FIRSTPRIVATE_INT = 13, M_ZERO_LEN = 15, M_ALWAYS_TO = 17, M_ALWAYS_FROM = 18, M_ALWAYS_TOFROM = 19, M_RELEASE = 23 };
struct Env { u32 n; DMap* m[64]; char* own[64]; };
DMap* find_map(u64 h, u64 n) { for (DMap* d = dmaps; d; d = d->nx) if (h >= d->host && h + n <= d->host + d->size && h < d->host + (d->size ? d->size : 1)) return d; return nullptr; }
DMap* overlapping(u64 h, u64 n) { for (DMap* d = dmaps; d; d = d->nx) if (h < d->host + d->size && d->host < h + n) return d; return nullptr; }
void* rt_malloc(size_t n) { self->rt++; void* p = malloc(n ? n : 1); self->rt--; return p; }
void rt_free(void* p) { self->rt++; free(p); self->rt--; }
void copy(void* to, const void* from, size_t n) { on_range(from, n, false); on_range(to, n, true); for (size_t i = 0; i < n; i++) ((volatile char*)to)[i] = ((const volatile char*)from)[i]; }
// the runtime's own lock: mapping is atomic, copies are not overlapped by others
DMap* map_in(u64 h, u64 n, int kind, bool* fresh) {
    bool to = kind & 1, from = kind & 2;
    DMap* d = find_map(h, n); *fresh = false;
    if (!d) {
        if (overlapping(h, n)) violation("bad-access", "a range is mapped to the device that overlaps a mapped range without being part of it");
        d = (DMap*)rt_malloc(sizeof(DMap)); *d = DMap{h, n, (char*)rt_malloc(n), 0, false, dmaps}; dmaps = d; *fresh = true; R->device_maps++;
        if (to) copy(d->dev, (void*)h, n);
        release(d);
    } else { acquire(d); if (kind >= M_ALWAYS_TO && to) copy(d->dev + (h - d->host), (void*)h, n); }
    d->ref++; (void)from;
    return d;
}
void map_out(DMap* d, bool from, bool always, u64 h, u64 n) {
    acquire(d);
    if (from && (d->ref == 1 || always)) copy((void*)h, d->dev + (h - d->host), n);
    release(d);
    if (--d->ref == 0) { for (DMap** q = &dmaps; *q; q = &(*q)->nx) if (*q == d) { *q = d->nx; break; } rt_free(d->dev); rt_free(d); }
}
struct League { void (*fn)(void*); void** addrs; int n; };
void league_fn(void* a) {
    League* l = (League*)a; Task* t = self; Team* tm = t->team; int tn = t->tnum; u32 ws = t->wsidx;
    t->team = nullptr; t->wsidx = 0; t->league_id = tn; t->league_n = l->n; t->tnum = 0;
    l->fn(l->addrs);
    t->team = tm; t->tnum = tn; t->wsidx = ws; t->league_n = 0; t->league_id = 0;
}
}
EXP void GOMP_teams_reg(void (*fn)(void*), void* d, unsigned n, unsigned, unsigned) {
    if (!sim_on()) { fn(d); return; }
    Task* t = self; int k = n ? (int)(n > 4 ? 4 : n) : 1 + (int)choice(3), on = t->league_n, oi = t->league_id;
    for (int i = 0; i < k; i++) { t->league_n = k; t->league_id = i; fn(d); }
    t->league_n = on; t->league_id = oi;
}
EXP bool GOMP_teams4(unsigned, unsigned high, unsigned, bool first) {
    Task* t = self; if (!t || t->league_n > 0) return first;       // on the device every task is one team
    if (first) { t->league_n = -(high ? (int)(high > 4 ? 4 : high) : 1 + (int)(sim_on() ? choice(3) : 0)); t->league_id = 0; return true; }      // on the host one after the other
    if (t->league_id + 1 == -t->league_n) { t->league_n = 0; t->league_id = 0; return false; }
    t->league_id++; return true;
}
EXP void GOMP_target_ext(int, void (*fn)(void*), size_t n, void** hostaddrs, size_t* sizes, unsigned short* kinds, unsigned, void**, void** args) {
    if (!sim_on()) { fn(hostaddrs); return; }
    R->target_regions++;
    point(K_OMP, 10);
    void** addrs = (void**)rt_malloc(n * sizeof(void*)); Env e; e.n = (u32)n;
    if (n > 64) { rt_free(addrs); fn(hostaddrs); return; }
    bool own = cfg.device == 2; CLock* dl = by_key(&dmaps);
    if (own) lk(dl);
    for (size_t i = 0; i < n; i++) {
        int k = kinds[i] & 0xff; u64 h = (u64)hostaddrs[i]; e.m[i] = nullptr; e.own[i] = nullptr; addrs[i] = hostaddrs[i]; bool fresh;
        if (k == M_FIRSTPRIVATE) { e.own[i] = (char*)rt_malloc(sizes[i]); copy(e.own[i], hostaddrs[i], sizes[i]); addrs[i] = e.own[i]; }
        else if (k == M_FIRSTPRIVATE_INT || !own) continue;
        else if (k == M_ZERO_LEN || (k <= M_TOFROM && !sizes[i])) { DMap* d = find_map(h, 0); addrs[i] = d ? d->dev + (h - d->host) : nullptr; }
        else if (k <= M_TOFROM || (k >= M_ALWAYS_TO && k <= M_ALWAYS_TOFROM)) { e.m[i] = map_in(h, sizes[i], k, &fresh); addrs[i] = e.m[i]->dev + (h - e.m[i]->host); }
        else { DMap* d = find_map(h, 0); if (d) addrs[i] = d->dev + (h - d->host); }
    }
    if (own) unlk(dl);
    if (cfg.device == 0) fn(addrs);
    else {
        long teams = 0; for (void** a = args; a && *a;) { intptr_t id = (intptr_t)*a++, v = id & 0x80 ? (intptr_t)*a++ : id >> 16; if ((id & 0x7f00) == 0x100) teams = (long)v; }
        int k = teams > 0 ? (int)(teams > 4 ? 4 : teams) : 1 + (int)choice(4);
        R->device_teams += k;
        League l{fn, addrs, k}; run_parallel(league_fn, &l, 0, nullptr, k);
    }
    if (own) lk(dl);
    for (size_t i = 0; i < n; i++) {
        int k = kinds[i] & 0xff;
        if (e.m[i]) map_out(e.m[i], k & 2, k >= M_ALWAYS_TO, (u64)hostaddrs[i], sizes[i]);
        if (e.own[i]) rt_free(e.own[i]);
    }
    if (own) unlk(dl);
    rt_free(addrs);
    point(K_OMP, 11);
}
EXP void GOMP_target_data_ext(int, size_t n, void** h, size_t* sizes, unsigned short* kinds) {
    Task* t = self; if (!sim_on() || t->data_top >= 16) return;
    Env* e = (Env*)rt_malloc(sizeof(Env)); e->n = 0; t->data_env[t->data_top++] = e; if (cfg.device != 2) return;
    lk(by_key(&dmaps));
    for (size_t i = 0; i < n && i < 64; i++) { int k = kinds[i] & 0xff; bool f; if (!(k <= M_TOFROM || (k >= M_ALWAYS_TO && k <= M_ALWAYS_TOFROM)) || !sizes[i]) continue; DMap* d = map_in((u64)h[i], sizes[i], k, &f); if (k & 2) d->back = true; e->m[e->n] = d; e->n++; }
    unlk(by_key(&dmaps));
}
EXP void GOMP_target_end_data() {
    Task* t = self; if (!sim_on() || !t->data_top) return;
    Env* e = (Env*)t->data_env[--t->data_top];
    if (e->n) { lk(by_key(&dmaps)); for (u32 i = 0; i < e->n; i++) map_out(e->m[i], e->m[i]->back, false, e->m[i]->host, e->m[i]->size); unlk(by_key(&dmaps)); }
    rt_free(e);
}
EXP void GOMP_target_enter_exit_data(int, size_t n, void** h, size_t* sizes, unsigned short* kinds, unsigned, void**) {
    if (!sim_on() || cfg.device != 2) return;
    lk(by_key(&dmaps));
    bool exit = false; for (size_t i = 0; i < n; i++) { int k = kinds[i] & 0xff; if (k == M_FROM || k == M_ALWAYS_FROM || k == M_RELEASE || k == M_DELETE) exit = true; }
    for (size_t i = 0; i < n; i++) { int k = kinds[i] & 0xff; bool f; if (!sizes[i]) continue;
        if (exit) { if (DMap* d = find_map((u64)h[i], sizes[i])) { if (k == M_DELETE) d->ref = 1; map_out(d, k & 2 && k <= 19, k == M_ALWAYS_FROM, (u64)h[i], sizes[i]); } }
        else if (k <= M_TOFROM || (k >= M_ALWAYS_TO && k <= M_ALWAYS_TOFROM)) map_in((u64)h[i], sizes[i], k, &f); }
    unlk(by_key(&dmaps));
}
EXP void GOMP_target_update_ext(int, size_t n, void** h, size_t* sizes, unsigned short* kinds, unsigned, void**) {
    if (!sim_on() || cfg.device != 2) return;
    lk(by_key(&dmaps));
    for (size_t i = 0; i < n; i++) { int k = kinds[i] & 0xff; DMap* d = find_map((u64)h[i], sizes[i]); if (!d) continue; char* dv = d->dev + ((u64)h[i] - d->host); acquire(d); if (k & 1) copy(dv, h[i], sizes[i]); if (k & 2) copy(h[i], dv, sizes[i]); release(d); }
    unlk(by_key(&dmaps));
}
EXP void GOMP_teams(unsigned, unsigned) {}

// --- omp_* --------------------------------------------------------------------
EXP int omp_get_num_threads() { return self && self->team ? self->team->n : 1; }
EXP int omp_get_thread_num() { return self && self->team ? self->tnum : 0; }
EXP int omp_get_max_threads() { Task* t = self; if (t && t->nthreads_var) return t->nthreads_var; return icv_threads; }
EXP int omp_get_num_procs() { return 8; }
EXP int omp_in_parallel() { return self && self->team && self->team->active_level > 0; }
EXP void omp_set_num_threads(int n) { if (self) self->nthreads_var = n < 1 ? 1 : n > MAXTEAM ? MAXTEAM : n; }
EXP void omp_set_dynamic(int) {}
EXP int omp_get_dynamic() { return 0; }
EXP void omp_set_nested(int) {}
EXP int omp_get_nested() { return cfg.max_levels > 1; }
EXP int omp_get_level() { return self && self->team ? self->team->level : 0; }
EXP int omp_get_active_level() { return self && self->team ? self->team->active_level : 0; }
EXP int omp_get_team_size(int l) { Team* t = self ? self->team : nullptr; while (t && t->level > l) t = t->outer; return t && l > 0 ? t->n : 1; }
EXP int omp_get_ancestor_thread_num(int l) { Task* s = self; if (!s || !s->team || l < 0 || l > s->team->level) return l ? -1 : 0; Team* t = s->team; int n = s->tnum; while (t && t->level > l) { n = t->outer_tnum; t = t->outer; } return t ? n : 0; }
EXP double omp_get_wtime() { return R ? (double)R->hash * 0 + 1e-9 : 0; }
EXP double omp_get_wtick() { return 1e-9; }
EXP int omp_get_thread_limit() { return MAXTEAM; }
EXP int omp_get_max_active_levels() { return cfg.max_levels; }
EXP void omp_set_max_active_levels(int) {}
EXP int omp_get_cancellation() { return 0; }
EXP int omp_get_proc_bind() { return 0; }
EXP int omp_get_num_devices() { return cfg.device > 0; }
EXP int omp_get_default_device() { return 0; }
EXP int omp_is_initial_device() { return !(self && self->league_n > 0); }
EXP int omp_get_initial_device() { return cfg.device > 0; }
EXP int omp_get_num_teams() { int n = self ? self->league_n : 0; return n ? (n < 0 ? -n : n) : 1; }
EXP int omp_get_team_num() { return self ? self->league_id : 0; }
EXP int omp_in_final() { return 0; }
EXP void omp_set_schedule(int, int) {}
EXP void omp_get_schedule(int* k, int* c) { *k = 1; *c = 0; }
EXP void omp_init_lock(void*) {}
EXP void omp_destroy_lock(void*) {}
EXP void omp_set_lock(void* l) { lk(by_key(l)); }
EXP void omp_unset_lock(void* l) { unlk(by_key(l)); }
EXP int omp_test_lock(void* l) { if (!sim_on()) return 1; const u64 spun = self->spin; point(K_SYNC, 2); CLock* c = by_key(l); if (c->owner) { self->spin = spun + 16; return 0; } c->owner = self; acquire(c); return 1; }
EXP void omp_init_nest_lock(void*) {}
EXP void omp_destroy_nest_lock(void*) {}
EXP void omp_set_nest_lock(void* l) { CLock* c = by_key(l); if (self && c->owner == self) { c->depth++; return; } lk(c); c->depth = 1; }
EXP void omp_unset_nest_lock(void* l) { CLock* c = by_key(l); if (--c->depth <= 0) unlk(c); }
EXP int omp_test_nest_lock(void* l) { CLock* c = by_key(l); if (!sim_on()) return 1; if (c->owner == self) return ++c->depth; if (!omp_test_lock(l)) return 0; return c->depth = 1; }
EXP int omp_in_explicit_task() { return self && self->tctx && self->tctx->made; }
EXP int omp_get_num_places() { return 0; }
EXP int omp_get_place_num() { return -1; }
EXP int omp_get_max_teams() { return 4; }
EXP void omp_set_num_teams(int) {}
EXP int omp_get_teams_thread_limit() { return MAXTEAM; }
EXP void omp_set_default_device(int) {}
EXP int omp_get_device_num() { return omp_is_initial_device() ? omp_get_initial_device() : 0; }
EXP int omp_get_max_task_priority() { return 0; }
EXP int omp_get_supported_active_levels() { return 8; }
EXP void* omp_alloc(size_t n, uintptr_t) { return malloc(n); }
EXP void omp_free(void* p, uintptr_t) { free(p); }
EXP void* GOMP_alloc(size_t al, size_t n, uintptr_t) { return al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : malloc(n); }
EXP void GOMP_free(void* p, uintptr_t) { free(p); }
EXP void* omp_target_alloc(size_t n, int) { return malloc(n); }
EXP void omp_target_free(void* p, int) { free(p); }
EXP int omp_target_memcpy(void* d, const void* s, size_t n, size_t dof, size_t sof, int, int) { on_range((const char*)s + sof, n, false); on_range((char*)d + dof, n, true); memcpy((char*)d + dof, (const char*)s + sof, n); return 0; }
EXP int omp_target_is_present(const void* p, int) { return cfg.device != 2 || find_map((u64)p, 1); }
EXP void* omp_calloc(size_t k, size_t n, uintptr_t) { return calloc(k, n); }
EXP void* omp_realloc(void* p, size_t n, uintptr_t, uintptr_t) { return realloc(p, n); }
EXP void* omp_aligned_alloc(size_t al, size_t n, uintptr_t) { return GOMP_alloc(al, n, 0); }
EXP void* omp_aligned_calloc(size_t al, size_t k, size_t n, uintptr_t) { void* p = GOMP_alloc(al, k * n, 0); if (p) memset(p, 0, k * n); return p; }
EXP uintptr_t omp_init_allocator(uintptr_t, int, const void*) { return 1; }
EXP void omp_destroy_allocator(uintptr_t) {}
EXP void omp_set_default_allocator(uintptr_t) {}
EXP uintptr_t omp_get_default_allocator() { return 1; }
EXP void omp_display_env(int) {}
EXP void omp_display_affinity(const char*) {}
EXP size_t omp_capture_affinity(char*, size_t, const char*) { return 0; }
EXP void omp_set_affinity_format(const char*) {}
EXP size_t omp_get_affinity_format(char*, size_t) { return 0; }
EXP int omp_get_place_num_procs(int) { return 0; }
EXP void omp_get_place_proc_ids(int, int*) {}
EXP int omp_get_partition_num_places() { return 0; }
EXP void omp_get_partition_place_nums(int*) {}
EXP int omp_pause_resource(int, int) { return 0; }
EXP int omp_pause_resource_all(int) { return 0; }
EXP void omp_set_teams_thread_limit(int) {}
EXP int omp_target_is_accessible(const void*, size_t, int) { return cfg.device != 2; }
EXP void* omp_get_mapped_ptr(const void* p, int) { if (cfg.device != 2) return (void*)p; DMap* d = find_map((u64)p, 0); return d ? d->dev + ((u64)p - d->host) : nullptr; }
EXP int omp_target_associate_ptr(const void*, const void*, size_t, size_t, int) { return 1; }
EXP int omp_target_disassociate_ptr(const void*, int) { return 1; }
