// Scheduler, race detector, fault plans.
#include "rt.hpp"
#include "rt_int.hpp"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <linux/futex.h>
#include <pthread.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <time.h>

namespace sim {
Result* R = nullptr;
thread_local Task* self = nullptr;
Cfg cfg;
static bool running = false;
static Task* tasks[MAXT];
static int ntasks = 0;
static Task ctl;                       // the controller (main thread of the child)
static u32 nvid = 0;
static u64 tick = 0;
static Rng rng_sched(0), rng_env(0);
static u64 consec = 0;
static u64 pct_points[64]; static int npct = 0; static long pct_low = 0;

static long raw_futex(u32* a, int op, u32 v) {
    long r;
    register long r10 asm("r10") = 0;
    asm volatile("syscall" : "=a"(r) : "a"(SYS_futex), "D"(a), "S"(op), "d"(v), "r"(r10) : "rcx", "r11", "memory");
    return r;
}
void park(Task* t) {
    while (__atomic_load_n(&t->word, __ATOMIC_ACQUIRE) == 0) raw_futex(&t->word, FUTEX_WAIT_PRIVATE, 0);
    __atomic_store_n(&t->word, 0, __ATOMIC_RELEASE);
}
void unpark(Task* t) {
    __atomic_store_n(&t->word, 1, __ATOMIC_RELEASE);
    raw_futex(&t->word, FUTEX_WAKE_PRIVATE, 1);
}

// ---------------------------------------------------------------------------
static inline void hash_in(u64 v) { R->hash = (R->hash ^ v) * 0x100000001B3ull; R->hash ^= R->hash >> 29; }

bool live() { Task* t = self; return t && t->active && !t->opaque && !t->rt && running; }
bool in_op() { Task* t = self; return t && t->active && !t->rt && running; }
bool in_run() { return running; }
bool active() { return self && self->active; }
void set_active(bool on) { if (self) self->active = on; }
void opaque_enter() { if (self) self->opaque++; }
void opaque_leave() { if (self) self->opaque--; }
int self_index() { return self ? self->idx : -1; }
u64 choice(u64 n) { return rng_env.below(n); }
u64 task_rand() { return rng_env.next(); }
void note_step(int s) { if (self) self->step = s; }

void end_process() { __atomic_store_n(&R->done, 1, __ATOMIC_SEQ_CST); _exit(0); }
void finish_run() {
    R->ticks = tick; running = false;
    end_process(); __builtin_unreachable();
}
void violation(const char* cls, const char* fmt, ...) {
    running = false;
    if (self) self->active = false;
    va_list ap; va_start(ap, fmt);
    char buf[1200]; vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    snprintf(R->cls, sizeof R->cls, "%s", cls);
    snprintf(R->msg, sizeof R->msg, "%s", buf);
    R->violation = 1; R->ticks = tick; R->step = self ? self->step : -1;
    end_process(); __builtin_unreachable();
}

// --- choosing the next task --------------------------------------------------
static Task* lowest_ready() { for (int i = 0; i < ntasks; i++) if (tasks[i]->state == READY) return tasks[i]; return nullptr; }
static int ready_count() { int n = 0; for (int i = 0; i < ntasks; i++) n += tasks[i]->state == READY; return n; }
static Task* nth_ready(int k) { for (int i = 0; i < ntasks; i++) if (tasks[i]->state == READY && k-- == 0) return tasks[i]; return nullptr; }
static Task* best_prio() { Task* b = nullptr; for (int i = 0; i < ntasks; i++) if (tasks[i]->state == READY && (!b || tasks[i]->prio > b->prio)) b = tasks[i]; return b; }

static u64 stall_tick = 0;
static void log_dev(Task* from, Task* to, bool stall = false) {
    R->sched_hash = mix(R->sched_hash, ((u64)from->idx << 48) ^ (from->lev << 8) ^ (u64)to->idx);
    if (R->ndev < (u64)MAXDEV) { R->devs[R->ndev++] = Dev{(u32)from->idx, (u32)to->idx | (stall ? 0x8000u : 0u), from->lev}; }
    else R->dev_overflow = 1;
}

// stalled tasks are kept in state STALLED until nothing else can run
static Task* release_stalled() {
    for (int i = 0; i < ntasks; i++) if (tasks[i]->state == STALLED) { tasks[i]->state = READY; tasks[i]->stall_done = true; return tasks[i]; }
    return nullptr;
}

static Task* explicit_target(Task* t) {
    // deviations are sorted per task by lev; linear cursor per task
    while (t->dcur < t->dend && cfg.devs[t->dcur].lev < t->lev) t->dcur++;
    if (t->dcur < t->dend && cfg.devs[t->dcur].lev == t->lev) {
        u32 g = cfg.devs[t->dcur].target; bool stall = g & 0x8000u; g &= 0x7FFFu;
        if ((int)g < ntasks && (tasks[g]->state == READY || tasks[g] == t)) {
            if (stall && t->state == RUN && tasks[g] != t) { t->state = STALLED; stall_tick = tick; R->stalls++; }
            return tasks[g];
        }
    }
    return nullptr;
}

// t is running and stays runnable unless `blocking`
static Task* next_ready(Task* t) { for (int k = 1; k < ntasks; k++) { Task* c = tasks[(t->idx + k) % ntasks]; if (c->state == READY) return c; } return nullptr; }
static Task* pick(Task* t, bool blocking, bool yields = false) {
    Task* def = blocking ? lowest_ready() : t;
    if (yields) { if (Task* c = next_ready(t)) def = c; t->prio = --pct_low; }       // a thread that gives up its turn
    Task* ch = def;
    const bool rare = R->switches > 50000;      // very long runs: from here on switch rarely (hand-offs are what costs time)
    switch (cfg.policy) {
    case P_EXPLICIT: { Task* e = explicit_target(t); if (e && !(blocking && e == t)) ch = e; break; }
    case P_NONE: break;
    case P_STALL:
        if (!blocking && !t->stall_done && t->idx == (int)cfg.pparam2 && (long)t->lev >= cfg.pparam && ready_count() > 0) {
            ch = nth_ready((int)rng_sched.below(ready_count()));
            t->state = STALLED; stall_tick = tick; R->stalls++;
            log_dev(t, ch, true);
            return ch;
        }
        [[fallthrough]];
    case P_RANDOM: {
        long p = cfg.policy == P_STALL ? 64 : cfg.pparam; if (rare && p < 2000) p = 2000;
        if (blocking || rng_sched.below((u64)p) == 0) { int n = ready_count(); if (n) ch = nth_ready((int)rng_sched.below(n)); }
        break; }
    case P_PCT:
        for (int i = 0; i < npct; i++) if (pct_points[i] == tick) t->prio = --pct_low;
        if (blocking) ch = best_prio();
        else { Task* b = best_prio(); if (b && b->prio > t->prio) ch = b; }
        break;
    case P_RR:
        if (blocking || (long)consec >= (rare && cfg.pparam < 2000 ? 2000 : cfg.pparam)) {
            Task* nx = nullptr;
            for (int k = 1; k <= ntasks; k++) { Task* c = tasks[(t->idx + k) % ntasks]; if (c->state == READY) { nx = c; break; } }
            if (nx) ch = nx;
        }
        break;
    }
    if (!blocking && ch == t && consec > (u64)(t->spin > 64 ? 64 : 400000)) {   // fairness, also part of the default schedule
        if (Task* c = next_ready(t)) ch = c;
        t->spin = 0; t->prio = --pct_low;
        return ch;
    }
    if (ch && ch != def) log_dev(t, ch);
    return ch;
}

static void go(Task* t, Task* nx) {
    if (nx == t) return;
    consec = 0; R->switches++;
    hash_in(0xABCD0000ull + nx->idx);
    nx->state = RUN;
    unpark(nx); park(t);
}

void point(int kind, u64 addr) {
    Task* t = self;
    if (t->pw_size) judge_stack_write(t);
    tick++; t->lev++; consec++;
    u64 a = addr >= ARENA_BASE && addr < ARENA_BASE + ARENA_SIZE ? addr - ARENA_BASE : 0;
    hash_in(((u64)t->idx << 56) ^ ((u64)kind << 48) ^ a);
    if (kind == K_ALOAD) t->spin++; else if (kind != K_READ && kind != K_YIELD) t->spin = 0;
    if (kind == K_YIELD) t->spin += 16;
    if (tick > cfg.budget) violation("no-progress", "no progress: %llu events without completing step %d", (unsigned long long)tick, t->step);
    if ((tick & 0xFFF) == 0 && stall_tick && tick - stall_tick > 300000) { release_stalled(); stall_tick = 0; }
    bool other = false;
    for (int i = 0; i < ntasks; i++) if (tasks[i]->state == READY) { other = true; break; }
    if (!other) { if (kind == K_YIELD || t->spin > 2000) { Task* s = release_stalled(); if (!s) return; other = true; } else return; }
    Task* nx = pick(t, false, kind == K_YIELD);
    if (nx == t) return;
    if (t->state != STALLED) t->state = READY;
    go(t, nx);
}

void block_on(void* obj) {
    Task* t = self;
    if (t->pw_size) judge_stack_write(t);
    tick++; t->lev++; R->blocks++;
    if (tick > cfg.budget) violation("no-progress", "no progress: %llu events", (unsigned long long)tick);
    hash_in(0xB10Cull ^ ((u64)t->idx << 56));
    t->state = BLOCKED; t->wobj = obj;
    Task* nx = pick(t, true);
    if (!nx) nx = release_stalled();
    if (!nx) {
        char who[256]; size_t k = 0; who[0] = 0;
        for (int i = 0; i < ntasks && k < 200; i++) if (tasks[i]->state == BLOCKED) k += snprintf(who + k, sizeof who - k, " t%d(step %d)", i, tasks[i]->step);
        violation("deadlock", "deadlock: every task is blocked:%s", who);
    }
    go(t, nx);
    t->wobj = nullptr;
}
void wake_all(void* obj) { for (int i = 0; i < ntasks; i++) if (tasks[i]->state == BLOCKED && tasks[i]->wobj == obj) tasks[i]->state = READY; }

// --- OS threads --------------------------------------------------------------
static u32 vclk[MAXV];
void start_vc(Task* t, const u32* from) {
    u32 v;
    if (nvid < MAXV) v = nvid++; else v = MAXV / 2 + (nvid++ % (MAXV / 2));
    t->vid = v;
    if (from && from != t->vc) memcpy(t->vc, from, sizeof t->vc);
    t->vc[v] = ++vclk[v];
}
void tick_vc(Task* t) { if (t->pw_size) judge_stack_write(t); t->vc[t->vid]++; if (t->vc[t->vid] > vclk[t->vid]) vclk[t->vid] = t->vc[t->vid]; }
static void* thread_main(void* a) {
    Task* t = (Task*)a; self = t;
    for (;;) {
        park(t);
        t->entry(t);
        // finished its assignment
        t->active = false; t->state = IDLE; t->lev++;
        Task* nx = pick(t, true);
        if (!nx) nx = release_stalled();
        if (nx) { consec = 0; R->switches++; hash_in(0xD0E0ull + nx->idx); nx->state = RUN; unpark(nx); }
        else {
            for (int i = 0; i < ntasks; i++) if (tasks[i]->state == BLOCKED) violation("deadlock", "deadlock: task %d (step %d) waits for something nobody will signal", i, tasks[i]->step);
            unpark(&ctl);
        }
        if (t->oneshot) { t->state = GONE; for (;;) park(t); }
    }
}
static char* stack_area = nullptr; constexpr size_t STK = 512 * 1024;
Task* new_task() {
    if (ntasks >= MAXT) violation("sim-limit", "simulator limit: too many threads");
    int i = ntasks++;
    Task* t = (Task*)rt_alloc_raw(sizeof(Task)); new (t) Task();
    t->idx = i; tasks[i] = t; t->state = IDLE; t->prio = (long)(rng_sched.next() >> 20);
    if (cfg.policy == P_EXPLICIT) {
        size_t k = 0; while (k < cfg.ndevs && cfg.devs[k].task < (u32)i) k++;
        t->dcur = k; while (k < cfg.ndevs && cfg.devs[k].task == (u32)i) k++;
        t->dend = k;
    }
    char* st = stack_area + (size_t)i * STK;
    // stale stack content: locals that are not initialised must not matter
    u64 pat = cfg.fill == F_ZERO ? 0 : cfg.fill == F_NAN ? 0xFFFFFFFFFFFFFFFFull : 0x7E37E43C8800759Cull;
    if (pat) for (size_t k = STK / 8 - 6000; k < STK / 8 - 600; k++) ((u64*)st)[k] = pat;
    if (self) self->rt++;
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, STK);
    pthread_t th; 
    if (real_pthread_create(&th, &at, thread_main, t) != 0) violation("sim-limit", "simulator limit: cannot create an OS thread");
    if (self) self->rt--;
    t->th = th;
    return t;
}
Task* task_at(int i) { return i < ntasks ? tasks[i] : nullptr; }

struct ClientArg { void (*fn)(void*, int); void* arg; int i; };
static ClientArg cargs[MAXT];
static void client_entry(Task* t) { ClientArg* c = (ClientArg*)t->earg; c->fn(c->arg, c->i); }

void run_clients(int n, void (*fn)(void*, int), void* arg) {
    for (int i = 0; i < n; i++) {
        Task* t = new_task();
        cargs[i] = ClientArg{fn, arg, i}; t->entry = client_entry; t->earg = &cargs[i]; t->state = READY;
        t->client = i;
        start_vc(t, ctl.vc);
    }
    running = true; ctl.state = IDLE;
    Task* f = tasks[0];
    if (cfg.policy == P_EXPLICIT) { Task* e = explicit_target(&ctl); if (e && e != &ctl) f = e; }
    else if (cfg.policy != P_NONE) f = tasks[rng_sched.below(n)];
    if (f != tasks[0]) log_dev(&ctl, f);
    f->state = RUN;
    unpark(f); park(&ctl);
    running = false;
}

// --- fault plans --------------------------------------------------------------
void arm(const FaultPlan& f) { Task* t = self; t->fp = f; t->fr = FaultReport{}; t->armed = true; }
FaultReport disarm() { Task* t = self; t->armed = false; FaultReport r = t->fr; t->fp = FaultPlan{}; return r; }
static bool term_ok = false;
void accept_terminate(bool ok) { term_ok = ok; }
static Task* plan_task() { Task* t = self; if (!t) return nullptr; while (t->parent && !t->armed) t = t->parent; return t->armed ? t : nullptr; }
bool fault_alloc_now() {
    Task* t = plan_task(); if (!t) return false;
    t->fr.allocs++;
    if (t->fp.alloc_nth > 0 && (long)t->fr.allocs == t->fp.alloc_nth) { t->fr.fired++; R->alloc_faults++; hash_in(0xFA17); return true; }
    return false;
}
int fault_lapack_now() {
    Task* t = plan_task(); if (!t) return 0;
    t->fr.lapack_calls++;
    if (t->fp.lapack_nth > 0 && (long)t->fr.lapack_calls == t->fp.lapack_nth) { t->fr.lapack_fired++; R->lapack_faults++; return t->fp.lapack_code; }
    return 0;
}
static void on_terminate() {
    Task* t = plan_task();
    bool fired = t && t->fr.fired > 0;
    if (fired && term_ok) { R->terminated = 1; R->ticks = tick; running = false; end_process(); }
    const char* what = "";
    if (std::exception_ptr e = std::current_exception()) { try { std::rethrow_exception(e); } catch (const std::exception& x) { what = x.what(); } catch (...) { what = "?"; } }
    violation(fired ? "terminate-under-fault" : "terminate", "the program was terminated by an uncaught error: %s", what);
}
static void on_signal(int s, siginfo_t* si, void*) {
    if (!R || R->done) _exit(1);
    if (s == SIGALRM || s == SIGPROF) violation("hang", "no completion within the real-time limit");
    violation("crash", "signal %d at address %p", s, si ? si->si_addr : nullptr);
}

// --- race detector --------------------------------------------------------------
struct Slot { u32 clk; u8 vid; u8 mask; u8 wr; u8 tidx; };
struct Cell { Slot s[4]; };
// cells of the arena and of the stacks are addressed directly; those of static storage through a hash table
static Cell *acells = nullptr, *scells = nullptr, *hcells = nullptr; static u64* hkeys = nullptr; constexpr u64 NCELL = 1u << 16; static u64 ncell = 0;
struct SyncVC { u64 key; u32 vc[MAXV]; };
static SyncVC* syncs = nullptr; constexpr int NSYNC = 4096;

static Cell* find_cell(u64 g) {
    const u64 a = g << 3;
    if (a - ARENA_BASE < ARENA_SIZE) return &acells[(a - ARENA_BASE) >> 3];
    if (a - (u64)stack_area < STK * MAXT) return &scells[(a - (u64)stack_area) >> 3];
    u64 h = (g * 0x9E3779B97F4A7C15ull) >> 40;
    for (u64 k = 0; k < NCELL; k++) {
        u64 i = (h + k) & (NCELL - 1);
        if (hkeys[i] == g) return &hcells[i];
        if (!hkeys[i]) { if (ncell > NCELL * 3 / 4) return nullptr; ncell++; hkeys[i] = g; return &hcells[i]; }
    }
    return nullptr;
}
void clear_shadow(u64 addr, size_t size) {        // of a block of the arena
    if (!running || !size || ntasks <= 1) return;
    u64 a = (addr - ARENA_BASE) >> 3, b = (addr - ARENA_BASE + size + 7) >> 3;
    u64 lo = ((u64)&acells[a] + 4095) & ~4095ull, hi = (u64)&acells[b] & ~4095ull;
    if (hi > lo + (1u << 18)) { memset((void*)&acells[a], 0, lo - (u64)&acells[a]); madvise((void*)lo, hi - lo, MADV_DONTNEED); memset((void*)hi, 0, (u64)&acells[b] - hi); return; }
    for (u64 g = a; g < b; g++) { const u64* w = (const u64*)&acells[g]; if (w[0] | w[1] | w[2] | w[3]) memset((void*)&acells[g], 0, sizeof(Cell)); }
}
static const char* what_mem(u64 addr) {
    static char buf[128];
    if (addr >= ARENA_BASE && addr < ARENA_BASE + ARENA_SIZE) describe_block(addr, buf, sizeof buf);
    else if (stack_area && addr >= (u64)stack_area && addr < (u64)stack_area + STK * MAXT) snprintf(buf, sizeof buf, "stack/TLS of task %d", (int)((addr - (u64)stack_area) / STK));
    else snprintf(buf, sizeof buf, "static storage");
    return buf;
}
static void race_check(Task* t, u64 addr, size_t size, bool wr) {
    if (ntasks <= 1) return;                     // whatever starts later is ordered after this
    while (size) {
        u64 g = addr >> 3; unsigned off = addr & 7; unsigned len = 8 - off; if (len > size) len = (unsigned)size;
        u8 mask = (u8)(((1u << len) - 1) << off);
        Cell* c = find_cell(g);
        if (c) {
            R->races_checked++;
            Slot* place = nullptr; bool covered = false;
            for (Slot& s : c->s) {
                if (s.clk == 0) { if (!place) place = &s; continue; }
                if (s.vid == t->vid) {
                    if ((s.mask & mask) == mask && s.wr >= (u8)wr && s.clk == t->vc[t->vid]) covered = true;
                    else if ((mask & s.mask) == s.mask && (u8)wr >= s.wr) { if (!place || place->clk == 0) place = &s; }
                    continue;
                }
                if ((s.mask & mask) && (s.wr || wr) && s.clk > t->vc[s.vid]) {
                    violation("data-race", "data race on %s: task %d %s %u byte(s) while task %d %s them without synchronisation",
                        what_mem(addr), t->idx, wr ? "writes" : "reads", len, s.tidx, s.wr ? "wrote" : "read");
                }
            }
            if (!covered) {
                if (!place) {   // replace an entry already ordered before this access, else any
                    for (Slot& s : c->s) if (s.vid != t->vid && s.clk <= t->vc[s.vid]) { place = &s; break; }
                    if (!place) place = &c->s[tick & 3];
                }
                *place = Slot{t->vc[t->vid], (u8)t->vid, mask, (u8)wr, (u8)t->idx};
            }
        }
        addr += len; size -= len;
    }
}
// GCC copies unchanged shared variables back into the structure a parallel
// region received (after a nested region, for one).  Such a write changes
// nothing; it is recognised by comparing the value after the write.
void judge_stack_write(Task* t) {
    u64 now = 0; memcpy(&now, (void*)t->pw_addr, t->pw_size);
    const u32 size = t->pw_size; t->pw_size = 0;
    if (now != t->pw_old) race_check(t, t->pw_addr, size, true);
}
void on_access(u64 addr, size_t size, bool wr) {
    Task* t = self;
    if (t->pw_size) judge_stack_write(t);
    check_addressable(addr, size, wr);
    if (wr && size <= 8 && addr >= (u64)stack_area && addr < (u64)stack_area + STK * MAXT) {
        point(K_WRITE, addr);
        t->pw_old = 0; memcpy(&t->pw_old, (void*)addr, size); t->pw_addr = addr; t->pw_size = (u32)size;
        return;
    }
    race_check(t, addr, size, wr);
    point(wr ? K_WRITE : K_READ, addr);
}
void on_range(const void* p, size_t size, bool wr) {
    if (!live() || !size) return;
    check_addressable((u64)p, size, wr);
    race_check(self, (u64)p, size, wr);
    point(wr ? K_WRITE : K_READ, (u64)p);
}
void race_only(u64 addr, size_t size, bool wr) { race_check(self, addr, size, wr); }

static SyncVC* sync_of(void* p) {
    u64 k = (u64)p, h = (k * 0x9E3779B97F4A7C15ull) >> 52;
    for (int i = 0; i < NSYNC; i++) { SyncVC* s = &syncs[(h + i) & (NSYNC - 1)]; if (s->key == k) return s; if (!s->key) { s->key = k; return s; } }
    return nullptr;
}
void acquire(void* p) { Task* t = self; if (t->pw_size) judge_stack_write(t); R->sync_ops++; SyncVC* s = sync_of(p); if (s) for (int i = 0; i < MAXV; i++) if (s->vc[i] > t->vc[i]) t->vc[i] = s->vc[i]; }
void release(void* p) { Task* t = self; if (t->pw_size) judge_stack_write(t); SyncVC* s = sync_of(p); if (s) for (int i = 0; i < MAXV; i++) if (t->vc[i] > s->vc[i]) s->vc[i] = t->vc[i]; tick_vc(t); }
void vc_join(Task* into, Task* from) { for (int i = 0; i < MAXV; i++) if (from->vc[i] > into->vc[i]) into->vc[i] = from->vc[i]; }

// --- process -------------------------------------------------------------------
static char* raw_area = nullptr; static size_t raw_used = 0; constexpr size_t RAW = 64ul << 20;
void* rt_alloc_raw(size_t n) { n = (n + 63) & ~63ul; void* p = raw_area + raw_used; raw_used += n; if (raw_used > RAW) abort(); return p; }
static void* map_at(u64 at, size_t n) {
    void* p = mmap((void*)at, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED) { static const char m[] = "sim: cannot map memory\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
    return p;
}
void init_process() {
    raw_area = (char*)map_at(0x200000000000ull, RAW);
    stack_area = (char*)map_at(0x210000000000ull, STK * MAXT);
    acells = (Cell*)map_at(0x220000000000ull, sizeof(Cell) * (ARENA_SIZE / 8));
    scells = (Cell*)map_at(0x240000000000ull, sizeof(Cell) * (STK * MAXT / 8));
    hcells = (Cell*)map_at(0x250000000000ull, sizeof(Cell) * NCELL); hkeys = (u64*)map_at(0x251000000000ull, sizeof(u64) * NCELL);
    syncs = (SyncVC*)map_at(0x230000000000ull, sizeof(SyncVC) * NSYNC);
    resolve_real();
}
void begin_run(const Cfg& c, Result* r) {
    cfg = c; R = r;
    rng_sched = Rng(mix(c.seed, 11)); rng_env = Rng(mix(c.seed, 22));
    R->hash = 0xcbf29ce484222325ull;
    self = nullptr;
    ctl.idx = MAXT; ctl.lev = 0; start_vc(&ctl, nullptr);
    if (c.policy == P_PCT) {
        npct = (int)c.pparam; if (npct > 60) npct = 60;
        for (int i = 0; i < npct; i++) pct_points[i] = 1 + rng_sched.below((u64)c.pparam2 + 1);
    }
    if (c.policy == P_EXPLICIT) { size_t k = 0; while (k < c.ndevs && c.devs[k].task < (u32)MAXT) k++; ctl.dcur = k; ctl.dend = c.ndevs; }
    alloc_begin_run(c);
    omp_begin_run();
    std::set_terminate(on_terminate);
    stack_t ss{}; ss.ss_sp = rt_alloc_raw(65536); ss.ss_size = 65536; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK;
    const int sg[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM, SIGPROF};
    for (int s : sg) sigaction(s, &sa, nullptr);
    alarm(60);
}
}
