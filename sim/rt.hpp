// Deterministic simulator runtime: public interface used by the harness.
#pragma once
#include <cstddef>
#include <cstdint>

namespace sim {
using u8 = uint8_t; using u32 = uint32_t; using u64 = uint64_t;

struct Rng {                        // splitmix64
    u64 s;
    explicit Rng(u64 seed = 0) : s(seed) {}
    u64 next() { u64 z = (s += 0x9E3779B97F4A7C15ull); z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull; return z ^ (z >> 31); }
    u64 below(u64 n) { return n ? next() % n : 0; }
    bool one_in(u64 n) { return below(n) == 0; }
    long range(long a, long b) { return a + (long)below((u64)(b - a + 1)); }
    double unit() { return (double)(next() >> 11) * 0x1p-53; }
    double sym() { return 2.0 * unit() - 1.0; }
};
inline u64 mix(u64 a, u64 b) { Rng r(a * 0x2545F4914F6CDD1Dull + b + 0x1234567); r.next(); return r.next(); }

constexpr int MAXT = 160;           // OS threads of one run
constexpr int MAXV = 224;           // vector clock width
constexpr int MAXDEV = 60000;       // recorded schedule deviations
constexpr int MAXTEAM = 72;

enum Policy { P_NONE, P_RANDOM, P_PCT, P_RR, P_STALL, P_EXPLICIT, P_COUNT };
enum Fill { F_ZERO, F_NAN, F_RANDOM, F_STALE, F_COUNT };

struct Dev { u32 task; u32 target; u64 lev; };

struct Cfg {
    u64 seed = 1;
    int policy = P_NONE;
    long pparam = 0;                // RANDOM: 1/p, PCT: depth, RR: quantum, STALL: local event
    long pparam2 = 0;               // PCT: horizon, STALL: victim
    int fill = F_NAN;
    int reuse = 0;                  // 0 quarantine, 1 LIFO reuse
    int max_levels = 1;             // active nested parallel levels
    int team_mode = 0;              // 0 seeded, >0 fixed size
    int blas_sim = 0;               // 0 real OpenBLAS, 1 simulated partitioned backend
    int device = 0;                 // accelerator: 0 none, 1 shares the host's memory, 2 has its own memory
    u64 budget = 60000000;          // events before "no progress"
    const Dev* devs = nullptr; size_t ndevs = 0;
};

// One result per run, in memory shared with the zygote.
struct Result {
    int done;                       // 1: the run finished (or was ended on purpose)
    int violation;
    int terminated;                 // the program ended itself while a fault was outstanding (accepted)
    char cls[48];                   // violation class
    char msg[1400];
    int step;
    u64 ticks, hash, sched_hash, switches, blocks;
    u64 allocs, alloc_faults, lapack_faults, teams, team_threads, chunks, blas_real, blas_simulated, lapack_calls;
    u64 target_regions, device_teams, device_maps;
    u64 stalls, dirty_bytes, sync_ops, races_checked, oob_checked, nested_regions;
    u64 steps_run, exceptions, verified, fail_reported, fail_completed;
    u64 state_hash;
    u64 ndev; int dev_overflow;
    Dev devs[MAXDEV];
};
extern Result* R;

// --- life cycle of a run -------------------------------------------------
void init_process();                        // once, in the zygote
void begin_run(const Cfg& c, Result* r);    // in the child
// Runs fn(arg, i) for i in [0, n) as concurrent client tasks; returns when all are done.
void run_clients(int n, void (*fn)(void*, int), void* arg);
[[noreturn]] void finish_run();

// --- used by client code ---------------------------------------------------
[[noreturn]] void violation(const char* cls, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void set_active(bool on);                   // instrumented section of the calling task
bool active();
struct Active { Active() { set_active(true); } ~Active() { set_active(false); } };

// Per-task fault plan for the following instrumented section.
struct FaultPlan { long alloc_nth = 0; int lapack_code = 0; long lapack_nth = 0; };
void arm(const FaultPlan& f);
struct FaultReport { u64 allocs; u64 fired; u64 lapack_fired; u64 lapack_calls; };
FaultReport disarm();
void accept_terminate(bool ok);             // terminate() is an accepted outcome while a fault fired
u64 live_blocks();                          // blocks allocated inside instrumented sections and still live
void note_step(int step);
bool in_run();
u64 task_rand();
int self_index();

// runtime-internal helpers shared by the seams
struct Task;
extern thread_local Task* self;
void point(int kind, u64 addr);             // yield point
void block_on(void* obj);                   // the calling task waits until wake_all(obj)
void wake_all(void* obj);
void on_access(u64 addr, size_t size, bool write);
void on_range(const void* p, size_t size, bool write);
void acquire(void* sync); void release(void* sync);
void clear_shadow(u64 addr, size_t size);
void check_addressable(u64 addr, size_t size, bool write);
bool range_ok(const void* p, size_t size);
bool in_op();                               // ... also while inside an opaque backend call
bool live();                                // the caller is a task inside an instrumented section
void opaque_enter(); void opaque_leave();
u64 choice(u64 n);                          // seeded choice of the environment
void* rt_alloc_raw(size_t);                 // memory of the runtime itself (never freed)
void alloc_begin_run(const Cfg&);
bool fault_alloc_now();
int fault_lapack_now();
}
