#pragma once
#include "rt.hpp"
#include <pthread.h>
#include <new>
namespace sim {
constexpr u64 ARENA_BASE = 0x100000000000ull;
constexpr u64 ARENA_SIZE = 1ull << 30;
enum { IDLE, READY, RUN, BLOCKED, STALLED, GONE };
enum { K_READ = 1, K_WRITE, K_ALOAD, K_ARMW, K_SYNC, K_ALLOC, K_YIELD, K_OMP, K_BLAS };

struct Team; struct DTask; struct TCtx;
struct Task {
    int idx = 0; u32 word = 0; int state = IDLE; bool active = false; int opaque = 0; int rt = 0; bool oneshot = false;
    u64 lev = 0; int step = -1; int client = -1; void* wobj = nullptr; long prio = 0; u64 spin = 0; bool stall_done = false;
    size_t dcur = 0, dend = 0;
    u64 pw_addr = 0; u32 pw_size = 0; u64 pw_old = 0;                       // a write to a stack, judged once its value is known
    u32 vid = 0; u32 vc[MAXV] = {};
    void (*entry)(Task*) = nullptr; void* earg = nullptr;
    pthread_t th{};
    Task* parent = nullptr;                 // master of the team this task works for
    Team* team = nullptr; int tnum = 0; u32 wsidx = 0; long ws_static_next = 0;
    Task* pool[8][MAXTEAM] = {};               // its own workers
    void (*fn)(void*) = nullptr; void* fdata = nullptr;
    bool armed = false; FaultPlan fp; FaultReport fr{};
    void* (*pt_fn)(void*) = nullptr; void* pt_arg = nullptr; void* pt_ret = nullptr; bool pt_done = false;
    int nthreads_var = 0;                   // omp_set_num_threads
    u64 ticket = ~0ull; TCtx* tctx = nullptr; void* tgroup = nullptr;      // turn in an ordered loop; the explicit task being executed
    int league_n = 0, league_id = 0, data_top = 0; void* data_env[16] = {};    // teams of a target region; open target data regions
};
extern Cfg cfg;
Task* new_task();
Task* task_at(int i);
void judge_stack_write(Task*);
void start_vc(Task*, const u32* from); void tick_vc(Task*);
void vc_join(Task* into, Task* from);
void race_only(u64, size_t, bool);
void describe_block(u64 addr, char* buf, size_t n);
void resolve_real();
extern int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
void end_process();
void omp_begin_run();
}
