// pthread / futex / guard / clock seams.
#include "rt_int.hpp"
#include <cerrno>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <linux/futex.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default"), used))
namespace sim {
int (*real_pthread_create)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
}
static int (*r_join)(pthread_t, void**); static int (*r_detach)(pthread_t);
static int (*r_lock)(pthread_mutex_t*), (*r_unlock)(pthread_mutex_t*), (*r_trylock)(pthread_mutex_t*);
static int (*r_cwait)(pthread_cond_t*, pthread_mutex_t*), (*r_csig)(pthread_cond_t*), (*r_cbc)(pthread_cond_t*);
static int (*r_ctw)(pthread_cond_t*, pthread_mutex_t*, const timespec*);
static int (*r_rd)(pthread_rwlock_t*), (*r_wr)(pthread_rwlock_t*), (*r_rwu)(pthread_rwlock_t*);
static int (*r_once)(pthread_once_t*, void (*)(void));
static void* next_sym(const char* n) { void* p = dlsym(RTLD_NEXT, n); return p; }
template<class F> static void ld(F& f, const char* n) { if (!f) f = (F)next_sym(n); }
namespace sim {
void resolve_real() {
    ld(real_pthread_create, "pthread_create"); ld(r_join, "pthread_join"); ld(r_detach, "pthread_detach");
    ld(r_lock, "pthread_mutex_lock"); ld(r_unlock, "pthread_mutex_unlock"); ld(r_trylock, "pthread_mutex_trylock");
    ld(r_cwait, "pthread_cond_wait"); ld(r_csig, "pthread_cond_signal"); ld(r_cbc, "pthread_cond_broadcast"); ld(r_ctw, "pthread_cond_timedwait");
    ld(r_rd, "pthread_rwlock_rdlock"); ld(r_wr, "pthread_rwlock_wrlock"); ld(r_rwu, "pthread_rwlock_unlock"); ld(r_once, "pthread_once");
}
}
// cooperative locks, keyed by address
struct L { void* key; Task* owner; int readers; int depth; };
static L locks[1024];
static L* lock_of(void* k) {
    u64 h = ((u64)k * 0x9E3779B97F4A7C15ull) >> 54;
    for (int i = 0; i < 1024; i++) { L* l = &locks[(h + i) & 1023]; if (l->key == k) return l; if (!l->key) { l->key = k; return l; } }
    return &locks[h];
}
static int mlock(pthread_mutex_t* m) {
    L* l = lock_of(m); point(K_SYNC, 0);
    bool recursive = (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
    while (l->owner) {
        if (l->owner == self) { if (recursive) { l->depth++; return 0; } violation("deadlock", "a thread waits for a mutex it already holds"); }
        block_on(l);
    }
    l->owner = self; l->depth = 1; acquire(l); return 0;
}
static int munlock(pthread_mutex_t* m) { L* l = lock_of(m); if (l->depth > 1) { l->depth--; return 0; } l->owner = nullptr; l->depth = 0; release(l); wake_all(l); point(K_SYNC, 1); return 0; }
EXP int pthread_mutex_lock(pthread_mutex_t* m) { if (live()) return mlock(m); ld(r_lock, "pthread_mutex_lock"); return r_lock(m); }
EXP int pthread_mutex_unlock(pthread_mutex_t* m) { if (live()) return munlock(m); ld(r_unlock, "pthread_mutex_unlock"); return r_unlock(m); }
EXP int pthread_mutex_trylock(pthread_mutex_t* m) {
    if (live()) { L* l = lock_of(m); const u64 spun = self->spin; point(K_SYNC, 2); if (l->owner) { self->spin = spun + 16; return EBUSY; } l->owner = self; l->depth = 1; acquire(l); return 0; }
    ld(r_trylock, "pthread_mutex_trylock"); return r_trylock(m);
}
static char cond_seq[1];
EXP int pthread_cond_wait(pthread_cond_t* c, pthread_mutex_t* m) {
    if (!live()) { ld(r_cwait, "pthread_cond_wait"); return r_cwait(c, m); }
    (void)cond_seq;
    L* l = lock_of(m); l->owner = nullptr; release(l); wake_all(l);
    block_on(c);
    while (l->owner) block_on(l);
    l->owner = self; l->depth = 1; acquire(l); acquire(c); return 0;
}
EXP int pthread_cond_timedwait(pthread_cond_t* c, pthread_mutex_t* m, const timespec* ts) {
    if (!live()) { ld(r_ctw, "pthread_cond_timedwait"); return r_ctw(c, m, ts); }
    munlock(m); point(K_YIELD, 0); self->spin += 64; mlock(m); return ETIMEDOUT;   // the simulated clock jumps to the deadline
}
EXP int pthread_cond_clockwait(pthread_cond_t* c, pthread_mutex_t* m, clockid_t, const timespec* ts) { return pthread_cond_timedwait(c, m, ts); }
EXP int pthread_cond_signal(pthread_cond_t* c) { if (!live()) { ld(r_csig, "pthread_cond_signal"); return r_csig(c); } release(c); wake_all(c); point(K_SYNC, 3); return 0; }
EXP int pthread_cond_broadcast(pthread_cond_t* c) { if (!live()) { ld(r_cbc, "pthread_cond_broadcast"); return r_cbc(c); } release(c); wake_all(c); point(K_SYNC, 3); return 0; }
EXP int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (!live()) { ld(r_rd, "pthread_rwlock_rdlock"); return r_rd(m); } L* l = lock_of(m); point(K_SYNC, 0); while (l->owner) block_on(l); l->readers++; acquire(l); return 0; }
EXP int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (!live()) { ld(r_wr, "pthread_rwlock_wrlock"); return r_wr(m); } L* l = lock_of(m); point(K_SYNC, 0); while (l->owner || l->readers) block_on(l); l->owner = self; acquire(l); return 0; }
EXP int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (!live()) { ld(r_rwu, "pthread_rwlock_unlock"); return r_rwu(m); } L* l = lock_of(m); if (l->owner == self) l->owner = nullptr; else if (l->readers) l->readers--; release(l); wake_all(l); point(K_SYNC, 1); return 0; }
static int try_until(pthread_mutex_t* m) { if (pthread_mutex_trylock(m) == 0) return 0; for (int i = 0; i < 40; i++) { point(K_YIELD, 0); if (pthread_mutex_trylock(m) == 0) return 0; } return ETIMEDOUT; }
EXP int pthread_mutex_timedlock(pthread_mutex_t* m, const timespec*) { if (!live()) return pthread_mutex_lock(m); return try_until(m); }
EXP int pthread_mutex_clocklock(pthread_mutex_t* m, clockid_t, const timespec*) { if (!live()) return pthread_mutex_lock(m); return try_until(m); }
static int rwtry(pthread_rwlock_t* m, bool w) { const u64 spun = self->spin; point(K_SYNC, 2); L* l = lock_of(m); if (l->owner || (w && l->readers)) { self->spin = spun + 16; return EBUSY; } if (w) l->owner = self; else l->readers++; acquire(l); return 0; }
EXP int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { if (!live()) return pthread_rwlock_rdlock(m); return rwtry(m, false); }
EXP int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { if (!live()) return pthread_rwlock_wrlock(m); return rwtry(m, true); }
EXP int pthread_spin_init(pthread_spinlock_t* l, int) { *l = 0; return 0; }
EXP int pthread_spin_destroy(pthread_spinlock_t*) { return 0; }
EXP int pthread_spin_lock(pthread_spinlock_t* p) { if (!live()) return 0; L* l = lock_of((void*)p); point(K_SYNC, 0); while (l->owner) { if (l->owner == self) violation("deadlock", "a thread waits for a spin lock it already holds"); block_on(l); } l->owner = self; acquire(l); return 0; }
EXP int pthread_spin_trylock(pthread_spinlock_t* p) { if (!live()) return 0; const u64 spun = self->spin; L* l = lock_of((void*)p); point(K_SYNC, 0); if (l->owner) { self->spin = spun + 16; return EBUSY; } l->owner = self; acquire(l); return 0; }
EXP int pthread_spin_unlock(pthread_spinlock_t* p) { if (!live()) return 0; L* l = lock_of((void*)p); l->owner = nullptr; release(l); wake_all(l); point(K_SYNC, 1); return 0; }
struct Bar { unsigned n, here; u64 gen; };
EXP int pthread_barrier_init(pthread_barrier_t* b, const pthread_barrierattr_t*, unsigned n) { Bar* x = (Bar*)b; x->n = n; x->here = 0; x->gen = 0; return 0; }
EXP int pthread_barrier_destroy(pthread_barrier_t*) { return 0; }
EXP int pthread_barrier_wait(pthread_barrier_t* b) {
    Bar* x = (Bar*)b; if (!live()) return PTHREAD_BARRIER_SERIAL_THREAD;
    point(K_SYNC, 0); release(b); const u64 g = x->gen; bool last = ++x->here == x->n;
    if (last) { x->here = 0; x->gen++; wake_all(b); } else while (x->gen == g) block_on(b);
    acquire(b); point(K_SYNC, 1); return last ? PTHREAD_BARRIER_SERIAL_THREAD : 0;
}
EXP int sem_init(sem_t* s, int, unsigned v) { *(long*)s = (long)v; return 0; }
EXP int sem_destroy(sem_t*) { return 0; }
EXP int sem_wait(sem_t* s) { long* v = (long*)s; if (!live()) { --*v; return 0; } point(K_SYNC, 0); while (*v <= 0) block_on(s); --*v; acquire(s); return 0; }
EXP int sem_trywait(sem_t* s) { long* v = (long*)s; if (!live()) { if (*v <= 0) { errno = EAGAIN; return -1; } --*v; return 0; } const u64 spun = self->spin; point(K_SYNC, 0); if (*v <= 0) { self->spin = spun + 16; errno = EAGAIN; return -1; } --*v; acquire(s); return 0; }
EXP int sem_post(sem_t* s) { long* v = (long*)s; ++*v; if (!live()) return 0; release(s); wake_all(s); point(K_SYNC, 1); return 0; }
EXP int pthread_once(pthread_once_t* o, void (*f)(void)) {
    if (!live()) { ld(r_once, "pthread_once"); return r_once(o, f); }
    L* l = lock_of(o); point(K_SYNC, 0);
    if (*(int*)o == 2) { acquire(l); return 0; }            // done (same final state as glibc)
    while (l->owner) block_on(l);
    if (*(int*)o == 2) { acquire(l); return 0; }
    l->owner = self;
    struct Back { L* l; pthread_once_t* o; bool ok = false; ~Back() { if (ok) *(int*)o = 2; l->owner = nullptr; release(l); wake_all(l); } } b{l, o};
    f(); b.ok = true; return 0;
}
// function-local statics
EXP int __cxa_guard_acquire(u64* g) {
    if (*(u8*)g) { if (live()) acquire(g); return 0; }
    if (!live()) { return 1; }
    L* l = lock_of(g); point(K_SYNC, 0);
    for (;;) { if (*(u8*)g) { acquire(g); return 0; } if (!l->owner) break; if (l->owner == self) violation("deadlock", "recursive initialisation of a local static"); block_on(l); }
    l->owner = self; return 1;
}
EXP void __cxa_guard_release(u64* g) { *(u8*)g = 1; if (live()) { L* l = lock_of(g); l->owner = nullptr; release(g); wake_all(l); } }
EXP void __cxa_guard_abort(u64* g) { if (live()) { L* l = lock_of(g); l->owner = nullptr; wake_all(l); } }

// threads created by the code under test
struct PT { Task* t; };
static void pt_entry(Task* t) { t->active = true; point(K_SYNC, 4); t->pt_ret = t->pt_fn(t->pt_arg); release(t); t->pt_done = true; wake_all(t); }
EXP int pthread_create(pthread_t* th, const pthread_attr_t* at, void* (*f)(void*), void* a) {
    if (!live()) { ld(real_pthread_create, "pthread_create"); return real_pthread_create(th, at, f, a); }
    Task* t = new_task(); t->oneshot = true; t->entry = pt_entry; t->pt_fn = f; t->pt_arg = a; t->step = self->step; t->client = self->client; t->parent = self;
    start_vc(t, self->vc); tick_vc(self); t->state = READY; *th = t->th;
    point(K_SYNC, 5); return 0;
}
static Task* by_thread(pthread_t th) { for (int i = 0; task_at(i); i++) if (task_at(i)->pt_fn && pthread_equal(task_at(i)->th, th)) return task_at(i); return nullptr; }
EXP int pthread_join(pthread_t th, void** ret) {
    if (!live()) { ld(r_join, "pthread_join"); return r_join(th, ret); }
    Task* t = by_thread(th); if (!t) return ESRCH;
    while (!t->pt_done) block_on(t);
    acquire(t); vc_join(self, t); if (ret) *ret = t->pt_ret; return 0;
}
EXP int pthread_detach(pthread_t th) { if (!live()) { ld(r_detach, "pthread_detach"); return r_detach(th); } return 0; }

EXP int sched_yield() { if (live()) { point(K_YIELD, 0); return 0; } return 0; }
EXP int nanosleep(const timespec*, timespec*) { if (live()) point(K_YIELD, 0); return 0; }
EXP int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { if (live()) point(K_YIELD, 0); return 0; }
EXP int usleep(useconds_t) { if (live()) point(K_YIELD, 0); return 0; }

// futex-based primitives of libstdc++ (atomic wait, semaphores, futures)
EXP long syscall(long n, ...) {
    va_list ap; va_start(ap, n); long a[6]; for (long& x : a) x = va_arg(ap, long); va_end(ap);
    if (n == SYS_futex && live()) {
        u32* addr = (u32*)a[0]; int op = (int)a[1] & 127;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            point(K_SYNC, 6); if (*(volatile u32*)addr != (u32)a[2]) { errno = EAGAIN; return -1; }
            if (a[3]) { self->spin += 64; point(K_YIELD, 0); errno = ETIMEDOUT; return -1; }
            block_on(addr); return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) { wake_all(addr); point(K_SYNC, 7); return 1; }
    }
    long r; register long r10 asm("r10") = a[3]; register long r8 asm("r8") = a[4]; register long r9 asm("r9") = a[5];
    asm volatile("syscall" : "=a"(r) : "a"(n), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (r < 0 && r > -4096) { errno = (int)-r; return -1; }
    return r;
}
