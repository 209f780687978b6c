// __tsan_* runtime: every instrumented memory access and atomic operation is a
// simulator event (race check, addressability check, yield point).
#include "rt_int.hpp"
#include <cstring>
using namespace sim;
#define EXP extern "C" __attribute__((visibility("default"), used))

EXP void __tsan_init() {}
EXP void __tsan_func_entry(void*) {}
EXP void __tsan_func_exit() {}
#define RW(N) \
    EXP void __tsan_read##N(void* p) { if (live()) on_access((u64)p, N, false); } \
    EXP void __tsan_write##N(void* p) { if (live()) on_access((u64)p, N, true); } \
    EXP void __tsan_unaligned_read##N(void* p) { if (live()) on_access((u64)p, N, false); } \
    EXP void __tsan_unaligned_write##N(void* p) { if (live()) on_access((u64)p, N, true); } \
    EXP void __tsan_volatile_read##N(void* p) { if (live()) on_access((u64)p, N, false); } \
    EXP void __tsan_volatile_write##N(void* p) { if (live()) on_access((u64)p, N, true); } \
    EXP void __tsan_unaligned_volatile_read##N(void* p) { if (live()) on_access((u64)p, N, false); } \
    EXP void __tsan_unaligned_volatile_write##N(void* p) { if (live()) on_access((u64)p, N, true); } \
    EXP void __tsan_read##N##_pc(void* p, void*) { if (live()) on_access((u64)p, N, false); } \
    EXP void __tsan_write##N##_pc(void* p, void*) { if (live()) on_access((u64)p, N, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
EXP void __tsan_vptr_update(void** p, void* v) { if (live() && *p != v) on_access((u64)p, 8, true); }
EXP void __tsan_vptr_read(void** p) { if (live()) on_access((u64)p, 8, false); }
EXP void __tsan_read_range(void* p, unsigned long n) { if (live() && n) on_access((u64)p, n, false); }
EXP void __tsan_write_range(void* p, unsigned long n) { if (live() && n) on_access((u64)p, n, true); }

// --- atomics ---------------------------------------------------------------
typedef unsigned __int128 a128;
static inline bool acq(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static inline bool rel(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
// Only one task runs at a time, so a plain operation between two events is atomic.
template<class F> static inline auto at_op(void* p, size_t n, int kind, bool a, bool r, F f) {
    bool l = live();
    if (!l) return f();
    const u64 spun = self->spin; a128 was = 0, now = 0;
    check_addressable((u64)p, n, kind != K_ALOAD); point(kind, (u64)p); if (a) acquire(p);
    if (kind == K_ARMW) memcpy(&was, p, n);
    auto v = f();
    if (kind == K_ARMW) { memcpy(&now, p, n); if (was == now) self->spin = spun + 1; }      // changes nothing: waiting, like a load
    if (r) release(p);
    return v;
}
#define ATOM(B, T) \
    EXP T __tsan_atomic##B##_load(const volatile T* p, int mo) { return at_op((void*)p, sizeof(T), K_ALOAD, acq(mo), false, [&] { return *p; }); } \
    EXP void __tsan_atomic##B##_store(volatile T* p, T v, int mo) { at_op((void*)p, sizeof(T), K_ARMW, false, rel(mo), [&] { *p = v; return 0; }); } \
    EXP T __tsan_atomic##B##_exchange(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = v; return o; }); } \
    EXP T __tsan_atomic##B##_fetch_add(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)(o + v); return o; }); } \
    EXP T __tsan_atomic##B##_fetch_sub(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)(o - v); return o; }); } \
    EXP T __tsan_atomic##B##_fetch_and(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)(o & v); return o; }); } \
    EXP T __tsan_atomic##B##_fetch_or(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)(o | v); return o; }); } \
    EXP T __tsan_atomic##B##_fetch_xor(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)(o ^ v); return o; }); } \
    EXP T __tsan_atomic##B##_fetch_nand(volatile T* p, T v, int mo) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; *p = (T)~(o & v); return o; }); } \
    EXP int __tsan_atomic##B##_compare_exchange_strong(volatile T* p, T* c, T v, int mo, int) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; }); } \
    EXP int __tsan_atomic##B##_compare_exchange_weak(volatile T* p, T* c, T v, int mo, int) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; if (o == *c) { *p = v; return 1; } *c = o; return 0; }); } \
    EXP T __tsan_atomic##B##_compare_exchange_val(volatile T* p, T c, T v, int mo, int) { return at_op((void*)p, sizeof(T), K_ARMW, acq(mo), rel(mo), [&] { T o = *p; if (o == c) *p = v; return o; }); }
ATOM(8, u8) ATOM(16, uint16_t) ATOM(32, u32) ATOM(64, u64) ATOM(128, a128)
static char fence_obj;
EXP void __tsan_atomic_thread_fence(int mo) { if (live()) { point(K_SYNC, 0); if (acq(mo)) acquire(&fence_obj); if (rel(mo)) release(&fence_obj); } }
EXP void __tsan_atomic_signal_fence(int) {}
EXP void __tsan_acquire(void* p) { if (live()) acquire(p); }
EXP void __tsan_release(void* p) { if (live()) release(p); }

// --- memcpy family (calls in instrumented objects are renamed to these) ---------
static inline void range_ev(const void* p, size_t n, bool w) { check_addressable((u64)p, n, w); race_only((u64)p, n, w); }
EXP void* sim_memcpy(void* d, const void* s, size_t n) {
    if (n && live()) { range_ev(s, n, false); range_ev(d, n, true); point(K_READ, (u64)s);
        if (n >= 32) {   // a copy is not atomic: let others run in the middle
            size_t h = n / 2 & ~7ul; memcpy(d, s, h); point(K_WRITE, (u64)d); memcpy((char*)d + h, (const char*)s + h, n - h); return d; } }
    return memcpy(d, s, n);
}
EXP void* sim_memmove(void* d, const void* s, size_t n) {
    if (n && live()) { range_ev(s, n, false); range_ev(d, n, true); point(K_READ, (u64)s);
        bool overlap = (u64)d < (u64)s + n && (u64)s < (u64)d + n;
        if (n >= 32 && !overlap) { size_t h = n / 2 & ~7ul; memcpy(d, s, h); point(K_WRITE, (u64)d); memcpy((char*)d + h, (const char*)s + h, n - h); return d; } }
    return memmove(d, s, n);
}
EXP void* sim_memset(void* d, int c, size_t n) {
    if (n && live()) { range_ev(d, n, true); point(K_WRITE, (u64)d); }
    return memset(d, c, n);
}
EXP int sim_memcmp(const void* a, const void* b, size_t n) {
    if (n && live()) { range_ev(a, n, false); range_ev(b, n, false); point(K_READ, (u64)a); }
    return memcmp(a, b, n);
}
EXP void* __tsan_memcpy(void* d, const void* s, size_t n) { return sim_memcpy(d, s, n); }
EXP void* __tsan_memmove(void* d, const void* s, size_t n) { return sim_memmove(d, s, n); }
EXP void* __tsan_memset(void* d, int c, size_t n) { return sim_memset(d, c, n); }
