// Allocator seam: fixed-address arena with redzones and addressability shadow,
// seed-chosen stale content, nth-allocation failure, live-block accounting.
#include "rt_int.hpp"
#include <cerrno>
#include <cstdio>
#include <cstring>
#include <new>
#include <sys/mman.h>
#include <unistd.h>
using namespace sim;

namespace {
struct Hdr { u64 magic; u64 size; u64 user; u32 op; int step; u64 serial; u64 pad[1]; };   // precedes the user block
constexpr u64 MAGIC = 0x51A110C8ED51A110ull, FREED = 0xDEADF4EE51A110C8ull;
constexpr size_t RZ = 64;
char* cur = nullptr; char* lim = nullptr; u8* shadow = nullptr; bool up = false;
u64 live_op = 0, serial = 0; bool run_on = false; int fillk = F_NAN; int reuse = 0; Rng rng_fill(0);
char* run_base = nullptr;
// LIFO free lists by 16-byte size class (reuse mode)
Hdr* freel[1024];

void setup() {
    void* p = mmap((void*)ARENA_BASE, ARENA_SIZE, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    void* q = mmap((void*)0x1F0000000000ull, ARENA_SIZE / 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p == MAP_FAILED || q == MAP_FAILED) { static const char m[] = "sim: cannot map the arena\n"; (void)!write(2, m, sizeof m - 1); _exit(3); }
    cur = (char*)p; lim = cur + ARENA_SIZE / 2; shadow = (u8*)q; up = true;
}
// shadow byte per 8-byte granule: 0 = not addressable, 1..8 = first k bytes addressable
inline u8* sh(u64 a) { return shadow + ((a - ARENA_BASE) >> 3); }
void mark(u64 a, size_t n) { size_t w = n / 8; for (size_t i = 0; i < w; i++) sh(a)[i] = 8; if (n & 7) sh(a)[w] = n & 7; }
void unmark(u64 a, size_t n) { size_t w = (n + 7) / 8; for (size_t i = 0; i < w; i++) sh(a)[i] = 0; }
inline bool inside(const void* p) { u64 a = (u64)p; return a >= ARENA_BASE && a < ARENA_BASE + ARENA_SIZE; }
void dirty(char* p, size_t n) {
    switch (fillk) {
    case F_ZERO: for (size_t i = 0; i < n; i++) p[i] = 0; break;
    case F_NAN: for (size_t i = 0; i < n; i++) p[i] = (char)0xFF; break;
    case F_RANDOM: for (size_t i = 0; i < n; i++) { p[i] = (char)(i % 8 == 7 ? 0x41 : rng_fill.next()); } break;
    default: break;
    }
    if (R) R->dirty_bytes += n;
}
void* take(size_t n, size_t align) {
    if (!up) setup();
    if (align < 16) align = 16;
    Task* t = self; bool lv = in_op();
    if (live()) {            // allocations of the numerical backend itself are not the library's
        R->allocs++;
        point(K_ALLOC, 0);
        if (fault_alloc_now()) return nullptr;
    }
    bool clean = n > (64u << 20);
    if (n > ARENA_SIZE / 4) return nullptr;
    if (run_on && reuse == 1 && align == 16) {
        size_t c = (n + 15) / 16;
        if (c < 1024 && freel[c]) {
            Hdr* h = freel[c]; freel[c] = (Hdr*)h->pad[0];
            h->magic = MAGIC; h->size = n; h->op = lv; h->step = t ? t->step : -1; h->serial = ++serial;
            char* u = (char*)h->user; mark((u64)u, n); clear_shadow((u64)u, n);
            if (fillk != F_STALE) dirty(u, n);
            if (lv) live_op++;
            return u;
        }
    }
    char* u = (char*)(((u64)cur + RZ + sizeof(Hdr) + align - 1) & ~(u64)(align - 1));
    char* end = u + ((n + 15) & ~15ul);
    if (end + RZ > (run_on ? (char*)ARENA_BASE + ARENA_SIZE : lim)) { static const char m[] = "sim: arena exhausted\n"; (void)!write(2, m, sizeof m - 1); _exit(4); }
    cur = end;
    Hdr* h = (Hdr*)(u - sizeof(Hdr));
    *h = Hdr{MAGIC, n, (u64)u, lv, t ? t->step : -1, ++serial, {0}};
    mark((u64)u, n);
    if (run_on && !clean) { if (fillk == F_STALE) { for (size_t i = 0; i < n; i++) u[i] = (char)(i % 8 == 7 ? 0x40 : 0x55); } else dirty(u, n); }
    if (lv) live_op++;
    return u;
}
void give(void* p) {
    if (!p || !inside(p)) return;
    Hdr* h = (Hdr*)((char*)p - sizeof(Hdr));
    if (h->magic != MAGIC) {
        if (run_on && in_run()) violation("bad-free", "%s of a pointer that is not a live block", h->magic == FREED ? "second free" : "free");
        return;
    }
    if ((u64)p < (u64)run_base && run_on) return;            // zygote memory
    if (live()) point(K_ALLOC, 1);
    if (h->op && live_op) live_op--;
    h->magic = FREED;
    clear_shadow((u64)p, h->size);
    unmark((u64)p, h->size);
    if (run_on) {
        if (reuse == 1) { size_t c = (h->size + 15) / 16; if (c < 1024 && ((u64)p & 15) == 0) { h->pad[0] = (u64)freel[c]; freel[c] = h; } }
        else if (fillk != F_STALE) for (size_t i = 0; i < h->size; i++) ((char*)p)[i] = (char)0xFD;
    }
}
}
namespace sim {
void alloc_begin_run(const Cfg& c) {
    if (!up) setup();
    cur = (char*)ARENA_BASE + ARENA_SIZE / 2; run_base = cur; run_on = true; live_op = 0; serial = 0;
    fillk = c.fill; reuse = c.reuse; rng_fill = Rng(mix(c.seed, 33));
}
u64 live_blocks() { return live_op; }
bool range_ok(const void* p, size_t n) {
    if (!inside(p) || !n) return true;
    u64 a = (u64)p, e = a + n;
    while (a < e) { u64 off = a & 7, len = 8 - off; if (len > e - a) len = e - a; if (*sh(a) < off + len) return false; a += len; }
    return true;
}
void describe_block(u64 addr, char* buf, size_t n) {
    // walk back over the shadow to the block that precedes the address
    u64 a = addr & ~7ull; u64 low = addr > (1u << 22) + ARENA_BASE ? addr - (1u << 22) : ARENA_BASE;
    for (u64 g = a; g > low; g -= 8) {
        Hdr* h = (Hdr*)g;
        if ((h->magic == MAGIC || h->magic == FREED) && h->user == g + sizeof(Hdr)) {
            snprintf(buf, n, "block #%llu (%llu bytes%s) at offset %lld", (unsigned long long)h->serial, (unsigned long long)h->size, h->magic == FREED ? ", freed" : "", (long long)(addr - h->user));
            return;
        }
    }
    snprintf(buf, n, "heap");
}
void check_addressable(u64 addr, size_t size, bool wr) {
    if (addr - ARENA_BASE >= ARENA_SIZE) { if (addr < 65536) violation("bad-access", "%s of %zu byte(s) through a null pointer (address %llu)", wr ? "write" : "read", size, (unsigned long long)addr); return; }
    R->oob_checked++;
    u64 off = addr & 7;
    if (off + size <= 8) { if (*sh(addr) >= off + size) return; }
    else if (range_ok((void*)addr, size)) return;
    char buf[160]; describe_block(addr, buf, sizeof buf);
    violation("bad-access", "%s of %zu byte(s) outside live memory: %s", wr ? "write" : "read", size, buf);
}
}
#define EXP extern "C" __attribute__((visibility("default"), used))
EXP void* malloc(size_t n) { void* p = take(n, 16); if (!p) errno = ENOMEM; return p; }
EXP void free(void* p) { give(p); }
EXP void* calloc(size_t a, size_t b) { size_t n; if (__builtin_mul_overflow(a, b, &n)) return nullptr; void* p = take(n, 16); if (p) for (size_t i = 0; i < n; i++) ((volatile char*)p)[i] = 0; return p; }
EXP void* realloc(void* p, size_t n) {
    if (!p) return malloc(n);
    if (!n) { give(p); return nullptr; }
    void* q = take(n, 16); if (!q) { errno = ENOMEM; return nullptr; }
    size_t o = inside(p) ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : n; if (o > n) o = n;
    for (size_t i = 0; i < o; i++) ((volatile char*)q)[i] = ((char*)p)[i];
    give(p); return q;
}
EXP void* memalign(size_t al, size_t n) { void* p = take(n, al); if (!p) errno = ENOMEM; return p; }
EXP void* aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
EXP int posix_memalign(void** o, size_t al, size_t n) { void* p = take(n, al); if (!p) return ENOMEM; *o = p; return 0; }
EXP void* valloc(size_t n) { return memalign(4096, n); }
EXP size_t malloc_usable_size(void* p) { return inside(p) ? ((Hdr*)((char*)p - sizeof(Hdr)))->size : 0; }

void* operator new(size_t n) { void* p = take(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n) { void* p = take(n, 16); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n, 16); }
void* operator new(size_t n, std::align_val_t a) { void* p = take(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void* operator new[](size_t n, std::align_val_t a) { void* p = take(n, (size_t)a); if (!p) throw std::bad_alloc(); return p; }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
void operator delete(void* p, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, std::align_val_t) noexcept { give(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { give(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { give(p); }
