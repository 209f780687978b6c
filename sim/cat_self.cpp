// Self-test of the simulated OpenMP runtime (not a property of the library): correct programs whose results do not
// depend on the schedule. Built and run by "check.py selftest" only. Uses the bit of C17, which no check claims.
// P17
#include "judge.hpp"
#include <omp.h>
#include <algorithm>
#include <numeric>
#include <atomic>
#include <barrier>
#include <condition_variable>
#include <future>
#include <latch>
#include <mutex>
#include <semaphore>
#include <semaphore.h>
#include <pthread.h>
#include <shared_mutex>
#include <thread>
namespace cat { namespace {
long fib(int n) { if (n < 2) return n; long a, b;
#pragma omp task shared(a)
    a = fib(n - 1);
#pragma omp task shared(b)
    b = fib(n - 2);
#pragma omp taskwait
    return a + b; }
struct Self : Inst {
    size_t n; int nt;
    struct Z : Slot { int which; std::vector<long> v, w; long got = 0, want = 0; bool order = true; };
    Self(const Par& p, Rng& r) : n((size_t)p.n + 2), nt((int)r.range(1, 8)) { name = "self-test"; }
    Slot* slot(Rng& r, int) override { Z* z = new Z; z->which = (int)r.below(40); if (const char* e = getenv("SELF_WHICH")) z->which = atoi(e); z->v.resize(n); for (auto& x : z->v) x = r.range(0, 9); z->w.assign(n, 0); z->want = std::accumulate(z->v.begin(), z->v.end(), 0L); return z; }
    void run(Slot* p) override {
        Z& z = *static_cast<Z*>(p); auto& v = z.v; auto& w = z.w; size_t n = v.size(); long got = 0; std::vector<long> seen; size_t last = 0; bool order = true; int N = (int)n;
        switch (z.which) {
        case 0:
#pragma omp parallel for reduction(+ : got)
            for (size_t i = 0; i < n; i++) got += v[i];
            break;
        case 1:
#pragma omp parallel for schedule(dynamic, 3) reduction(+ : got) num_threads(nt)
            for (size_t i = 0; i < n; i++) got += v[i];
            break;
        case 2:
#pragma omp parallel for ordered schedule(dynamic)
            for (size_t i = 0; i < n; i++) { long x = v[i];
#pragma omp ordered
                { order = order && last == i; last = i + 1; got += x; } }
            break;
        case 3:
#pragma omp parallel for ordered schedule(static, 2)
            for (int i = 0; i < N; i++) { long x = v[i];
#pragma omp ordered
                { order = order && last == (size_t)i; last = (size_t)i + 1; got += x; } }
            break;
        case 4:
#pragma omp parallel
#pragma omp single
            { got = fib(9); z.want = 34; }
            break;
        case 5:
#pragma omp parallel
#pragma omp single
            {
#pragma omp taskgroup
                { for (size_t i = 0; i < n; i++) {
#pragma omp task firstprivate(i) shared(w)
                    {
#pragma omp task firstprivate(i) shared(w)
                        w[i] = v[i];
                    } } }
                for (auto x : w) got += x;
            }
            break;
        case 6:
#pragma omp parallel
#pragma omp single
#pragma omp taskloop shared(w) grainsize(3)
            for (size_t i = 0; i < n; i++) w[i] = v[i];
            for (auto x : w) got += x;
            break;
        case 7:
#pragma omp parallel
#pragma omp single
            {
#pragma omp taskloop shared(w) num_tasks(4)
                for (int i = N - 1; i >= 0; i--) w[i] = v[i];
                for (auto x : w) got += x;
            }
            break;
        case 8:
#pragma omp parallel for ordered(1) schedule(static, 1)
            for (int i = 0; i < N; i++) {
#pragma omp ordered depend(sink : i - 1)
                w[i] = v[i] + (i ? w[i - 1] : 0);
#pragma omp ordered depend(source)
            }
            got = w[n - 1];
            break;
        case 9: { long a = 0, b = 0;
#pragma omp parallel sections
            {
#pragma omp section
                for (size_t i = 0; i < n / 2; i++) a += v[i];
#pragma omp section
                for (size_t i = n / 2; i < n; i++) b += v[i];
            }
            got = a + b; break; }
        case 10:
#pragma omp parallel for schedule(guided)
            for (size_t i = 0; i < n; i++) {
#pragma omp critical
                got += v[i];
            }
            break;
        case 11: { omp_lock_t l; omp_init_lock(&l);
#pragma omp parallel for schedule(runtime)
            for (size_t i = 0; i < n; i++) { omp_set_lock(&l); got += v[i]; omp_unset_lock(&l); }
            omp_destroy_lock(&l); break; }
        case 12:
#pragma omp parallel
            { long x = 0;
#pragma omp single copyprivate(x)
              x = 7;
#pragma omp for schedule(static) nowait
              for (size_t i = 0; i < n; i++) w[i] = v[i] * x;
#pragma omp for schedule(static)
              for (size_t i = 0; i < n; i++) w[i] = w[i] / 7;
#pragma omp for reduction(+ : got)
              for (size_t i = 0; i < n; i++) got += w[i]; }
            break;
        case 13:
#pragma omp parallel for collapse(2) reduction(+ : got)
            for (size_t i = 0; i < n; i++) for (int j = 0; j < 2; j++) got += v[i];
            z.want *= 2; break;
        case 14:
#pragma omp parallel num_threads(3)
            {
#pragma omp for
              for (size_t i = 0; i < n; i++) { long s = 0;
#pragma omp parallel for reduction(+ : s)
                  for (int j = 0; j < 3; j++) s += v[i];
                  w[i] = s; }
            }
            for (auto x : w) got += x;
            z.want *= 3; break;
        case 15:
#pragma omp parallel for
            for (size_t i = 0; i < n; i++) {
#pragma omp atomic
                got += v[i];
            }
            break;
        case 16:
#pragma omp parallel
            {
                const size_t k = (size_t)omp_get_num_threads(), t = (size_t)omp_get_thread_num(); long s = 0;
                for (size_t i = t * n / k; i < (t + 1) * n / k; i++) s += v[i];
#pragma omp atomic
                got += s;
#pragma omp barrier
#pragma omp master
                w[0] = got;
            }
            got = w[0]; break;
        case 17:
#pragma omp parallel
#pragma omp single
            for (size_t i = 0; i < n; i++) {
#pragma omp task depend(inout : got) firstprivate(i) shared(got)
                got = got + v[i];
            }
            break;
        case 18: { long m = -1;
#pragma omp parallel for simd reduction(max : m) schedule(static, 4)
            for (size_t i = 0; i < n; i++) m = std::max(m, v[i]);
            got = m; z.want = *std::max_element(v.begin(), v.end()); break; }
        case 19:
#pragma omp parallel for lastprivate(last) schedule(dynamic, 2)
            for (size_t i = 0; i < n; i++) last = i;
            got = (long)last; z.want = (long)n - 1; break;
        case 20:
#pragma omp parallel for ordered schedule(guided) num_threads(4)
            for (long i = (long)n - 1; i >= 0; i -= 2) { long x = v[(size_t)i];
#pragma omp ordered
                { seen.push_back(x); } }
            for (size_t k = 0; k < seen.size(); k++) order = order && seen[k] == v[n - 1 - 2 * k];
            got = (long)seen.size(); z.want = (long)((n + 1) / 2); break;
        // --- threads of the C++ library ---
        case 22: { std::vector<std::thread> t; std::mutex m; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { long s = 0; for (size_t i = (size_t)k; i < n; i += (size_t)nt) s += v[i]; std::lock_guard<std::mutex> g(m); got += s; }); for (auto& x : t) x.join(); break; }
        case 23: { std::vector<std::future<long>> f; for (int k = 0; k < nt; k++) f.push_back(std::async(std::launch::async, [&, k] { long s = 0; for (size_t i = (size_t)k; i < n; i += (size_t)nt) s += v[i]; return s; })); for (auto& x : f) got += x.get(); break; }
        case 24: { std::latch l(nt); std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) w[i] = v[i]; l.count_down(); }); l.wait(); for (auto x : w) got += x; break; }
        case 25: { std::barrier b(nt); std::atomic<long> a{0}; { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) w[i] = v[i]; b.arrive_and_wait(); for (size_t i = (size_t)k; i < n; i += (size_t)nt) a += w[n - 1 - i]; }); } got = a; break; }
        case 26: { std::counting_semaphore<4> q(0); { std::jthread t([&] { for (size_t i = 0; i < n; i++) { w[i] = v[i]; q.release(); if (i >= 3 && i % 3 == 0) std::this_thread::yield(); } }); for (size_t i = 0; i < n; i++) { q.acquire(); got += w[i]; } } break; }
        case 27: { std::mutex m; std::condition_variable c; size_t have = 0; { std::jthread t([&] { for (size_t i = 0; i < n; i++) { { std::lock_guard<std::mutex> g(m); w[i] = v[i]; have = i + 1; } c.notify_one(); } }); for (size_t i = 0; i < n; i++) { std::unique_lock<std::mutex> g(m); c.wait(g, [&] { return have > i; }); got += w[i]; } } break; }
        case 28: { std::shared_mutex m; long shared_sum = 0; { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) { { std::shared_lock<std::shared_mutex> g(m); (void)shared_sum; } std::unique_lock<std::shared_mutex> g(m); shared_sum += v[i]; } }); } got = shared_sum; break; }
        case 29: { std::once_flag o; { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&] { std::call_once(o, [&] { got = z.want; }); if (got != z.want) got = -1; }); } break; }
        case 30: { std::atomic<int> turn{0}; { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { int c; while ((c = turn.load()) != k) turn.wait(c); got += k; turn.store(k + 1); turn.notify_all(); }); } z.want = (long)nt * (nt - 1) / 2; break; }
        case 31: { std::promise<long> pr; auto fu = pr.get_future(); std::jthread t([&] { pr.set_value(z.want); }); got = fu.get(); break; }
        case 32: { { std::vector<std::jthread> t; std::atomic_flag lock; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { thread_local long mine = 0; mine = 0; for (size_t i = (size_t)k; i < n; i += (size_t)nt) mine += v[i]; while (lock.test_and_set(std::memory_order_acquire)) {} got += mine; lock.clear(std::memory_order_release); }); for (auto& x : t) x.join(); } break; }
        case 33: { std::mutex m; std::condition_variable c; bool stop = false; { std::jthread t([&] { std::this_thread::sleep_for(std::chrono::milliseconds(5)); std::lock_guard<std::mutex> g(m); stop = true; c.notify_all(); }); std::unique_lock<std::mutex> g(m); while (!stop) c.wait_for(g, std::chrono::milliseconds(1)); } got = z.want; break; }
        case 34: { pthread_spinlock_t l; pthread_spin_init(&l, 0); { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) { if (k & 1) pthread_spin_lock(&l); else while (pthread_spin_trylock(&l)) {} got += v[i]; pthread_spin_unlock(&l); } }); } break; }
        case 35: { pthread_barrier_t b; pthread_barrier_init(&b, nullptr, (unsigned)nt); std::atomic<long> a{0}; { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) w[i] = v[i]; pthread_barrier_wait(&b); for (size_t i = (size_t)k; i < n; i += (size_t)nt) a += w[n - 1 - i]; pthread_barrier_wait(&b); }); } got = a; break; }
        case 36: { std::timed_mutex m; sem_t q; sem_init(&q, 0, 0); { std::vector<std::jthread> t; for (int k = 0; k < nt; k++) t.emplace_back([&, k] { for (size_t i = (size_t)k; i < n; i += (size_t)nt) { while (!m.try_lock_for(std::chrono::seconds(1))) {} got += v[i]; m.unlock(); } sem_post(&q); }); for (int k = 0; k < nt; k++) sem_wait(&q); } break; }
        case 37: { long run = 0;
#pragma omp parallel for reduction(inscan, + : run)
            for (size_t i = 0; i < n; i++) { run += v[i];
#pragma omp scan inclusive(run)
                w[i] = run; }
            long s = 0; for (size_t i = 0; i < n; i++) { s += v[i]; order = order && w[i] == s; } got = s; break; }
        case 38: { long lastx = -1;
#pragma omp parallel for schedule(dynamic, 2) lastprivate(conditional : lastx)
            for (size_t i = 0; i < n; i++) if (v[i] >= 0) lastx = (long)i;
            order = lastx == (long)n - 1; for (long x : v) got += x; break; }
        case 39:
#pragma omp parallel
            { long mine = 0;
#pragma omp scope reduction(+ : got)
                {
#pragma omp for nowait
                    for (size_t i = 0; i < n; i++) mine += v[i];
                    got += mine; } }
            break;
        // --- incorrect programs: each must be reported ---
        case 100:
#pragma omp parallel for
            for (size_t i = 0; i < n; i++) got += v[i];                       // no reduction
            break;
        case 101:
#pragma omp parallel
            {
#pragma omp for nowait
              for (size_t i = 0; i < n; i++) w[i] = v[i];
#pragma omp for reduction(+ : got) schedule(dynamic, 1)
              for (size_t i = 0; i < n; i++) got += w[n - 1 - i]; }           // reads before the other threads have written
            break;
        case 102:
#pragma omp parallel
#pragma omp single
            {
#pragma omp task shared(w)
              w[0] = 5;
              got = w[0]; }                                                   // no taskwait
            z.want = got; break;
        case 103:
#pragma omp parallel for schedule(dynamic)
            for (size_t i = 0; i < n; i++) seen.push_back(v[i]);              // neither ordered nor critical
            break;
        case 104: { omp_lock_t a, b; omp_init_lock(&a); omp_init_lock(&b);
#pragma omp parallel
            { omp_lock_t* first = omp_get_thread_num() & 1 ? &a : &b; omp_lock_t* second = first == &a ? &b : &a;
              omp_set_lock(first); omp_set_lock(second); w[0]++; omp_unset_lock(second); omp_unset_lock(first); }     // deadlock
            got = z.want; break; }
        case 105: { long* q = w.data();
#pragma omp target map(tofrom : q[0:1])
            for (size_t i = 0; i < n; i++) q[i] = 1;                          // more than was mapped
            got = z.want; break; }
        case 106:
#pragma omp parallel
            { if (omp_get_thread_num() == 0) {
#pragma omp barrier
              } }                                                             // a barrier not every thread meets
            got = z.want; break;
        case 107: { long s = 0;
#pragma omp parallel num_threads(4)
            { long x = s; s = x + 1; }                                        // lost update of a local variable
            got = z.want + (s < 0); break; }
        case 108:
#pragma omp parallel for
            for (size_t i = 0; i < n; i++) { w[i] = v[i]; if (i + 1 < n) got = w[i + 1]; }
            got = z.want; break;
        case 109: { std::vector<std::jthread> t; for (int k = 0; k < 3; k++) t.emplace_back([&] { for (size_t i = 0; i < n; i++) got += v[i]; }); for (auto& x : t) x.join(); got = z.want; break; }
        case 110: { std::mutex a, b; std::jthread x([&] { std::lock_guard<std::mutex> g(a); std::lock_guard<std::mutex> h(b); }), y([&] { std::lock_guard<std::mutex> g(b); std::lock_guard<std::mutex> h(a); }); x.join(); y.join(); got = z.want; break; }
        case 111: { std::mutex m; std::condition_variable c; bool set = false; std::jthread t([&] { { std::lock_guard<std::mutex> g(m); set = true; } c.notify_one(); }); { std::unique_lock<std::mutex> g(m); c.wait(g); } t.join(); got = z.want + (set ? 0 : 1); break; }      // lost wake-up
        case 112: { std::atomic<bool> flag{false}; std::jthread t([&] { w[0] = 5; flag.store(true, std::memory_order_relaxed); }); while (!flag.load(std::memory_order_relaxed)) std::this_thread::yield(); got = w[0] - 5 + z.want; t.join(); break; }      // no ordering
        default:
#pragma omp target teams distribute parallel for reduction(+ : got) map(tofrom : got)
            for (size_t i = 0; i < n; i++) got += (long)i;
            z.want = (long)(n * (n - 1) / 2); break;
        }
        z.got = got; z.order = order;
    }
    void ok(Slot* p) override { Z& z = *static_cast<Z*>(p); if (z.got != z.want || !z.order) { char b[100]; snprintf(b, sizeof b, "program %d yields %ld, expected %ld%s", z.which, z.got, z.want, z.order ? "" : ", out of order"); wrong(name, b); } R->verified++; }
};
static Inst* mk_self(const Par& p, Rng& r) { return new Self(p, r); }
static Reg r1("self", P17, {D_MAT}, SHARED, 1, mk_self);
} }
