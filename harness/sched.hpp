// A controlled scheduler and race detector for the real code. Each execution runs in a forked child. The threads are
// real ones, but only one runs at a time: every memory access of the code under test (compiled with -fsanitize=thread,
// linked with the runtime below instead of the real one) and every synchronisation call is a point at which the
// explorer may switch. Data races are found by vector clocks (mutexes, once, static-local guards, atomics), deadlocks
// by having nobody to run. With syncOnly the switches are only considered at synchronisation operations, which loses
// nothing as long as there is no race: and every execution is checked for races.
#pragma once
#include "mc.hpp"
#include <dlfcn.h>
#include <malloc.h>
#include <map>
#include <unordered_map>
#include <pthread.h>
#include <semaphore.h>
#include <execinfo.h>
using mc::X;
namespace {
const int MAXT = 4;
typedef uint32_t VC[MAXT];
struct Comm { double r[8]; int status; int pos; uint64_t events; uint64_t hash; char msg[1000]; char trace[60000]; size_t len; } *comm;   // status: 0 not finished, 1 ok, 2 violation, 3 no such schedule
enum St { READY, BLOCKED, DONE };
struct Thread { sem_t sem; St st; const void* on; VC vc; pthread_t th; int body; void* out[2]; double r; char* lo; char* hi; uint64_t idle, spins, plain; } T[MAXT];
bool syncOnly = false; const void* watchVtable = nullptr; void (*afterAll)() = nullptr;
typedef void (*Body)(void**, double*); std::vector<Body> BODY; std::vector<const char*> BNAME;
int nT, cur, budget; long firstAt, ev; bool live = false; X* gx;
thread_local int self = -1; thread_local int inside = 0;
struct Cell { uint32_t w[2]; int wt; bool watomic; uint32_t r[MAXT]; bool ratomic; bool dead; };
struct Block { Cell c[64]; }; std::unordered_map<uintptr_t, Block>* shadow; uintptr_t lastKey = 0; Block* lastBlock = nullptr;     // one cell per byte that was accessed
Cell& cell(uintptr_t p) { if ((p >> 6) != lastKey || !lastBlock) { lastKey = p >> 6; lastBlock = &(*shadow)[lastKey]; } return lastBlock->c[p & 63]; }
struct Sync { VC vc; int owner; int readers; int state; };
std::map<uintptr_t, Sync>* syncs;
int vptrs; uint64_t h = 7;
std::map<uintptr_t, size_t>* freed; struct Own { size_t n; int t; bool escaped; }; std::map<uintptr_t, Own>* owned;
bool ownPrivate(const void* a) { if (!syncOnly) return false; uintptr_t p = uintptr_t(a); auto it = owned->upper_bound(p); if (it == owned->begin()) return false; --it; if (p >= it->first + it->second.n) return false; if (it->second.t != self) it->second.escaped = true; return !it->second.escaped; }   // memory the running thread allocated and no other has touched
[[noreturn]] void finish(int st) { comm->status = st; comm->events = ev; comm->pos = gx->pos; comm->hash = h; _exit(0); }
[[noreturn]] void violation(const char* f, ...) { va_list a; va_start(a, f); vsnprintf(comm->msg, sizeof comm->msg, f, a); va_end(a); finish(2); }
void trace(const char* f, ...) { if (!gx->recording) return; char b[300]; va_list a; va_start(a, f); int n = vsnprintf(b, sizeof b, f, a); va_end(a); if (n > 0 && comm->len + n + 2 < sizeof comm->trace) { memcpy(comm->trace + comm->len, b, n); comm->len += n; comm->trace[comm->len++] = '\n'; } }
void where(const void* pc, char* b, size_t n) { Dl_info d; if (pc && dladdr((void*)pc, &d) && d.dli_sname) snprintf(b, n, "%s+%ld", d.dli_sname, long((char*)pc - (char*)d.dli_saddr)); else snprintf(b, n, "%p", pc); }
void switchTo(int t) { if (t == cur) return; int me = cur; cur = t; sem_post(&T[t].sem); if (T[me].st != DONE) while (sem_wait(&T[me].sem)) {} }
int pick(bool forced) {                             // which thread goes on; the running one first unless it cannot
    int c[MAXT], n = 0; if (!forced) c[n++] = cur; for (int i = 0; i < nT; ++i) if (i != cur && T[i].st == READY) c[n++] = i; if (!n) return -1; if (n == 1) return c[0]; if (!forced && budget <= 0) return cur; return c[gx->choose(n)];
}
bool active() { return live && self >= 0 && !inside; }
struct In { In() { ++inside; } ~In() { --inside; } };
void point(const char* what, const void* addr) {    // before every event
    Thread& me = T[self]; if (ownPrivate(addr)) return; ++ev; if (ev > 200000) violation("livelock: the threads do not finish within %ld events", ev);
    if (++me.idle > 20000) { me.idle = 0; for (int k = 1; k < nT; ++k) { int t = (self + k) % nT; if (T[t].st == READY) { switchTo(t); return; } } }
    int t = cur; if (ev == firstAt) { t = pick(true); if (t < 0) finish(3); --budget; } else if (ev > firstAt && budget > 0) { t = pick(false); if (t != cur) --budget; }
    if (t != cur) { trace("event %ld: thread %d preempted before %s of %p; thread %d goes on", ev, self, what, addr, t); h = mc::mix(h, ev * 8 + t); switchTo(t); }
}
void blockOn(const void* a) { Thread& me = T[self]; me.st = BLOCKED; me.on = a; trace("thread %d waits for %p", self, a); int t = pick(true); if (t < 0) { for (int i = 0; i < nT; ++i) if (T[i].st == BLOCKED) { violation("deadlock: no thread can go on (thread %d waits for %p)", i, T[i].on); } } switchTo(t); }
void wake(const void* a) { for (int i = 0; i < nT; ++i) if (T[i].st == BLOCKED && T[i].on == a) { T[i].st = READY; T[i].on = nullptr; } }
Sync& sync(const void* a) { auto& s = (*syncs)[uintptr_t(a) & ~7ul]; return s; }
void join(VC a, const VC b) { for (int i = 0; i < MAXT; ++i) a[i] = std::max(a[i], b[i]); }
void acquire(const void* a) { join(T[self].vc, sync(a).vc); }
void release(const void* a) { join(sync(a).vc, T[self].vc); ++T[self].vc[self]; }
bool onStack(const void* a) { return (char*)a >= T[self].lo && (char*)a < T[self].hi; }
void race(const char* what, const void* a, int other, const void* pc) { char b[300]; where(pc, b, sizeof b); violation("data race: thread %d %s %p without synchronisation with thread %d's earlier access (in %s)", self, what, a, other, b); }
void note(const void* a, size_t n, bool write, bool atomic, const void* pc) {
    for (size_t i = 0; i < n; ++i) {
        uintptr_t p = uintptr_t(a) + i; auto it = freed->end(); if (i == 0 && !freed->empty() && (it = freed->upper_bound(p)) != freed->begin() && (--it, p < it->first + it->second)) { char b[300]; where(pc, b, sizeof b); violation("thread %d accesses freed memory %p (in %s)", self, (void*)p, b); }
        Cell& c = cell(p); Thread& me = T[self]; if (c.w[0] && c.wt != self && !(atomic && c.watomic) && c.w[0] > me.vc[c.wt]) race(write ? "writes" : "reads", a, c.wt, pc);
        if (write) for (int t = 0; t < nT; ++t) if (t != self && c.r[t] && !(atomic && c.ratomic) && c.r[t] > me.vc[t]) race("writes", a, t, pc);
        if (write) { c.w[0] = me.vc[self]; c.wt = self; c.watomic = atomic; memset(c.r, 0, sizeof c.r); c.ratomic = true; } else { bool any = false; for (int t = 0; t < nT; ++t) any = any || c.r[t]; c.ratomic = (any ? c.ratomic : true) && atomic; c.r[self] = me.vc[self]; }
    }
}
void access(const void* a, size_t n, bool write, const void* pc) { if (!active()) return; In in; if (onStack(a)) return; if (!syncOnly) point(write ? "a write" : "a read", a); else if (++T[self].plain > 100000000) violation("thread %d does not finish", self); note(a, n, write, false, pc); }
// a thread that keeps doing atomic operations which change nothing is waiting: the others go on
void progress(const void* a, bool changed) { In in; if (onStack(a)) return; Thread& me = T[self]; if (changed) { me.idle = me.spins = 0; return; } if (++me.spins < 12) return; me.spins = 0; for (int k = 1; k < nT; ++k) { int t = (self + k) % nT; if (T[t].st == READY) { switchTo(t); return; } } }
void spin() { if (!active()) return; In in; ++ev; for (int k = 1; k < nT; ++k) { int t = (self + k) % nT; if (T[t].st == READY) { switchTo(t); return; } } }
}
extern "C" {
#define RW(n) void __tsan_read##n(void* a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_write##n(void* a) { access(a, n, true, __builtin_return_address(0)); } \
    void __tsan_unaligned_read##n(void* a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_unaligned_write##n(void* a) { access(a, n, true, __builtin_return_address(0)); } \
    void __tsan_read##n##_pc(void* a, void* p) { access(a, n, false, p); } void __tsan_write##n##_pc(void* a, void* p) { access(a, n, true, p); } void __tsan_volatile_read##n(void* a) { access(a, n, false, __builtin_return_address(0)); } void __tsan_volatile_write##n(void* a) { access(a, n, true, __builtin_return_address(0)); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* a, size_t n) { access(a, n, false, __builtin_return_address(0)); } void __tsan_write_range(void* a, size_t n) { access(a, n, true, __builtin_return_address(0)); }
void __tsan_vptr_read(void** a) { access(a, 8, false, __builtin_return_address(0)); }
void __tsan_vptr_update(void** a, void* v) { if (active() && watchVtable && v == watchVtable && *a != v) { In in; ++vptrs; trace("thread %d constructs a market-data object at %p", self, (void*)a); } access(a, 8, true, __builtin_return_address(0)); }
void __tsan_init() {} void __tsan_func_entry(void*) {} void __tsan_func_exit() {}
#define PRE(a) if (active()) { In in; if (!onStack((void*)a)) { point("an atomic operation", (void*)a); } }
#define SY(a, n, wr, mo) if (active()) { In in; if (!onStack((void*)a)) { note((void*)a, n, wr, true, __builtin_return_address(0)); if (mo == 1 || mo == 2 || mo >= 4) acquire((void*)a); if (wr && mo >= 3) release((void*)a); if (wr) wake((void*)a); } }
#define CHG(a, ch) if (active()) progress((void*)a, ch);
#define AT(B, TY) TY __tsan_atomic##B##_load(const volatile TY* a, int mo) { PRE(a); TY v = __atomic_load_n(a, 5); SY(a, sizeof(TY), false, mo); CHG(a, false); return v; } \
    void __tsan_atomic##B##_store(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_exchange_n(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, o != v); } \
    TY __tsan_atomic##B##_exchange(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_exchange_n(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, o != v); return o; } \
    TY __tsan_atomic##B##_fetch_add(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_add(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    TY __tsan_atomic##B##_fetch_sub(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_sub(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    TY __tsan_atomic##B##_fetch_and(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_and(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    TY __tsan_atomic##B##_fetch_or(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_or(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    TY __tsan_atomic##B##_fetch_xor(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_xor(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    TY __tsan_atomic##B##_fetch_nand(volatile TY* a, TY v, int mo) { PRE(a); TY o = __atomic_fetch_nand(a, v, 5); SY(a, sizeof(TY), true, mo); CHG(a, __atomic_load_n(a, 5) != o); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile TY* a, TY* e, TY v, int mo, int fmo) { PRE(a); int k = __atomic_compare_exchange_n(a, e, v, false, 5, 5); int m2 = k ? mo : fmo; SY(a, sizeof(TY), k, m2); CHG(a, k); return k; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile TY* a, TY* e, TY v, int mo, int fmo) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, mo, fmo); } \
    TY __tsan_atomic##B##_compare_exchange_val(volatile TY* a, TY e, TY v, int mo, int fmo) { __tsan_atomic##B##_compare_exchange_strong(a, &e, v, mo, fmo); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
static char fenceCell[8];
void __tsan_atomic_thread_fence(int mo) { if (active()) { In in; acquire(fenceCell); if (mo >= 3) release(fenceCell); } } void __tsan_atomic_signal_fence(int) {}
void __tsan_mutex_create(void*, unsigned) {} void __tsan_mutex_destroy(void*, unsigned) {} void __tsan_mutex_pre_lock(void*, unsigned) {} void __tsan_mutex_post_lock(void* m, unsigned, int) { if (active()) { In in; acquire(m); } } int __tsan_mutex_pre_unlock(void* m, unsigned) { if (active()) { In in; release(m); } return 0; } void __tsan_mutex_post_unlock(void*, unsigned) {} void __tsan_mutex_pre_signal(void*, unsigned) {} void __tsan_mutex_post_signal(void*, unsigned) {} void __tsan_mutex_pre_divert(void*, unsigned) {} void __tsan_mutex_post_divert(void*, unsigned) {}
// ---- synchronisation calls ----
static void* real(const char* n) { return dlsym(RTLD_NEXT, n); }
static int lockAny(const void* m, bool shared, bool tryOnly) { In in; point(tryOnly ? "a try-lock" : "a lock", m); for (;;) { Sync& s = sync(m); bool freeNow = shared ? s.owner == 0 : s.owner == 0 && s.readers == 0; if (freeNow) { if (shared) ++s.readers; else s.owner = self + 1; break; } if (tryOnly) return 16; if (!shared && s.owner == self + 1) violation("deadlock: thread %d locks %p, which it already holds", self, m); blockOn(m); } acquire(m); T[self].idle = 0; trace("thread %d locks %p", self, m); return 0; }
static int unlockAny(const void* m) { In in; point("an unlock", m); Sync& s = sync(m); if (s.owner == self + 1) s.owner = 0; else if (s.readers > 0 && s.owner == 0) --s.readers; else violation("thread %d unlocks %p, which it does not hold", self, m); release(m); wake(m); trace("thread %d unlocks %p", self, m); return 0; }
int pthread_mutex_lock(pthread_mutex_t* m) { if (active()) { if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { { In in; Sync& s = sync(m); if (s.owner == self + 1) { ++s.state; return 0; } } } return lockAny(m, false, false); } static auto f = (int (*)(pthread_mutex_t*))real("pthread_mutex_lock"); return f(m); }
int pthread_mutex_trylock(pthread_mutex_t* m) { if (active()) return lockAny(m, false, true); static auto f = (int (*)(pthread_mutex_t*))real("pthread_mutex_trylock"); return f(m); }
int pthread_mutex_unlock(pthread_mutex_t* m) { if (active()) { if (m->__data.__kind == PTHREAD_MUTEX_RECURSIVE_NP) { In in; Sync& s = sync(m); if (s.owner == self + 1 && s.state > 0) { --s.state; return 0; } } return unlockAny(m); } static auto f = (int (*)(pthread_mutex_t*))real("pthread_mutex_unlock"); return f(m); }
int pthread_rwlock_rdlock(pthread_rwlock_t* m) { if (active()) return lockAny(m, true, false); static auto f = (int (*)(pthread_rwlock_t*))real("pthread_rwlock_rdlock"); return f(m); }
int pthread_rwlock_wrlock(pthread_rwlock_t* m) { if (active()) return lockAny(m, false, false); static auto f = (int (*)(pthread_rwlock_t*))real("pthread_rwlock_wrlock"); return f(m); }
int pthread_rwlock_unlock(pthread_rwlock_t* m) { if (active()) return unlockAny(m); static auto f = (int (*)(pthread_rwlock_t*))real("pthread_rwlock_unlock"); return f(m); }
int pthread_once(pthread_once_t* o, void (*fn)()) {
    if (!active()) { if (*o == 0) { *o = 2; fn(); } return 0; }
    { In in; point("a call-once", o); for (;;) { Sync& s = sync(o); if (*o == 2 || s.state == 2) { acquire(o); return 0; } if (s.state == 0) { s.state = 1; break; } blockOn(o); } }
    try { fn(); } catch (...) { In in; sync(o).state = 0; wake(o); throw; } { In in; point("the end of a call-once", o); sync(o).state = 2; *o = 2; release(o); wake(o); } return 0;
}
int __cxa_guard_acquire(long long int* g) {
    if (!active()) { if (*(char*)g) return 0; return 1; }
    In in; point("a static initialisation", g); for (;;) { if (*(char*)g) { acquire(g); return 0; } Sync& s = sync(g); if (s.state == 0) { s.state = 1; s.owner = self + 1; return 1; } if (s.owner == self + 1) violation("recursive initialisation of a static"); blockOn(g); }
}
void __cxa_guard_release(long long int* g) { if (!active()) { *(char*)g = 1; return; } In in; point("the end of a static initialisation", g); *(char*)g = 1; Sync& s = sync(g); s.state = 2; s.owner = 0; release(g); wake(g); }
void __cxa_guard_abort(long long int* g) { if (!active()) return; In in; Sync& s = sync(g); s.state = 0; s.owner = 0; wake(g); }
int sched_yield() { spin(); return 0; } int usleep(useconds_t) { spin(); return 0; } int nanosleep(const timespec*, timespec*) { spin(); return 0; } int clock_nanosleep(clockid_t, int, const timespec*, timespec*) { spin(); return 0; }
}
// memory given back by the code under test is never reused within an execution
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static void* own(void* p, size_t n) { if (p && syncOnly && active()) { In in; (*owned)[uintptr_t(p)] = Own{n, self, false}; } return p; }
void* malloc(size_t n) { return own(__libc_malloc(n), n); } void* calloc(size_t n, size_t m) { return own(__libc_calloc(n, m), n * m); } void* memalign(size_t al, size_t n) { return own(__libc_memalign(al, n), n); } void* aligned_alloc(size_t al, size_t n) { return own(__libc_memalign(al, n), n); } int posix_memalign(void** p, size_t al, size_t n) { *p = own(__libc_memalign(al, n), n); return *p ? 0 : 12; }
void free(void* p) { if (!p) return; if (active()) { In in; size_t n = malloc_usable_size(p); note(p, std::min<size_t>(n, 64), true, false, __builtin_return_address(0)); (*freed)[uintptr_t(p)] = n; return; } __libc_free(p); }
void* realloc(void* p, size_t n) { if (!active() || !p) return __libc_realloc(p, n); if (!n) { free(p); return nullptr; } void* q = malloc(n); if (q) memcpy(q, p, std::min(n, malloc_usable_size(p))); free(p); return q; }
}
static void* take(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; }
void* operator new(size_t n) { return take(n); } void* operator new[](size_t n) { return take(n); } void operator delete(void* p) noexcept { free(p); } void operator delete[](void* p) noexcept { free(p); } void operator delete(void* p, size_t) noexcept { free(p); } void operator delete[](void* p, size_t) noexcept { free(p); }
namespace {
void* run(void* arg) {
    int i = int(long(arg)); pthread_attr_t at; void* lo; size_t sz; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &lo, &sz); T[i].lo = (char*)lo; T[i].hi = (char*)lo + sz; self = i; { In in; while (sem_wait(&T[i].sem)) {} }
    try { BODY[T[i].body](T[i].out, &T[i].r); } catch (...) { In in; violation("thread %d: unexpected exception", i); }
    { In in; T[i].st = DONE; trace("thread %d ends", i); bool all = true; for (int k = 0; k < nT; ++k) all = all && T[k].st == DONE; if (!all) { int t = pick(true); if (t < 0) violation("deadlock: the remaining threads cannot go on"); switchTo(t); } else sem_post(&T[MAXT - 1].sem); }
    self = -1; return nullptr;
}
void child(const std::vector<int>& bodies, int first, long at, int preemptions) {
    alarm(60); nT = int(bodies.size()); shadow = new std::unordered_map<uintptr_t, Block>; syncs = new std::map<uintptr_t, Sync>; freed = new std::map<uintptr_t, size_t>; owned = new std::map<uintptr_t, Own>; budget = preemptions; firstAt = at; ev = 0; sem_init(&T[MAXT - 1].sem, 0, 0);
    for (int i = 0; i < nT; ++i) { sem_init(&T[i].sem, 0, 0); T[i].st = READY; T[i].vc[i] = 1; T[i].body = bodies[i]; T[i].r = -1; T[i].out[0] = T[i].out[1] = nullptr; }
    for (int i = 0; i < nT; ++i) pthread_create(&T[i].th, nullptr, run, (void*)long(i));
    cur = first; live = true; sem_post(&T[first].sem); while (sem_wait(&T[MAXT - 1].sem)) {} for (int i = 0; i < nT; ++i) pthread_join(T[i].th, nullptr); live = false;
    if (at >= 0 && ev < at) finish(3);
    if (afterAll) afterAll();
    for (int i = 0; i < nT; ++i) comm->r[i] = T[i].r; finish(1);
}
long spawn(X& x, const std::vector<int>& b, int first, long at, int pre, bool probe = false) {
    if (!comm) comm = (Comm*)mmap(nullptr, sizeof(Comm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); comm->status = 0; comm->len = 0; comm->msg[0] = 0; fflush(stdout); fflush(stderr);
    int len0 = x.s->len; X y = x; pid_t p = fork(); if (p == 0) { gx = &y; y.shardDepth = 0; y.states = nullptr; child(b, first, at, pre); }
    int st = 0; waitpid(p, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 98) _exit(98);
    if (x.recording && !probe) { std::string t(comm->trace, comm->len); size_t q = 0; while (q < t.size()) { size_t e = t.find('\n', q); x.note("%s", t.substr(q, e - q).c_str()); q = e + 1; } }
    if (probe) { x.s->len = len0; return comm->status ? long(comm->events) : 400; }
    if (!WIFEXITED(st) || comm->status == 0) { x.pos = x.s->len; x.fail("the process dies (%s %d) during concurrent first access", WIFSIGNALED(st) ? "signal" : "exit", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); }
    x.pos = comm->pos; x.step(comm->events); if (comm->status == 2) x.fail("%s", comm->msg); if (comm->status == 1) x.state(mc::mix(comm->hash, first * 1000 + at)); return 0;
}
std::map<std::pair<std::vector<int>, int>, long> lengths;
void unit(X& x, const std::vector<int>& b, int pre) {
    int first = x.choose(int(b.size())); auto key = std::make_pair(b, first); auto it = lengths.find(key);
    if (it == lengths.end()) { // length of the schedule without preemptions: bounds the position of the first one
        int n = 0; X y = x; mc::Shared* keep = x.s; static mc::Shared* tmp = (mc::Shared*)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); tmp->len = 0; y.s = tmp; y.pos = 0; y.recording = false; (void)n; long e = spawn(y, b, first, 1 << 30, 0, true); x.s = keep; it = lengths.emplace(key, e).first; if (getenv("SCHED_DEBUG")) fprintf(stderr, "length %s %d: %ld\n", BNAME[b[0]], first, e); }
    // with three threads the position can move beyond that length by the choice made when the first thread ends
    long at = x.choose(int(it->second) + 8); if (at == 0) at = -1; x.note("threads: %zu, thread %d first, first preemption at event %ld", b.size(), first, at); for (size_t i = 0; i < b.size(); ++i) x.note("thread %zu: %s", i, BNAME[b[i]]); spawn(x, b, first, at, at < 0 ? 0 : pre);
}
}
