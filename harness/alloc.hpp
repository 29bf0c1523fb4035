// Counted and failing allocation: operator new/delete are replaced, malloc/free calls of the code under test are wrapped at link time
// (-Wl,--wrap=malloc,--wrap=free,--wrap=realloc,--wrap=calloc,--wrap=__cxa_demangle). Only operator new is made to fail: Eigen, which allocates with malloc,
// frees a block twice when a resize fails (DenseStorage::resize), which is not the code under test. Only what runs inside a Scope (and outside a Pause) is counted and made to fail.
#pragma once
#include <cstdlib>
#include <cstring>
#include <malloc.h>
#include <new>
extern "C" { void* __real_malloc(size_t); void __real_free(void*); void* __real_realloc(void*, size_t); void* __real_calloc(size_t, size_t); }
namespace alloc {
inline bool g_on = false, g_fired = false; inline long g_live = 0, g_calls = 0, g_failAt = -1; inline const char* g_bad = nullptr; inline bool g_countMalloc = true;
inline bool failsNow() { if (!g_on) return false; if (g_calls++ == g_failAt) { g_fired = true; return true; } return false; }
// Blocks born inside the scope carry a mark until they are freed, whenever that is.
constexpr size_t kN = 1 << 16; inline void* g_mark[kN]; inline unsigned g_used[kN]; inline size_t g_nUsed = 0; inline void* const kGone = (void*)1;
inline size_t slot(void* q) { return (reinterpret_cast<size_t>(q) >> 4) * 0x9E3779B97F4A7C15ull >> 48; }
inline void born(void* p) {
    if (!g_on || !p) return; ++g_live;
    if (g_nUsed + 1 >= kN) { static const char m[] = "MC-ERROR too many allocations in one scope\n"; std::fwrite(m, 1, sizeof m - 1, stderr); std::_Exit(98); }
    size_t i = slot(p); while (g_mark[i] && g_mark[i] != kGone) i = (i + 1) % kN; if (!g_mark[i]) g_used[g_nUsed++] = unsigned(i); g_mark[i] = p;
}
inline void dead(void* p) { if (!p || !g_live) return; for (size_t i = slot(p); g_mark[i]; i = (i + 1) % kN) if (g_mark[i] == p) { g_mark[i] = kGone; --g_live; return; } }
struct Scope {                                      // failAt: index of the allocation that fails (once), -1 for none
    explicit Scope(long failAt = -1, bool keep = false) { if (!keep) { for (size_t i = 0; i < g_nUsed; ++i) g_mark[g_used[i]] = nullptr; g_nUsed = 0; g_live = 0; } g_calls = 0; g_failAt = failAt; g_fired = false; g_bad = nullptr; g_on = true; }
    ~Scope() { g_on = false; g_failAt = -1; }
};
struct Pause { bool was = g_on; Pause() { g_on = false; } ~Pause() { g_on = was; } };
inline void sized(void* p, size_t n) { if (g_on && p && malloc_usable_size(p) < n) g_bad = "an object is deleted with a larger size than was allocated for it"; }
} // namespace alloc
extern "C" {
void* __wrap_malloc(size_t n) { void* p = __real_malloc(n); if (alloc::g_countMalloc) alloc::born(p); return p; }
void* __wrap_calloc(size_t a, size_t b) { void* p = __real_calloc(a, b); if (alloc::g_countMalloc) alloc::born(p); return p; }
void* __wrap_realloc(void* q, size_t n) { alloc::dead(q); void* p = __real_realloc(q, n); if (alloc::g_countMalloc) alloc::born(p); return p; }
char* __real___cxa_demangle(const char*, char*, size_t*, int*);   // its block comes from the library's own malloc and is freed by the caller
char* __wrap___cxa_demangle(const char* m, char* b, size_t* n, int* st) { char* p = __real___cxa_demangle(m, b, n, st); if (p != b && alloc::g_countMalloc) { if (b) alloc::dead(b); alloc::born(p); } return p; }
void __wrap_free(void* p) { alloc::dead(p); __real_free(p); }
}
void* operator new(size_t n) { if (alloc::failsNow()) throw std::bad_alloc(); void* p = __real_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); alloc::born(p); return p; }
void* operator new[](size_t n) { return operator new(n); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (alloc::failsNow()) return nullptr; void* p = __real_malloc(n ? n : 1); alloc::born(p); return p; }
void* operator new[](size_t n, const std::nothrow_t& t) noexcept { return operator new(n, t); }
void operator delete(void* p) noexcept { alloc::dead(p); __real_free(p); }
void operator delete[](void* p) noexcept { alloc::dead(p); __real_free(p); }
#if defined(__SANITIZE_ADDRESS__)                   // the allocator knows exact sizes
void operator delete(void* p, size_t n) noexcept { if (alloc::g_on && p && malloc_usable_size(p) != (n ? n : 1)) alloc::g_bad = "an object is deleted with another size than was allocated for it (deleted through a base without a virtual destructor?)"; alloc::dead(p); __real_free(p); }
#else
void operator delete(void* p, size_t n) noexcept { alloc::sized(p, n); alloc::dead(p); __real_free(p); }
#endif
void operator delete[](void* p, size_t) noexcept { alloc::dead(p); __real_free(p); }
