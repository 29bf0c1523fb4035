// C03: every interleaving (within a preemption bound) of threads that get the market data for the first time. Each
// execution runs in a forked child, where the singleton does not exist yet.
#include "sched.hpp"
extern "C" { void c03_get(void**, double*); void c03_builder(void**, double*); void c03_builder2(void**, double*); void c03_short(void**, double*); void c03_read(void**, double*); void c03_after(void**, double*); void* c03_vtable(); }
namespace {
void checkAfter() {
    for (int i = 0; i < nT; ++i) { for (void* p : T[i].out) if (p != T[0].out[0] || !p) violation("thread %d received the market data %p, thread 0 received %p", i, p, T[0].out[0]); if (T[i].r != 0.05) violation("thread %d received market data with rate %g: not fully constructed", i, T[i].r); }
    if (vptrs != 1) violation("%d market-data objects were constructed", vptrs); void* out[2]; double r; c03_after(out, &r); if (out[0] != T[0].out[0]) violation("a later access gives another market data object"); if (r != 10.07) violation("the market data does not work afterwards: %g", r);
}
}
MC_MAIN([] {
    watchVtable = c03_vtable(); afterAll = checkAfter; BODY = {c03_get, c03_builder, c03_short, c03_builder2, c03_read}; BNAME = {"get twice", "builders", "get", "more builders", "read"};
    std::vector<mc::Unit> u; const bool th = mc::thorough;
    struct S { const char* n; std::vector<int> b; int pre; }; for (auto& s : std::vector<S>{{"two threads get", {0, 0}, th ? 4 : 3}, {"get and builders", {0, 1}, 3}, {"two short threads", {2, 2}, th ? 5 : 4}, {"two threads build", {1, 3}, th ? 3 : 2}, {"get and read", {2, 4}, th ? 4 : 3}, {"three threads get", {2, 2, 2}, th ? 3 : 2}, {"three threads get and build", {0, 1, 2}, 2}}) u.push_back({s.n, [s](X& x) { unit(x, s.b, s.pre); }, -1, 2});
    return u;
})
