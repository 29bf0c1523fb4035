// C24: pricing jobs on different threads, each with its own generator, model, builder and solver, over shared market
// data, options and numerical strategies. Every interleaving of their synchronisation operations within a preemption
// bound: no execution has a data race or a deadlock, and every job gets exactly what it gets alone.
#include "sched.hpp"
#define JOBS(F) F(european) F(digital_sobol) F(european_faure) F(asian_heston) F(asian_merton) F(barrier_kou) F(barrier_vg) F(lookback_bates) F(lookback_milstein) F(american_ls) F(american_ridge) F(american_lasso) F(fdm_explicit) F(fdm_implicit) F(fdm_cn) F(reads)
#define DECL(n) void c24_##n(void**, double*);
extern "C" { JOBS(DECL) void c24_setup(); }
namespace {
std::map<int, double> alone;
double expected(X& x, int body) {                   // in a process of its own, alone
    auto it = alone.find(body); if (it != alone.end()) return it->second;
    static mc::Shared* tmp = (mc::Shared*)mmap(nullptr, sizeof(mc::Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); X y = x; tmp->len = 0; y.s = tmp; y.pos = 0; y.recording = false; spawn(y, {body}, 0, -1, 0, true);
    double r = comm->status == 1 ? comm->r[0] : NAN; std::string m = comm->msg; if (comm->status != 1) x.fail("%s alone: %s", BNAME[body], comm->status ? m.c_str() : "dies"); return alone[body] = r;
}
void job(X& x, const std::vector<int>& b, int pre) { std::vector<double> e; for (int k : b) e.push_back(expected(x, k)); unit(x, b, pre); if (comm->status == 1) for (size_t i = 0; i < b.size(); ++i) CHECK(x, comm->r[i] == e[i], "thread %zu (%s): %.17g, alone it is %.17g", i, BNAME[b[i]], comm->r[i], e[i]); }
}
#define FN(n) c24_##n,
#define NM(n) #n,
MC_MAIN([] {
    syncOnly = true; BODY = {JOBS(FN)}; BNAME = {JOBS(NM)}; c24_setup(); const bool th = mc::thorough; const int n = int(BODY.size());
    std::vector<mc::Unit> u;
    u.push_back({"two threads", [n, th](X& x) { int i = x.choose(n), j = i + x.choose(n - i); bool lng = (i >= 11 && i <= 14) || (j >= 11 && j <= 14); job(x, {i, j}, th && !lng ? 2 : 1); }, -1, 3});
    u.push_back({"same job, two preemptions", [n, th](X& x) { int i = th ? x.choose(n) : x.pick(std::vector<int>{0, 12, n - 1}); job(x, {i, i}, 2); }, -1, 3});
    u.push_back({"three threads", [n](X& x) { int i = x.choose(n); job(x, {i, (i + 1) % n, (i + 5) % n}, 1); }, -1, 3});
    return u;
})
