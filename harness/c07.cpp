// C07: a Monte Carlo price is the discounted mean of the path payoffs, for every set of paths.
#include "mcp.hpp"
using namespace op; using mc::X;
static const int KINDS[] = {EUROPEAN, DIGITAL, DOUBLE_DIGITAL, ARITH_ASIAN, GEOM_ASIAN, KNOCK_IN, KNOCK_OUT, FLOAT_LOOKBACK, FIXED_LOOKBACK};
static double ulpUp(double v) { return std::nextafter(v, 1e308); }
static double ulpDn(double v) { return std::nextafter(v, -1e308); }

struct Env {
    std::shared_ptr<MarketData> g = MarketData::getInstance();
    Env() { g->addStock("TK", 42.0, 0.9, 0.5); g->setR(0.77); }             // deliberately not the configured market data
    ~Env() { g->removeObserver(); }
};
// prices one contract on the given paths and compares with the reference
static double price(X& x, const Contract& c, const std::vector<std::vector<double>>& paths, double r, bool viaSolver) {
    auto md = fakeMD(90, 0.3, 0.01, r); auto gen = std::make_shared<DimGen>(unsigned(paths[0].size()));
    auto model = std::make_shared<ScriptModel>(md, gen); model->paths = paths;
    auto o = make(c); auto p = pricerFor(c, o, md, model); unsigned long N = paths.size(); double v;
    x.step(N);
    if (viaSolver) { MCSolver s(3); s.setN(N); s.setPricer(std::move(p)); v = s.solve(); } else v = p->calculatePrice(N);
    CHECK(x, model->next == paths.size() && !model->over, "%s: %zu%s paths simulated, %lu requested", str(c).c_str(), model->next, model->over ? "+" : "", N);
    for (double T : model->askedT) CHECK(x, T == c.T, "%s: a path was simulated to %.17g", str(c).c_str(), T);
    long double sum = 0, big = 0; for (auto& q : paths) { double w = refPayoff(c, q); sum += w; big = std::max<long double>(big, q.back()); for (double s : q) big = std::max<long double>(big, s); }
    long double want = sum / N * expl(-(long double)r * c.T);
    double atol = (c.kind == ARITH_ASIAN || c.kind == GEOM_ASIAN) ? 1e-12 * double(big) : 1e-13 * double(big) * 1e-2;
    CHECK(x, mc::near(v, double(want), 1e-10, atol), "%s r=%g, %lu path(s): price %.15g, expected %.15g", str(c).c_str(), r, N, v, double(want));
    mc::Hash h; h(c.kind)(c.call)(c.T)(c.K)(c.B)(c.up)(r)(N); for (size_t i = 0; i < paths.size() && i < 8; ++i) h(paths[i]); x.state(h.h);
    return v;
}
static void notePaths(X& x, const Contract& c, const std::vector<std::vector<double>>& paths) {
    if (!x.recording) return;
    x.note("%s", str(c).c_str());
    for (size_t i = 0; i < paths.size() && i < 6; ++i) { std::string s; for (size_t j = 0; j < paths[i].size() && j < 12; ++j) { char b[32]; std::snprintf(b, 32, " %.10g", paths[i][j]); s += b; } x.note("path %zu (%zu prices):%s", i, paths[i].size(), s.c_str()); }
}
static Contract pickContract(X& x, const std::vector<double>& K, const std::vector<double>& B) {
    Contract c; c.kind = KINDS[x.choose(9)]; c.call = x.flip();
    if (c.kind == DOUBLE_DIGITAL) { static const std::vector<std::pair<double, double>> d = {{100, 120}, {70, 100}, {90, 110}, {100, 100}, {120, 100}}; auto p = x.pick(d); c.K = p.first; c.K2 = p.second; }
    else if (c.kind != FLOAT_LOOKBACK) c.K = x.pick(K);
    if (c.kind == KNOCK_IN || c.kind == KNOCK_OUT) { c.B = x.pick(B); c.up = x.flip(); }
    return c;
}
static void parity(X& x, const Contract& c, const std::vector<std::vector<double>>& paths, double r, double v) {
    if (c.kind != KNOCK_IN && c.kind != KNOCK_OUT) return;
    Contract d = c; d.kind = c.kind == KNOCK_IN ? KNOCK_OUT : KNOCK_IN; Contract e = c; e.kind = EUROPEAN;
    double w = price(x, d, paths, r, false), eu = price(x, e, paths, r, false);
    CHECK(x, mc::near(v + w, eu, 1e-10, 1e-10), "%s: knock-in %g + knock-out %g is not the European %g", str(c).c_str(), v, w, eu);
}
static void grid(X& x, int N, int steps, const std::vector<double>& A) {
    Env env; Contract c = pickContract(x, {100, 85, 125}, {120, 70, 100, 110});
    std::vector<std::vector<double>> paths(N, std::vector<double>(steps));
    for (auto& p : paths) for (auto& s : p) s = x.pick(A);
    notePaths(x, c, paths); c.T = 0.75;
    double v = price(x, c, paths, 0.06, false); if (N == 1) parity(x, c, paths, 0.06, v);
}
// the sanitizer's allocator would take most of the time of 2^31 paths: their one-price vectors come from a small pool instead
static bool g_pool = false; alignas(16) static char g_slots[256][16]; static unsigned g_used = 0;
void* operator new(size_t n) { if (g_pool && n <= 16 && g_used < 256) return g_slots[g_used++]; void* p = std::malloc(n); if (!p) throw std::bad_alloc(); return p; }
static void release(void* p) noexcept { if (p >= g_slots && p < g_slots + 256) { if (p == g_slots[g_used - 1]) --g_used; } else std::free(p); }
void operator delete(void* p) noexcept { release(p); }
void operator delete(void* p, size_t) noexcept { release(p); }
// more paths than a 32-bit signed counter holds: one path after the 2^31st is different
struct CountModel : ScriptModel {
    mutable unsigned long n = 0; unsigned long special; double T;
    CountModel(std::shared_ptr<FakeMD> md, std::shared_ptr<DimGen> g, unsigned long s, double t) : ScriptModel(md, g), special(s), T(t) {}
    double next1(double t) const { if (t != T) ++n; mc::g_ticks = 0; return n++ == special ? 1e10 : 100.0; }
    double simulatePriceAtMaturity(const double& t) const override { return next1(t); }
    std::vector<double> simulatePrices(const double& t) const override { return {next1(t)}; }
};
static void bodyHuge(X& x) {
    static const int K[] = {EUROPEAN, ARITH_ASIAN, KNOCK_OUT, FIXED_LOOKBACK};
    Env env; Contract c; c.kind = K[x.choose(4)]; c.K = 100; c.K2 = 1e11; c.B = c.kind == KNOCK_IN ? 1e9 : 50; c.up = c.kind == KNOCK_IN; c.T = 0.5;
    const unsigned long N = (1ul << 31) + 3; auto md = fakeMD(90, 0.3, 0.01, 0.04); auto model = std::make_shared<CountModel>(md, std::make_shared<DimGen>(1), N - 2, c.T);
    auto p = pricerFor(c, make(c), md, model); x.note("%s, %lu paths", str(c).c_str(), N); x.step();
    g_pool = true; const double v = p->calculatePrice(N); g_pool = false;
    const double each = refPayoff(c, {100.0}), other = refPayoff(c, {1e10}), want = ((N - 1.0) * each + other) / N * std::exp(-0.02);
    CHECK(x, model->n == N, "%s: %lu paths simulated, %lu requested", str(c).c_str(), model->n, N);
    CHECK(x, mc::near(v, want, 1e-7, 1e-9), "%s, %lu paths: price %.15g, expected %.15g", str(c).c_str(), N, v, want);
    mc::Hash h; h(c.kind); x.state(h.h);
}
MC_MAIN([] {
    std::vector<mc::Unit> u; using V = std::vector<double>;
    static const V A5 = {70, 90, 100, 120, 130}, A4 = {70, 100, 120, 130}, A3 = {80, 100, 120};
    struct G { int N, s; const V* a; };
    std::vector<G> gs = {{1, 1, &A5}, {1, 2, &A5}, {1, 3, &A5}, {1, 4, &A5}, {1, 5, &A4}, {2, 1, &A5}, {2, 2, &A5}, {2, 3, &A4}, {3, 1, &A5}, {3, 2, &A4}, {4, 1, &A4}, {1, 6, &A3}, {6, 1, &A3}};
    if (mc::thorough) for (G g : std::vector<G>{{1, 5, &A5}, {1, 6, &A4}, {1, 7, &A3}, {2, 3, &A5}, {3, 2, &A5}, {2, 4, &A3}, {4, 2, &A3}, {3, 3, &A3}, {5, 1, &A5}}) gs.push_back(g);
    for (auto g : gs) u.push_back({"paths " + std::to_string(g.N) + "x" + std::to_string(g.s) + " over " + std::to_string(g.a->size()) + " prices", [g](X& x) { grid(x, g.N, g.s, *g.a); }, -1, 4, 0});

    // boundary values: prices at and one ulp around strike and barrier, in every position of a 3-step path
    u.push_back({"ulp boundaries", [](X& x) {
        Env env; Contract c = pickContract(x, {100}, {100, 110}); c.T = 1.25;
        V a = {ulpDn(100), 100, ulpUp(100), ulpDn(c.B), c.B, ulpUp(c.B), 105};
        if (c.kind == DOUBLE_DIGITAL) a = {c.K, ulpDn(c.K), ulpUp(c.K), c.K2, ulpDn(c.K2), ulpUp(c.K2), 105};
        std::vector<V> p(1, V(3)); for (auto& s : p[0]) s = x.pick(a); notePaths(x, c, p);
        price(x, c, p, 0.03, false);
    }, -1, 4, 0});
    // magnitudes: prices, strikes and barriers anywhere between 1e-14 and 1e14, mixed on one path
    u.push_back({"magnitudes", [](X& x) {
        static const V M = {1e-14, 1e-9, 2e-3, 1, 3e4, 1e9, 1e14}; Env env; Contract c = pickContract(x, {0, 1e-14, 1e-9, 1.5e-3, 1, 2e4, 1e9, 1e14}, {1e-12, 1e-3, 1, 1e5, 1e12}); c.T = 0.5; if (c.kind == DOUBLE_DIGITAL) { c.K = x.pick(M); c.K2 = x.pick(M); }
        std::vector<V> p(1, V(x.flip() ? 1 : 2)); for (auto& s : p[0]) s = x.pick(M); notePaths(x, c, p); price(x, c, p, 0.03, false); }, -1, 4, 0});
    // long paths: every position of one spike, and of two spikes
    u.push_back({"one spike in a long path", [](X& x) {
        Env env; static const std::vector<int> L = {1, 2, 3, 4, 5, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 50, 52, 63, 64, 65, 100, 127, 128, 129, 250, 252, 255, 256, 257, 300, 366, 400, 520, 1025};
        Contract c = pickContract(x, {100}, {130, 75}); int n = mc::thorough ? x.pick(L) : x.pick(std::vector<int>{1, 2, 3, 5, 8, 16, 31, 52, 64, 100, 128, 252, 257, 400}); double sp = x.pick(V{130, 75, 200, 20});
        int at = x.choose(n); std::vector<V> p(2, V(n));
        for (int j = 0; j < n; ++j) { p[0][j] = 101 + 0.01 * (j % 7); p[1][j] = 102 - 0.01 * (j % 5); } p[0][at] = sp; notePaths(x, c, p); x.note("spike %g at %d of %d", sp, at, n);
        price(x, c, p, 0.02, false);
    }, -1, 4, 0});
    u.push_back({"two spikes in a long path", [](X& x) {
        Env env; Contract c = pickContract(x, {100}, {130, 75}); int n = x.pick(mc::thorough ? std::vector<int>{6, 20, 33, 52} : std::vector<int>{6, 20}); double a = x.pick(V{130, 75}), b = x.pick(V{130, 75, 180});
        int i = x.choose(n - 1), j = i + 1 + x.choose(n - 1 - i); std::vector<V> p(1, V(n)); for (int k = 0; k < n; ++k) p[0][k] = 100 + (k % 3); p[0][i] = a; p[0][j] = b; notePaths(x, c, p);
        price(x, c, p, 0.02, false);
    }, -1, 4, 0});
    // many paths: all different, and a single non-zero payoff at every boundary position
    u.push_back({"many paths", [](X& x) {
        Env env; Contract c = pickContract(x, {100}, {130, 75}); static const std::vector<int> L = {7, 16, 100, 127, 128, 255, 256, 257, 1000, 1023, 1024, 4096, 10000, 32767, 32768, 32769, 65535, 65536, 65537, 100000, 131073};
        int n = x.pick(mc::thorough ? L : std::vector<int>{7, 100, 256, 1000, 4097, 10001, 32769, 65537, 100001}), mode = x.choose(4); std::vector<V> p(n, V(2));
        for (int i = 0; i < n; ++i) { if (mode == 0) { p[i][0] = 60 + (i * 7919LL % 1000) * 0.1; p[i][1] = 60 + (i * 104729LL % 1000) * 0.1; } else { int at = mode == 1 ? 0 : mode == 2 ? n - 1 : n / 2; double v = c.call ? 100 : 100; p[i][0] = p[i][1] = v; if (i == at) { p[i][0] = 131; p[i][1] = c.call ? 140 : 60; } } }
        x.note("%s, %d paths, mode %d", str(c).c_str(), n, mode);
        price(x, c, p, 0.04, true);
    }, -1, 4, 0});
    // rates and maturities: discounting with the configured market data, simulation to the option's maturity
    u.push_back({"rates and maturities", [](X& x) {
        Env env; Contract c = pickContract(x, {100}, {130, 75}); c.T = x.pick(V{0.0, 1e-6, 1.0 / 365, 1.0 / 252, 1.0 / 12, 0.25, 1.0 / 3, 0.5, 0.9, 1.0, 1.5, 2, 3, 5, 10, 30, 40, 100, 500}); double r = x.pick(V{-0.2, -0.05, -0.001, 0, 1e-6, 0.001, 0.01, 0.03, 0.05, 0.1, 0.25, 1.0, 2.0});
        std::vector<V> p = {{110, 140, 120}, {90, 70, 80}, {100, 100, 104}}; x.note("%s r=%g", str(c).c_str(), r);
        price(x, c, p, r, true);
    }, -1, 3, 0});
    // strikes and price scales
    u.push_back({"strikes and scales", [](X& x) {
        Env env; double sc = x.pick(V{1e-9, 1e-4, 0.01, 0.5, 1, 7, 1000, 1e6, 1e12}); Contract c = pickContract(x, {0, 0.5, 50, 95, 99.5, 100, 101, 150, 500}, {0, 60, 75, 100, 130, 1000});
        c.K *= sc; c.K2 *= sc; c.B *= sc; c.T = 0.5; std::vector<V> p = {{110 * sc, 140 * sc, 120 * sc}, {90 * sc, 70 * sc, 80 * sc}, {100 * sc, 100 * sc, 100 * sc}, {99 * sc, 130 * sc, 102 * sc}}; notePaths(x, c, p);
        double v = price(x, c, p, 0.05, false); (void)v;
    }, -1, 3, 0});
    // pricing again, and changing the number of paths, starts from nothing
    u.push_back({"repeated pricing", [](X& x) {
        Env env; Contract c = pickContract(x, {100}, {130, 75}); auto md = fakeMD(90, 0.3, 0.01, 0.05); auto gen = std::make_shared<DimGen>(3); auto model = std::make_shared<ScriptModel>(md, gen);
        auto o = make(c); auto p = pricerFor(c, o, md, model); MCSolver s; s.setPricer(std::move(p));
        static const std::vector<V> pool = {{110, 140, 120}, {90, 70, 80}, {100, 100, 104}, {131, 90, 60}, {100, 125, 129}};
        for (int d = 0; d < 4; ++d) {
            int N = 1 + x.choose(3), at = x.choose(2) * 2; double r = d % 2 ? 0.05 : -0.02; md->r = r; model->paths.clear(); model->next = 0; model->askedT.clear();
            for (int i = 0; i < N; ++i) model->paths.push_back(pool[(at + i) % pool.size()]); s.setN(N); x.step(N);
            double v = s.solve(); long double sum = 0; for (auto& q : model->paths) sum += refPayoff(c, q); double want = double(sum / N * expl(-(long double)r * c.T));
            CHECK(x, model->next == size_t(N) && !model->over, "%s: %zu paths instead of %d", str(c).c_str(), model->next, N);
            CHECK(x, mc::near(v, want, 1e-10, 1e-11), "%s, pricing %d with %d paths: %.15g, expected %.15g", str(c).c_str(), d, N, v, want);
        }
        mc::Hash h; h(c.kind)(c.call)(c.B)(c.up); x.state(h.h);
    }, -1, 4, 0});
    if (mc::thorough) u.push_back({"more than 2^31 paths", bodyHuge, -1, 1, 0});
    return u;
})
