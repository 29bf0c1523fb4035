// C19: finite-difference prices of European options against Black-Scholes.
#include "fdm.hpp"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
static double bs(bool call, double S, double K, double r, double c, double s, double T) {
    if (S <= 0) return call ? 0 : K * std::exp(-r * T); if (K <= 0) return call ? S * std::exp(-c * T) : 0; double F = S * std::exp((r - c) * T), sd = s * std::sqrt(T); if (sd <= 0) return std::exp(-r * T) * std::max(call ? F - K : K - F, 0.0);
    double d1 = std::log(F / K) / sd + 0.5 * sd, d2 = d1 - sd; return std::exp(-r * T) * (call ? F * Phi(d1) - K * Phi(d2) : K * Phi(-d2) - F * Phi(-d1));
}
struct Mkt { double r; std::optional<double> c; double s; double cc() const { return c.value_or(0); } };
struct Grid { double X; unsigned long J, N; };
// the textbook theta scheme on the same grid: its distance from the closed form is the discretisation error
static V refGrid(int scheme, bool call, double K, const Mkt& m, double T, const Grid& g) {
    const double th = scheme == EXPLICIT ? 0 : scheme == IMPLICIT ? 1 : 0.5, dx = g.X / (g.J - 1), dt = T / (g.N - 1); const long J = long(g.J); V o(J), n(J), lo(J), di(J), up(J), cp(J), dp(J); for (long j = 0; j < J; ++j) { double x = j * dx; o[j] = std::max(call ? x - K : K - x, 0.0); double D = 0.5 * m.s * m.s * x * x / (dx * dx), C = (m.r - m.cc()) * x / (2 * dx); lo[j] = D - C; di[j] = -2 * D - m.r; up[j] = D + C; }
    for (unsigned long k = 1; k < g.N; ++k) { double t = k * dt; n[0] = call ? 0 : K * std::exp(-m.r * t); n[J - 1] = call ? g.X * std::exp(-m.cc() * t) - K * std::exp(-m.r * t) : 0;
        for (long j = 1; j < J - 1; ++j) n[j] = o[j] + (1 - th) * dt * (lo[j] * o[j - 1] + di[j] * o[j] + up[j] * o[j + 1]);
        if (th > 0) { cp[0] = 0; dp[0] = n[0]; for (long j = 1; j < J - 1; ++j) { double a = -th * dt * lo[j], b = 1 - th * dt * di[j], c = -th * dt * up[j], w = b - a * cp[j - 1]; cp[j] = c / w; dp[j] = (n[j] - a * dp[j - 1]) / w; } for (long j = J - 2; j >= 1; --j) n[j] = dp[j] - cp[j] * n[j + 1]; }
        o = n; } return o;
}
static std::shared_ptr<IMarketData> marketFor(int kind, double S, const Mkt& m) {
    if (kind == 0) return fakeMD(S, m.s, m.c, m.r); auto md = MarketData::getInstance(); md->addStock("TK", S, m.s, m.c); md->setR(m.r); return md;
}
struct Side { double price; V grid; double err, ref; bool ok; };
static Side side(X& x, int scheme, bool call, const V& Ss, double K, const Mkt& m, double T, const Grid& g, int mdk, int in, int ms) {
    Side r; V ref = refGrid(scheme, call, K, m, T, g); r.err = 0; r.ok = true; for (unsigned long j = 0; j < g.J; ++j) { double e = std::fabs(ref[j] - bs(call, g.X * j / (g.J - 1), K, m.r, m.cc(), m.s, T)); if (!(e < 1e100)) r.ok = false; r.err = std::max(r.err, e); } if (!(r.err < 0.06 * K)) { r.ok = false; return r; }
    auto o = european(call, K, T); auto md = marketFor(mdk, Ss[0], m); auto f = fdm(scheme, g.X, g.J, T, g.N, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md), o, md, interpolator(in), matrixSolver(ms)); r.price = f->calculatePrice(); r.grid = f->solve(); x.step(long(g.N)); V xs; for (unsigned long j = 0; j < g.J; ++j) xs.push_back(g.X * j / (g.J - 1)); 
    const char* nm = schemeName(scheme); CHECK(x, r.grid.size() == g.J, "%zu grid values for %lu points", r.grid.size(), g.J);
    for (unsigned long j = 0; j < g.J; ++j) { double w = bs(call, xs[j], K, m.r, m.cc(), m.s, T); CHECK(x, std::fabs(r.grid[j] - w) <= 1.2 * r.err + 1e-7 * K, "%s %s K=%g T=%g r=%g c=%g sigma=%g grid %lux%lu to %g: value %.8g at spot %g, Black-Scholes %.8g, discretisation error of the scheme %.3g", nm, call ? "call" : "put", K, T, m.r, m.cc(), m.s, g.J, g.N, g.X, r.grid[j], xs[j], w, r.err); }
    for (double S : Ss) { if (S != Ss[0]) { if (mdk) MarketData::getInstance()->updateStockPrice("TK", S); else std::dynamic_pointer_cast<FakeMD>(md)->put("TK", S, m.s, m.c); r.price = f->calculatePrice(); } r.ref = in == 2 ? QuadraticInterpolation().interpolate(xs, ref, S) : LinearInterpolation().interpolate(xs, ref, S);
    double w = bs(call, std::min(S, g.X), K, m.r, m.cc(), m.s, T), ie = std::fabs(r.ref - w), tol = std::max(1.5 * ie, 0.3 * r.err) + 1e-6 * K;     // the scheme's own error at this spot, interpolation included
    CHECK(x, std::fabs(r.price - w) <= tol, "%s %s S=%g K=%g T=%g r=%g c=%g sigma=%g grid %lux%lu to %g: price %.8g, Black-Scholes %.8g (textbook scheme %.8g)", nm, call ? "call" : "put", S, K, T, m.r, m.cc(), m.s, g.J, g.N, g.X, r.price, w, r.ref); }
    mc::Hash h; h(scheme)(call)(Ss[0])(K)(T)(m.r)(m.s)(m.cc())(g.X)(g.J)(g.N)(r.price); x.state(h.h); return r;
}
static bool explicitStable(const Mkt& m, double T, const Grid& g) { double dt = T / (g.N - 1), j = double(g.J - 2); return dt * (m.s * m.s * j * j + std::fabs(m.r)) <= 1; }
static void both(X& x, int scheme, const V& S, double K, const Mkt& m, double T, const Grid& g, int mdk, int in, int ms) {
    quiet(); if (scheme == EXPLICIT && !explicitStable(m, T, g)) return; x.note("%s S=%g.. K=%g T=%g r=%g c=%g sigma=%g grid %lux%lu to %g", schemeName(scheme), S[0], K, T, m.r, m.cc(), m.s, g.J, g.N, g.X);
    Side c = side(x, scheme, true, S, K, m, T, g, mdk, in, ms), p = side(x, scheme, false, S, K, m, T, g, mdk, in, ms); if (!c.ok || !p.ok) return;
    V rc = refGrid(scheme, true, K, m, T, g), rp = refGrid(scheme, false, K, m, T, g); double pe = 0; for (unsigned long j = 0; j < g.J; ++j) { double xx = g.X * j / (g.J - 1), w = xx * std::exp(-m.cc() * T) - K * std::exp(-m.r * T); pe = std::max(pe, std::fabs(rc[j] - rp[j] - w)); }
    for (unsigned long j = 0; j < g.J; ++j) { double xx = g.X * j / (g.J - 1), w = xx * std::exp(-m.cc() * T) - K * std::exp(-m.r * T); CHECK(x, std::fabs(c.grid[j] - p.grid[j] - w) <= 1.2 * pe + 1e-8 * (K + g.X), "%s: put-call parity at spot %g: call %.9g - put %.9g = %.9g, expected %.9g (K=%g T=%g r=%g c=%g sigma=%g grid %lux%lu)", schemeName(scheme), xx, c.grid[j], p.grid[j], c.grid[j] - p.grid[j], w, K, T, m.r, m.cc(), m.s, g.J, g.N); }
}
MC_MAIN([] {
    std::vector<mc::Unit> u; using O = std::optional<double>; static const std::vector<O> CS = {std::nullopt, O(0.03), O(0.0), O(0.1)};
    for (int sc = 0; sc < NSCHEMES; ++sc) {
        u.push_back({std::string(schemeName(sc)) + " prices", [sc](X& x) { double K = x.pick(V{100, 60, 137.5}), T = x.pick(V{1, 0.25, 0, 3, 0.01}); Mkt m; m.r = x.pick(V{0.05, 0, 0.15, -0.02}); m.c = CS[x.choose(4)]; m.s = x.pick(V{0.2, 0.1, 0.45, 0.8}); int gi = x.choose(mc::thorough ? 5 : 3); static const Grid G[] = {{300, 61, 101}, {400, 81, 31}, {500, 26, 16}, {400, 201, 2001}, {300, 101, 1001}}; both(x, sc, V{100, 85, 142}, K, m, T, G[gi], 0, 0, sc == EXPLICIT ? 0 : 3 * x.choose(2)); }, -1, 4});
        u.push_back({std::string(schemeName(sc)) + " scales and spots", [sc](X& x) { double k = x.pick(V{1, 0.01, 50, 1e4}), K = k * x.pick(V{1, 0.5, 1.9}), T = x.pick(V{0.5, 2}); Mkt m; m.r = x.pick(V{0.05, 0}); m.c = CS[x.choose(2)]; m.s = x.pick(V{0.3, 0.15}); Grid g{4 * k, 41, 121}; V S; for (int i = 0; i < 15; ++i) S.push_back(4 * k * (i + 1) / 15.0); S.push_back(4 * k * (1 - 1e-9)); S.push_back(k * 1e-3); S.push_back(k * 5); both(x, sc, S, K, m, T, g, 0, x.choose(3), 0); }, -1, 4});
        u.push_back({std::string(schemeName(sc)) + " real market data", [sc](X& x) { double K = x.pick(V{100, 80}), T = x.pick(V{1, 0.5}); Mkt m; m.r = x.pick(V{0.05, 0.01}); m.c = CS[x.choose(3)]; m.s = x.pick(V{0.2, 0.4}); Grid g{300, 61, sc == EXPLICIT ? 241ul : 81ul}; V S{100, 77.7}; int ms = sc == EXPLICIT ? 0 : x.choose(4); both(x, sc, S, K, m, T, g, 1, x.choose(3), ms); }, -1, 4});
        u.push_back({std::string(schemeName(sc)) + " extreme rates", [sc](X& x) { Mkt m; m.r = x.pick(V{0.5, 1, -0.2, 0.3}); m.c = O(x.pick(V{0.5, 1, 0.2, 0})); m.s = x.pick(V{0.5, 1, 1.5, 0.01}); double T = x.pick(V{1, 0.3, 2}), K = x.pick(V{100, 50}); both(x, sc, V{100, 60}, K, m, T, Grid{600, 61, sc == EXPLICIT ? 3001ul : 101ul}, 0, 0, 0); }, -1, 3});
    }
    for (int sc = 0; sc < NSCHEMES; ++sc) {
        u.push_back({std::string(schemeName(sc)) + " grid sizes", [sc](X& x) {
            static const std::vector<unsigned long> JS = [] { std::vector<unsigned long> v; for (unsigned long j = 4; j <= 40; ++j) v.push_back(j); for (unsigned long j : {48, 50, 55, 63, 64, 65, 72, 80, 90, 96, 99, 100, 101, 110, 127, 128, 129, 150, 180, 199, 200, 201, 255, 256, 257, 300, 350, 400, 401, 511, 512, 513, 700, 1001}) v.push_back(j); return v; }();
            static const std::vector<unsigned long> NS = {2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 13, 16, 17, 20, 26, 32, 33, 50, 64, 65, 100, 101, 128, 129, 200, 256, 257, 365, 500, 512, 1000, 1001, 1024, 2000};
            unsigned long J = JS[x.choose(int(JS.size()))], N = NS[x.choose(int(NS.size()))]; int k = x.choose(mc::thorough ? 6 : 2); if (double(J) * J * N > (mc::thorough ? 6e7 : 3e6)) return; static const Mkt M[] = {{0.05, std::nullopt, 0.2}, {0.02, 0.04, 0.35}, {0, 0.0, 0.5}, {0.1, 0.01, 0.25}, {-0.01, std::nullopt, 0.3}, {0.03, 0.03, 0.15}};
            static const double TS[] = {1, 0.5, 0.02, 2, 0.25, 5}, XS[] = {300, 401, 250, 1000, 500, 640}; both(x, sc, V{100, 93.3}, k & 1 ? 90 : 100, M[k], TS[k], Grid{XS[k], J, N}, 0, k % 3, sc == EXPLICIT ? 0 : 3 * ((J + N) & 1)); }, -1, 2});
        u.push_back({std::string(schemeName(sc)) + " wide ranges", [sc](X& x) {
            double K = x.pick(mc::thorough ? V{100, 1, 7.3, 30, 260, 1500, 1e5} : V{100, 7.3, 1e5}), T = x.pick(V{1e-6, 1e-3, 1.0 / 365, 1.0 / 12, 0.5, 1.5, 5, 10, 30}); Mkt m; m.r = x.pick(mc::thorough ? V{0, 1e-4, 0.01, 0.08, 0.2, -0.05} : V{0, 0.01, 0.2, -0.05}); m.c = x.flip() ? O(m.r > 0 ? 0.06 : 0.001) : std::nullopt; m.s = x.pick(V{0.02, 0.07, 0.25, 0.6, 1, 2}); 
            double w = x.pick(V{2.5, 5}); both(x, sc, V{K, 0.8 * K, 1.3 * K}, K, m, T, Grid{w * K, 51, sc == EXPLICIT ? 301ul : 61ul}, 0, 0, 0); }, -1, 3});
    }
    u.push_back({"coefficients, initial and boundary values", [](X& x) {
        bool call = x.flip(); double K = x.pick(V{100, 0, 1e-3, 250, 1e6}); Mkt m; m.r = x.pick(V{0.05, 0, -0.03, 0.4, 2}); static const std::vector<O> C6 = {std::nullopt, O(0.0), O(0.02), O(1.0), O(0.3)}; m.c = C6[x.choose(5)]; m.s = x.pick(V{0.2, 0, 1e-3, 1, 3}); int mdk = x.choose(2); double T = x.pick(V{1, 0, 5}); auto o = european(call, K, T); auto md = marketFor(mdk, x.pick(V{100, 37}), m); PDE::OneFactor::BlackScholesPDE p(o, md); PDE::OneFactor::ConvectionDiffusionPDE& q = p;
        static const V TT = {0, 1e-9, 0.01, 0.1, 0.25, 0.5, 0.75, 1, 1.5, 2, 5, 30}, XX = {0, 1e-6, 0.5, 1, 50, 99.999999, 100, 100.000001, 130, 249, 250, 251, 1000, 1e6, 2e6}; x.step(long(TT.size() * XX.size()));
        for (double t : TT) for (double s : XX) { auto ck = [&](const char* n, double got, double want) { CHECK(x, mc::near(got, want, 1e-12, 1e-12 * (1 + s + K)), "%s (K=%g r=%g c=%g sigma=%g) at t=%g x=%g: %.15g, expected %.15g", n, K, m.r, m.cc(), m.s, t, s, got, want); };
            ck("diffusion", q.diffusion(t, s), 0.5 * m.s * m.s * s * s); ck("convection", q.convection(t, s), (m.r - m.cc()) * s); ck("reaction", q.reaction(t, s), -m.r); ck("right-hand side", q.rightHandSide(t, s), 0); ck("initial condition", q.initialCondition(s), std::max(call ? s - K : K - s, 0.0));
            ck(call ? "left boundary of a call" : "left boundary of a put", q.boundaryLeft(t, s), call ? 0 : K * std::exp(-m.r * t)); if (s >= K) ck(call ? "right boundary of a call" : "right boundary of a put", q.boundaryRight(t, s), call ? s * std::exp(-m.cc() * t) - K * std::exp(-m.r * t) : 0); }
        mc::Hash h; h(call)(K)(m.r)(m.cc())(m.s)(T); x.state(h.h); }, -1, 3});
    // refinement: the error against the closed form shrinks with the grid
    u.push_back({"convergence", [](X& x) { quiet(); int sc = x.choose(3); bool call = x.flip(); Mkt m; m.r = x.pick(V{0.05, 0}); m.c = CS[x.choose(2)]; m.s = x.pick(V{0.2, 0.4}); double K = x.pick(V{100, 80}), T = x.pick(V{1, 0.5}), S = 100; V e; for (int k = 0; k < (mc::thorough ? 3 : 2); ++k) { unsigned long J = 60 * (1ul << k) + 1, N = sc == EXPLICIT ? 40 * (1ul << 2 * k) * (m.s > 0.3 ? 20 : 5) + 1 : 50 * (1ul << k) + 1; Grid g{400, J, N}; auto o = european(call, K, T); auto md = fakeMD(S, m.s, m.c, m.r); auto f = fdm(sc, g.X, J, T, N, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md), o, md); V gr = f->solve(); double mx = 0; for (unsigned long j = 0; j < J; ++j) mx = std::max(mx, std::fabs(gr[j] - bs(call, g.X * j / (J - 1), K, m.r, m.cc(), m.s, T))); e.push_back(mx); x.step(long(N)); }
        for (size_t k = 1; k < e.size(); ++k) CHECK(x, e[k] < 0.7 * e[k - 1] && e[k] < 0.5, "%s: error %.4g on the coarse grid, %.4g on the refined one", schemeName(sc), e[k - 1], e[k]); mc::Hash h; h(sc)(call)(m.r)(m.s)(K)(T)(e.back()); x.state(h.h); }, -1, 3});
    return u;
})
