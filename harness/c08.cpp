// C08: American pricing follows the least-squares exercise rule, for every set of paths and every regression outcome.
#include "mcp.hpp"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
using namespace op; using mc::X; using V = std::vector<double>;

struct Call { Eigen::MatrixXd A; Eigen::VectorXd y, coef; };
struct SpyRegression : Regression {                       // answers from a script, or from a real regression; records what it was asked
    std::function<Eigen::VectorXd(const Eigen::MatrixXd&, const Eigen::VectorXd&)> f; mutable std::vector<Call> calls;
    Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { auto c = f(A, y); calls.push_back({A, y, c}); return c; }
};
struct Case { Contract c; double r; std::vector<V> paths; bool bridge; };

// the rule, given the coefficients the regression returned (calls are consumed from the last date backwards)
static double reference(X& x, const Case& k, const BasisFunction& basis, const std::vector<Call>& calls, bool& ambiguous) {
    size_t N = k.paths.size(), steps = k.paths[0].size(), used = 0; long double df = expl(-(long double)k.r * k.c.T / steps);
    auto pay = [&](double s) { return k.c.call ? std::max(s - k.c.K, 0.0) : std::max(k.c.K - s, 0.0); };
    std::vector<long double> cf(N); for (size_t i = 0; i < N; ++i) cf[i] = pay(k.paths[i][steps - 1]);
    for (int j = int(steps) - 2; j >= 0; --j) {
        std::vector<size_t> itm; for (size_t i = 0; i < N; ++i) if (pay(k.paths[i][j]) > 0) itm.push_back(i);
        for (auto& v : cf) v *= df;
        if (itm.empty()) continue;
        CHECK(x, used < calls.size(), "date %d of %zu: %zu in-the-money path(s) but no regression", j + 1, steps, itm.size());
        const Call& c = calls[used++];
        CHECK(x, size_t(c.A.rows()) == itm.size() && size_t(c.y.size()) == itm.size(), "date %d of %zu: regression on %ld rows / %ld responses, %zu paths are in the money", j + 1, steps, long(c.A.rows()), long(c.y.size()), itm.size());
        Eigen::VectorXd px(itm.size()); for (size_t a = 0; a < itm.size(); ++a) px[a] = k.paths[itm[a]][j];
        Eigen::MatrixXd B = basis.generate(px);
        CHECK(x, B.cols() == c.A.cols(), "regression on %ld basis functions instead of %ld", long(c.A.cols()), long(B.cols()));
        // rows may come in any order: match each in-the-money path with a row holding its basis values and its discounted cash flow
        std::vector<char> taken(itm.size(), 0);
        for (size_t a = 0; a < itm.size(); ++a) {
            size_t b = 0;
            for (size_t t = 0; t < itm.size(); ++t) {
                b = (a + t) % itm.size(); if (taken[b]) { b = itm.size(); continue; }
                bool same = mc::near(c.y[b], double(cf[itm[a]]), 1e-9, 1e-9);
                for (long q = 0; same && q < B.cols(); ++q) same = mc::near(c.A(b, q), B(a, q), 1e-9, 1e-9);
                if (same) break; b = itm.size();
            }
            CHECK(x, b < itm.size(), "date %d of %zu: no regression row for path %zu (price %.12g, discounted cash flow %.12g)", j + 1, steps, itm[a], px[a], double(cf[itm[a]]));
            taken[b] = 1;
        }
        for (size_t a = 0; a < itm.size(); ++a) {
            long double cont = 0, mag = 0; for (long q = 0; q < B.cols(); ++q) { long double t = (long double)c.coef[q] * B(a, q); cont += t; mag = std::max(mag, fabsl(t)); }
            double ex = pay(px[a]);
            if (fabsl(ex - cont) <= 1e-11L * (mag + ex) && !(ex == double(cont) && mag == fabsl(cont))) ambiguous = true;   // decided by rounding
            if (ex > double(cont)) cf[itm[a]] = ex;
        }
    }
    CHECK(x, used == calls.size(), "%zu regressions, %zu dates have in-the-money paths", calls.size(), used);
    long double s = 0; for (auto v : cf) s += v; return double(s / N * df);
}
template<class P> double bridgePrice(P* p, unsigned long N, bool& there) { if constexpr (requires { p->brownianBridgePrice(N); }) { there = true; return p->brownianBridgePrice(N); } else { there = false; return 0; } }
static double run(X& x, const Case& k, std::shared_ptr<BasisFunction> basis, std::shared_ptr<SpyRegression> reg) {
    auto g = MarketData::getInstance(); g->addStock("TK", 42.0, 0.9, 0.5); g->setR(0.77);
    auto md = fakeMD(90, 0.3, 0.01, k.r); size_t steps = k.paths[0].size(), N = k.paths.size(); double dt = k.c.T / steps;
    auto model = std::make_shared<ScriptModel>(md, std::make_shared<DimGen>(unsigned(steps))); model->paths = k.paths;
    std::vector<int> pos(N, int(steps) - 1); long backCalls = 0; bool timesOk = true;
    // backward steps: the i-th path is recognised by its order within a date, and by its price when prices are distinct
    std::vector<size_t> order; 
    model->back = [&](double S, double t0, double t1) -> double {
        size_t i = backCalls++ % N; int j = int(std::lround(t0 / dt)) - 1;
        if (j < 0 || j + 1 >= int(steps) || std::fabs(t0 - (j + 1) * dt) > 1e-9 * k.c.T || std::fabs(t1 - (j + 2) * dt) > 1e-9 * k.c.T) timesOk = false;
        j = std::max(0, std::min(j, int(steps) - 2));
        if (k.paths[i][j + 1] != S) for (size_t q = 0; q < N; ++q) if (k.paths[q][j + 1] == S) { i = q; break; }
        if (k.paths[i][j + 1] != S) timesOk = false;
        return k.paths[i][j];
    };
    auto o = make(k.c); AmericanMCBuilder b; b.setOption(o); b.setMarketData(md); b.setStockPriceModel(model); b.setBasisFunctionStrategy(basis); b.setRegressionStrategy(reg);
    auto p = b.build(); x.step(N * steps); double v; bool there = true;
    if (k.bridge) { auto* a = dynamic_cast<AmericanMCPricer*>(p.get()); CHECK(x, a, "the builder did not build an American pricer"); v = bridgePrice(a, N, there); if (!there) return 0; }
    else v = p->calculatePrice(N);
    CHECK(x, model->next == N && !model->over, "%zu paths simulated, %zu requested", model->next, N);
    for (double T : model->askedT) CHECK(x, T == k.c.T, "path simulated to %g", T);
    if (k.bridge) { CHECK(x, timesOk, "backward step asked between other dates or from another price"); CHECK(x, backCalls == long(N * (steps - 1)), "%ld backward steps, expected %zu", backCalls, N * (steps - 1)); }
    bool amb = false; double want = reference(x, k, *basis, reg->calls, amb);
    mc::Hash h; h(k.bridge)(k.c.call)(k.r)(N)(steps); for (size_t i = 0; i < N && i < 8; ++i) h(k.paths[i]); for (auto& c : reg->calls) h(c.coef.size() ? c.coef[0] : 0.0); x.state(h.h);
    if (amb) return v;
    CHECK(x, mc::near(v, want, 1e-9, 1e-11), "%s, %s, r=%g, %zu paths x %zu steps: price %.15g, expected %.15g", str(k.c).c_str(), k.bridge ? "backward" : "stored paths", k.r, N, steps, v, want);
    return v;
}
static void notes(X& x, const Case& k) {
    if (!x.recording) return; x.note("%s r=%g %s", str(k.c).c_str(), k.r, k.bridge ? "backward" : "stored");
    for (size_t i = 0; i < k.paths.size() && i < 6; ++i) { std::string s; for (size_t j = 0; j < k.paths[i].size() && j < 12; ++j) { char b[32]; std::snprintf(b, 32, " %.10g", k.paths[i][j]); s += b; } x.note("path %zu:%s", i, s.c_str()); }
}
static Case base(X& x) { Case k; k.bridge = x.flip(); k.c.kind = AMERICAN; k.c.call = x.flip(); k.c.K = 100; k.r = 0.06; k.c.T = 0.75; return k; }
// scripted continuation values: constant never/always/between/exact tie, and one that depends on the price
static Eigen::VectorXd scripted(int s, long cols, bool call) {
    Eigen::VectorXd c = Eigen::VectorXd::Zero(cols);
    switch (s) { case 0: c[0] = 1e6; break; case 1: c[0] = -1e6; break; case 2: c[0] = 10; break; case 3: c[0] = 20; break; case 4: c[0] = 5; break;
        default: if (cols > 1) { c[0] = call ? -60 : 80; c[1] = call ? 0.6 : -0.7; } else c[0] = 0; }
    return c;
}
static void gridUnit(X& x, int N, int steps, const V& A, int nscr) {
    Case k = base(x); k.paths.assign(N, V(steps)); for (auto& p : k.paths) for (auto& s : p) s = x.pick(A);
    if (k.c.call) for (auto& p : k.paths) for (auto& s : p) s = 200 - s;
    notes(x, k); auto reg = std::make_shared<SpyRegression>(); auto basis = std::make_shared<MonomialBasisFunction>(2);
    reg->f = [&](const Eigen::MatrixXd& A, const Eigen::VectorXd&) { int s = x.choose(nscr); x.note("regression on %ld rows answers script %d", long(A.rows()), s); return scripted(s, A.cols(), k.c.call); };
    run(x, k, basis, reg);
}
static std::shared_ptr<BasisFunction> basisOf(int f, unsigned n) {
    switch (f) { case 0: return std::make_shared<MonomialBasisFunction>(n); case 1: return std::make_shared<ChebyshevBasisFunction>(n); case 2: return std::make_shared<LegendreBasisFunction>(n); default: return std::make_shared<LaguerreBasisFunction>(n); }
}
static std::shared_ptr<Regression> regOf(int f) {
    switch (f) { case 0: return std::make_shared<LeastSquaresRegression>(); case 1: return std::make_shared<RidgeRegression>(0.5); case 2: return std::make_shared<LassoRegression>(0.25); default: return std::make_shared<RidgeRegression>(1e-3); }
}
MC_MAIN([] {
    std::vector<mc::Unit> u; static const V A3 = {80, 95, 110}, A4 = {80, 90, 97, 110};
    struct G { int N, s; const V* a; int scr; }; std::vector<G> gs = {{1, 1, &A4, 6}, {1, 2, &A4, 6}, {1, 3, &A4, 6}, {1, 4, &A4, 5}, {1, 5, &A3, 3}, {2, 1, &A4, 6}, {2, 2, &A4, 6}, {2, 3, &A3, 6}, {3, 1, &A4, 6}, {3, 2, &A4, 6}, {4, 2, &A3, 6}, {3, 3, &A3, 3}};
    if (mc::thorough) for (G g : std::vector<G>{{1, 6, &A3, 3}, {2, 4, &A3, 4}, {3, 3, &A3, 6}, {2, 3, &A4, 6}, {4, 2, &A4, 6}, {5, 2, &A3, 6}}) gs.push_back(g);
    for (auto g : gs) u.push_back({"scripted " + std::to_string(g.N) + "x" + std::to_string(g.s) + "/" + std::to_string(g.a->size()) + "/" + std::to_string(g.scr), [g](X& x) { gridUnit(x, g.N, g.s, *g.a, g.scr); }, -1, 4, 0});
    // real regressions and bases on all small path sets (distinct prices)
    u.push_back({"real regressions, small path sets", [](X& x) {
        Case k = base(x); int N = 1 + x.choose(4), steps = 2 + x.choose(2); if (N * steps > 9) { N = 3; }
        int bf = x.choose(4); unsigned nb = 1 + x.choose(4); int rf = x.choose(4); k.paths.assign(N, V(steps));
        int code = x.choose(mc::thorough ? 729 : 81);
        for (int i = 0, q = 0; i < N; ++i) for (int j = 0; j < steps; ++j, ++q) { int d = code; for (int z = 0; z < q % (mc::thorough ? 6 : 4); ++z) d /= 3; static const double P[] = {82, 96, 109}; k.paths[i][j] = P[(d + q / 4) % 3] + 0.37 * i - 0.21 * j; if (k.c.call) k.paths[i][j] = 200 - k.paths[i][j]; }
        notes(x, k); x.note("basis %d with %u functions, regression %d", bf, nb, rf);
        auto reg = std::make_shared<SpyRegression>(); auto real = regOf(rf); reg->f = [&](const Eigen::MatrixXd& A, const Eigen::VectorXd& y) { return real->solve(A, y); };
        run(x, k, basisOf(bf, nb), reg);
    }, -1, 5, 0});
    // long paths and many paths, dates without in-the-money paths at every position
    u.push_back({"long paths", [](X& x) {
        Case k = base(x); k.r = x.pick(V{0.06, -0.03, 0, 0.5}); k.c.T = x.pick(V{0.75, 3.0}); int steps = x.pick(std::vector<int>{1, 2, 3, 4, 7, 12, 13, 31, 52, 64, 100, 252, 300}), N = x.pick(std::vector<int>{1, 3, 5}); int gap = x.choose(5);
        k.paths.assign(N, V(steps)); for (int i = 0; i < N; ++i) for (int j = 0; j < steps; ++j) { bool otm = gap == 1 ? j < steps / 2 : gap == 2 ? j >= steps / 2 && j < steps - 1 : gap == 3 ? j % 2 == 0 : gap == 4 ? j != steps / 2 : false; double s = otm ? 105 + i + 0.001 * j : 90 + 4 * std::sin(1.7 * i + 0.9 * j) + 0.01 * i; k.paths[i][j] = k.c.call ? 200 - s : s; }
        notes(x, k); auto reg = std::make_shared<SpyRegression>(); auto real = regOf(x.choose(2)); int scr = x.choose(2);
        reg->f = [&](const Eigen::MatrixXd& A, const Eigen::VectorXd& y) -> Eigen::VectorXd { if (scr) { Eigen::VectorXd c = Eigen::VectorXd::Zero(A.cols()); c[0] = 12; return c; } return real->solve(A, y); };
        run(x, k, basisOf(0, 3), reg);
    }, -1, 5, 0});
    u.push_back({"many paths", [](X& x) {
        Case k = base(x); int N = x.pick(mc::thorough ? std::vector<int>{10, 100, 255, 256, 257, 1000, 4097, 10000, 40000} : std::vector<int>{10, 257, 1000, 4097}), steps = x.pick(std::vector<int>{1, 2, 5}); int bf = x.choose(4);
        k.paths.assign(N, V(steps)); for (int i = 0; i < N; ++i) for (int j = 0; j < steps; ++j) { double s = 70 + 60.0 * ((i * 7919LL + j * 104729LL) % 100003) / 100003.0; k.paths[i][j] = k.c.call ? 200 - s : s; }
        x.note("%d paths x %d steps", N, steps); auto reg = std::make_shared<SpyRegression>(); auto real = regOf(0); reg->f = [&](const Eigen::MatrixXd& A, const Eigen::VectorXd& y) { return real->solve(A, y); };
        run(x, k, basisOf(bf, 3), reg);
    }, -1, 4, 0});
    // a custom basis: only the configured basis decides the regressors
    u.push_back({"rates, maturities, strikes", [](X& x) {
        Case k = base(x); k.r = x.pick(V{-0.2, -0.01, 0, 1e-6, 0.01, 0.05, 0.2, 1.0}); k.c.T = x.pick(V{1e-6, 1.0 / 365, 0.25, 0.5, 1, 2, 10, 30, 100}); double sc = x.pick(V{1e-8, 0.01, 1, 100, 1e5}), off = x.pick(V{1, 1e-5, 1e-9}); k.c.K = 100 * sc;
        k.paths = {{80 * sc, 97 * sc, 110 * sc, 91 * sc}, {110 * sc, 120 * sc, 99 * sc, 70 * sc}, {95 * sc, 85 * sc, 102 * sc, 103 * sc}}; if (k.c.call) for (auto& p : k.paths) for (auto& s : p) s = 200 * sc - s; for (auto& p : k.paths) for (auto& s : p) s = k.c.K + off * (s - k.c.K);      // barely in the money
        notes(x, k); struct Cubic : BasisFunction { Cubic() : BasisFunction(2) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { Eigen::MatrixXd m(v.size(), 2); m.col(0).setConstant(2.0); m.col(1) = v.array().sqrt(); return m; } };
        auto reg = std::make_shared<SpyRegression>(); auto real = regOf(0); int scr = off == 1 ? x.choose(3) : 1 + x.choose(2);
        reg->f = [&](const Eigen::MatrixXd& A, const Eigen::VectorXd& y) -> Eigen::VectorXd { if (scr == 1) return Eigen::VectorXd::Constant(A.cols(), -1e9); if (scr == 2) return Eigen::VectorXd::Constant(A.cols(), 1e9); return real->solve(A, y); };
        run(x, k, std::make_shared<Cubic>(), reg);
    }, -1, 4, 0});
    // whole pipeline without randomness (zero volatility): optimal deterministic stopping on the simulated dates, for every dispatch
    u.push_back({"zero volatility pipeline", [](X& x) {
        auto g = MarketData::getInstance(); int modelKind = x.choose(3); bool call = x.flip(); double r = x.pick(V{0.05, 0.0, -0.04, 0.3}); double cc = x.pick(V{0.0, 0.1}); double K = x.pick(V{90, 100, 130}); int steps = x.pick(std::vector<int>{1, 2, 5, 52}); double T = x.pick(V{0.5, 2.0}); int N = x.pick(std::vector<int>{1, 2, 7});
        g->addStock("TK", 100.0, 0.0, std::optional<double>(cc)); g->setR(r);
        std::shared_ptr<NumberGenerator> gen; if (modelKind == 0) gen = std::make_shared<PseudoRandomNumberGenerator>(steps, 7u); else gen = std::make_shared<SobolGenerator>(steps * (modelKind == 2 ? 1 : 1));
        std::shared_ptr<StockModel> m = std::make_shared<GeometricBrownianMotionModel>("TK", g, gen);
        if (modelKind == 2) { gen = std::make_shared<PseudoRandomNumberGenerator>(steps, 9u); m = std::make_shared<HestonModel>("TK", g, gen, 1.0, 1e-14, 0.0, 0.3, 0.0); }
        Contract c; c.kind = AMERICAN; c.call = call; c.K = K; c.T = T; auto o = make(c); AmericanMCBuilder b; b.setOption(o); b.setMarketData(g); b.setStockPriceModel(m); b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(1)); auto p = b.build(); x.step(N * steps);
        double v = p->calculatePrice(N), dt = T / steps, df = std::exp(-r * dt), cf = 0; bool amb = false;
        for (int j = steps; j >= 1; --j) { double S = 100 * std::exp((r - cc) * dt * j), ex = std::max(call ? S - K : K - S, 0.0); if (j == steps) { cf = ex; continue; } cf *= df; if (std::fabs(ex - cf) < 1e-4 * (1 + ex)) { amb = amb || ex > 0; } if (ex > 0 && ex > cf) cf = ex; }
        x.note("model %d %s r=%g c=%g K=%g steps=%d T=%g N=%d: %g, expected %g%s", modelKind, call ? "call" : "put", r, cc, K, steps, T, N, v, cf * df, amb ? " (tie)" : "");
        if (!amb) CHECK(x, mc::near(v, cf * df, 1e-4, 1e-4), "zero volatility %s (model %d), r=%g c=%g K=%g, %d steps, T=%g, %d paths: %.12g, expected %.12g", call ? "call" : "put", modelKind, r, cc, K, steps, T, N, v, cf * df);
        mc::Hash h; h(modelKind)(call)(r)(cc)(K)(steps)(T)(N); x.state(h.h);
    }, -1, 4, 0});
    return u;
})
