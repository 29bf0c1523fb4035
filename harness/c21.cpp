// C21: independent pricing methods agree on the same contract.
#include "models.hpp"
#include "mcp.hpp"
#include "fdm.hpp"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>; using OD = std::optional<double>;
struct Mkt { double S = 100, s = 0.2; OD c; double r = 0.05; double cc() const { return c.value_or(0); } };
// hands out every path of the up/down tree (m = 2), or every cell of an equal-probability grid (m > 2), one coordinate per draw
struct EnumGen : NumberGenerator { int m; mutable unsigned long k = 0; EnumGen(unsigned n, int m_) : NumberGenerator(n), m(m_) {} double operator()(Distribution& d) const override { if (kindOf(d) != Kind::Normal) throw std::runtime_error("unexpected law"); unsigned long path = k / dim_; unsigned j = k % dim_; ++k; for (unsigned i = 0; i < j; ++i) path /= m; int dig = path % m; if (m == 2) return dig ? 1 : -1; return d.inv_cdf((dig + 0.5) / m); } };
static unsigned long ipow(unsigned long b, unsigned n) { unsigned long r = 1; while (n--) r *= b; return r; }
static double Phi(double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); }
// lognormal closed forms: the underlying quantity is exp(N(mu, sd^2))
static double logn(bool call, double mu, double sd, double K) { if (K <= 0) return call ? std::exp(mu + sd * sd / 2) - K : 0; double d2 = (mu - std::log(K)) / sd, d1 = d2 + sd, F = std::exp(mu + sd * sd / 2); return call ? F * Phi(d1) - K * Phi(d2) : K * Phi(-d2) - F * Phi(-d1); }
static double closed(const Contract& k, const Mkt& m, unsigned n) {
    double D = std::exp(-m.r * k.T), dt = k.T / n, nu = m.r - m.cc() - m.s * m.s / 2, mu = std::log(m.S) + nu * k.T, sd = m.s * std::sqrt(k.T); switch (k.kind) { case EUROPEAN: return D * logn(k.call, mu, sd, k.K); case DIGITAL: { double p = Phi((mu - std::log(k.K)) / sd); return D * (k.call ? p : 1 - p); } case DOUBLE_DIGITAL: return D * (Phi((std::log(k.K2) - mu) / sd) - Phi((std::log(k.K) - mu) / sd)); case GEOM_ASIAN: { double a = 0, b = 0; for (unsigned j = 1; j <= n; ++j) { a += j; b += double(j) * j; } return D * logn(k.call, std::log(m.S) + nu * dt * a / n, m.s * std::sqrt(dt * b) / n, k.K); } } return NAN;
}
// exact expectation on the up/down tree, by dynamic programming on recombining states
static double tree(const Contract& k, const Mkt& m, unsigned n) {
    double dt = k.T / n, D = std::exp(-m.r * k.T), nu = (m.r - m.cc() - m.s * m.s / 2) * dt, v = m.s * std::sqrt(dt); auto node = [&](int j, int ups) { return m.S * std::exp(nu * j + v * (2 * ups - j)); }; auto van = [&](double s) { return std::max(k.call ? s - k.K : k.K - s, 0.0); }; auto sp = [&](double s) { return k.kind == DIGITAL ? ((k.call ? s > k.K : s < k.K) ? 1.0 : 0.0) : k.kind == DOUBLE_DIGITAL ? (s >= k.K && s <= k.K2 ? 1.0 : 0.0) : van(s); };
    if (k.kind == AMERICAN) { V c; for (unsigned u = 0; u <= n; ++u) c.push_back(van(node(n, u))); double d1 = std::exp(-m.r * dt); for (int j = int(n) - 1; j >= 1; --j) for (int u = 0; u <= j; ++u) c[u] = std::max(van(node(j, u)), d1 * 0.5 * (c[u] + c[u + 1])); return d1 * 0.5 * (c[0] + c[1]); }
    if (k.kind == EUROPEAN || k.kind == DIGITAL || k.kind == DOUBLE_DIGITAL) { double e = 0, b = std::pow(0.5, n); for (unsigned u = 0; u <= n; ++u) { e += b * sp(node(n, u)); b = b * (n - u) / (u + 1); } return D * e; }
    // state: (ups, extra) -> probability
    std::map<std::pair<int, double>, double> st, nx; st[{0, k.kind == KNOCK_IN || k.kind == KNOCK_OUT ? 0 : (k.kind == FLOAT_LOOKBACK ? !k.call : k.call) ? -1 : 1e300}] = 1; if (k.kind == ARITH_ASIAN || k.kind == GEOM_ASIAN) { st.clear(); st[{0, 0}] = 1; }
    for (unsigned j = 1; j <= n; ++j) { nx.clear(); for (auto& [q, p] : st) for (int d = 0; d < 2; ++d) { int u = q.first + d; double s = node(j, u), x = q.second; switch (k.kind) { case KNOCK_IN: case KNOCK_OUT: x = x > 0 || (k.up ? s >= k.B : s <= k.B); break; case FLOAT_LOOKBACK: x = k.call ? std::min(x, s) : std::max(x, s); break; case FIXED_LOOKBACK: x = k.call ? std::max(x, s) : std::min(x, s); break; case ARITH_ASIAN: x += s; break; default: x += std::log(s); } nx[{u, x}] += p / 2; } st.swap(nx); }
    double e = 0; for (auto& [q, p] : st) { double s = node(n, q.first), x = q.second; switch (k.kind) { case KNOCK_IN: e += p * (x > 0 ? van(s) : 0); break; case KNOCK_OUT: e += p * (x > 0 ? 0 : van(s)); break; case FLOAT_LOOKBACK: e += p * (k.call ? s - x : x - s); break; case FIXED_LOOKBACK: e += p * van(x); break; case ARITH_ASIAN: e += p * van(x / n); break; default: e += p * van(std::exp(x / n)); } } return D * e;
}
static double mcPrice(X& x, const Contract& k, std::shared_ptr<IMarketData> md, std::shared_ptr<StockModel> mod, unsigned long N, std::shared_ptr<BasisFunction> b = nullptr, std::shared_ptr<Regression> rg = nullptr) {
    auto bl = builderFor(k.kind); bl->setOption(make(k)); bl->setMarketData(md); bl->setStockPriceModel(mod); if (auto* a = dynamic_cast<AmericanMCBuilder*>(bl.get())) { if (b) a->setBasisFunctionStrategy(b); if (rg) a->setRegressionStrategy(rg); } MCSolver s(N); s.setPricer(bl->build()); x.step(N); return s.solve();
}
static double enumPrice(X& x, const Contract& k, const Mkt& m, unsigned n, int base, std::shared_ptr<BasisFunction> b = nullptr, std::shared_ptr<Regression> rg = nullptr) {
    auto md = fakeMD(m.S, m.s, m.c, m.r); auto g = std::make_shared<EnumGen>(n, base); auto mod = std::make_shared<GeometricBrownianMotionModel>("TK", md, g); unsigned long N = ipow(base, n); double v = mcPrice(x, k, md, mod, N, b, rg); CHECK(x, g->k == N * n, "%s: %lu draws for %lu paths of %u steps", str(k).c_str(), g->k, N, n); return v;
}
static std::string mstr(const Mkt& m) { char b[120]; std::snprintf(b, 120, "S=%g sigma=%g c=%g r=%g", m.S, m.s, m.c.value_or(-1), m.r); return b; }
static Mkt market(X& x, bool wide = true) { Mkt m; static const std::vector<OD> C = {std::nullopt, OD(0.04), OD(0.0)}; m.s = x.pick(V{0.2, 0.45}); m.c = C[x.choose(wide ? 3 : 2)]; m.r = x.pick(wide ? V{0.05, 0, -0.02, 0.15} : V{0.05, 0}); return m; }
// strikes and barriers away from the nodes of the tree
static Contract contract(X& x, int kind, bool wide = true) { Contract k; k.kind = kind; k.call = !x.flip(); k.T = x.pick(wide ? V{1, 0.25, 2} : V{1, 0.4}); k.K = kind == DOUBLE_DIGITAL ? x.pick(V{95.13, 71.7}) : x.pick(wide ? V{100.37, 83.19, 121.7} : V{100.37, 88.19}); k.K2 = 117.31; if (kind == KNOCK_IN || kind == KNOCK_OUT) { k.up = x.flip(); k.B = x.pick(k.up ? V{113.77, 99.13} : V{91.77, 101.41}); } return k; }
static bool nearNode(const Contract& k, const Mkt& m, unsigned n) { for (unsigned j = 1; j <= n; ++j) for (unsigned u = 0; u <= j; ++u) { double dt = k.T / n, s = m.S * std::exp((m.r - m.cc() - m.s * m.s / 2) * dt * j + m.s * std::sqrt(dt) * (2.0 * u - j)); for (double b : {k.K, k.K2, k.B}) if (std::fabs(s / b - 1) < 1e-9) return true; } return false; }
static std::shared_ptr<BasisFunction> basisOf(int i, unsigned n) { switch (i) { case 0: return std::make_shared<MonomialBasisFunction>(n); case 1: return std::make_shared<ChebyshevBasisFunction>(n); case 2: return std::make_shared<LegendreBasisFunction>(n); default: return std::make_shared<LaguerreBasisFunction>(n); } }
MC_MAIN([] {
    std::vector<mc::Unit> u; european(true, 100, 1);
    // 1. all paths of the tree through generator, model, builder, pricer and solver = dynamic programming on the tree
    for (int k = 0; k < NKINDS; ++k) if (k != AMERICAN) u.push_back({std::string(optName(k)) + " on the tree", [k](X& x) { Mkt m = market(x); Contract c = contract(x, k); unsigned n = x.pick(std::vector<unsigned>{1, 2, 3, 4, 5, 8, 13}); if (nearNode(c, m, n)) return; double a = enumPrice(x, c, m, n, 2), t = tree(c, m, n); CHECK(x, mc::near(a, t, 1e-9, 1e-10), "%s %s on a tree of %u steps: Monte Carlo over all paths %.12g, exact expectation %.12g", str(c).c_str(), mstr(m).c_str(), n, a, t); mc::Hash h; h(k)(a)(n); x.state(h.h); }, -1, 4});
    // 2. American: with a basis large enough to separate the nodes the regression is the exact conditional expectation
    u.push_back({"American on the tree", [](X& x) { Mkt m = market(x); m.S = 1; Contract c; c.kind = AMERICAN; c.call = x.flip(); c.T = x.pick(V{1, 0.25, 3}); c.K = x.pick(V{1.0137, 0.83, 1.217}); unsigned n = 1 + x.choose(mc::thorough ? 7 : 6); if (nearNode(c, m, n)) return; int bi = x.choose(3); double a = enumPrice(x, c, m, n, 2, basisOf(bi, n)), t = tree(c, m, n); CHECK(x, mc::near(a, t, 1e-6, 1e-7), "American %s T=%g K=%g %s on a tree of %u steps, basis %d: least-squares Monte Carlo over all paths %.10g, dynamic programming %.10g", c.call ? "call" : "put", c.T, c.K, mstr(m).c_str(), n, bi, a, t); mc::Hash h; h(a)(n); x.state(h.h); }, -1, 4});
    // 3. trees converge to the closed forms
    u.push_back({"trees and closed forms", [](X& x) { Mkt m = market(x); Contract c = contract(x, x.pick(std::vector<int>{EUROPEAN, GEOM_ASIAN})); unsigned n = x.pick(mc::thorough ? std::vector<unsigned>{6, 10, 14, 18} : std::vector<unsigned>{6, 10, 14}); double a = enumPrice(x, c, m, n, 2), t = closed(c, m, n), tol = 0.45 * m.S * m.s * std::sqrt(c.T) / n; CHECK(x, std::fabs(a - t) <= tol, "%s %s, tree of %u steps: %.8g, closed form %.8g (tolerance %.3g)", str(c).c_str(), mstr(m).c_str(), n, a, t, tol); mc::Hash h; h(a)(n); x.state(h.h); }, -1, 4});
    // 4. equal-probability cells
    u.push_back({"strata and closed forms", [](X& x) { Mkt m = market(x); Contract c = contract(x, x.pick(std::vector<int>{EUROPEAN, DIGITAL, DOUBLE_DIGITAL, GEOM_ASIAN})); unsigned n = 1 + x.choose(3); int base = n == 1 ? 4096 : n == 2 ? 90 : 24; double a = enumPrice(x, c, m, n, base), t = closed(c, m, n), unit = c.kind == EUROPEAN || c.kind == GEOM_ASIAN ? m.S * m.s * std::sqrt(c.T) * (1 + m.s * std::sqrt(c.T)) : 1; double tol = unit * (n == 1 ? 0.002 : n == 2 ? 0.04 : 0.1); CHECK(x, std::fabs(a - t) <= tol, "%s %s, %d^%u strata: %.8g, closed form %.8g (tolerance %.3g)", str(c).c_str(), mstr(m).c_str(), base, n, a, t, tol); mc::Hash h; h(a)(n); x.state(h.h); }, -1, 4});
    // 5. quasi-random Monte Carlo on full nets
    u.push_back({"quasi-random nets and closed forms", [](X& x) { Mkt m = market(x, false); Contract c = contract(x, x.pick(std::vector<int>{EUROPEAN, DIGITAL, DOUBLE_DIGITAL, GEOM_ASIAN}), false); bool sobol = !x.flip(); unsigned n = x.pick(std::vector<unsigned>{1, 2, 4, 12}); unsigned long N = sobol ? 1ul << (mc::thorough ? 15 : 12) : n == 1 ? 4096 : n == 2 ? 4096 : n == 4 ? 3125 : 13 * 13 * 13; unsigned seed = x.pick(std::vector<unsigned>{0, 1, 4096}); auto md = fakeMD(m.S, m.s, m.c, m.r); std::shared_ptr<NumberGenerator> g; if (sobol) g = std::make_shared<SobolGenerator>(n, seed); else g = std::make_shared<FaureGenerator>(n, seed); auto mod = std::make_shared<GeometricBrownianMotionModel>("TK", md, g); double a = mcPrice(x, c, md, mod, N), t = closed(c, m, n), unit = c.kind == EUROPEAN || c.kind == GEOM_ASIAN ? m.S * m.s * std::sqrt(c.T) * (1 + m.s * std::sqrt(c.T)) : 1; double tol = unit * (n <= 2 ? 0.01 : n == 4 ? 0.03 : 0.08) * (unit == 1 && n > 1 ? 2.5 : 1); CHECK(x, std::fabs(a - t) <= tol, "%s %s, %lu %s points of dimension %u from %u: %.8g, closed form %.8g (tolerance %.3g)", str(c).c_str(), mstr(m).c_str(), N, sobol ? "Sobol" : "Faure", n, seed, a, t, tol); mc::Hash h; h(a)(n); x.state(h.h); }, -1, 4});
    // 6. finite differences, strata and the closed form
    u.push_back({"finite differences and Monte Carlo", [](X& x) { quiet(); Mkt m = market(x); Contract c = contract(x, EUROPEAN); int sc = x.choose(3); auto md = fakeMD(m.S, m.s, m.c, m.r); auto o = european(c.call, c.K, c.T); double Xd = 500; unsigned long J = 101, N = sc == EXPLICIT ? (unsigned long)(c.T * m.s * m.s * 1e4 * 1.2) + 60 : 60; auto f = fdm(sc, Xd, J, c.T, N, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md), o, md, nullptr, sc == EXPLICIT ? nullptr : matrixSolver(3)); double p = f->calculatePrice(), a = enumPrice(x, c, m, 1, 2048), t = closed(c, m, 1); x.step(long(N)); CHECK(x, std::fabs(p - t) <= 0.2 && std::fabs(p - a) <= 0.2 + 0.1 * m.s * m.S * 0.1, "%s %s: %s scheme %.8g, Monte Carlo on strata %.8g, closed form %.8g", str(c).c_str(), mstr(m).c_str(), schemeName(sc), p, a, t); mc::Hash h; h(p)(sc); x.state(h.h); }, -1, 3});
    // long trees: the paths with one deviating move (and those with two), against the payoffs of the explicitly computed paths
    u.push_back({"long trees", [](X& x) {
        int k = x.choose(NKINDS); if (k == AMERICAN) return; Mkt m = market(x, false); Contract c = contract(x, k, false); unsigned n = x.pick(std::vector<unsigned>{52, 127, 128, 130, 252, 257, 365, 400, 1000}); int base = x.choose(5), two = x.choose(2); if ((n > 400 || (!mc::thorough && n > 257)) && (two || (base && (base < 3 || n > 400)))) return; if (!mc::thorough && (m.c.has_value() != (m.r > 0) || (n > 200 && m.s > 0.3))) return;
        struct Gen : NumberGenerator { int base, two; mutable unsigned long k = 0; Gen(unsigned n, int b, int t) : NumberGenerator(n), base(b), two(t) {} double at(unsigned long p, unsigned j) const { double up = base == 0 ? 1 : base == 1 ? -1 : base == 2 ? (j % 2 ? -1 : 1) : base == 3 ? 0.2 : -0.2; return (j == p || (two && j == (p * 7 + 3) % dim_)) ? -up * 1.5 : up * 0.3; } double operator()(Distribution&) const override { double z = at(k / dim_, unsigned(k % dim_)); ++k; return z; } };
        auto md = fakeMD(m.S, m.s, m.c, m.r); auto g = std::make_shared<Gen>(n, base, two); double got = mcPrice(x, c, md, std::make_shared<GeometricBrownianMotionModel>("TK", md, g), n); CHECK(x, g->k == (unsigned long)n * n, "%s: %lu draws for %u paths of %u steps", str(c).c_str(), g->k, n, n);
        double dt = c.T / n, want = 0; for (unsigned p = 0; p < n; ++p) { V path; double X = std::log(m.S); for (unsigned j = 0; j < n; ++j) { X += (m.r - m.cc() - m.s * m.s / 2) * dt + m.s * std::sqrt(dt) * g->at(p, j); path.push_back(std::exp(X)); if ((k == KNOCK_IN || k == KNOCK_OUT) && std::fabs(path.back() / c.B - 1) < 1e-9) return; } for (double q : {c.K, c.K2}) if (std::fabs(path.back() / q - 1) < 1e-9) return; want += refPayoff(c, path); } want *= std::exp(-m.r * c.T) / n;
        CHECK(x, mc::near(got, want, 1e-9, 1e-8), "%s %s, %u paths of %u steps with %d deviating moves: %.12g, the paths are worth %.12g", str(c).c_str(), mstr(m).c_str(), n, n, 1 + two, got, want); mc::Hash h; h(k)(got)(n)(base)(two); x.state(h.h); }, -1, 3});
    // 7. parities and orderings on the same paths, every model
    u.push_back({"parities and orderings", [](X& x) {
        Spec s; s.kind = x.choose(NMODELS); s.steps = x.pick(std::vector<unsigned>{1, 4, 13, 130, 400}); const bool lng = s.steps > 100; s.c = x.flip() ? OD(0.03) : std::nullopt; s.r = x.pick(V{0.05, 0, -0.02}); s.T = x.pick(V{1, 0.3}); double K = x.pick(V{100.37, 84.11, 125.3}); unsigned seed = x.pick(std::vector<unsigned>{1, 2, 3, 1234}); int gk = s.kind == GBM || s.kind == HESTON ? x.choose(3) : 0; if (lng && (gk || seed > 2)) return; unsigned long N = x.pick(std::vector<unsigned long>{1, 40, 300}); if (lng && N != 40) return; const double D = std::exp(-s.r * s.T), tol = 1e-9;
        auto P = [&](int kind, bool call, double k, double B = 0, bool up = true, double K2 = 0) { auto md = fakeMD(s.S, s.sigma, s.c, s.r); std::shared_ptr<NumberGenerator> g; if (gk == 0) g = std::make_shared<PseudoRandomNumberGenerator>(s.steps, seed); else if (gk == 1) g = std::make_shared<SobolGenerator>(s.steps * (s.kind == HESTON ? 2 : 1), seed); else g = std::make_shared<FaureGenerator>(s.steps * (s.kind == HESTON ? 2 : 1), seed); Contract c; c.kind = kind; c.call = call; c.K = k; c.K2 = K2; c.B = B; c.up = up; c.T = s.T; return mcPrice(x, c, md, makeModel(s, md, g), N); };
        const std::string w = str(s); auto eq = [&](const char* what, double a, double b) { CHECK(x, mc::near(a, b, tol, 1e-9), "%s, K=%g, N=%lu, seed %u: %s: %.12g and %.12g", w.c_str(), K, N, seed, what, a, b); }; auto le = [&](const char* what, double a, double b) { CHECK(x, a <= b + 1e-9 * (1 + std::fabs(b)), "%s, K=%g, N=%lu, seed %u: %s violated: %.12g > %.12g", w.c_str(), K, N, seed, what, a, b); };
        for (int k : {EUROPEAN, ARITH_ASIAN, GEOM_ASIAN}) eq("call - put = forward - strike", P(k, true, K) - P(k, false, K), P(k, true, 0) - K * D); eq("digital call + digital put = bond", P(DIGITAL, true, K) + P(DIGITAL, false, K), D); eq("double digital = difference of digitals", P(DOUBLE_DIGITAL, true, K, 0, true, K + 20.5), P(DIGITAL, true, K) - P(DIGITAL, true, K + 20.5));
        for (bool call : {true, false}) { double e = P(EUROPEAN, call, K), fx = P(FIXED_LOOKBACK, call, K); for (bool up : {true, false}) for (double B : {K * 1.07, K * 0.93, 100.0}) { double in = P(KNOCK_IN, call, K, B, up), out = P(KNOCK_OUT, call, K, B, up); eq("knock-in + knock-out = European", in + out, e); le("knock-out <= European", out, e); le("0 <= knock-out", 0, out); le("0 <= knock-in", 0, in); } le("European <= fixed-strike lookback", e, fx); le("arithmetic Asian <= fixed-strike lookback", P(ARITH_ASIAN, call, K), fx); }
        le("geometric <= arithmetic Asian call", P(GEOM_ASIAN, true, K), P(ARITH_ASIAN, true, K)); le("arithmetic <= geometric Asian put", P(ARITH_ASIAN, false, K), P(GEOM_ASIAN, false, K)); double fl = P(FLOAT_LOOKBACK, true, 0), fp = P(FLOAT_LOOKBACK, false, 0); le("0 <= floating lookback call", 0, fl); le("0 <= floating lookback put", 0, fp); eq("floating lookback call + put = range", fl + fp, P(FIXED_LOOKBACK, true, 0) - (D * 1e4 - P(FIXED_LOOKBACK, false, 1e4)));
        le("call decreasing in strike", P(EUROPEAN, true, K + 5), P(EUROPEAN, true, K)); le("butterfly", 0, P(EUROPEAN, true, K - 5) + P(EUROPEAN, true, K + 5) - 2 * P(EUROPEAN, true, K)); mc::Hash h; h(w)(K)(N)(seed)(gk)(fl); x.state(h.h); }, -1, 3});
    return u;
})
