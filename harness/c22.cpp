// C22: constructors reject exactly the parameters outside their domain; what they accept works.
#include "models.hpp"
#include "market_data/market_data.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
static double up(double v) { return std::nextafter(v, 1e308); } static double dn(double v) { return std::nextafter(v, -1e308); }
static std::shared_ptr<NumberGenerator> gen(int kind, unsigned dim, unsigned seed) { if (kind == 0) return std::make_shared<PseudoRandomNumberGenerator>(dim, seed); if (kind == 1) return std::make_shared<SobolGenerator>(dim, seed); return std::make_shared<FaureGenerator>(dim, seed); }
static const char* gname(int k) { return k == 0 ? "pseudo-random" : k == 1 ? "Sobol" : "Faure"; }
// runs f; returns whether it was rejected with a logic error
template<class F> bool rejected(X& x, const std::string& what, F f) { try { f(); return false; } catch (const std::logic_error&) { return true; } catch (const mc::Violation&) { throw; } catch (const std::exception& e) { x.fail("%s: rejected with an error that is not a logic error: %s", what.c_str(), e.what()); } }
static bool inDomain(const Spec& s) {
    const double z = 0; bool ok = true; if (s.kind == HESTON) ok = s.rho >= -1 && s.rho <= 1 && s.v0 >= z && s.sv >= z; if (s.kind == BATES) ok = s.rho >= -1 && s.rho <= 1 && s.v0 > z && s.sv > z && s.kappa > z && s.sJ > z && s.lambda > z; if (s.kind == MERTON) ok = s.lambda > z && s.sJ > z; if (s.kind == KOU) ok = s.lambda > z && s.p >= 0 && s.p <= 1 && s.eta1 > 1 && s.eta2 > 0; if (s.kind == VG) ok = s.nu > 0; return ok;
}
static void model(X& x, const Spec& s, const std::string& ticker = "TK", bool listed = true, bool real = false, bool simulate = true) {
    x.note("%s ticker %s", str(s).c_str(), ticker.c_str()); std::shared_ptr<IMarketData> md; if (real) { auto m = MarketData::getInstance(); m->addStock("TK", s.S, s.sigma, s.c); m->setR(s.r); md = m; } else md = fakeMD(s.S, s.sigma, s.c, s.r); std::shared_ptr<StockModel> m; bool rej = rejected(x, str(s), [&] { m = makeModel(s, md, gen(0, s.steps, 7), nullptr, ticker); }); x.step(); bool want = inDomain(s) && listed; CHECK(x, rej != want, "%s on ticker '%s': construction %s, parameters are %s the domain", str(s).c_str(), ticker.c_str(), rej ? "rejected" : "accepted", want ? "inside" : "outside");
    mc::Hash h; h(s.kind)(rej)(s.rho)(s.v0)(s.sv)(s.kappa)(s.lambda)(s.sJ)(s.p)(s.eta1)(s.eta2)(s.nu)(ticker); x.state(h.h); if (rej || !simulate) return;
    const int ng = s.kind == GBM || s.kind == HESTON ? 3 : 1;
    for (int g = 0; g < ng; ++g) for (unsigned seed : {0u, 1u, 12345u}) { Spec q = s; std::shared_ptr<StockModel> mm = makeModel(q, md, gen(g, s.steps * (s.kind == HESTON ? 2 : 1), seed), nullptr, ticker); q.steps = mm->getSteps(); for (int k = 0; k < 3; ++k) { bool e = rejected(x, str(s), [&] { V p = mm->simulatePrices(s.T); CHECK(x, p.size() == q.steps, "%zu prices for %u steps", p.size(), q.steps); for (double v : p) CHECK(x, std::isfinite(v) && v > 0, "%s: accepted, but simulates the price %g", str(s).c_str(), v); double a = mm->simulatePriceAtMaturity(s.T); CHECK(x, std::isfinite(a) && a > 0, "%s: accepted, but simulates the final price %g", str(s).c_str(), a); }); x.step(2); CHECK(x, !e, "%s: accepted, but simulating with a %s generator fails", str(s).c_str(), gname(g)); } }
}
MC_MAIN([] {
    std::vector<mc::Unit> u; static const V LAM = {0.8, 1e-6, 20, 0, -0.1, -1e-300, -5, 1e-200}, RHO = {-0.5, 0, 1, -1, up(1), dn(-1), 2, -7, 0.999}, VAR = {0.04, 0, 1, -1e-300, -0.04, 5e-324}, SV = {0.3, 0, 2, -1e-12, -1};
    u.push_back({"Heston", [](X& x) { Spec s; s.kind = HESTON; s.rho = x.pick(RHO); s.v0 = x.pick(VAR); s.sv = x.pick(SV); s.kappa = x.pick(V{1.5, 0.1, 8}); s.theta = x.pick(V{0.04, 0.5, 0.001}); s.cir = x.choose(3); s.steps = x.pick(std::vector<unsigned>{4, 1, 30}); s.T = x.pick(V{1, 0.1}); model(x, s); }, -1, 3});
    u.push_back({"Bates", [](X& x) { Spec s; s.kind = BATES; s.rho = x.pick(RHO); s.v0 = x.pick(VAR); s.sv = x.pick(SV); s.kappa = x.pick(V{1.5, 0, 1e-3, -1, -1e-300}); s.lambda = x.pick(LAM); s.sJ = x.pick(V{0.2, 0, -0.2, 1e-4, -1e-300, 0.5}); s.muJ = x.pick(V{-0.1, 0.2}); s.cir = 0; s.steps = 4; bool all = inDomain(s); model(x, s, "TK", true, false, all); }, -1, 4});
    u.push_back({"Bates schemes", [](X& x) { Spec s; s.kind = BATES; s.rho = x.pick(V{-0.5, 1, -1}); s.cir = x.choose(3); s.steps = x.pick(std::vector<unsigned>{1, 2, 52}); s.T = x.pick(V{1, 0.01, 5}); s.theta = x.pick(V{0.04, 0.3}); s.sigma = x.pick(V{0.2, 0}); model(x, s); }, -1, 2});
    u.push_back({"Merton", [](X& x) { Spec s; s.kind = MERTON; s.lambda = x.pick(LAM); s.sJ = x.pick(V{0.2, 0, -0.2, 1e-4, -1e-300, 0.5, 5e-324}); s.muJ = x.pick(V{-0.1, 0, 0.2, -0.5}); s.sigma = x.pick(V{0.2, 0, 1}); s.steps = x.pick(std::vector<unsigned>{4, 1, 52}); s.T = x.pick(V{1, 0.05, 3}); model(x, s); }, -1, 3});
    u.push_back({"Kou", [](X& x) { Spec s; s.kind = KOU; s.lambda = x.pick(LAM); s.p = x.pick(V{0.4, 0, 1, -1e-9, dn(0), up(1), -1, 2, 0.999, 5e-324}); s.eta1 = x.pick(V{6, up(1), 1, 0.5, 0, -3, 50, 1.5, dn(1)}); s.eta2 = x.pick(V{4, 0, -1, 0.5, 50, -1e-300, 5e-324}); s.steps = x.pick(std::vector<unsigned>{3, 1}); s.sigma = x.pick(V{0.2, 0}); bool tame = s.eta1 > 1.2 && s.eta2 >= 0.5; model(x, s, "TK", true, false, tame); }, -1, 3});
    u.push_back({"variance gamma", [](X& x) { Spec s; s.kind = VG; s.nu = x.pick(V{0.2, 1e-3, 1, 0, -0.2, -1e-300, 0.5}); s.vtheta = x.pick(V{-0.1, 0, 0.3, -1, 0.9}); s.sigma = x.pick(V{0.2, 0, 0.8}); s.steps = x.pick(std::vector<unsigned>{4, 1, 52}); s.T = x.pick(V{1, 0.05, 3}); bool tame = 1 - s.vtheta * s.nu - s.sigma * s.sigma * s.nu / 2 > 0.01; model(x, s, "TK", true, false, tame); }, -1, 2});
    u.push_back({"geometric Brownian motion", [](X& x) { Spec s; s.kind = GBM; s.S = x.pick(V{100, 1e-6, 1e9}); s.sigma = x.pick(V{0.2, 0, 1e-9, 2}); s.r = x.pick(V{0.05, 0, -0.1, 1}); static const std::vector<std::optional<double>> C = {std::nullopt, 0.0, 1.0, 0.03}; s.c = C[x.choose(4)]; s.steps = x.pick(std::vector<unsigned>{4, 1, 52, 252}); s.T = x.pick(V{1, 0.001, 10}); model(x, s, "TK", true, x.flip()); }, -1, 2});
    u.push_back({"tickers", [](X& x) { Spec s; s.kind = x.choose(NMODELS); s.steps = 2; static const std::vector<std::string> T = {"TK", "tk", "", "TK ", "T", "TKX", "other", std::string(300, 'a')}; int i = x.choose(int(T.size())); bool bad = x.flip(); if (bad) { s.rho = 2; s.nu = -1; s.eta1 = 1; s.sJ = 0; } model(x, s, T[i], i == 0, x.flip()); }, -1, 2});
    // listed later: accepted from then on
    u.push_back({"listing later", [](X& x) { Spec s; s.kind = x.choose(NMODELS); s.steps = 2; auto md = MarketData::getInstance(); static int n = 0; std::string t = "late" + std::to_string(n++); bool r = rejected(x, "unlisted", [&] { makeModel(s, md, gen(0, 2, 1), nullptr, t); }); CHECK(x, r, "%s accepts the unlisted ticker", modelName(s.kind)); md->addStock(t, 50, 0.1); auto m = makeModel(s, md, gen(0, 2, 1), nullptr, t); V p = m->simulatePrices(1); CHECK(x, p.size() == 2 && p[0] > 0 && std::isfinite(p[1]), "bad path"); x.step(2); }, -1, 1});
    u.push_back({"generators", [](X& x) { int k = x.choose(3); bool seeded = x.flip(); unsigned dim = x.pick(std::vector<unsigned>{0, 1, 2, 3, 4, 7, 40, 52, 252, 365, 1000}); unsigned seed = x.pick(std::vector<unsigned>{0, 1, 2, 42, 65536, 0x7fffffffu, 0x80000000u, 0xffffffffu}); if (k == 2 && dim > 365) return; std::shared_ptr<NumberGenerator> g; bool r = rejected(x, gname(k), [&] { if (seeded) g = gen(k, dim, seed); else if (k == 0) g = std::make_shared<PseudoRandomNumberGenerator>(dim); else if (k == 1) g = std::make_shared<SobolGenerator>(dim); else g = std::make_shared<FaureGenerator>(dim); }); x.step(); CHECK(x, r == (dim == 0), "%s generator of dimension %u, seed %u: construction %s", gname(k), dim, seed, r ? "rejected" : "accepted"); if (r) return; CHECK(x, g->getDim() == dim, "dimension %u, asked for %u", g->getDim(), dim); StandardNormalDistribution d; for (unsigned i = 0; i < 2 * dim + 3; ++i) { double v = (*g)(d); CHECK(x, std::isfinite(v), "%s generator of dimension %u, seed %u: draw %u is %g", gname(k), dim, seed, i, v); } }, -1, 2});
    u.push_back({"bases", [](X& x) { int k = x.choose(4); unsigned n = unsigned(x.choose(41)); std::shared_ptr<BasisFunction> b; bool r = rejected(x, "basis", [&] { if (k == 0) b = std::make_shared<MonomialBasisFunction>(n); else if (k == 1) b = std::make_shared<ChebyshevBasisFunction>(n); else if (k == 2) b = std::make_shared<LegendreBasisFunction>(n); else b = std::make_shared<LaguerreBasisFunction>(n); }); x.step(); CHECK(x, r == (n == 0), "basis %d of %u functions: construction %s", k, n, r ? "rejected" : "accepted"); if (!r) { Eigen::VectorXd v(3); v << 0.1, 1, -0.5; auto m = b->generate(v); CHECK(x, m.rows() == 3 && m.cols() == int(n) && m.allFinite(), "basis %d of %u functions returns a bad matrix", k, n); } mc::Hash h; h(k)(n); x.state(h.h); }, -1, 1});
    u.push_back({"penalties", [](X& x) { int k = x.choose(2); double l = x.pick(V{0, -0.0, 1, 5e-324, -5e-324, -1, 1e300, -1e300, 0.1, -1e-9, 1e-9, 100}); std::shared_ptr<Regression> g; bool r = rejected(x, "regression", [&] { if (k) g = std::make_shared<LassoRegression>(l); else g = std::make_shared<RidgeRegression>(l); }); x.step(); CHECK(x, r == (l < 0), "%s with penalty %g: construction %s", k ? "lasso" : "ridge", l, r ? "rejected" : "accepted"); if (!r) { Eigen::MatrixXd A(3, 2); A << 1, 2, 3, 5, -1, 4; Eigen::VectorXd b(3); b << 1, -2, 0.5; auto c = g->solve(A, b); CHECK(x, c.size() == 2 && c.allFinite(), "penalty %g: bad coefficients", l); } }, -1, 1});
    return u;
})
