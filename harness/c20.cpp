// C20: builders and the solver use exactly what was configured last.
#include "mcp.hpp"
#include "market_data/market_data.h"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
static const char* TICK[2] = {"TK", "T2"};
struct ConstModel : StockModel {                    // every path rises linearly to its final price
    double p; mutable long calls = 0; ConstModel(double p_, unsigned steps, std::shared_ptr<IMarketData> md) : StockModel("TK", md, std::make_shared<DimGen>(steps)), p(p_) {}
    V path() const { V v; unsigned n = getSteps(); for (unsigned i = 1; i <= n; ++i) v.push_back(p * (0.5 + 0.5 * i / n)); return v; }
    double simulatePriceAtMaturity(const double&) const override { ++calls; return p; } V simulatePrices(const double&) const override { ++calls; return path(); }
};
struct SignBasis : BasisFunction { double s; mutable long calls = 0; explicit SignBasis(double s_) : BasisFunction(1), s(s_) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { ++calls; return Eigen::MatrixXd::Constant(v.size(), 1, s); } };
struct SignReg : Regression { double s; mutable long calls = 0; explicit SignReg(double s_) : s(s_) {} Eigen::VectorXd solve(const Eigen::MatrixXd& X, const Eigen::VectorXd&) const override { ++calls; return Eigen::VectorXd::Constant(X.cols(), s * 1e9); } };
struct World {
    struct Data { double S[2], c[2], r; }; std::vector<Data> data; std::vector<std::shared_ptr<IMarketData>> md; std::vector<std::shared_ptr<ConstModel>> model; std::vector<std::shared_ptr<SignBasis>> basis; std::vector<std::shared_ptr<SignReg>> reg;
    World() {
        data = {{{100, 200}, {0.02, 0}, 0.05}, {{120, 70}, {0, 0.03}, 0.2}, {{90, 140}, {0.1, 0.01}, 0}}; auto real = MarketData::getInstance(); real->setR(data[0].r); for (int k = 0; k < 2; ++k) real->addStock(TICK[k], data[0].S[k], 0.0, data[0].c[k]); md.push_back(real);
        for (int i = 1; i < 3; ++i) { auto f = std::make_shared<FakeMD>(); f->r = data[i].r; for (int k = 0; k < 2; ++k) f->put(TICK[k], data[i].S[k], 0.0, data[i].c[k]); md.push_back(f); }
        model = {std::make_shared<ConstModel>(150, 4, md[1]), std::make_shared<ConstModel>(60, 7, md[2])}; basis = {std::make_shared<SignBasis>(1), std::make_shared<SignBasis>(-1)}; reg = {std::make_shared<SignReg>(1), std::make_shared<SignReg>(-1)};
    }
};
static World& W() { static World w; return w; }
// two contracts per kind: different ticker, maturity, strike and side
static double g_T[2] = {1.5, 0.5};
static Contract contract(int kind, int i) { Contract c; c.kind = kind; c.ticker = TICK[i]; c.T = g_T[i]; c.call = i == 0; c.K = i ? 170 : 55; c.K2 = i ? 190 : 160; c.B = i ? 65 : 101; c.up = i == 0; if (kind == DOUBLE_DIGITAL) c.K = i ? 50 : 55; return c; }
static std::shared_ptr<Option> option(int kind, int i) { static std::map<int, std::shared_ptr<Option>> m; W(); auto& o = m[kind * 2 + i]; if (!o) o = make(contract(kind, i)); return o; }
struct Conf { int opt = -1, md = 0, model = -1, reg = -1, basis = -1; };
// what the configuration is worth
static double worth(int kind, const Conf& c) {
    Contract k = contract(kind, c.opt); const auto& d = W().data[c.md]; V path; if (c.model >= 0) path = W().model[c.model]->path(); else for (int j = 1; j <= 52; ++j) path.push_back(d.S[c.opt] * std::exp((d.r - d.c[c.opt]) * k.T * j / 52.0));
    if (kind != AMERICAN) return std::exp(-d.r * k.T) * refPayoff(k, path); Contract e = k; e.kind = EUROPEAN; const size_t n = path.size(); auto at = [&](size_t j) { return std::exp(-d.r * k.T * double(j + 1) / n) * refPayoff(e, V{path[j]}); };
    if (c.reg < 0 && c.basis < 0) { if (c.model >= 0) { double b = 0; for (size_t j = 0; j < n; ++j) b = std::max(b, at(j)); return b; } double b = 0; for (size_t j = 0; j < n; ++j) b = std::max(b, at(j)); return b; }
    if (c.reg < 0 || c.basis < 0) return NAN;      // half scripted: judged by which strategy is called
    double cont = W().reg[c.reg]->s * W().basis[c.basis]->s; if (cont > 0) return at(n - 1); for (size_t j = 0; j + 1 < n; ++j) if (refPayoff(e, V{path[j]}) > 0) return at(j); return at(n - 1);
}
struct Built { std::unique_ptr<MCPricer> p; Conf c; };
static void price(X& x, int kind, Built& b, const char* when) {
    auto& w = W(); long mc[2], rc[2], bc[2]; for (int i = 0; i < 2; ++i) { mc[i] = w.model[i]->calls; rc[i] = w.reg[i]->calls; bc[i] = w.basis[i]->calls; }
    const unsigned long N = 3; double v = b.p->calculatePrice(N); x.step(); double e = worth(kind, b.c);
    const char* mdn[] = {"default market data", "market data A", "market data B"}; if (e == e) CHECK(x, mc::near(v, e, 1e-9, 1e-9), "%s pricer for option %d, %s, %s (regression %d, basis %d), priced %s: %.12g, configured contract is worth %.12g", optName(kind), b.c.opt, mdn[b.c.md], b.c.model < 0 ? "default model" : b.c.model ? "model 2" : "model 1", b.c.reg, b.c.basis, when, v, e);
    for (int i = 0; i < 2; ++i) { long k = w.model[i]->calls - mc[i]; CHECK(x, k == (b.c.model == i ? long(N) : 0), "%s pricer asked stock model %d for %ld paths; the model set last is %d", optName(kind), i + 1, k, b.c.model + 1); if (kind == AMERICAN) { CHECK(x, (w.reg[i]->calls != rc[i]) <= (b.c.reg == i), "regression %d was used; set last: %d", i, b.c.reg); CHECK(x, (w.basis[i]->calls != bc[i]) <= (b.c.basis == i), "basis %d was used; set last: %d", i, b.c.basis); if (b.c.opt == 0 && b.c.model == 0) { CHECK(x, (w.reg[i]->calls != rc[i]) == (b.c.reg == i), "regression %d set last was not used", i); CHECK(x, (w.basis[i]->calls != bc[i]) == (b.c.basis == i), "basis %d set last was not used", i); } } }
    mc::Hash h; h(kind)(b.c.opt)(b.c.md)(b.c.model)(b.c.reg)(b.c.basis)(v); x.state(h.h);
}
static int wrongKind(int kind, int i) { static const int all[] = {EUROPEAN, AMERICAN, ARITH_ASIAN, GEOM_ASIAN, KNOCK_IN, KNOCK_OUT, FLOAT_LOOKBACK, FIXED_LOOKBACK}; std::vector<int> v; auto single = [](int k) { return k == EUROPEAN || k == DIGITAL || k == DOUBLE_DIGITAL; }; for (int k : all) if (k != kind && !(single(k) && single(kind))) v.push_back(k); return v[i % v.size()]; }
static void history(X& x, int kind, int depth, int wrongs) {
    auto& w = W(); auto b = builderFor(kind); auto* am = dynamic_cast<AmericanMCBuilder*>(b.get()); Conf c; bool unsure = false; std::vector<Built> built; const int nops = 8 + wrongs - 1 + (am ? 4 : 0);
    for (int i = 0; i <= depth; ++i) {
        int op = i == depth ? 0 : x.choose(nops);
        if (op == 0) { x.note("build"); bool threw = false; std::unique_ptr<MCPricer> p; try { p = b->build(); } catch (const std::invalid_argument&) { x.fail("building throws an invalid-argument error"); } catch (const std::logic_error&) { threw = true; } if (c.opt < 0) CHECK(x, threw, "%s builder built a pricer before a fitting option was set", optName(kind)); else if (!unsure) CHECK(x, !threw, "building failed although an option is set"); if (!threw && c.opt >= 0) { CHECK(x, p != nullptr, "build returned nothing"); built.push_back({std::move(p), c}); price(x, kind, built.back(), "at once"); } }
        else if (op <= 2) { x.note("set option %d", op - 1); b->setOption(option(kind, op - 1)); c.opt = op - 1; unsure = false; }
        else if (op <= 4) { x.note("set market data %d", op - 2); b->setMarketData(w.md[op - 2]); c.md = op - 2; }
        else if (op <= 6) { x.note("set model %d", op - 4); b->setStockPriceModel(w.model[op - 5]); c.model = op - 5; }
        else if (op < 7 + wrongs) { int k = wrongKind(kind, op - 7); x.note("set a %s option", optName(k)); try { b->setOption(option(k, 0)); x.fail("the %s builder accepts a %s option", optName(kind), optName(k)); } catch (const std::invalid_argument&) {} unsure = true; }
        else { int k = op - 7 - wrongs; if (k < 2) { am->setRegressionStrategy(w.reg[k]); c.reg = k; x.note("set regression %d", k); } else { am->setBasisFunctionStrategy(w.basis[k - 2]); c.basis = k - 2; x.note("set basis %d", k - 2); } }
        x.step();
    }
    b.reset(); for (size_t i = built.size(); i-- > 0;) price(x, kind, built[i], "after the builder's later calls"); for (auto& q : built) price(x, kind, q, "again");
}
struct CountPricer : MCPricer { int id; std::vector<std::pair<int, unsigned long>>* log; CountPricer(int i, std::vector<std::pair<int, unsigned long>>* l) : MCPricer(W().md[1], W().model[0]), id(i), log(l) {} double calculatePrice(const unsigned long& N) const override { log->push_back({id, N}); return 1000 * id + double(N % 997); } };
MC_MAIN([] {
    std::vector<mc::Unit> u; static const int kinds[] = {EUROPEAN, DIGITAL, DOUBLE_DIGITAL, AMERICAN, ARITH_ASIAN, GEOM_ASIAN, KNOCK_IN, KNOCK_OUT, FLOAT_LOOKBACK, FIXED_LOOKBACK};
    for (int k : kinds) u.push_back({std::string(optName(k)) + " maturities", [k](X& x) {
        W(); const double t = x.pick(V{0, 1e-3, 1.0 / 52, 0.25, 0.5, 1, 1.5, 2, 2.5, 3, 3.5, 5, 7, 10, 20, 30, 40}); g_T[0] = g_T[1] = t; struct Back { ~Back() { g_T[0] = 1.5; g_T[1] = 0.5; } } back; Conf c; c.opt = x.choose(2); c.md = x.choose(3); c.model = x.choose(3) - 1; auto b = builderFor(k); auto o = make(contract(k, c.opt)); if (x.flip()) { b->setOption(make(contract(k, 1 - c.opt))); b->build(); } b->setOption(o); if (c.md) b->setMarketData(W().md[c.md]); if (c.model >= 0) b->setStockPriceModel(W().model[c.model]); Built q{b->build(), c}; x.note("maturity %g", t); price(x, k, q, "at once"); }, -1, 2});
    for (int k : kinds) u.push_back({std::string(optName(k)) + " builder histories", [k](X& x) { history(x, k, k == AMERICAN ? (mc::thorough ? 5 : 4) : (mc::thorough ? 7 : 6), 1); }, -1, 3});
    u.push_back({"wrong options", [](X& x) { int k = x.pick(std::vector<int>(kinds, kinds + 10)); history(x, k, 2, k == EUROPEAN || k == DIGITAL || k == DOUBLE_DIGITAL ? 7 : 7); }, -1, 2});
    // long histories: every position of one or two settings among many builds
    u.push_back({"long histories", [](X& x) { int k = x.pick(std::vector<int>(kinds, kinds + 10)); auto& w = W(); auto b = builderFor(k); Conf c; c.opt = x.choose(2); b->setOption(option(k, c.opt)); std::vector<Built> built; for (int i = 0; i < (mc::thorough ? 30 : k == AMERICAN ? 8 : 14); ++i) { int d = x.deviate(7); if (d == 1 || d == 2) { c.opt = d - 1; b->setOption(option(k, c.opt)); } else if (d == 3 || d == 4) { c.md = d - 2; b->setMarketData(w.md[c.md]); } else if (d >= 5) { c.model = d - 5; b->setStockPriceModel(w.model[c.model]); } built.push_back({b->build(), c}); price(x, k, built.back(), "at once"); } for (auto& q : built) price(x, k, q, "later"); }, 2, 2});
    // the default model is random when the stock is
    u.push_back({"default model has the stock's volatility", [](X& x) { int k = x.pick(std::vector<int>{EUROPEAN, ARITH_ASIAN, KNOCK_IN, FLOAT_LOOKBACK, GEOM_ASIAN}); Contract c = contract(k, 0); c.K = 0; c.B = 1; c.up = true; auto o = make(c); double sg = x.pick(V{0.2, 0.5, 1e-3}); auto md = fakeMD(100, sg, std::nullopt, 0.03); auto b = builderFor(k); b->setOption(o); b->setMarketData(md); auto p = b->build(); double a = p->calculatePrice(1), d = p->calculatePrice(1); x.step(2); CHECK(x, std::isfinite(a) && std::isfinite(d) && a != d, "%s: two successive paths of the default model with volatility %g give the same price %g", optName(k), sg, a); mc::Hash h; h(k)(sg)(a); x.state(h.h); }, -1, 1});
    // solver
    u.push_back({"solver histories", [](X& x) { static const unsigned long NS[] = {1, 7, 100000}; std::vector<std::pair<int, unsigned long>> log; int how = x.choose(2); unsigned long N = 13; MCSolver s0(N); MCSolver s1; MCSolver& s = how ? s1 : s0; bool nset = !how; int cur = -1, made = 0; for (int i = 0; i < (mc::thorough ? 8 : 7); ++i) { int op = x.choose(5); x.step(); if (op == 0) { size_t n = log.size(); if (cur < 0) { try { s.solve(); x.fail("the solver solves without a pricer"); } catch (const std::invalid_argument&) { x.fail("invalid-argument error"); } catch (const std::logic_error&) {} } else { double v = s.solve(); CHECK(x, log.size() == n + 1 && log.back().first == cur, "the solver ran pricer %d, set last: %d", log.empty() ? -1 : log.back().first, cur); if (nset) CHECK(x, log.back().second == N && v == 1000 * cur + double(N % 997), "the solver ran %lu paths, set last: %lu", log.back().second, N); } } else if (op <= 3) { N = NS[op - 1]; s.setN(N); nset = true; } else { cur = made++; s.setPricer(std::make_unique<CountPricer>(cur, &log)); } } mc::Hash h; h(cur)(N)(how); for (auto& l : log) h(l.first)(l.second); x.state(h.h); }, -1, 3});
    // solver with real pricers
    u.push_back({"solver and builders", [](X& x) { auto& w = W(); int k = x.pick(std::vector<int>(kinds, kinds + 10)); Conf c; c.opt = x.choose(2); c.md = x.choose(3); c.model = x.choose(2); auto mk = [&] { auto b = builderFor(k); b->setOption(option(k, c.opt)); b->setMarketData(w.md[c.md]); b->setStockPriceModel(w.model[c.model]); return b->build(); }; MCSolver s(5); s.setPricer(mk()); double e = worth(k, c); for (int i = 0; i < 3; ++i) { unsigned long N = x.pick(std::vector<unsigned long>{1, 2, 50}); s.setN(N); long m = w.model[c.model]->calls; double v = s.solve(); x.step(); CHECK(x, w.model[c.model]->calls - m == long(N), "%ld paths simulated, %lu asked for", w.model[c.model]->calls - m, N); CHECK(x, mc::near(v, e, 1e-9, 1e-9), "%s: solver price %.12g, expected %.12g", optName(k), v, e); if (i == 1 && x.flip()) { c.opt ^= 1; s.setPricer(mk()); e = worth(k, c); } } }, -1, 2});
    return u;
})
