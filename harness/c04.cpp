// C04: pricing objects built earlier see the current market data.
#include "models.hpp"
#include "mcp.hpp"
#include "fdm.hpp"
#include "random/number_generator/pseudo_random_generator.h"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
using OD = std::optional<double>;
struct Mkt { double S = 100, s = 0.2; OD c; double r = 0.05, S2 = 55; };
static std::shared_ptr<MarketData> MD() { return MarketData::getInstance(); }
static void reset(const Mkt& m) { MD()->addStock("A", m.S, m.s, m.c); MD()->addStock("B", m.S2, 0.33, 0.07); MD()->setR(m.r); }
static std::string untouched(const Mkt& m) {        // a ticker listed once with these data and never changed
    static std::map<std::tuple<double, double, double>, std::string> pool; auto& t = pool[{m.S, m.s, m.c ? *m.c : -1}]; if (t.empty()) { t = "U" + std::to_string(pool.size()); MD()->addStock(t, m.S, m.s, m.c); } return t;
}
static const int NCH = 12;
static const char* change(Mkt& m, int i) {          // one change of the market data; the model follows the accepted ones
    auto md = MD(); auto rej = [&](auto f) { try { f(); } catch (const std::invalid_argument&) {} };
    switch (i) {
        case 0: md->updateStockPrice("A", m.S = 130); return "price 130"; case 1: md->updateStockPrice("A", m.S = 75.5); return "price 75.5"; case 2: md->updateStockSigma("A", m.s = 0.5); return "volatility 0.5"; case 3: md->updateStockSigma("A", m.s = 0); return "volatility 0";
        case 4: md->updateStockCoupon("A", m.c = OD(0.03)); return "dividend 0.03"; case 5: md->updateStockCoupon("A", m.c = std::nullopt); return "no dividend"; case 6: md->setR(m.r = 0.15); return "rate 0.15"; case 7: md->setR(m.r = -0.01); return "rate -0.01";
        case 8: m.S = 90; m.s = 0.3; m.c = OD(0.1); md->addStock("A", m.S, m.s, m.c); return "listed again at 90, 0.3, 0.1"; case 9: m.S = 100; m.s = 0.25; m.c = std::nullopt; md->addStock("A", m.S, m.s); return "listed again at 100, 0.25";
        case 10: md->updateStockPrice("B", m.S2 = m.S2 == 55 ? 66 : 55); md->updateStockSigma("B", 0.9); return "another stock"; default: rej([&] { md->updateStockPrice("A", -1); }); rej([&] { md->updateStockSigma("A", -0.5); }); rej([&] { md->updateStockCoupon("A", OD(7)); }); rej([&] { md->addStock("A", -3, 0.2); }); return "rejected changes";
    }
}
static void same(X& x, const Mkt& m, const char* after) { auto d = MD()->getStockData("A"); auto b = MD()->getStockData("B"); CHECK(x, d->getPrice() == m.S && d->getSigma() == m.s && d->getCoupon() == m.c && MD()->getR() == m.r && b->getPrice() == m.S2, "market data altered by %s: price %g (%g), volatility %g (%g), rate %g (%g)", after, d->getPrice(), m.S, d->getSigma(), m.s, MD()->getR(), m.r); }
static Spec specFor(const Mkt& m, int kind, unsigned steps) { Spec s; s.kind = kind; s.S = m.S; s.sigma = m.s; s.c = m.c; s.r = m.r; s.steps = steps; return s; }
static Script script(unsigned steps) { Script c; for (unsigned i = 0; i < steps; ++i) { for (int k = 0; k < 2; ++k) c.z.push_back(k ? -0.7 + 0.3 * i : 0.9 - 0.5 * i); c.n.push_back(i % 3); c.jz.push_back(0.4); c.jz.push_back(-1); c.u.push_back(i % 2 ? 0.1 : 0.9); c.u.push_back(0.2); c.e.push_back(0.8); c.e.push_back(1.7); c.g.push_back(1.1 / 0.2 / steps); } return c; }
// ---- models ----
struct Mdl { Spec s; std::shared_ptr<ScriptGen> g; std::shared_ptr<StockModel> m; };
static std::unique_ptr<Mdl> newModel(const Mkt& m, int kind, unsigned steps, const std::string& t) { auto p = std::make_unique<Mdl>(); p->s = specFor(m, kind, steps); p->g = std::make_shared<ScriptGen>(&p->s, steps); p->g->s = script(steps); p->m = makeModel(p->s, MD(), p->g, nullptr, t); return p; }
static V sim(X& x, Mdl& p, const Mkt& m) { p.s = specFor(m, p.s.kind, p.s.steps); try { p.g->rewind(); V v = p.m->simulatePrices(1); p.g->rewind(); v.push_back(p.m->simulatePriceAtMaturity(1)); if (p.s.kind == GBM) { p.g->rewind(); v.push_back(p.m->simulatePriceBackward(111, 0.25, 0.6)); } x.step(); return v; } catch (const BadLaw& b) { x.fail("%s: %s", modelName(p.s.kind), b.what.c_str()); } }
static bool eq(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!mc::near(a[i], b[i], 1e-11, 1e-12)) return false; return true; }
static void models(X& x, int kind, int depth, unsigned steps) {
    Mkt m; if (x.flip()) m.c = OD(0.04); reset(m); std::vector<std::unique_ptr<Mdl>> old; old.push_back(newModel(m, kind, steps, "A")); auto other = newModel(m, kind, steps, "B");
    for (int i = 0; i < depth; ++i) { int op = x.choose(NCH + 2); if (op < NCH) { const char* w = change(m, op); x.note("%s", w); } else if (op == NCH) { for (auto& o : old) sim(x, *o, m); x.note("simulate"); same(x, m, "a simulation"); } else { old.push_back(newModel(m, kind, steps, "A")); x.note("create another model"); } }
    auto fresh = newModel(m, kind, steps, "A"), un = newModel(m, kind, steps, untouched(m)); V a = sim(x, *fresh, m), b = sim(x, *un, m); CHECK(x, eq(a, b), "%s: a model created now on the changed ticker simulates %.12g, on an untouched ticker with the same data %.12g", modelName(kind), a[0], b[0]);
    for (auto& o : old) { V v = sim(x, *o, m); size_t d = 0; while (d + 1 < v.size() && mc::near(v[d], a[d], 1e-11, 1e-12)) ++d; CHECK(x, eq(v, a), "%s model created before the changes: price %zu is %.12g, created now %.12g (price=%g volatility=%g dividend=%g rate=%g)", modelName(kind), d, v[d], a[d], m.S, m.s, m.c.value_or(-1), m.r); }
    V w; bool ok = false; for (int cr = 0; cr < (hasVar(kind) ? 4 : 1) && !ok; ++cr) { w = refPath(specFor(m, kind, steps), script(steps), cr); ok = eq(V(a.begin(), a.begin() + steps), w); } CHECK(x, ok, "%s: simulated price %.12g, with the current data %.12g", modelName(kind), a[0], w[0]);
    if (kind == GBM) { double w = m.S * std::exp(0.25 / 0.6 * std::log(111 / m.S) + std::sqrt(0.25 * (0.6 - 0.25) / 0.6) * m.s * script(steps).z[0]); CHECK(x, mc::near(a.back(), w, 1e-10, 1e-10), "backward price %.12g, with the current data %.12g", a.back(), w); }
    same(x, m, "simulations"); mc::Hash h; h(kind)(m.S)(m.s)(m.c.value_or(-1))(m.r)(a); x.state(h.h);
}
// ---- Monte Carlo pricers ----
static Contract contract(int kind, const std::string& t) { Contract c; c.kind = kind; c.ticker = t; c.call = kind % 2 == 0; c.T = 1; c.K = kind == DOUBLE_DIGITAL ? 20 : c.call ? 60 : 170; c.K2 = 400; c.B = 80; c.up = true; return c; }
struct Prc { Spec s; std::shared_ptr<ScriptGen> g; std::shared_ptr<Option> o; std::unique_ptr<MCPricer> p; };
static std::unique_ptr<Prc> newPricer(const Mkt& m, int kind, unsigned steps, const std::string& t) { auto q = std::make_unique<Prc>(); q->s = specFor(m, GBM, steps); q->g = std::make_shared<ScriptGen>(&q->s, steps); q->g->s = script(steps * 2); Contract c = contract(kind, t); q->o = make(c); q->p = pricerFor(c, q->o, MD(), makeModel(q->s, MD(), q->g, nullptr, t)); return q; }
static double price(X& x, Prc& p, const Mkt& m) { p.s = specFor(m, GBM, p.s.steps); p.g->rewind(); x.step(); try { return p.p->calculatePrice(3); } catch (const BadLaw& b) { x.fail("%s", b.what.c_str()); } }
static void pricers(X& x, int kind, int depth) {
    Mkt m; reset(m); const unsigned steps = 3; std::vector<std::unique_ptr<Prc>> old; old.push_back(newPricer(m, kind, steps, "A"));
    for (int i = 0; i < depth; ++i) { int op = x.choose(NCH + 2); if (op < NCH) { const char* w = change(m, op); x.note("%s", w); } else if (op == NCH) { for (auto& o : old) price(x, *o, m); x.note("price"); same(x, m, "a pricing"); } else { old.push_back(newPricer(m, kind, steps, "A")); x.note("create another pricer"); } }
    auto fresh = newPricer(m, kind, steps, "A"), un = newPricer(m, kind, steps, untouched(m)); double a = price(x, *fresh, m), b = price(x, *un, m); CHECK(x, mc::near(a, b, 1e-10, 1e-10), "%s: priced now %.12g, on an untouched ticker with the same data %.12g", optName(kind), a, b); for (auto& o : old) { double v = price(x, *o, m); CHECK(x, mc::near(v, a, 1e-10, 1e-10), "%s pricer built before the changes: %.12g, built now %.12g (price=%g volatility=%g dividend=%g rate=%g)", optName(kind), v, a, m.S, m.s, m.c.value_or(-1), m.r); v = price(x, *o, m); CHECK(x, mc::near(v, a, 1e-10, 1e-10), "%s pricer: pricing again gives %.12g instead of %.12g", optName(kind), v, a); }
    same(x, m, "pricings"); mc::Hash h; h(kind)(m.S)(m.s)(m.c.value_or(-1))(m.r)(a); x.state(h.h);
}
// the American backward algorithm, with pseudo-random generators in step
static void bridge(X& x, int depth) {
    Mkt m; reset(m); auto mk = [&](const std::string& t) { Contract c = contract(AMERICAN, t); c.call = x.s ? false : false; auto o = make(c); return std::make_pair(o, pricerFor(c, o, MD(), std::make_shared<GeometricBrownianMotionModel>(t, MD(), std::make_shared<PseudoRandomNumberGenerator>(3, 11)))); }; auto old = mk("A"); int k = 0;
    for (int i = 0; i < depth; ++i) { int op = x.choose(NCH + 1); if (op < NCH) { const char* w = change(m, op); x.note("%s", w); } else { old.second->calculatePrice(6); ++k; x.note("price"); same(x, m, "a pricing"); } }
    auto f = mk("A"), un = mk(untouched(m)); for (int i = 0; i < k; ++i) { f.second->calculatePrice(6); un.second->calculatePrice(6); } double v = old.second->calculatePrice(6), a = f.second->calculatePrice(6), b = un.second->calculatePrice(6); x.step(3); CHECK(x, mc::near(a, b, 1e-9, 1e-9), "American (backward): %.12g, on an untouched ticker %.12g", a, b); CHECK(x, mc::near(v, a, 1e-9, 1e-9), "American pricer (backward) built before the changes: %.12g, built now %.12g (price=%g volatility=%g dividend=%g rate=%g)", v, a, m.S, m.s, m.c.value_or(-1), m.r); same(x, m, "pricings"); mc::Hash h; h(v)(m.S)(m.s); x.state(h.h);
}
// ---- PDE and finite differences ----
using BS = PDE::OneFactor::BlackScholesPDE;
static V probe(const BS& p) { V v; for (double t : {0.0, 0.3, 1.0}) for (double s : {0.0, 50.0, 240.0}) { v.push_back(p.diffusion(t, s)); v.push_back(p.convection(t, s)); v.push_back(p.reaction(t, s)); v.push_back(p.boundaryLeft(t, s)); v.push_back(p.boundaryRight(t, s)); v.push_back(p.initialCondition(s)); v.push_back(p.rightHandSide(t, s)); } return v; }
static std::shared_ptr<EuropeanOption> euro(bool call, const std::string& t) { Contract c; c.kind = EUROPEAN; c.call = call; c.K = 100; c.ticker = t; return std::dynamic_pointer_cast<EuropeanOption>(make(c)); }
static void pdes(X& x, int depth) {
    Mkt m; reset(m); bool call = x.flip(); BS old(euro(call, "A"), MD()); for (int i = 0; i < depth; ++i) { int op = x.choose(NCH + 1); if (op < NCH) { const char* w = change(m, op); x.note("%s", w); } else { probe(old); same(x, m, "evaluating the PDE"); } } x.step(3);
    BS f(euro(call, "A"), MD()), un(euro(call, untouched(m)), MD()); V a = probe(old), b = probe(f), c = probe(un); CHECK(x, eq(b, c), "PDE created now differs from the one on an untouched ticker with the same data"); CHECK(x, eq(a, b), "PDE created before the changes differs from one created now (price=%g volatility=%g dividend=%g rate=%g)", m.S, m.s, m.c.value_or(-1), m.r); for (double v : {a[0 + 7], a[7]}) CHECK(x, mc::near(v, 0.5 * m.s * m.s * 2500, 1e-12, 1e-12), "diffusion at 50 is %g", v); same(x, m, "PDEs"); mc::Hash h; h(a); x.state(h.h);
}
static void fdms(X& x, int depth) {
    quiet(); Mkt m; reset(m); int sc = x.choose(3); bool call = x.flip(); auto mk = [&](const std::string& t) { auto o = euro(call, t); return fdm(sc, 260, 14, 1, sc == EXPLICIT ? 70 : 5, std::make_unique<BS>(o, MD()), o, MD()); }; auto old = mk("A"); bool asked = false; Mkt at; auto judge = [&] { Mkt now = m; if (!asked) { asked = true; at = m; } double v = old->calculatePrice(); Mkt q = at; q.S = now.S; MD()->setR(q.r); auto un = mk(untouched(q)); double w = un->calculatePrice(); MD()->setR(now.r); x.step(); same(x, m, "a finite-difference pricing"); CHECK(x, mc::near(v, w, 1e-9, 1e-9), "%s %s: price %.12g; with the data when first asked (volatility %g dividend %g rate %g) at the current spot %g: %.12g", schemeName(sc), call ? "call" : "put", v, at.s, at.c.value_or(-1), at.r, q.S, w); mc::Hash h; h(sc)(call)(v); x.state(h.h); };
    for (int i = 0; i < depth; ++i) { int op = x.choose(NCH + 1); if (op < NCH) { const char* w = change(m, op); x.note("%s", w); } else { x.note("price"); judge(); } } judge();
}
MC_MAIN([] {
    std::vector<mc::Unit> u; for (int k = 0; k < NMODELS; ++k) { u.push_back({std::string(modelName(k)) + " histories", [k](X& x) { models(x, k, mc::thorough && k % 2 == 0 ? 5 : 4, 3); }, -1, 2}); u.push_back({std::string(modelName(k)) + " one step", [k](X& x) { models(x, k, 2, 1); }, -1, 2}); }
    for (int k = 0; k < NKINDS; ++k) u.push_back({std::string(optName(k)) + " pricer histories", [k](X& x) { pricers(x, k, mc::thorough && k % 2 == 0 ? 5 : 4); }, -1, 2});
    u.push_back({"American backward algorithm", [](X& x) { bridge(x, mc::thorough ? 5 : 4); }, -1, 2}); u.push_back({"PDE histories", [](X& x) { pdes(x, mc::thorough ? 5 : 4); }, -1, 3}); u.push_back({"finite-difference histories", [](X& x) { fdms(x, mc::thorough ? 5 : 4); }, -1, 3});
    return u;
})
