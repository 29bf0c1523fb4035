// C27: pricing objects own what they use. Every order of releasing the caller's handles, prices taken after every release; then
// nothing is left behind (counted lives, counted allocations, sizes of deletions), and nothing keeps a reference to an argument.
#include "faulty.hpp"
#include "alloc.hpp"
#include "random/distribution/standard_normal_distribution.h"
using namespace op; using mc::X; using V = std::vector<double>;

static std::shared_ptr<EuropeanOption> eur(bool call = true, double K = 95, double T = 1) { return european(call, K, T); }
struct Handle { const char* name; std::shared_ptr<void> p; };
static Spec specOf(int k, unsigned steps) { Spec s; s.kind = k; s.steps = steps; if (k == HESTON || k == BATES) s.rho = 0.3; return s; }
enum Gen { ANS, PSEUDO, SOBOL, FAURE, NGEN };
static std::shared_ptr<NumberGenerator> gen(int g, unsigned steps) { switch (g) { case ANS: return std::make_shared<AnsGen>(steps); case PSEUDO: return std::make_shared<PseudoRandomNumberGenerator>(steps, 7); case SOBOL: return std::make_shared<SobolGenerator>(steps, 7); default: return std::make_shared<FaureGenerator>(steps, 7); } }
struct MC { std::vector<Handle> h; std::unique_ptr<MCSolver> solver; };
static MC build(const Contract& c, int model, int g, unsigned steps, unsigned long N) {
    MC m; auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = make(c); auto ge = gen(g, steps); std::shared_ptr<CIRDiscretization> cir = hasVar(model) ? std::make_shared<LiveCIR>() : nullptr;
    auto mo = makeModel(specOf(model, steps), md, ge, cir); auto b = builderFor(c.kind); std::shared_ptr<LiveRegression> rg; std::shared_ptr<LiveBasis> ba;
    b->setOption(o); b->setMarketData(md); b->setStockPriceModel(mo);
    if (c.kind == AMERICAN) { rg = std::make_shared<LiveRegression>(); ba = std::make_shared<LiveBasis>(); auto& ab = static_cast<AmericanMCBuilder&>(*b); ab.setRegressionStrategy(rg); ab.setBasisFunctionStrategy(ba); }
    m.solver = std::make_unique<MCSolver>(N); m.solver->setPricer(b->build());
    m.h = {{"option", o}, {"market data", md}, {"generator", ge}, {"model", mo}, {"builder", std::shared_ptr<MCBuilder>(std::move(b))}}; if (cir) m.h.push_back({"variance scheme", cir}); if (rg) { m.h.push_back({"regression", rg}); m.h.push_back({"basis", ba}); }
    return m;
}
static void warm() { quiet(); MarketData::getInstance()->addStock("TK", 42.0, 0.9, 0.5); MarketData::getInstance()->setR(0.05); }
static Contract contractOf(int kind, bool call) { Contract c; c.kind = kind; c.call = call; c.K = call ? 95 : 130; c.K2 = 140; c.B = kind == KNOCK_IN ? 101 : 1000; return c; }
// leftovers: every counted object gone and every weak handle expired
static void gone(X& x, const std::vector<std::pair<std::string, std::weak_ptr<void>>>& w, long lives0, const std::string& what) {
    for (auto& q : w) CHECK(x, q.second.expired(), "%s: the %s is still alive after everything was released", what.c_str(), q.first.c_str());
    CHECK(x, Lives::n == lives0, "%s: %ld collaborators are still alive after everything was released", what.c_str(), Lives::n - lives0);
}
static void mcOrders(X& x, bool quasi) {
    warm(); g_faults.disarm(); int kind = x.choose(NKINDS), model = x.choose(NMODELS), g = quasi ? 1 + x.choose(3) : 0; bool call = kind == AMERICAN ? false : !x.flip(); if (quasi && g != PSEUDO && model != GBM && !(model == HESTON)) return;
    unsigned steps = 3; unsigned long N = kind == AMERICAN ? 4 : 2; Contract c = contractOf(kind, call); long lives0 = Lives::n; std::string what = std::string(optName(kind)) + " under " + modelName(model);
    std::vector<double> ref; { MC r = build(c, model, g, steps, N); for (int i = 0; i < 11; ++i) ref.push_back(r.solver->solve()); }
    gone(x, {}, lives0, what + " (all at once)");
    std::vector<std::pair<std::string, std::weak_ptr<void>>> w;
    {
        MC m = build(c, model, g, steps, N); for (auto& q : m.h) w.push_back({q.name, q.p}); size_t at = 0; bool priced = !mc::thorough || x.flip();     // a price before the first release, or not
        auto price = [&](const char* when) { x.step(); double v = m.solver->solve(); CHECK(x, v == ref[at] || (v != v && ref[at] != ref[at]), "%s: price %.17g after releasing the %s, expected %.17g", what.c_str(), v, when, ref[at]); ++at; mc::Hash s; s(v)(kind)(model)(m.h.size()); x.state(s.h); };
        if (priced) price("(nothing)");
        while (!m.h.empty()) { int k = x.choose(int(m.h.size())); std::string nm = m.h[k].name; x.note("release the %s", nm.c_str()); m.h.erase(m.h.begin() + k); price(nm.c_str()); }
        MarketData::getInstance()->setR(0.05); MarketData::getInstance()->updateStockPrice("TK", 42.0); price("(nothing, after an update)");      // the option is still registered
    }
    gone(x, w, lives0, what);
}
struct FD { std::vector<Handle> h; std::unique_ptr<Fdm> s; };
static FD fd(int scheme, int ms, int in, bool live, unsigned long J, unsigned long N) {
    FD f; auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = eur(); std::shared_ptr<MatrixSolver> m; std::shared_ptr<Interpolation> i; if (ms) m = std::make_shared<LiveMS>(ms); if (in) i = std::make_shared<LiveInterp>(in);
    std::unique_ptr<Pde> p; if (live) p = std::make_unique<LivePDE>(o, md); else p = std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md);
    f.s = fdm(scheme, 200, J, 1.0, N, std::move(p), o, md, i, m); f.h = {{"option", o}, {"market data", md}}; if (m && scheme != EXPLICIT) f.h.push_back({"matrix solver", m}); if (i) f.h.push_back({"interpolation", i}); return f;
}
static void fdOrders(X& x) {
    warm(); g_faults.disarm(); int scheme = x.choose(NSCHEMES), ms = scheme == EXPLICIT ? 0 : x.choose(4), in = x.choose(3); bool live = x.flip(); unsigned long J = x.flip() ? 9 : 5, N = J == 9 ? 12 : 3; long lives0 = Lives::n; std::string what = std::string("finite differences, ") + schemeName(scheme);
    double ref; V sol; { FD r = fd(scheme, ms, in, live, J, N); sol = r.s->solve(); ref = r.s->calculatePrice(); }
    gone(x, {}, lives0, what + " (all at once)"); std::vector<std::pair<std::string, std::weak_ptr<void>>> w;
    {
        FD f = fd(scheme, ms, in, live, J, N); for (auto& q : f.h) w.push_back({q.name, q.p});
        bool every = !mc::thorough && x.flip();     // quick: one kind of use after every release, or one use at every position
        int kindOfUse = every ? 1 + x.choose(2) : 0, budget = 1;
        for (;;) {
            int use = every ? kindOfUse : mc::thorough ? x.choose(3) : budget ? x.choose(3) : 0; if (use) --budget; x.step(); if (use == 1) { V v = f.s->solve(); CHECK(x, v == sol, "%s: another solution after %zu handles are left", what.c_str(), f.h.size()); } if (use == 2) { double p = f.s->calculatePrice(); CHECK(x, p == ref, "%s: price %.17g with %zu handles left, expected %.17g", what.c_str(), p, f.h.size(), ref); }
            mc::Hash s; s(scheme)(use)(f.h.size())(ms)(in); x.state(s.h); if (f.h.empty()) break; int k = x.choose(int(f.h.size())); x.note("release the %s", f.h[k].name); f.h.erase(f.h.begin() + k);
        }
        double p = f.s->calculatePrice(); CHECK(x, p == ref, "%s: price %.17g after everything was released, expected %.17g", what.c_str(), p, ref);
    }
    gone(x, w, lives0, what);
}
// equations and models on their own: every release order of what they were given; handles they give out outlive them
static void partsAlone(X& x) {
    warm(); g_faults.disarm(); long lives0 = Lives::n; int which = x.choose(NMODELS + 2); std::vector<std::pair<std::string, std::weak_ptr<void>>> w; std::string what = which < NMODELS ? modelName(which) : which == NMODELS ? "Black-Scholes equation of a call" : "Black-Scholes equation of a put";
    auto parts = [&](std::vector<Handle>& h) -> std::function<V()> {
        auto md = liveMD(100, 0.3, 0.02, 0.05); h.push_back({"market data", md});
        if (which >= NMODELS) { auto o = eur(which == NMODELS); h.push_back({"option", o}); auto p = std::make_shared<PDE::OneFactor::BlackScholesPDE>(o, md); return [p] { V v; for (double t : {0., 0.4}) for (double s : {0., 80., 200.}) for (double q : {p->diffusion(t, s), p->convection(t, s), p->reaction(t, s), p->rightHandSide(t, s), p->boundaryLeft(t, s), p->boundaryRight(t, s), p->initialCondition(s)}) v.push_back(q); return v; }; }
        auto g = std::make_shared<AnsGen>(3); h.push_back({"generator", g}); std::shared_ptr<CIRDiscretization> cir; if (hasVar(which)) { cir = std::make_shared<LiveCIR>(); h.push_back({"variance scheme", cir}); } auto m = makeModel(specOf(which, 3), md, g, cir); return [m] { V v = m->simulatePrices(1.0); v.push_back(m->simulatePriceAtMaturity(0.5)); v.push_back(m->getSteps()); return v; };
    };
    V ref; { std::vector<Handle> h; ref = parts(h)(); }
    { std::vector<Handle> h; auto use = parts(h); for (auto& q : h) w.push_back({q.name, q.p}); while (!h.empty()) { int k = x.choose(int(h.size())); std::string nm = h[k].name; x.note("release the %s", nm.c_str()); h.erase(h.begin() + k); x.step(); CHECK(x, use() == ref, "%s: answers differently once the caller has released the %s", what.c_str(), nm.c_str()); mc::Hash s; s(which)(h.size())(k); x.state(s.h); } }
    gone(x, w, lives0, what);
    if (which < NMODELS) { std::shared_ptr<NumberGenerator> g; { std::vector<Handle> h; auto md = liveMD(100, 0.3, 0.02, 0.05); auto m = makeModel(specOf(which, 3), md, std::make_shared<AnsGen>(3), nullptr); g = m->getGenerator(); } StandardNormalDistribution n; CHECK(x, g && g->getDim() == 3 && (*g)(n) == 0.4, "%s: the generator handed out does not outlive the model", what.c_str()); }
}
// replacing a pricer, dropping solvers and builders: all histories over two solvers
static void solverHistories(X& x) {
    warm(); g_faults.disarm(); long lives0 = Lives::n; auto md = MarketData::getInstance();
    static const int kinds[] = {EUROPEAN, KNOCK_OUT, FLOAT_LOOKBACK}; double ref[3]; for (int i = 0; i < 3; ++i) { MC m = build(contractOf(kinds[i], true), i == 1 ? HESTON : GBM, ANS, 2, 3); ref[i] = m.solver->solve(); }
    {
        std::unique_ptr<MCSolver> s[2]; int has[2] = {-1, -1}; std::unique_ptr<MCPricer> spare; int spareKind = -1; int depth = mc::thorough ? 6 : 5;
        for (int d = 0; d < depth; ++d) {
            int opn = x.choose(8), i = opn & 1; x.step();
            auto make1 = [&](int k) { Contract c = contractOf(kinds[k], true); auto fm = liveMD(100, 0.3, 0.02, 0.05); auto g = std::make_shared<AnsGen>(2); auto mo = makeModel(specOf(k == 1 ? HESTON : GBM, 2), fm, g, k == 1 ? std::make_shared<LiveCIR>() : nullptr); return pricerFor(c, make(c), fm, mo); };
            switch (opn) {
                case 0: case 1: s[i] = std::make_unique<MCSolver>(3); has[i] = -1; x.note("new solver %d", i); break;
                case 2: case 3: if (!s[i]) return; { int k = (d + i) % 3; s[i]->setPricer(make1(k)); has[i] = k; x.note("solver %d gets a pricer of kind %d", i, k); } break;
                case 4: spare = make1(d % 3); spareKind = d % 3; x.note("a spare pricer"); break;
                case 5: if (!spare || !s[0]) return; s[0]->setPricer(std::move(spare)); has[0] = spareKind; spareKind = -1; x.note("solver 0 gets the spare"); break;
                case 6: if (!s[1]) return; s[1].reset(); has[1] = -1; x.note("solver 1 goes"); break;
                default: if (!s[0]) return; s[0]->setPricer(nullptr); has[0] = -1; x.note("solver 0 loses its pricer");
            }
            for (int q = 0; q < 2; ++q) if (s[q] && has[q] >= 0) { double v = s[q]->solve(); CHECK(x, v == ref[has[q]], "solver %d prices %.17g, expected %.17g", q, v, ref[has[q]]); }
            long want = lives0; for (int q = 0; q < 2; ++q) if (has[q] >= 0) want += has[q] == 1 ? 3 : 2; if (spareKind >= 0) want += spareKind == 1 ? 3 : 2;
            CHECK(x, Lives::n == want, "%ld collaborators alive, the pricers in use own %ld", Lives::n - lives0, want - lives0); mc::Hash h; h(has[0])(has[1])(spareKind); x.state(h.h);
        }
    }
    gone(x, {}, lives0, "solver histories");
}
// option and payoff handles: clones and stock data outlive everything they came from
static void handles(X& x) {
    warm(); int kind = x.choose(NKINDS); bool call = !x.flip(); Contract c = contractOf(kind, call); auto o = make(c); struct Item { int what; std::shared_ptr<void> p; }; V spots = {80, 95, 130, 150};
    auto val = [&](const Payoff& p) { V v; for (double s : spots) { double r; try { r = p(s); } catch (const std::exception&) { r = -1; } v.push_back(r); try { r = p(s, 100.0); } catch (const std::exception&) { r = -1; } v.push_back(r); } return v; };
    V ref = val(o->getPayoff()); std::shared_ptr<Payoff> a = o->getPayoff().clone(), b = x.flip() ? std::shared_ptr<Payoff>(a->clone()) : std::shared_ptr<Payoff>(o->getPayoff().clone()); auto sd = MarketData::getInstance()->getStockData("TK"); std::weak_ptr<Option> wo = o; std::weak_ptr<Payoff> wa = a, wb = b;
    CHECK(x, a.get() != b.get() && a.get() != &o->getPayoff(), "%s: a clone of the payoff is the payoff itself", optName(kind));
    std::vector<int> left = {0, 1, 2};
    while (!left.empty()) {
        int i = x.choose(int(left.size())), k = left[i]; left.erase(left.begin() + i); x.step(); x.note("release %d", k); if (k == 0) o.reset(); if (k == 1) a.reset(); if (k == 2) b.reset();
        if (o) CHECK(x, val(o->getPayoff()) == ref, "%s: the option's payoff changed", optName(kind)); if (a) CHECK(x, val(*a) == ref, "%s: the payoff's clone changed after %d was released", optName(kind), k); if (b) CHECK(x, val(*b) == ref, "%s: the second clone changed after %d was released", optName(kind), k);
        CHECK(x, wo.expired() == !o, "%s: the option is kept alive by something else", optName(kind)); CHECK(x, sd->getPrice() == 42.0, "stock data handle lost its value"); mc::Hash h; h(kind)(left.size())(k); x.state(h.h);
    }
    CHECK(x, wa.expired() && wb.expired(), "%s: a payoff clone is kept alive", optName(kind));
}
// Arguments given by reference are copied: they are overwritten and freed straight after construction.
struct Args {                                        // each argument in a heap block of its own
    std::vector<double*> d; std::vector<std::string*> s; std::vector<unsigned*> u; std::vector<unsigned long*> l;
    const double& operator()(double v) { d.push_back(new double(v)); return *d.back(); } const std::string& operator()(const char* t) { s.push_back(new std::string(t)); return *s.back(); }
    const unsigned& un(unsigned v) { u.push_back(new unsigned(v)); return *u.back(); } const unsigned long& ul(unsigned long v) { l.push_back(new unsigned long(v)); return *l.back(); }
    void drop() { for (auto p : d) { *p = -7e7; delete p; } for (auto p : s) { p->assign("gone"); delete p; } for (auto p : u) { *p = 77; delete p; } for (auto p : l) { *p = 77; delete p; } d.clear(); s.clear(); u.clear(); l.clear(); }
    ~Args() { drop(); }
};
static V useModel(const StockModel& m) { V v = m.simulatePrices(1.0); v.push_back(m.simulatePriceAtMaturity(1.0)); v.push_back(m.getSteps()); try { v.push_back(m.simulatePriceBackward(103, 0.25, 0.5)); } catch (const std::logic_error&) {} return v; }
static V useGen(const NumberGenerator& g) { V v; StandardNormalDistribution n; for (int i = 0; i < 9; ++i) v.push_back(g(n)); v.push_back(g.getDim()); return v; }
template<class D> static V useDist(D& d) { V v; std::mt19937 e(5); for (int i = 0; i < 6; ++i) v.push_back(d(e)); for (double p : {0.1, 0.5, 0.97}) try { v.push_back(d.inv_cdf(p)); } catch (const std::logic_error&) {} return v; }
static V usePayoff(const Payoff& p) { V v; for (double s : {50., 99., 101., 150.}) { try { v.push_back(p(s)); } catch (const std::exception&) {} try { v.push_back(p(s, 90)); } catch (const std::exception&) {} } auto c = p.clone(); v.push_back(*c == p); return v; }
static Eigen::MatrixXd design() { Eigen::MatrixXd A(4, 2); A << 1, 2, 1, 3, 1, 5, 1, 8; return A; }
using Use = std::function<V(Args&, bool)>;                             // builds one object from the arguments; drops them before use when told
struct Named { const char* name; Use f; };
static const std::vector<Named>& objects() {
    auto model = [](int k) { return [k](Args& a, bool drop) -> V { Spec s = specOf(k, 3); auto md = liveMD(100, 0.3, 0.02, 0.05); auto g = std::make_shared<AnsGen>(3); std::shared_ptr<StockModel> m; const std::string& t = a("TK");
        if (k == GBM) m = std::make_shared<GeometricBrownianMotionModel>(t, md, g); if (k == HESTON) m = std::make_shared<HestonModel>(t, md, g, a(s.kappa), a(s.theta), a(s.sv), a(s.rho), a(s.v0)); if (k == MERTON) m = std::make_shared<MertonJumpDiffusionModel>(t, md, g, a(s.lambda), a(s.muJ), a(s.sJ));
        if (k == KOU) m = std::make_shared<KouModel>(t, md, g, a(s.lambda), a(s.p), a(s.eta1), a(s.eta2)); if (k == VG) m = std::make_shared<VarianceGammaModel>(t, md, g, a(s.nu), a(s.vtheta)); if (k == BATES) m = std::make_shared<BatesModel>(t, md, g, a(s.kappa), a(s.theta), a(s.sv), a(s.rho), a(s.v0), a(s.lambda), a(s.muJ), a(s.sJ));
        if (drop) { a.drop(); md.reset(); g.reset(); } V v = useModel(*m); V w = useModel(*m); v.insert(v.end(), w.begin(), w.end()); return v; }; };
    auto fdmOf = [](int sc) { return [sc](Args& a, bool drop) -> V { auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = eur(); auto p = std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md); auto s = [&]() -> std::unique_ptr<Fdm> { using namespace FDM::OneFactor; const double &xd = a(200), &td = a(1); const unsigned long &J = a.ul(9), &N = a.ul(12);
        if (sc == EXPLICIT) return std::make_unique<EulerExplicitFDM>(xd, J, td, N, std::move(p), o, md, nullptr); if (sc == IMPLICIT) return std::make_unique<EulerImplicitFDM>(xd, J, td, N, std::move(p), o, md, nullptr); return std::make_unique<CrankNicolsonFDMSolver>(xd, J, td, N, std::move(p), o, md, nullptr); }();
        if (drop) { a.drop(); md.reset(); o.reset(); } V v = s->solve(); v.push_back(s->calculatePrice()); return v; }; };
    auto option = [](int kind, bool call) { return [kind, call](Args& a, bool drop) -> V { std::shared_ptr<Option> o; { auto p = std::make_unique<ParameterObject>(); p->setParameter(a("ticker"), std::string("TK")); p->setParameter(a("T"), a(1.5)); if (kind == DOUBLE_DIGITAL) { p->setParameter(a("K1"), a(90)); p->setParameter(a("K2"), a(110)); } else p->setParameter(a("K"), a(100)); p->setParameter(a("B"), a(120)); p->setParameter(a("direction"), BarrierDirection::Up);
        if (drop) a.drop(); V had; for (const char* n : {"ticker", "T", "K", "K1", "K2", "B", "direction", "other"}) had.push_back(p->hasParameter(n)); o = createOption(kind, call, *p); }
        V v = usePayoff(o->getPayoff()); v.push_back(o->getT()); if (auto b = std::dynamic_pointer_cast<BarrierOption>(o)) for (double s : {119., 120., 121.}) v.push_back(b->isActive(s)); v.push_back(o->getID() == "TK"); std::ostringstream q; q << *o; v.push_back(double(std::hash<std::string>()(q.str()) % 1000003)); return v; }; };
    static const std::vector<Named> L = [&] {
        std::vector<Named> l; static std::vector<std::string> names;
        for (int k = 0; k < NMODELS; ++k) l.push_back({modelName(k), model(k)});
        for (int s = 0; s < NSCHEMES; ++s) l.push_back({schemeName(s), fdmOf(s)});
        for (int k = 0; k < NKINDS; ++k) for (int c = 0; c < 2; ++c) l.push_back({optName(k), option(k, c)});
        l.push_back({"pseudo generator", [](Args& a, bool d) -> V { PseudoRandomNumberGenerator g(a.un(3), a.un(9)); if (d) a.drop(); return useGen(g); }});
        l.push_back({"Sobol generator", [](Args& a, bool d) -> V { SobolGenerator g(a.un(3), a.un(9)); if (d) a.drop(); return useGen(g); }});
        l.push_back({"Faure generator", [](Args& a, bool d) -> V { FaureGenerator g(a.un(3), a.un(9)); if (d) a.drop(); return useGen(g); }});
        l.push_back({"uniform law", [](Args& a, bool d) -> V { ContinuousUniformDistribution q(a(1), a(3)); if (d) a.drop(); return useDist(q); }});
        l.push_back({"normal law", [](Args& a, bool d) -> V { NormalDistribution q(a(1), a(3)); if (d) a.drop(); return useDist(q); }});
        l.push_back({"exponential law", [](Args& a, bool d) -> V { ExponentialDistribution q(a(2)); if (d) a.drop(); return useDist(q); }});
        l.push_back({"gamma law", [](Args& a, bool d) -> V { GammaDistribution q(a(2), a(0.5)); if (d) a.drop(); return useDist(q); }});
        l.push_back({"Poisson law", [](Args& a, bool d) -> V { PoissonDistribution q(a(3)); if (d) a.drop(); return useDist(q); }});
        for (int s = 0; s < 3; ++s) for (int t = 0; t < 2; ++t) { PayoffType y = t ? PayoffType::Put : PayoffType::Call;
            l.push_back({"payoff", [s, y](Args& a, bool d) -> V { std::unique_ptr<Payoff> p; if (s == 0) p = std::make_unique<PayoffVanilla>(y, a(100)); if (s == 1) p = std::make_unique<PayoffDigital>(y, a(100)); if (s == 2) p = std::make_unique<PayoffDoubleDigital>(a(95), a(105)); if (d) a.drop(); return usePayoff(*p); }}); }
        l.push_back({"ridge", [](Args& a, bool d) -> V { RidgeRegression r(a(0.3)); if (d) a.drop(); Eigen::VectorXd y(4); y << 1, 2, 2, 5; auto v = r.solve(design(), y); return V(v.data(), v.data() + v.size()); }});
        l.push_back({"lasso", [](Args& a, bool d) -> V { LassoRegression r(a(0.3)); if (d) a.drop(); Eigen::VectorXd y(4); y << 1, 2, 2, 5; auto v = r.solve(design(), y); return V(v.data(), v.data() + v.size()); }});
        l.push_back({"monomials", [](Args& a, bool d) -> V { MonomialBasisFunction b(a.un(3)); if (d) a.drop(); Eigen::VectorXd y(3); y << 1, 2, 5; auto m = b.generate(y); return V(m.data(), m.data() + m.size()); }});
        l.push_back({"Laguerre", [](Args& a, bool d) -> V { LaguerreBasisFunction b(a.un(4)); if (d) a.drop(); Eigen::VectorXd y(3); y << 1, 2, 5; auto m = b.generate(y); return V(m.data(), m.data() + m.size()); }});
        l.push_back({"Monte Carlo solver", [](Args& a, bool d) -> V { MCSolver s(a.ul(5)); auto md = liveMD(100, 0.3, 0.02, 0.05); Contract c; auto m = std::make_shared<ScriptModel>(md, std::make_shared<AnsGen>(1)); for (int i = 0; i < 20; ++i) m->paths.push_back({100. + i}); s.setPricer(pricerFor(c, make(c), md, m)); if (d) a.drop(); V v = {s.solve()}; s.setN(a.ul(3)); if (d) a.drop(); v.push_back(s.solve()); return v; }});
        l.push_back({"stock data", [](Args& a, bool d) -> V { std::optional<double>* c = new std::optional<double>(0.1); StockData s(a(50), a(0.4), *c); *c = 0.9; if (d) a.drop(); delete c; return {s.getPrice(), s.getSigma(), *s.getCoupon()}; }});
        l.push_back({"market data", [](Args& a, bool d) -> V { auto m = MarketData::getInstance(); m->addStock(a("TKOWN_with_a_long_name"), a(60), a(0.2), 0.25); m->setR(a(0.05)); if (d) a.drop(); auto s = m->getStockData("TKOWN_with_a_long_name"); V v = {s->getPrice(), s->getSigma(), *s->getCoupon(), m->getR()}; m->updateStockPrice(a("TKOWN_with_a_long_name"), a(61)); m->updateStockSigma(a("TKOWN_with_a_long_name"), a(0.3)); if (d) a.drop(); v.push_back(s->getPrice()); v.push_back(s->getSigma()); return v; }});
        return l;
    }();
    return L;
}
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!(a[i] == b[i] || (a[i] != a[i] && b[i] != b[i]))) return false; return true; }
static void arguments(X& x) {
    warm(); g_faults.disarm(); auto& l = objects(); auto& o = l[x.choose(int(l.size()))]; x.note("%s", o.name); V ref, got; { Args a; ref = o.f(a, false); } { Args a; got = o.f(a, true); } x.step(2);
    CHECK(x, same(ref, got), "%s: gives other results once the arguments it was built from are gone", o.name); mc::Hash h; h(ref); x.state(h.h);
}
// Nothing is left behind: sequences of creating, using and destroying objects balance their allocations.
static void balance(X& x, int len) {
    warm(); g_faults.disarm(); auto& l = objects(); int n = int(l.size()); std::vector<int> seq; for (int i = 0; i < len; ++i) seq.push_back(x.choose(n + NKINDS + 3));
    auto run = [&] { for (int i : seq) if (i < n) { Args a; (void)l[i].f(a, true); } else if (i < n + NKINDS) { MC m = build(contractOf(i - n, true), i % 2 ? HESTON : GBM, ANS, 2, 2); (void)m.solver->solve(); m.h.clear(); (void)m.solver->solve(); } else { FD f = fd(i - n - NKINDS, 2, 1, true, 5, 3); (void)f.s->calculatePrice(); } };
    long lives0 = Lives::n; run(); run(); long left = 0; const char* bad = nullptr; int leaks = 0;
    for (int i = 0; i < 5; ++i) { alloc::Scope s(-1, i > 0); run(); if (!bad) bad = alloc::g_bad; if (alloc::g_live <= left) break; left = alloc::g_live; ++leaks; }      // storage that is replaced or kept once is not a leak: it has to grow every time
    x.step(seq.size()); std::string names; for (int i : seq) names += std::string(i < n ? l[i].name : i < n + NKINDS ? optName(i - n) : schemeName(i - n - NKINDS)) + (i < n ? " " : " priced ");
    CHECK(x, !bad, "%s: %s", names.c_str(), bad); CHECK(x, leaks < 5, "%s: %ld allocations are never released after 5 rounds", names.c_str(), left); CHECK(x, Lives::n == lives0, "%s: %ld collaborators are never destroyed", names.c_str(), Lives::n - lives0); mc::Hash h; h(seq[0])(seq.back()); x.state(h.h);
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"arguments are copied", arguments, -1, 1});
    u.push_back({"finite differences, every release order", fdOrders, -1, 4});
    u.push_back({"Monte Carlo, every release order", [](X& x) { mcOrders(x, false); }, -1, 4});
    if (mc::thorough) u.push_back({"Monte Carlo, real generators", [](X& x) { mcOrders(x, true); }, -1, 5});
    u.push_back({"payoff clones and handles", handles, -1, 2});
    u.push_back({"equations and models alone", partsAlone, -1, 2});
    u.push_back({"solver histories", solverHistories, -1, 3});
    u.push_back({"nothing is left behind", [](X& x) { balance(x, 1); }, -1, 1});
    u.push_back({"nothing is left behind, sequences", [](X& x) { balance(x, mc::thorough ? 3 : 2); }, -1, 2});
    return u;
})
