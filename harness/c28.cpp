// C28: a failed operation changes nothing that matters and can be repeated. Every call of a collaborator and every allocation made by
// an operation is a fault point; each is made to fail once (pairs in a row for the retry), then the operation is repeated.
#include "faulty.hpp"
#include "alloc.hpp"
#include "option/parameter_object.h"
using namespace op; using mc::X; using V = std::vector<double>;

static void warm() { quiet(); alloc::g_countMalloc = false;      // Eigen's sparse matrices (malloc) lose blocks when they are not completed: not the code under test
    auto m = MarketData::getInstance(); g_faults.disarm(); m->addStock("TK", 42.0, 0.9, 0.5); m->setR(0.05); }
static bool eq(double a, double b) { return a == b || (a != a && b != b); }
static bool same(const V& a, const V& b) { if (a.size() != b.size()) return false; for (size_t i = 0; i < a.size(); ++i) if (!eq(a[i], b[i])) return false; return true; }
// ---- attempts: the k-th fault point of a kind fails once ----
enum Source { ALLOC, CALL };
struct Outcome { bool threw = false; long points = 0; bool fired = false; long live = 0; std::string what; };
template<class F> static Outcome attempt(int src, long at, F&& f, bool keep = false) {
    Outcome o; g_faults.arm(src == CALL ? at : -1);
    { alloc::Scope s(src == ALLOC ? at : -1, keep); try { f(); } catch (const std::exception& e) { o.threw = true; } catch (...) { o.threw = true; } alloc::g_on = false; o.points = src == ALLOC ? alloc::g_calls : g_faults.calls; o.fired = src == ALLOC ? alloc::g_fired : g_faults.fired; o.live = alloc::g_live; }
    g_faults.disarm(); return o;
}
// lost allocations: what the code under test keeps once or replaces (a registry, a cache) is not lost, what adds up at every failure is
template<class F> static bool lost(const Outcome& first, int src, long at, F&& f) {
    long prev = first.live; if (prev <= 0) return false;
    for (int i = 0; i < 4; ++i) { Outcome o = attempt(src, at, f, true); if (o.live <= prev) return false; prev = o.live; }
    return true;
}
// which point fails: every one of `points`, the last choice meaning none
static long pickPoint(X& x, long points, long cap) {
    if (points <= cap) { long k = x.choose(int(points + 1)); return k == points ? -1 : k; }
    // more points than the bound: all of the first and last quarter of the bound, the rest evenly
    long k = x.choose(int(cap + 1)); if (k == cap) return -1; long q = cap / 4; if (k < q) return k; if (k >= cap - q) return points - (cap - k); return q + (k - q) * (points - 2 * q) / (cap - 2 * q);
}
static const char* srcName(int s) { return s == ALLOC ? "allocation" : "collaborator call"; }

// ---- market data ----
struct Obs : MarketDataObserver { long n = 0; std::function<void()> act; explicit Obs(const std::string& id) : MarketDataObserver(id) {} void update() override { ++n; if (act) act(); } };
struct Rec { bool on = false; double S = 0, sg = 0, c = -1; bool operator==(const Rec& o) const { return on == o.on && S == o.S && sg == o.sg && c == o.c; } };
static Rec look(const std::string& t) { Rec r; try { auto d = MarketData::getInstance()->getStockData(t); if (!d) { r.S = NAN; return r; } r = {true, d->getPrice(), d->getSigma(), d->getCoupon().value_or(-1)}; } catch (const std::invalid_argument&) {} return r; }
static std::string show(const Rec& r) { char b[120]; std::snprintf(b, 120, "%s(%g, %g, %g)", r.on ? "" : "unlisted", r.S, r.sg, r.c); return b; }
enum { ADD_NEW, ADD_AGAIN, PRICE, SIGMA, COUPON, NOCOUPON, RATE, REGISTER, CLEAN, NOPS };
static const char* OPN[] = {"addStock (new)", "addStock (listed)", "updateStockPrice", "updateStockSigma", "updateStockCoupon", "updateStockCoupon (none)", "setR", "addObserver", "removeObserver"};
static void marketFaults(X& x) {
    warm(); static uint64_t serial = 0; auto md = MarketData::getInstance(); ++serial; std::string A = "A" + std::to_string(serial), B = "a_ticker_longer_than_the_small_string_buffer_" + std::to_string(serial), N = (x.flip() ? "a_new_ticker_longer_than_the_small_string_buffer_" : "N") + std::to_string(serial);
    md->removeObserver(); md->addStock(A, 100, 0.2, 0.03); md->addStock(B, 50, 0.3); std::vector<std::shared_ptr<Obs>> obs; int nObs = x.choose(3); for (int i = 0; i < nObs; ++i) { obs.push_back(std::make_shared<Obs>(i % 2 ? B : A)); md->addObserver(obs.back()); }
    auto late = std::make_shared<Obs>(A); int opn = x.choose(NOPS); std::string T = opn == ADD_NEW ? N : x.flip() ? B : A; Rec old = look(T), want = old; double r0 = md->getR(), r1 = r0; std::weak_ptr<Obs> dead; if (opn == CLEAN) { auto d = std::make_shared<Obs>(A); md->addObserver(d); dead = d; }
    auto run = [&] { switch (opn) { case ADD_NEW: md->addStock(T, 70.0, 0.4, 0.1); break; case ADD_AGAIN: md->addStock(T, 70.0, 0.4, 0.1); break; case PRICE: md->updateStockPrice(T, 71.0); break; case SIGMA: md->updateStockSigma(T, 0.7); break; case COUPON: md->updateStockCoupon(T, 0.6); break; case NOCOUPON: md->updateStockCoupon(T, std::nullopt); break; case RATE: md->setR(0.11); break; case REGISTER: md->addObserver(late); break; default: md->removeObserver(); } };
    switch (opn) { case ADD_NEW: case ADD_AGAIN: want = {true, 70, 0.4, 0.1}; break; case PRICE: want.S = 71; break; case SIGMA: want.sg = 0.7; break; case COUPON: want.c = 0.6; break; case NOCOUPON: want.c = -1; break; case RATE: r1 = 0.11; }
    auto others = [&](const char* when) {
        for (auto& t : {A, B}) if (t != T) { Rec r = look(t), w = t == A ? Rec{true, 100, 0.2, 0.03} : Rec{true, 50, 0.3, -1}; CHECK(x, r == w, "%s: the other stock is %s, was %s", when, show(r).c_str(), show(w).c_str()); }
        if (T != N) CHECK(x, !look(N).on && look(N).S == 0, "%s: an unlisted ticker answers", when);
    };
    bool failed = false; int faults = mc::thorough ? 3 : 2;
    for (int f = 0;; ++f) {
        long at = f < faults ? x.choose(17) - 1 : -1; for (auto& o : obs) o->n = 0; late->n = 0; x.note("%s, allocation %ld fails", OPN[opn], at); x.step(); Outcome o = attempt(ALLOC, at, run); Rec now = look(T); double r = md->getR();
        if (at >= 0 && !o.fired) return;      // no such allocation: same as no fault
        if (o.threw) {
            CHECK(x, o.fired, "%s failed although nothing made it fail", OPN[opn]); failed = true; CHECK(x, (now == old || now == want) && (r == r0 || r == r1), "a failed %s leaves %s and rate %g, it was %s and should become %s", OPN[opn], show(now).c_str(), r, show(old).c_str(), show(want).c_str()); others("after a failure");
            CHECK(x, opn != ADD_NEW || !now.on || now == want, "a failed listing left a half-made stock");
            if (opn == REGISTER) { md->notifyObservers(); CHECK(x, late->n == 0, "a failed registration is notified"); }
            continue;
        }
        CHECK(x, now == want && r == r1, "%s%s: the stock is %s and the rate %g, expected %s and %g", failed ? "repeated " : "", OPN[opn], show(now).c_str(), r, show(want).c_str(), r1); others("after success"); break;
    }
    // every registration that is alive is served once by the next changes
    for (auto& o : obs) o->n = 0; late->n = 0; bool lateOn = opn == REGISTER; md->updateStockPrice(A, 101); for (auto& o : obs) CHECK(x, o->n == (o->getID() == A), "%ld notifications of the next change instead of %d", o->n, o->getID() == A); CHECK(x, late->n == (lateOn ? 1 : 0), "the observer registered %s is notified %ld times", lateOn ? "on the second attempt" : "never", late->n);
    md->setR(0.02); for (auto& o : obs) CHECK(x, o->n == 1 + (o->getID() == A), "%ld notifications after the next two changes", o->n); md->setR(0.05); mc::Hash h; h(opn)(nObs)(failed)(T == A); x.state(h.h);
}
// an observer that throws: values are old or new, the next round is complete
static void observerThrows(X& x) {
    warm(); static uint64_t serial = 0; auto md = MarketData::getInstance(); std::string A = "X" + std::to_string(++serial); md->removeObserver(); md->addStock(A, 100, 0.2, 0.03); int n = 1 + x.choose(3), opn = PRICE + x.choose(5), rounds = mc::thorough ? 3 : 2; std::vector<std::shared_ptr<Obs>> obs; for (int i = 0; i < n; ++i) { obs.push_back(std::make_shared<Obs>(A)); md->addObserver(obs.back()); }
    Rec cur{true, 100, 0.2, 0.03}; double rate = 0.05; int k = 0;
    for (int q = 0; q <= rounds; ++q) {
        for (auto& o : obs) { o->n = 0; o->act = nullptr; } int who = q == rounds ? n : x.choose(n + 1), leaves = who < n && n > 1 ? x.choose(2) : 0; if (who < n) obs[who]->act = [&, who, leaves] { if (leaves) { obs[(who + 1) % n]->act = nullptr; md->removeObserver(); } throw std::runtime_error("observer"); };
        Rec want = cur; double r1 = rate; ++k; bool threw = false; x.step(); x.note("%s, observer %d of %d throws", OPN[opn], who, n);
        try { switch (opn) { case PRICE: want.S = 100 + k; md->updateStockPrice(A, want.S); break; case SIGMA: want.sg = 0.2 + 0.1 * k; md->updateStockSigma(A, want.sg); break; case COUPON: want.c = 0.1 * k; md->updateStockCoupon(A, want.c); break; case NOCOUPON: want.c = -1; md->updateStockCoupon(A, std::nullopt); break; default: r1 = 0.05 + 0.01 * k; md->setR(r1); } } catch (const std::runtime_error&) { threw = true; }
        Rec now = look(A); double r = md->getR(); CHECK(x, threw || (now == want && r == r1), "%s returned but the stock is %s and the rate %g", OPN[opn], show(now).c_str(), r); CHECK(x, (now == cur || now == want) && (r == rate || r == r1), "%s interrupted by an observer leaves %s and rate %g", OPN[opn], show(now).c_str(), r);
        for (auto& o : obs) CHECK(x, o->n <= 1, "an observer is notified %ld times", o->n); if (who == n) { CHECK(x, !threw, "%s failed although no observer threw", OPN[opn]); for (auto& o : obs) CHECK(x, o->n == 1, "after an interrupted round the next change notifies an observer %ld times", o->n); } cur = now; rate = r; mc::Hash h; h(opn)(who)(n)(q); x.state(h.h);
    }
    md->setR(0.05);
}
// ---- creating options ----
static Contract contractOf(int kind, bool call) { Contract c; c.kind = kind; c.call = call; c.K = call ? 95 : 130; c.K2 = 140; c.B = kind == KNOCK_IN ? 101 : 1000; return c; }
static ParameterObject params(const Contract& c) {
    ParameterObject p; p.setParameter("ticker", c.ticker); p.setParameter("T", c.T); if (c.kind == DOUBLE_DIGITAL) { p.setParameter("K1", c.K); p.setParameter("K2", c.K2); } else p.setParameter("K", c.K);
    p.setParameter("B", c.B); p.setParameter("direction", BarrierDirection::Up); return p;
}
static V valueOf(const Option& o) { V v = {o.getT()}; for (double s : {80., 94., 96., 120., 139., 141.}) { try { v.push_back(o.payoff(s)); } catch (const std::exception&) { v.push_back(-1); } try { v.push_back(o.payoff(s, 100.)); } catch (const std::exception&) { v.push_back(-1); } } return v; }
static void optionFaults(X& x) {
    warm(); auto md = MarketData::getInstance(); int kind = x.choose(NKINDS); bool call = !x.flip(); Contract c = contractOf(kind, call); c.ticker = x.flip() ? "TK" : "a_ticker_longer_than_the_small_string_buffer"; md->addStock(c.ticker, 42.0, 0.9, 0.5); ParameterObject p = params(c); bool wrong = x.flip(); if (wrong) p.setParameter("T", std::string("one"));     // a rejected description
    std::shared_ptr<Option> o; V ref; if (!wrong) ref = valueOf(*createOption(kind, call, p)); auto run = [&] { o = createOption(kind, call, p); if (!o) throw std::logic_error("no option"); };
    long points = 0; for (int i = 0; i < 2; ++i) { points = attempt(ALLOC, -1, run).points; o.reset(); md->removeObserver(); }
    auto witness = std::make_shared<Obs>(c.ticker); md->addObserver(witness); int faults = mc::thorough ? 2 : 1; bool failed = false;
    for (int f = 0;; ++f) {
        long at = f < faults ? pickPoint(x, points, 400) : -1; x.step(); x.note("%s, allocation %ld of %ld fails", optName(kind), at, points); Outcome q = attempt(ALLOC, at, run);
        if (wrong) { CHECK(x, q.threw && !o, "an invalid description is accepted when an allocation fails"); CHECK(x, !lost(q, ALLOC, at, run), "%s: %ld allocations are lost when the description is rejected (allocation %ld failed)", optName(kind), q.live, at); if (at < 0) break; continue; }
        if (q.threw) { failed = true; CHECK(x, q.fired, "%s: creation failed although nothing made it fail", optName(kind)); CHECK(x, !o, "an option in spite of an exception"); CHECK(x, !lost(q, ALLOC, at, run), "%s: %ld allocations are lost when creation fails at allocation %ld", optName(kind), q.live, at); continue; }
        CHECK(x, o && same(valueOf(*o), ref) && o->getID() == c.ticker, "%s: the option created %s is another one", optName(kind), failed ? "on the second attempt" : "(with an allocation that failed)"); break;
    }
    long n0 = witness->n; md->updateStockPrice(c.ticker, 43.0); CHECK(x, witness->n == n0 + 1, "an observer registered before is notified %ld times", witness->n - n0); mc::Hash h; h(kind)(call)(failed)(wrong); x.state(h.h); o.reset();
}
// ---- Monte Carlo ----
static Spec specOf(int k, unsigned steps) { Spec s; s.kind = k; s.steps = steps; if (k == HESTON || k == BATES) s.rho = 0.3; return s; }
static std::unique_ptr<MCSolver> mcOf(const Contract& c, int model, unsigned long N, bool bridge) {
    auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = make(c); std::shared_ptr<NumberGenerator> g; if (bridge) g = std::make_shared<PseudoRandomNumberGenerator>(3, 5); else g = std::make_shared<AnsGen>(3); std::shared_ptr<CIRDiscretization> cir; if (hasVar(model)) cir = std::make_shared<LiveCIR>();
    auto m = makeModel(specOf(model, 3), md, g, cir); auto b = builderFor(c.kind); b->setOption(o); b->setMarketData(md); b->setStockPriceModel(m); if (c.kind == AMERICAN) { auto& ab = static_cast<AmericanMCBuilder&>(*b); ab.setRegressionStrategy(std::make_shared<LiveRegression>()); ab.setBasisFunctionStrategy(std::make_shared<LiveBasis>()); }
    auto s = std::make_unique<MCSolver>(N); s->setPricer(b->build()); return s;
}
static void priceFaults(X& x) {
    warm(); int kind = x.choose(NKINDS), model = x.choose(NMODELS), src = x.choose(2); unsigned long N = kind == AMERICAN ? 5 : 3; Contract c = contractOf(kind, kind != AMERICAN); auto s = mcOf(c, model, N, false); double ref = s->solve(), got = 0; auto run = [&] { got = s->solve(); };
    (void)attempt(src, -1, run); long points = attempt(src, -1, run).points; int faults = mc::thorough ? 2 : 1; bool failed = false; std::string what = std::string(optName(kind)) + " under " + modelName(model);
    for (int f = 0;; ++f) {
        long at = f < faults ? pickPoint(x, points, f ? 24 : 600) : -1; x.step(); x.note("%s, %s %ld of %ld fails", what.c_str(), srcName(src), at, points); Outcome q = attempt(src, at, run); CHECK(x, !q.threw || src == CALL || !lost(q, src, at, run), "%s: %ld allocations are lost (%s %ld failed)", what.c_str(), q.live, srcName(src), at);
        if (q.threw) { failed = true; CHECK(x, q.fired, "%s: pricing failed although nothing made it fail", what.c_str()); continue; }
        CHECK(x, !(q.fired && src == CALL) || eq(got, ref), "%s: the failure of a collaborator (call %ld) is swallowed and the price is %.17g instead of %.17g", what.c_str(), at, got, ref); CHECK(x, eq(got, ref), "%s: %s the price is %.17g, expected %.17g", what.c_str(), failed ? "after a failed attempt" : "(an allocation failed unnoticed)", got, ref); break;
    }
    mc::Hash h; h(kind)(model)(src)(failed); x.state(h.h);
}
// building pricers: a failed build or replacement leaves the solver as it was
static void buildFaults(X& x) {
    warm(); int kind = x.choose(NKINDS); bool own = x.flip(); Contract c = contractOf(kind, kind != AMERICAN), c2 = contractOf(EUROPEAN, true); auto md = liveMD(100, 0.3, 0.02, 0.05); auto g = std::make_shared<AnsGen>(3); auto o = make(c); auto m = makeModel(specOf(GBM, 3), md, g); long lives0 = 0; { auto s = mcOf(c2, GBM, 2, false); lives0 = Lives::n; }
    auto s = std::make_unique<MCSolver>(3); auto b = builderFor(kind); b->setOption(o); b->setMarketData(md); if (own) b->setStockPriceModel(m);       // otherwise the builder makes its own model
    double ref; { auto b2 = builderFor(kind); b2->setOption(o); b2->setMarketData(md); if (own) b2->setStockPriceModel(m); s->setPricer(b2->build()); ref = s->solve(); } (void)lives0;
    auto run = [&] { s->setPricer(b->build()); }; (void)attempt(ALLOC, -1, run); long points = attempt(ALLOC, -1, run).points; s->setPricer(b->build()); int faults = 2; bool failed = false;
    for (int f = 0;; ++f) {
        long at = f < faults ? pickPoint(x, points, 60) : -1; x.step(); x.note("%s builder, allocation %ld of %ld fails", optName(kind), at, points); Outcome q = attempt(ALLOC, at, run);
        if (q.threw) { failed = true; CHECK(x, q.fired, "building failed although nothing made it fail"); CHECK(x, !lost(q, ALLOC, at, run), "%ld allocations are lost when building fails", q.live); if (own) { double v = s->solve(); CHECK(x, eq(v, ref), "after a failed build the solver's previous pricer gives %.17g, expected %.17g", v, ref); } continue; }
        double v = s->solve(); CHECK(x, own ? eq(v, ref) : std::isfinite(v), "%s: the pricer built %s gives %.17g, expected %.17g", optName(kind), failed ? "on the second attempt" : "", v, ref); break;
    }
    // a wrong kind of option: refused, and the right one still works
    auto wrong = make(contractOf(kind == EUROPEAN ? ARITH_ASIAN : EUROPEAN, true)); bool threw = false; if (kind != DIGITAL && kind != DOUBLE_DIGITAL) { try { b->setOption(wrong); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw, "%s builder accepts another kind of option", optName(kind)); b->setOption(o); s->setPricer(b->build()); if (own) CHECK(x, eq(s->solve(), ref), "%s: another price after a refused option", optName(kind)); }
    mc::Hash h; h(kind)(own)(failed); x.state(h.h);
}
// ---- finite differences ----
static std::unique_ptr<Fdm> fdOf(int sc, int ms, int in, bool live, unsigned long J, unsigned long N) {
    auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = european(true, 95, 1); std::shared_ptr<MatrixSolver> m; std::shared_ptr<Interpolation> i; if (ms) m = std::make_shared<LiveMS>(ms); if (in) i = std::make_shared<LiveInterp>(in);
    std::unique_ptr<Pde> p; if (live) p = std::make_unique<LivePDE>(o, md); else p = std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, md); return fdm(sc, 200, J, 1.0, N, std::move(p), o, md, i, m);
}
static void fdFaults(X& x) {
    warm(); int sc = x.choose(NSCHEMES), ms = sc == EXPLICIT ? 0 : x.choose(4), in = x.choose(3), src = x.choose(2); bool live = src == CALL || mc::thorough ? x.flip() : false; unsigned long J = x.flip() ? 5 : 7, N = J == 5 ? 4 : 3; std::string what = std::string("finite differences, ") + schemeName(sc);
    double ref; V sol; { auto r = fdOf(sc, ms, in, live, J, N); sol = r->solve(); ref = r->calculatePrice(); } int useSolve = x.choose(2); auto s = fdOf(sc, ms, in, live, J, N); V got; double p = 0; auto run = [&] { if (useSolve) got = s->solve(); else p = s->calculatePrice(); };
    long points; { auto t = fdOf(sc, ms, in, live, J, N); auto r2 = [&] { if (useSolve) got = t->solve(); else p = t->calculatePrice(); }; points = attempt(src, -1, r2).points; } int faults = 2; bool failed = false;
    for (int f = 0;; ++f) {
        long at = f < faults ? pickPoint(x, points, f ? (mc::thorough ? 40 : 6) : 700) : -1; x.step(); x.note("%s, %s %ld of %ld fails", what.c_str(), srcName(src), at, points); Outcome q = attempt(src, at, run);
        if (q.threw) { failed = true; CHECK(x, q.fired, "%s: failed although nothing made it fail", what.c_str()); continue; }
        if (useSolve) CHECK(x, same(got, sol), "%s: %s the solution is another one", what.c_str(), failed ? "after a failed attempt" : "(a fault went unnoticed)"); else CHECK(x, eq(p, ref), "%s: %s the price is %.17g, expected %.17g", what.c_str(), failed ? "after a failed attempt" : "(a fault went unnoticed)", p, ref); break;
    }
    V a = s->solve(); double b = s->calculatePrice(); CHECK(x, same(a, sol) && eq(b, ref), "%s: later calls answer differently (%.17g, expected %.17g)", what.c_str(), b, ref); mc::Hash h; h(sc)(ms)(in)(src)(failed)(useSolve); x.state(h.h);
}
static void fdConstruct(X& x) {
    warm(); int sc = x.choose(NSCHEMES), ms = sc == EXPLICIT ? 0 : x.choose(2), in = x.choose(2), src = x.choose(2); auto md = liveMD(100, 0.3, 0.02, 0.05); auto o = european(true, 95, 1); double ref; { auto r = fdOf(sc, ms ? 1 : 0, in, true, 6, 5); ref = r->calculatePrice(); } long lives0 = Lives::n; std::unique_ptr<Fdm> s;
    auto run = [&] { std::shared_ptr<MatrixSolver> m; std::shared_ptr<Interpolation> i; if (ms) m = std::make_shared<LiveMS>(1); if (in) i = std::make_shared<LiveInterp>(1); s = fdm(sc, 200, 6, 1.0, 5, std::make_unique<LivePDE>(o, md), o, md, i, m); };
    (void)attempt(src, -1, run); s.reset(); long points = attempt(src, -1, run).points; s.reset(); bool failed = false;
    for (int f = 0;; ++f) { long at = f < 2 ? pickPoint(x, points, 100) : -1; x.step(); Outcome q = attempt(src, at, run); if (q.threw) { failed = true; CHECK(x, q.fired, "construction failed although nothing made it fail"); CHECK(x, !lost(q, src, at, run), "%ld allocations are lost when construction fails", q.live); CHECK(x, Lives::n == lives0, "%ld collaborators are lost when construction fails", Lives::n - lives0); continue; } double p = s->calculatePrice(); CHECK(x, eq(p, ref), "%s: the solver constructed %s gives %.17g, expected %.17g", schemeName(sc), failed ? "on the second attempt" : "", p, ref); break; }
    mc::Hash h; h(sc)(ms)(in)(src)(failed); x.state(h.h);
}
// ---- numerical components and samplers: objects that failed once answer as before ----
struct Item { const char* name; std::function<std::function<V()>()> make; };
static V flat(const Eigen::MatrixXd& m) { return V(m.data(), m.data() + m.size()); }
static const std::vector<Item>& items() {
    static const std::vector<Item> L = [] {
        std::vector<Item> l; static const char* mn[] = {"sparse LU", "partial pivoting LU", "tridiagonal solver"};
        for (int i = 0; i < 3; ++i) l.push_back({mn[i], [i] { std::shared_ptr<MatrixSolver> s = matrixSolver(i + 1); Eigen::SparseMatrix<double> A(4, 4); for (int k = 0; k < 4; ++k) { A.insert(k, k) = 4 + k; if (k) A.insert(k, k - 1) = -1; if (k < 3) A.insert(k, k + 1) = 1.5; } A.makeCompressed(); Eigen::VectorXd b(4); b << 1, -2, 3, 0.5; return std::function<V()>([s, A, b] { return flat(s->solve(A, b)); }); }});
        for (int i = 1; i < 3; ++i) l.push_back({i == 1 ? "linear interpolation" : "quadratic interpolation", [i] { auto s = interpolator(i); V xs = {0, 1, 3, 4}, ys = {1, 5, 2, 2}; return std::function<V()>([s, xs, ys] { V v; for (double q : {-1., 0., 0.5, 2., 3.9, 7.}) v.push_back(s->interpolate(xs, ys, q)); return v; }); }});
        static const char* rn[] = {"least squares", "ridge", "lasso"};
        for (int i = 0; i < 3; ++i) l.push_back({rn[i], [i] { std::shared_ptr<Regression> s; if (i == 0) s = std::make_shared<LeastSquaresRegression>(); if (i == 1) s = std::make_shared<RidgeRegression>(0.2); if (i == 2) s = std::make_shared<LassoRegression>(0.2); Eigen::MatrixXd A(5, 2); A << 1, 2, 1, 3, 1, 5, 1, 8, 1, 9; Eigen::VectorXd y(5); y << 1, 2, 2, 5, 4; return std::function<V()>([s, A, y] { return flat(s->solve(A, y)); }); }});
        l.push_back({"monomials", [] { auto s = std::make_shared<MonomialBasisFunction>(3); return std::function<V()>([s] { Eigen::VectorXd y(3); y << 1, 2, 5; return flat(s->generate(y)); }); }});
        l.push_back({"Laguerre polynomials", [] { auto s = std::make_shared<LaguerreBasisFunction>(4); return std::function<V()>([s] { Eigen::VectorXd y(3); y << 1, 2, 5; return flat(s->generate(y)); }); }});
        for (int k = 0; k < NMODELS; ++k) for (int c = 0; c < (hasVar(k) ? 2 : 1); ++c) l.push_back({modelName(k), [k, c] { auto md = liveMD(100, 0.3, 0.02, 0.05); auto m = makeModel(specOf(k, 3), md, std::make_shared<AnsGen>(3), c ? std::make_shared<LiveCIR>() : nullptr); return std::function<V()>([m] { V v = m->simulatePrices(1.0); v.push_back(m->simulatePriceAtMaturity(0.5)); return v; }); }});
        for (int k = 0; k < 4; ++k) l.push_back({"payoff clone", [k] { std::shared_ptr<Payoff> p; if (k == 0) p = std::make_shared<PayoffVanilla>(PayoffType::Call, 100); if (k == 1) p = std::make_shared<PayoffDigital>(PayoffType::Put, 100); if (k == 2) p = std::make_shared<PayoffDoubleDigital>(90, 110); if (k == 3) p = std::make_shared<PayoffLookbackFloatingStrike>(PayoffType::Call); return std::function<V()>([p] { auto c = p->clone(); V v = {double(*c == *p)}; for (double s : {80., 95., 105., 120.}) { try { v.push_back((*c)(s)); } catch (const std::logic_error&) { v.push_back(-1); } try { v.push_back((*c)(s, 90.)); } catch (const std::logic_error&) { v.push_back(-1); } } return v; }); }});
        l.push_back({"parameter reads", [] { auto p = std::make_shared<ParameterObject>(params(contractOf(KNOCK_IN, true))); return std::function<V()>([p] { return V{p->getParameter<double>("T"), p->getParameter<double>("K"), double(p->getParameter<std::string>("ticker").size()), double(p->hasParameter("nothing"))}; }); }});
        return l;
    }();
    return L;
}
static void itemFaults(X& x) {
    warm(); auto& L = items(); auto& it = L[x.choose(int(L.size()))]; int src = x.choose(2); auto use = it.make(); V ref = use(), got; auto run = [&] { V v = use(); got.swap(v); alloc::Pause p; V().swap(v); }; (void)attempt(src, -1, run); long points = attempt(src, -1, run).points; int faults = mc::thorough ? 3 : 2; bool failed = false;
    for (int f = 0;; ++f) { V().swap(got); long at = f < faults ? pickPoint(x, points, 60) : -1; x.step(); x.note("%s, %s %ld of %ld fails", it.name, srcName(src), at, points); Outcome q = attempt(src, at, run); if (q.threw) { failed = true; CHECK(x, q.fired, "%s failed although nothing made it fail", it.name); CHECK(x, src == CALL || !lost(q, src, at, run), "%s: %ld allocations are lost when it fails", it.name, q.live); continue; } CHECK(x, same(got, ref), "%s: other results %s", it.name, failed ? "after a failed attempt" : "(a fault went unnoticed)"); break; }
    mc::Hash h; h(std::string(it.name))(src)(failed); x.state(h.h);
}
// sequences of draws: a draw that is refused is refused every time and the generator keeps working
static void refusedDraws(X& x) {
    warm(); int g = x.choose(2), dim = 1 + x.choose(3); std::unique_ptr<NumberGenerator> a, b; if (g) { a = std::make_unique<SobolGenerator>(dim, 3); b = std::make_unique<SobolGenerator>(dim, 3); } else { a = std::make_unique<FaureGenerator>(dim, 3); b = std::make_unique<FaureGenerator>(dim, 3); } StandardNormalDistribution n; int refused = 0;
    // a refused draw may use up a coordinate or not, but always the same way: compare against both readings
    V got; std::vector<bool> was; for (int i = 0; i < (mc::thorough ? 10 : 8); ++i) { int w = x.choose(3); x.step(); was.push_back(w != 0); if (w) { GammaDistribution q(2, 1); PoissonDistribution p(1); bool threw = false; try { (void)(*a)(w == 1 ? static_cast<Distribution&>(p) : q); } catch (const std::exception&) { threw = true; } if (!threw) return; ++refused; } else got.push_back((*a)(n)); }
    V used, kept; for (bool r : was) { double v = (*b)(n); if (!r) used.push_back(v); } { std::unique_ptr<NumberGenerator> c; if (g) c = std::make_unique<SobolGenerator>(dim, 3); else c = std::make_unique<FaureGenerator>(dim, 3); for (bool r : was) if (!r) kept.push_back((*c)(n)); }
    auto nearAll = [](const V& p, const V& q) { for (size_t i = 0; i < p.size(); ++i) if (!mc::near(p[i], q[i], 1e-12, 1e-12)) return false; return true; };
    CHECK(x, nearAll(got, used) || nearAll(got, kept), "%s, dimension %d: after %d refused draws the numbers are not those of the sequence", g ? "Sobol" : "Faure", dim, refused); mc::Hash h; h(g)(dim)(got); x.state(h.h);
}
// ---- parameter sets: a failed change leaves the old value or the new one ----
static void paramFaults(X& x) {
    warm(); auto p = std::make_unique<ParameterObject>(); static const std::string SHORT(9, 'v'), LONGN(60, 'n');      // a string value allocates nothing: libstdc++'s variant is undefined after a failed copy of one
     int had = x.choose(4); const std::string name = x.flip() ? LONGN : "K"; for (int i = 0; i < 14; ++i) p->setParameter("filler" + std::to_string(i), double(i)); int fill = x.choose(4); for (int i = 0; i < fill; ++i) p->setParameter("more" + std::to_string(i), i);
    using P = ParameterObject::Parameter; std::vector<P> vals = {P(1), P(2.5), P(SHORT), P(BarrierDirection::Down)}; if (had) p->setParameter(name, vals[had - 1]); int w = x.choose(4); auto read = [&](const std::string& n) -> V { V v = {double(p->hasParameter(n))}; try { v.push_back(p->getParameter<int>(n)); } catch (const std::invalid_argument&) { v.push_back(-1); } try { v.push_back(p->getParameter<double>(n)); } catch (const std::invalid_argument&) { v.push_back(-1); } try { v.push_back(double(p->getParameter<std::string>(n).size())); } catch (const std::invalid_argument&) { v.push_back(-1); } try { v.push_back(p->getParameter<BarrierDirection>(n) == BarrierDirection::Down); } catch (const std::invalid_argument&) { v.push_back(-1); } return v; };
    V old = read(name), want = {1, w == 0 ? 1. : -1, w == 1 ? 2.5 : -1, w == 2 ? 9. : -1, w == 3 ? 1. : -1}; auto run = [&] { p->setParameter(name, vals[w]); }; bool failed = false;
    for (int f = 0;; ++f) { long at = f < 2 ? x.choose(13) - 1 : -1; x.step(); x.note("set, allocation %ld fails", at); Outcome q = attempt(ALLOC, at, run); if (at >= 0 && !q.fired) return; V now = read(name); for (int i = 0; i < 14; ++i) CHECK(x, p->getParameter<double>("filler" + std::to_string(i)) == i, "another parameter changed"); if (q.threw) { failed = true; CHECK(x, same(now, old) || same(now, want), "a failed change leaves neither the old nor the new value"); continue; } CHECK(x, same(now, want), "the value set %s is not the one read", failed ? "on the second attempt" : ""); break; }
    mc::Hash h; h(had)(w)(fill)(failed); x.state(h.h);
}
// printing: to a stream that refuses the k-th character (with or without exceptions), or with a failing allocation
struct Narrow : std::streambuf {
    long left; bool throws; std::string got; Narrow(long n, bool t) : left(n), throws(t) {}
    int_type overflow(int_type c) override { if (left == 0) { if (throws) throw std::runtime_error("device"); return traits_type::eof(); } --left; got.push_back(char(c)); return c; }
    std::streamsize xsputn(const char* p, std::streamsize n) override { std::streamsize i = 0; for (; i < n; ++i) if (overflow(int_type((unsigned char)p[i])) == traits_type::eof()) break; return i; }
};
static void printing(X& x) {
    warm(); auto md = MarketData::getInstance(); int kind = x.choose(NKINDS), what = x.choose(3); bool call = !x.flip(); Contract c = contractOf(kind, call); c.ticker = x.flip() ? "TK" : "a_ticker_longer_than_the_small_string_buffer"; md->addStock(c.ticker, 42.0, 0.9, 0.5); auto o = make(c); auto sd = md->getStockData(c.ticker);
    auto put = [&](std::ostream& os) { if (what == 0) os << *o; else if (what == 1) os << o->getPayoff(); else os << *sd; }; std::string ref; { std::ostringstream s; s.precision(9); put(s); ref = s.str(); } V val = valueOf(*o); Rec rec = look(c.ticker);
    int mode = x.choose(3); bool mask = x.flip(); std::string name = what == 0 ? optName(kind) : what == 1 ? "payoff" : "stock data";
    if (mode < 2) {                                   // the device refuses a character
        long n = long(ref.size()); long k = n <= 40 || mc::thorough ? x.choose(int(n + 1)) : x.choose(41) * n / 40; Narrow b(k, mode == 1); std::ostream os(&b); os.precision(9); os.setf(std::ios::showpoint | std::ios::showpos); const auto fl = os.flags(); std::string want; { std::ostringstream s; s.precision(9); s.setf(std::ios::showpoint | std::ios::showpos); put(s); want = s.str(); } if (mask) os.exceptions(std::ios::badbit); bool threw = false;
        x.note("%s to a device that takes %ld of %zu characters", name.c_str(), k, want.size()); x.step(); try { put(os); } catch (const std::exception&) { threw = true; }
        bool full = size_t(k) >= want.size(); CHECK(x, full || threw || os.bad() || os.fail(), "%s: the failure of the stream is hidden", name.c_str()); CHECK(x, full || !mask || threw, "%s: the stream's exception does not reach the caller", name.c_str()); CHECK(x, !full || (!threw && os.good()), "%s: a stream that takes everything fails", name.c_str());
        CHECK(x, os.flags() == fl && os.precision() == 9 && os.width() == 0, "%s: an interrupted description changes the stream's format", name.c_str()); CHECK(x, b.got == want.substr(0, b.got.size()), "%s: an interrupted description writes something else", name.c_str());
        if (!full) { os.exceptions(std::ios::goodbit); os.clear(); b.left = 100000; b.got.clear(); put(os); CHECK(x, os.good() && b.got == want, "%s: printed again, the description differs: %s", name.c_str(), b.got.c_str()); }
    } else {                                          // memory runs out
        alloc::g_countMalloc = true; std::string got; struct Sink : std::streambuf { char b[4096]; Sink() { setp(b, b + sizeof b); } std::string str() const { return std::string(pbase(), pptr()); } void rewind() { setp(b, b + sizeof b); } } sink; std::ostream os(&sink); os.precision(9); if (mask) os.exceptions(std::ios::badbit);
        auto run = [&] { sink.rewind(); put(os); }; (void)attempt(ALLOC, -1, run); long points = attempt(ALLOC, -1, run).points; bool failed = false;
        for (int f = 0;; ++f) { long at = f < 2 ? pickPoint(x, points, 30) : -1; x.step(); x.note("%s, allocation %ld of %ld fails", name.c_str(), at, points); os.clear(); Outcome q = attempt(ALLOC, at, run); if (q.threw || !os.good()) { failed = true; CHECK(x, q.fired, "%s: printing failed although nothing made it fail", name.c_str()); CHECK(x, !lost(q, ALLOC, at, run), "%s: %ld allocations are lost when printing fails", name.c_str(), q.live); continue; } CHECK(x, sink.str() == ref, "%s: the description %s is\n%s", name.c_str(), failed ? "printed on the second attempt" : "", sink.str().c_str()); break; }
        alloc::g_countMalloc = false;
    }
    CHECK(x, same(valueOf(*o), val) && look(c.ticker) == rec, "%s: a failed description changes what is described", name.c_str()); mc::Hash h; h(kind)(what)(mode)(mask); x.state(h.h);
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"market data, failing allocations", marketFaults, -1, 3});
    u.push_back({"market data, throwing observers", observerThrows, -1, 2});
    u.push_back({"creating options", optionFaults, -1, 3});
    u.push_back({"building pricers", buildFaults, -1, 2});
    u.push_back({"pricing", priceFaults, -1, 3});
    u.push_back({"constructing finite-difference solvers", fdConstruct, -1, 3});
    u.push_back({"solving finite differences", fdFaults, -1, 5});
    u.push_back({"components", itemFaults, -1, 2});
    u.push_back({"refused draws", refusedDraws, -1, 3});
    u.push_back({"printing", printing, -1, 3});
    u.push_back({"parameter sets", paramFaults, -1, 3});
    return u;
})
