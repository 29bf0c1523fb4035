// C06: option factories build exactly the described option or reject.
#include "op.hpp"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace op; using mc::X;
using P = ParameterObject::Parameter;

// every notification an option receives is counted at the vtable slot of Option::update
static std::map<const void*, int> g_calls;
extern "C" void __real__ZN12OptionPricer6Option6updateEv(void*) __attribute__((weak));
extern "C" void __wrap__ZN12OptionPricer6Option6updateEv(void* self) { g_calls[self]++; if (__real__ZN12OptionPricer6Option6updateEv) __real__ZN12OptionPricer6Option6updateEv(self); }

static std::optional<bool> countable(const std::shared_ptr<Option>& o) {       // does a direct call reach the counter?
    g_calls.clear(); o->update(); bool c = !g_calls.empty(); g_calls.clear(); return c;
}
static const double DEN = std::numeric_limits<double>::denorm_min();
struct Cand { std::string label; std::optional<P> v; bool ok; };
static std::vector<Cand> cands(const std::string& p) {
    std::vector<Cand> v;
    if (p == "ticker") v = {{"TK", P(std::string("TK")), true}, {"TK2", P(std::string("TK2")), true}, {"T", P(std::string("T")), true}, {"tk", P(std::string("tk")), false}, {"TK ", P(std::string("TK ")), false}, {"empty", P(std::string()), false}, {"absent", {}, false}, {"int", P(1), false}, {"double", P(1.0), false}, {"direction", P(BarrierDirection::Up), false}};
    else if (p == "direction") v = {{"Up", P(BarrierDirection::Up), true}, {"Down", P(BarrierDirection::Down), true}, {"absent", {}, false}, {"int", P(0), false}, {"double", P(0.0), false}, {"string", P(std::string("Up")), false}};
    else {
        double base = p == "T" ? 1.0 : p == "B" ? 120.0 : p == "K2" ? 110.0 : 100.0;
        v = {{"base", P(base), true}, {"small", P(base / 8), true}, {"zero", P(0.0), true}, {"large", P(base * 1000), true}, {"other", P(base * 0.77), true}, {"absent", {}, false}, {"int", P(int(base)), false}, {"string", P(std::string("100")), false}, {"direction", P(BarrierDirection::Down), false}};
        if (p != "B") for (double n : {-1.0, -1e-9, -DEN, -1e9}) v.push_back({"negative", P(n), false});
    }
    return v;
}
static std::vector<std::string> required(int kind) {
    std::vector<std::string> r = {"ticker", "T"};
    if (kind == DOUBLE_DIGITAL) { r.push_back("K1"); r.push_back("K2"); } else if (kind != FLOAT_LOOKBACK) r.push_back("K");
    if (kind == KNOCK_IN || kind == KNOCK_OUT) { r.push_back("B"); r.push_back("direction"); }
    return r;
}
static const std::type_info& typeOf(int kind) {
    switch (kind) {
        case EUROPEAN: return typeid(EuropeanOption); case DIGITAL: return typeid(DigitalOption); case DOUBLE_DIGITAL: return typeid(DoubleDigitalOption);
        case AMERICAN: return typeid(AmericanOption); case ARITH_ASIAN: return typeid(ArithmeticAsianOption); case GEOM_ASIAN: return typeid(GeometricAsianOption);
        case KNOCK_IN: return typeid(KnockInBarrierOption); case KNOCK_OUT: return typeid(KnockOutBarrierOption);
        case FLOAT_LOOKBACK: return typeid(FloatingStrikeLookbackOption); default: return typeid(FixedStrikeLookbackOption);
    }
}
static double upD(double v) { return std::nextafter(v, 1e308); }
static double dnD(double v) { return std::nextafter(v, -1e308); }
static void verify(X& x, const std::shared_ptr<Option>& o, const Contract& c) {
    CHECK(x, o != nullptr, "null option");
    CHECK(x, typeid(*o) == typeOf(c.kind), "%s: built an option of another kind", str(c).c_str());
    CHECK(x, o->getID() == c.ticker, "%s: ticker %s", str(c).c_str(), o->getID().c_str());
    CHECK(x, o->getT() == c.T, "%s: maturity %.17g", str(c).c_str(), o->getT());
    const Payoff& p = o->getPayoff();
    auto side = c.kind == DOUBLE_DIGITAL ? PayoffType::DoubleDigital : c.call ? PayoffType::Call : PayoffType::Put;
    CHECK(x, p.getPayoffType() == side, "%s: payoff side %d", str(c).c_str(), int(p.getPayoffType()));
    if (c.kind == DOUBLE_DIGITAL) { auto* q = dynamic_cast<const PayoffDoubleDigital*>(&p); CHECK(x, q && q->getKL() == c.K && q->getKU() == c.K2, "%s: strikes differ", str(c).c_str()); }
    else if (c.kind == FLOAT_LOOKBACK) CHECK(x, dynamic_cast<const PayoffLookbackFloatingStrike*>(&p), "%s: payoff kind", str(c).c_str());
    else if (c.kind == DIGITAL) { auto* q = dynamic_cast<const PayoffDigital*>(&p); CHECK(x, q && q->getK() == c.K, "%s: strike or payoff kind differs", str(c).c_str()); }
    else { auto* q = dynamic_cast<const PayoffVanilla*>(&p); CHECK(x, q && q->getK() == c.K, "%s: strike or payoff kind differs", str(c).c_str()); }
    for (double S : {1e-9, 1.0, 50.0, 99.0, c.K, upD(c.K), dnD(c.K), c.K2, upD(c.K2), 150.0, 1e6}) {
        if (S < 0) continue; x.step();
        if (c.kind == FLOAT_LOOKBACK) { for (double e : {50.0, 100.0, 150.0}) { double w = std::max(c.call ? S - e : e - S, 0.0); CHECK(x, mc::near(o->payoff(S, e), w, 1e-12), "%s: payoff(%g,%g)=%g", str(c).c_str(), S, e, o->payoff(S, e)); } continue; }
        Contract v = c; if (c.kind != DIGITAL && c.kind != DOUBLE_DIGITAL) v.kind = EUROPEAN;
        double w = refPayoff(v, {S});
        CHECK(x, mc::near(o->payoff(S), w, 1e-12), "%s: payoff(%.17g)=%.17g, expected %.17g", str(c).c_str(), S, o->payoff(S), w);
    }
    if (c.kind == KNOCK_IN || c.kind == KNOCK_OUT) {
        auto b = std::dynamic_pointer_cast<BarrierOption>(o);
        for (double S : {c.B, upD(c.B), dnD(c.B), c.B + 1, c.B - 1, 0.0, c.B * 2, c.B / 2, 1e9}) {
            bool reached = c.up ? S >= c.B : S <= c.B, want = c.kind == KNOCK_IN ? reached : !reached;
            CHECK(x, b->isActive(S) == want, "%s: active(%.17g)=%d", str(c).c_str(), S, b->isActive(S));
        }
    }
}
struct Market {
    std::shared_ptr<MarketData> md = MarketData::getInstance();
    Market() { md->addStock("TK", 100.0, 0.2); md->addStock("TK2", 50.0, 0.3, 0.02); md->addStock("T", 10.0, 0.1); md->setR(0.05); }
    ~Market() { md->removeObserver(); }
};
static void registeredOnce(X& x, Market& m, const std::shared_ptr<Option>& o, const Contract& c) {
    if (!*countable(o)) return;
    g_calls.clear(); m.md->updateStockPrice(c.ticker, m.md->getStockData(c.ticker)->getPrice());
    int n = 0; for (auto& [k, v] : g_calls) n += v;
    CHECK(x, n == 1, "%s: one update of its ticker reaches the option %d time(s)", str(c).c_str(), n);
    g_calls.clear(); m.md->updateStockPrice(c.ticker == "TK" ? "TK2" : "TK", c.ticker == "TK" ? 50.0 : 100.0);
    CHECK(x, g_calls.empty(), "%s: notified for another ticker", str(c).c_str());
    g_calls.clear(); m.md->setR(0.05); n = 0; for (auto& [k, v] : g_calls) n += v;
    CHECK(x, n == 1, "%s: a rate change reaches the option %d time(s)", str(c).c_str(), n);
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    // every combination of parameter states for every factory and side
    for (int kind = 0; kind < NKINDS; ++kind)
    u.push_back({std::string("parameters of ") + optName(kind), [kind](X& x) {
        Market m; Contract c; c.kind = kind; c.call = x.flip(); c.K2 = 0; c.B = 0; if (kind == FLOAT_LOOKBACK) c.K = 0;
        ParameterObject p; bool ok = true; std::string desc; mc::Hash h; h(kind)(c.call);
        for (auto& name : required(kind)) {
            auto cs = cands(name); int i = x.choose(int(cs.size())); auto& k = cs[i]; h(i);
            if (k.v) p.setParameter(name, *k.v);
            ok = ok && k.ok; desc += name + "=" + k.label + " ";
            if (k.ok) {
                if (name == "ticker") c.ticker = std::get<std::string>(*k.v); else if (name == "direction") c.up = std::get<BarrierDirection>(*k.v) == BarrierDirection::Up;
                else { double d = std::get<double>(*k.v); (name == "T" ? c.T : name == "B" ? c.B : name == "K2" ? c.K2 : c.K) = d; }
            }
        }
        int extra = x.choose(3);                                    // unrelated parameters
        if (extra) for (const char* n : {"K", "K1", "K2", "B", "direction", "sigma", "r", ""}) {
            auto req = required(kind); if (std::find(req.begin(), req.end(), n) != req.end()) continue;
            if (extra == 1) p.setParameter(n, P(-5.0)); else p.setParameter(n, P(std::string("x")));
        }
        x.step(); x.note("%s %s: %sextra=%d", optName(kind), c.call ? "call" : "put", desc.c_str(), extra);
        g_calls.clear(); std::shared_ptr<Option> o; bool threw = false;
        try { o = createOption(kind, c.call, p); } catch (const std::invalid_argument&) { threw = true; }
        CHECK(x, threw == !ok, "%s %s with %s: %s", optName(kind), c.call ? "call" : "put", desc.c_str(), threw ? "rejected" : "accepted");
        auto s = m.md->getStockData("TK"), s2 = m.md->getStockData("TK2");
        CHECK(x, s->getPrice() == 100 && s->getSigma() == 0.2 && !s->getCoupon() && s2->getPrice() == 50 && m.md->getR() == 0.05, "creating an option changed the market data");
        if (o) { verify(x, o, c); registeredOnce(x, m, o, c); std::weak_ptr<Option> w = o; o.reset(); CHECK(x, w.expired(), "registration keeps the option alive"); }
        g_calls.clear(); m.md->notifyObservers(); CHECK(x, g_calls.empty(), "%s: an option that was %s is still notified", desc.c_str(), threw ? "rejected" : "released");
        h(extra)(threw); x.state(h.h);
    }, -1, 3, 0});
    // parameter values, one at a time over a wide lattice
    u.push_back({"values", [](X& x) {
        Market m; Contract c; c.kind = x.choose(NKINDS); c.call = x.flip();
        static const std::vector<double> V = {0.0, -0.0, DEN, 1e-12, 1.0 / 365, 1.0 / 252, 0.1, 1.0 / 3, 0.5, 1, 2, 3, 10, 50, 99.99, 100, 100.01, 101, 120, 255, 256, 1000, 65536, 1e6, 1e9, 1e15, 1e100};
        auto req = required(c.kind); std::vector<double*> fields = {&c.T};
        if (c.kind != FLOAT_LOOKBACK) fields.push_back(&c.K); if (c.kind == DOUBLE_DIGITAL) fields.push_back(&c.K2); if (c.kind == KNOCK_IN || c.kind == KNOCK_OUT) { fields.push_back(&c.B); c.up = x.flip(); }
        int i = x.choose(int(fields.size())), j = x.choose(int(fields.size())); double a = x.pick(V); double b = i == j ? a : x.pick(V); *fields[i] = a; *fields[j] = b;
        c.ticker = x.pick(std::vector<std::string>{"TK", "TK2"}); x.step();
        auto o = make(c); verify(x, o, c); registeredOnce(x, m, o, c); mc::Hash h; h(c.kind)(c.call)(c.T)(c.K)(c.K2)(c.B)(c.up); x.state(h.h);
    }, -1, 3, 0});
    // several options alive together: each is notified once, for its own ticker, until it is released
    u.push_back({"populations", [](X& x) {
        Market m; struct E { std::shared_ptr<Option> o; Contract c; const void* key; }; std::vector<E> v;
        int depth = mc::thorough ? 6 : 5;
        for (int d = 0; d < depth; ++d) {
            int op = x.choose(5); x.step();
            if (op < 3) { Contract c; c.kind = (op * 4 + d) % NKINDS; c.call = d % 2; c.ticker = op == 1 ? "TK2" : "TK"; c.T = 1 + d; auto o = make(c); x.note("create %s", str(c).c_str());
                          g_calls.clear(); o->update(); const void* k = g_calls.empty() ? nullptr : g_calls.begin()->first; v.push_back({o, c, k}); }
            else if (op == 3) { if (!v.empty()) { x.note("release the oldest"); v.erase(v.begin()); } }
            else { ParameterObject p; p.setParameter("ticker", std::string("TK")); p.setParameter("T", 1.0); p.setParameter("K", -1.0); x.note("rejected creation"); try { createOption(x.choose(2) ? AMERICAN : EUROPEAN, true, p); x.fail("negative strike accepted"); } catch (const std::invalid_argument&) {} }
            for (std::string t : {"TK", "TK2", ""}) {
                g_calls.clear(); if (t.empty()) m.md->notifyObservers(); else m.md->updateStockSigma(t, m.md->getStockData(t)->getSigma());
                int want = 0, got = 0; for (auto& [k, n] : g_calls) got += n;
                for (auto& e : v) if (e.key) { int w = t.empty() || e.c.ticker == t; want += w; CHECK(x, (g_calls.count(e.key) ? g_calls[e.key] : 0) == w, "%s: notified %d time(s) for %s", str(e.c).c_str(), g_calls.count(e.key) ? g_calls[e.key] : 0, t.c_str()); }
                CHECK(x, got == want, "notifications to options: %d, expected %d", got, want);
            }
            for (auto& e : v) verify(x, e.o, e.c);
        }
        mc::Hash h; h(v.size()); for (auto& e : v) h(e.c.kind)(e.c.T); x.state(h.h);
    }, -1, 2, 0});
    // equality of all pairs, before and after market-data changes
    u.push_back({"equality", [](X& x) {
        Market m; m.md->addStock("T", 100.0, 0.2);          // T holds the same data as TK
        auto any = [&] { Contract c; c.kind = x.choose(NKINDS); c.call = x.flip(); c.T = x.flip() ? 1.0 : 1.0000000000000002; c.K = x.flip() ? 100 : 100.00000000000001; c.K2 = c.kind == DOUBLE_DIGITAL && x.flip() ? 111 : 110; return c; };
        static const std::vector<std::string> TT = {"TK", "T", "TK2"};
        Contract a = any(), b = any(); if (a.kind == FLOAT_LOOKBACK) a.K = 0; if (b.kind == FLOAT_LOOKBACK) b.K = 0;
        auto payKind = [](int k) { return k == DIGITAL ? 1 : k == DOUBLE_DIGITAL ? 2 : k == FLOAT_LOOKBACK ? 3 : 0; };
        bool same = a.T == b.T && payKind(a.kind) == payKind(b.kind) && (payKind(a.kind) == 2 ? a.K == b.K && a.K2 == b.K2 : a.call == b.call && a.K == b.K);
        for (auto& ta : TT) for (auto& tb : TT) {
            a.ticker = ta; b.ticker = tb; auto p = make(a), q = make(b); x.step();
            bool data = (ta == tb) || (ta != "TK2" && tb != "TK2"), want = same && data;
            CHECK(x, (*p == *q) == want && (*q == *p) == want && (*p != *q) == !want, "%s and %s: ==%d, expected %d", str(a).c_str(), str(b).c_str(), *p == *q, want);
            CHECK(x, *p == *p && !(*p != *p), "an option differs from itself");
        }
        if (same) {                                           // the data are compared as they are now
            a.ticker = "TK"; b.ticker = "T"; auto p = make(a), q = make(b); int what = x.choose(6); const double s1 = std::nextafter(100.0, 200.0), v1 = std::nextafter(0.2, 1.0);
            CHECK(x, *p == *q, "equal options differ");
            if (what == 4) m.md->updateStockPrice("TK", s1); else if (what == 5) m.md->updateStockSigma("TK", v1); else if (what == 0) m.md->updateStockPrice("TK", 101.0); else if (what == 1) m.md->updateStockSigma("TK", 0.2000001); else if (what == 2) m.md->updateStockCoupon("TK", 0.01); else m.md->updateStockCoupon("TK", 0.0);
            CHECK(x, !(*p == *q) && *p != *q, "options on stocks with different data are equal (change %d)", what);
            if (what == 4) m.md->updateStockPrice("T", s1); else if (what == 5) m.md->updateStockSigma("T", v1); else if (what == 0) m.md->updateStockPrice("T", 101.0); else if (what == 1) m.md->updateStockSigma("T", 0.2000001); else if (what == 2) m.md->updateStockCoupon("T", 0.01); else m.md->updateStockCoupon("T", 0.0);
            CHECK(x, *p == *q && !(*p != *q), "options on stocks with the same data differ (change %d)", what);
            m.md->updateStockCoupon("T", std::nullopt);
        }
        mc::Hash h; h(a.kind)(b.kind)(a.call)(b.call)(a.T)(b.T)(a.K)(b.K)(a.K2)(b.K2); x.state(h.h);
    }, -1, 3, 0});
    return u;
})
