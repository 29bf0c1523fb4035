// C05: payoffs equal their contract definitions; clones and equality agree.
#include "mc.hpp"
#include <limits>
#include <memory>
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer; using mc::X;
static const double INF = std::numeric_limits<double>::infinity(), DEN = std::numeric_limits<double>::denorm_min(), MAXD = std::numeric_limits<double>::max();
static double up(double v) { return std::nextafter(v, INF); }
static double dn(double v) { return std::nextafter(v, -INF); }

static const std::vector<double> STRIKES = {0.0, DEN, 1e-300, 1e-8, 0.1, 0.3, 0.5, 0.999999, 1.0, 1.5, 5, 10, 32, 50, 64, 80, 90, 95, 99.99, dn(100), 100, up(100), 100.01, 105, 110, 120, 123.456, 127, 128, 150, 200, 255, 256, 300, 500, 1000, 1024, 2000, 4095, 5000, 1e4, 32767, 32768, 65536, 1e5, 1e6, 16777217, 2147483647.0, 2147483648.0, 4294967296.0, 1e9, 1e12, 9007199254740993.0, 1e15, 1e100, 1e300, MAXD};
static std::vector<double> spotsFor(double K) {
    std::vector<double> v = STRIKES;
    for (double e : {1e-15, 1e-12, 1e-9, 1e-8, 1e-6, 1e-5, 1e-4, 1e-3, 0.01, 0.05, 0.1, 0.25, 0.5}) { v.push_back(K * (1 + e)); v.push_back(K * (1 - e)); v.push_back(K + e); v.push_back(std::max(0.0, K - e)); }
    for (double d : {1.0, 2.0, 5.0, 7.5, 10.0, 25.0, 50.0, 100.0, 1000.0, 1e6}) { v.push_back(K + d); v.push_back(std::max(0.0, K - d)); }
    v.push_back(up(K)); v.push_back(up(up(K))); if (K > 0) { v.push_back(dn(K)); v.push_back(dn(dn(K))); }
    return v;
}
struct Ref { int kind; bool call; double a, b; };       // 0 vanilla 1 digital 2 double digital 3 floating lookback
static std::unique_ptr<Payoff> mk(const Ref& r) {
    auto t = r.call ? PayoffType::Call : PayoffType::Put;
    switch (r.kind) {
        case 0: return std::make_unique<PayoffVanilla>(t, r.a); case 1: return std::make_unique<PayoffDigital>(t, r.a);
        case 2: return std::make_unique<PayoffDoubleDigital>(r.a, r.b); default: return std::make_unique<PayoffLookbackFloatingStrike>(t);
    }
}
static const char* NAME[] = {"vanilla", "digital", "double digital", "floating lookback"};
static double ref(const Ref& r, double S, double e = 0) {
    switch (r.kind) {
        case 0: { double d = r.call ? S - r.a : r.a - S; return d > 0 ? d : 0; }
        case 1: return (r.call ? S > r.a : S < r.a) ? 1 : 0;
        case 2: return S >= r.a && S <= r.b ? 1 : 0;
        default: { double d = r.call ? S - e : e - S; return d > 0 ? d : 0; }
    }
}
static double eval(const Payoff& p, const Ref& r, double S, double e = 0) { return r.kind == 3 ? p(S, e) : p(S); }
static void checkAt(X& x, const Payoff& p, const Ref& r, double S, double e = 0) {
    x.step();
    double v = eval(p, r, S, e), w = ref(r, S, e);
    bool same = r.kind == 0 || r.kind == 3 ? mc::near(v, w, 1e-12) : v == w;
    CHECK(x, same, "%s %s strikes %.17g %.17g at S=%.17g extreme %.17g: %.17g, expected %.17g", NAME[r.kind], r.call ? "call" : "put", r.a, r.b, S, e, v, w);
    CHECK(x, eval(p, r, S, e) == v, "%s payoff changes on repetition", NAME[r.kind]);
}
static void props(X& x, const Payoff& p, const Ref& r) {
    auto want = r.kind == 2 ? PayoffType::DoubleDigital : r.call ? PayoffType::Call : PayoffType::Put;
    CHECK(x, p.getPayoffType() == want, "payoff type is not the requested one");
    if (auto* s = dynamic_cast<const PayoffSingleStrike*>(&p)) CHECK(x, s->getK() == r.a, "strike %.17g instead of %.17g", s->getK(), r.a);
    if (auto* s = dynamic_cast<const PayoffDoubleStrikes*>(&p)) CHECK(x, s->getKL() == r.a && s->getKU() == r.b, "strikes %.17g %.17g instead of %.17g %.17g", s->getKL(), s->getKU(), r.a, r.b);
}
static std::vector<double> someSpots(const Ref& r) {
    std::vector<double> v = {DEN, 0.1, 1, 50, 99.99, 100, 101, 150, 1e4, 1e9};
    for (double k : {r.a, r.b}) { v.push_back(k); v.push_back(up(k)); v.push_back(dn(k)); v.push_back(k * 0.5); v.push_back(k * 2); }
    return v;
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    // every kind, side and strike: payoff at every spot of the lattice, and on a clone that outlives its original
    u.push_back({"single-strike values", [](X& x) {
        Ref r{x.choose(2), x.flip(), x.pick(STRIKES), 0};
        auto p = mk(r); props(x, *p, r); auto c = p->clone(); props(x, *c, r);
        CHECK(x, c.get() != p.get(), "clone is the original");
        for (double S : spotsFor(r.a)) { checkAt(x, *p, r, S); checkAt(x, *c, r, S); }
        auto cc = c->clone(); p.reset(); c.reset(); props(x, *cc, r);
        mc::Hash h; h(r.kind)(r.call)(r.a);
        for (double S : spotsFor(r.a)) { checkAt(x, *cc, r, S); h(ref(r, S)); }
        x.state(h.h);
    }, -1, 2, 0});
    u.push_back({"double-strike values", [](X& x) {
        Ref r{2, false, x.pick(STRIKES), x.pick(STRIKES)};
        auto p = mk(r); props(x, *p, r); auto c = p->clone(); props(x, *c, r); mc::Hash h; h(r.a)(r.b);
        for (double k : {r.a, r.b}) for (double S : spotsFor(k)) { checkAt(x, *p, r, S); checkAt(x, *c, r, S); h(ref(r, S)); }
        checkAt(x, *p, r, 0.5 * r.a + 0.5 * r.b);
        x.state(h.h);
    }, -1, 2, 0});
    u.push_back({"floating lookback values", [](X& x) {
        Ref r{3, x.flip(), 0, 0}; double e = x.pick(STRIKES);
        auto p = mk(r); props(x, *p, r); auto c = p->clone(); props(x, *c, r); mc::Hash h; h(r.call)(e);
        for (double S : spotsFor(e)) { checkAt(x, *p, r, S, e); checkAt(x, *c, r, S, e); h(ref(r, S, e)); }
        x.state(h.h);
    }, -1, 2, 0});
    // a regular price grid
    u.push_back({"price grid", [](X& x) {
        int n = mc::thorough ? 801 : 201; double dK = mc::thorough ? 0.5 : 2.0;
        Ref r{x.choose(2), x.flip(), 0, 0}; r.a = dK * x.choose(n); auto p = mk(r); mc::Hash h; h(r.kind)(r.call)(r.a);
        for (double S = 0; S <= 800; S += 0.25) { checkAt(x, *p, r, S); }
        x.state(h.h);
    }, -1, 2, 0});
    // all ordered pairs of payoffs
    u.push_back({"equality of all pairs", [](X& x) {
        static const std::vector<double> K = {0.0, DEN, 0.1, 1, 50, dn(100), 100, up(100), 100.0000001, 100.01, 110, 1e9};
        auto pickRef = [&] { Ref r; r.kind = x.choose(4); r.call = r.kind == 2 ? false : x.flip(); r.a = r.kind == 3 ? 0 : x.pick(K); r.b = r.kind == 2 ? x.pick(K) : 0; return r; };
        Ref a = pickRef(), b = pickRef(); auto p = mk(a), q = mk(b); x.step();
        bool want = a.kind == b.kind && a.call == b.call && a.a == b.a && a.b == b.b;
        bool e1 = *p == *q, e2 = *q == *p, n1 = *p != *q, n2 = *q != *p;
        CHECK(x, e1 == want && e2 == want && n1 == !want && n2 == !want, "%s %s %.17g %.17g and %s %s %.17g %.17g: == %d/%d, != %d/%d, expected equal=%d", NAME[a.kind], a.call ? "call" : "put", a.a, a.b, NAME[b.kind], b.call ? "call" : "put", b.a, b.b, e1, e2, n1, n2, want);
        auto c = p->clone();
        CHECK(x, *c == *p && *p == *c && !(*c != *p), "a clone is not equal to its original");
        CHECK(x, (*c == *q) == want, "a clone compares differently from its original");
        if (want) for (double S : someSpots(a)) { CHECK(x, eval(*p, a, S, 100) == eval(*q, b, S, 100), "equal payoffs pay differently"); }
        mc::Hash h; h(a.kind)(a.call)(a.a)(a.b)(b.kind)(b.call)(b.a)(b.b); x.state(h.h);
    }, -1, 3, 0});
    // domain of the constructors
    u.push_back({"construction domain", [](X& x) {
        static const std::vector<double> K = {-INF, -MAXD, -1e9, -100, -1, -0.5, -1e-9, -1e-300, -DEN, -0.0, 0.0, DEN, 1e-9, 1, 100, 1e9, MAXD};
        int kind = x.choose(4); auto t = x.pick(std::vector<PayoffType>{PayoffType::Call, PayoffType::Put, PayoffType::DoubleDigital});
        double a = kind == 3 ? 1 : x.pick(K), b = kind == 2 ? x.pick(K) : 1; x.step();
        bool ok = a >= 0 && b >= 0 && (kind == 2 || t != PayoffType::DoubleDigital), threw = false;
        x.note("kind %d type %d strikes %.17g %.17g", kind, int(t), a, b);
        try {
            switch (kind) { case 0: PayoffVanilla(t, a); break; case 1: PayoffDigital(t, a); break; case 2: PayoffDoubleDigital(a, b); break; default: PayoffLookbackFloatingStrike p(t); }
        } catch (const std::invalid_argument&) { threw = true; }
        CHECK(x, threw == !ok, "%s type %d strikes %.17g %.17g: %s", NAME[kind], int(t), a, b, threw ? "rejected" : "accepted");
        mc::Hash h; h(kind)(int(t))(a)(b)(threw); x.state(h.h);
    }, -1, 2, 0});
    return u;
})
