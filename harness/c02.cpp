// C02: every live relevant observer is notified exactly once per registration and change.
// Reference: registration counts and liveness kept by the harness; every notification round is checked
// when it ends, nested rounds included.
#include "mc.hpp"
#include <map>
#include <memory>
#include <optional>
#include "market_data/market_data.h"
#include "option/single_path/factory_european_option.h"
using namespace OptionPricer; using mc::X;

struct World;
struct Obs : MarketDataObserver {
    World& w; int n;
    Obs(World& w, int n, const std::string& id) : MarketDataObserver(id), w(w), n(n) {}
    ~Obs() override; void update() override;
};
struct Round { bool all; std::string id; bool none; std::vector<int> before, calls, added; std::vector<char> died; };

struct World {
    X& x; std::shared_ptr<MarketData> md = MarketData::getInstance();
    std::string A, B, U;                             // two listed tickers, one unlisted
    struct Slot { std::shared_ptr<Obs> ref; std::weak_ptr<Obs> weak; std::string id; int regs = 0; bool alive = true; int callDepth = 0; };
    std::vector<Slot> obs; std::vector<std::shared_ptr<Option>> opts; std::vector<std::weak_ptr<Option>> wopts;
    std::vector<Round*> rounds;
    std::map<std::string, double> S, G; std::map<std::string, std::optional<double>> C; double r = 0.05; bool reactions = false; int maxNest = 3;
    uint64_t callCount = 0;

    explicit World(X& x) : x(x) {
        static const std::string b = "TK"; A = b; B = b + "2"; U = "tk";
        md->addStock(A, 100.0, 0.2); md->addStock(B, 50.0, 0.3); md->setR(r); S[A] = 100; S[B] = 50; G[A] = 0.2; G[B] = 0.3; C[A] = C[B] = std::nullopt;
        obs.reserve(4096);
    }
    ~World() { for (auto& s : obs) s.ref.reset(); opts.clear(); md->removeObserver(); }

    void grow(size_t n) { for (auto* q : rounds) { q->before.resize(n, 0); q->calls.resize(n, 0); q->added.resize(n, 0); q->died.resize(n, 0); } }
    int reg(const std::string& id) {
        int n = int(obs.size()); obs.push_back({}); auto p = std::make_shared<Obs>(*this, n, id);
        obs[n].ref = p; obs[n].weak = p; obs[n].id = id; grow(obs.size());
        regAgain(n); return n;
    }
    void regAgain(int n) {
        auto p = obs[n].weak.lock(); if (!p) return;
        x.step(); x.note("%*sregister observer %d on %s", 2 * int(rounds.size()), "", n, obs[n].id.c_str());
        obs[n].regs++; for (auto* q : rounds) q->added[n]++;
        md->addObserver(p);
    }
    void release(int n) {
        x.step(); x.note("%*srelease observer %d", 2 * int(rounds.size()), "", n);
        obs[n].ref.reset();
        if (rounds.empty()) CHECK(x, !obs[n].alive, "observer %d is kept alive by being registered", n);   // a running round may hold it until its end
    }
    void purge() { x.step(); x.note("%*spurge", 2 * int(rounds.size()), ""); md->removeObserver(); }
    void newOption(const std::string& t) {
        x.step(); x.note("%*screate option on %s", 2 * int(rounds.size()), "", t.c_str());
        ParameterObject p; p.setParameter("ticker", t); p.setParameter("T", 1.0); p.setParameter("K", 100.0);
        opts.push_back(EuropeanOptionFactory().createCallOption(p));
    }
    void dropOption() {
        if (opts.empty()) return;
        x.step(); x.note("%*srelease option", 2 * int(rounds.size()), "");
        std::weak_ptr<Option> w = opts.back(); opts.pop_back();
        if (rounds.empty()) CHECK(x, w.expired(), "an option is kept alive by being registered");
    }
    // a notification round: runs f, then checks who was called
    template<class F> void round(const std::string& what, bool all, const std::string& id, bool ok, F f) {
        x.step(); x.note("%*s%s", 2 * int(rounds.size()), "", what.c_str());
        Round q{all, id, !ok, {}, {}, {}, {}}; size_t n = obs.size();
        for (auto& s : obs) q.before.push_back(s.alive ? s.regs : 0);
        q.calls.assign(n, 0); q.added.assign(n, 0); q.died.assign(n, 0);
        rounds.push_back(&q);
        bool threw = false;
        try { f(); } catch (const std::invalid_argument&) { threw = true; } catch (...) { rounds.pop_back(); throw; }
        rounds.pop_back();
        if (rounds.empty()) for (size_t i = 0; i < obs.size(); ++i) CHECK(x, obs[i].ref || !obs[i].alive, "observer %zu, released during %s, is kept alive by being registered", i, what.c_str());
        CHECK(x, threw == !ok, "%s: %s", what.c_str(), ok ? "rejected" : "not rejected");
        mc::Hash h; h(all)(id)(ok)(rounds.size());
        for (size_t i = 0; i < q.before.size(); ++i) {
            bool m = !q.none && (q.all || obs[i].id == q.id);
            int lo = m && !q.died[i] ? q.before[i] : 0, hi = m ? q.before[i] + q.added[i] : 0;
            CHECK(x, q.calls[i] >= lo && q.calls[i] <= hi, "%s: observer %zu (on %s, registered %d time(s), %s) was called %d time(s), expected %d%s", what.c_str(), i, obs[i].id.c_str(), q.before[i], q.died[i] ? "released during the round" : "alive", q.calls[i], lo, hi != lo ? " or more" : "");
            h(q.calls[i])(obs[i].alive)(obs[i].regs)(obs[i].id == A);
        }
        x.state(h.h);
    }
    void price(const std::string& t, double v) { bool ok = S.count(t) && v > 0; if (ok) S[t] = v; round("updateStockPrice(" + t + "," + std::to_string(v) + ")", false, t, ok, [&] { md->updateStockPrice(t, v); }); }
    void sigma(const std::string& t, double v) { bool ok = S.count(t) && v >= 0; if (ok) G[t] = v; round("updateStockSigma(" + t + "," + std::to_string(v) + ")", false, t, ok, [&] { md->updateStockSigma(t, v); }); }
    void coupon(const std::string& t, std::optional<double> v) { bool ok = S.count(t) && (!v || (*v >= 0 && *v <= 1)); if (ok) C[t] = v; round("updateStockCoupon(" + t + ")", false, t, ok, [&] { md->updateStockCoupon(t, v); }); }
    void rate(double v) { r = v; round("setR(" + std::to_string(v) + ")", true, "", true, [&] { md->setR(v); }); }
    void notify(const std::string& t) { round("notifyObserver(" + t + ")", false, t, true, [&] { md->notifyObserver(t); }); }
    void notifyAll() { round("notifyObservers()", true, "", true, [&] { md->notifyObservers(); }); }

    void onCall(int n) {
        ++callCount;
        CHECK(x, obs[n].alive, "observer %d called after it was destroyed", n);
        CHECK(x, !rounds.empty(), "observer %d called outside any notification", n);
        for (auto& [t, v] : S) CHECK(x, md->getStockData(t)->getPrice() == v, "observer %d called before the new price of %s is visible (%.6g, expected %.6g)", n, t.c_str(), md->getStockData(t)->getPrice(), v);
        for (auto& [t, v] : S) { auto d = md->getStockData(t); CHECK(x, d->getSigma() == G[t] && d->getCoupon() == C[t], "observer %d called before the new volatility or dividend of %s is visible", n, t.c_str()); }
        CHECK(x, md->getR() == r, "observer %d called before the new rate is visible", n);
        rounds.back()->calls[n]++;
        x.note("%*sobserver %d called", 2 * int(rounds.size()), "", n);
        if (!reactions || int(rounds.size()) > maxNest) return;
        ++obs[n].callDepth; react(n); --obs[n].callDepth;
    }
    int pickLive() { int k = x.choose(int(std::min<size_t>(obs.size(), 6))); return k; }
    void react(int n) {
        switch (x.deviate(13)) {
            case 0: break;
            case 1: obs[n].ref.reset(); x.note("    releases itself"); break;
            case 2: { int k = pickLive(); if (obs[k].ref) release(k); break; }
            case 3: { int k = pickLive(); if (obs[k].ref) release(k); purge(); break; }
            case 4: reg(A); break;
            case 5: reg(B); break;
            case 6: purge(); break;
            case 7: price(A, S[A] + 1); break;
            case 8: price(B, S[B] + 1); break;
            case 9: rate(r + 0.01); break;
            case 10: dropOption(); break;
            case 11: regAgain(n); break;
            case 12: obs[n].ref.reset(); for (auto& s : obs) if (!s.callDepth) s.ref.reset(); dropOption(); dropOption(); for (int i = 0; i < 20; ++i) reg(i % 2 ? A : B); break;
        }
    }
};
Obs::~Obs() { w.obs[n].alive = false; for (auto* q : w.rounds) q->died[n] = 1; }
void Obs::update() { w.onCall(n); }

static void topOp(X& x, World& w, int width) {
    switch (x.choose(width)) {
        case 0: w.reg(w.A); break;
        case 1: w.price(w.A, w.S[w.A] + 1); break;
        case 2: w.reg(w.B); break;
        case 3: w.rate(w.r + 0.01); break;
        case 4: if (!w.obs.empty() && w.obs[0].ref) w.release(0); break;
        case 5: if (!w.obs.empty() && w.obs.back().ref) w.release(int(w.obs.size()) - 1); break;
        case 6: w.purge(); break;
        case 7: if (!w.obs.empty()) w.regAgain(int(w.obs.size()) - 1); break;
        case 8: w.price(w.A, -1); break;
        case 9: w.newOption(w.A); break;
        case 10: w.dropOption(); break;
        case 11: w.notify(w.B); break;
        case 12: w.sigma(w.B, 0.5); break;
        case 13: w.coupon(w.A, 0.5); break;
        case 14: w.coupon(w.A, 1.5); break;
        case 15: w.sigma(w.A, -0.5); break;
        case 16: w.price(w.U, 3); break;
        case 17: w.reg(w.U); break;
        case 18: w.notifyAll(); break;
        case 19: w.notify(w.U); break;
        case 20: w.coupon(w.B, std::nullopt); break;
    }
}
static void finish(World& w) { w.reactions = false; w.price(w.A, 77); w.price(w.B, 78); w.rate(0.33); w.sigma(w.A, 0.44); w.coupon(w.B, w.C[w.B] ? std::nullopt : std::optional<double>(0.25)); }
template<int D, int W> static void bodyHist(X& x) { World w(x); for (int i = 0; i < D; ++i) topOp(x, w, W); finish(w); }
template<int D> static void bodyReact(X& x) { World w(x); w.reactions = true; for (int i = 0; i < D; ++i) topOp(x, w, 12); finish(w); }
// a population of observers and options, then a round with re-entrant callbacks, then plain rounds
static void bodySetup(X& x) {
    World w(x); int n = 1 + x.choose(4), mask = x.choose(1 << n), o = x.choose(3);
    if (o) w.newOption(w.A);
    for (int i = 0; i < n; ++i) w.reg(mask >> i & 1 ? w.B : w.A);
    if (o == 2) w.newOption(w.B);
    w.reactions = true;
    switch (x.choose(4)) { case 0: w.price(w.A, 90); break; case 1: w.rate(0.07); break; case 2: w.coupon(w.B, 0.1); break; case 3: w.sigma(w.A, 0.6); break; }
    finish(w);
}
// large populations: observer j releases (or registers, or purges) while n observers are being notified
static void bodyMany(X& x) {
    World w(x); static const std::vector<int> N{5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 256, 257};
    int n = x.pick(N); std::vector<int> at;
    for (int i = 0; i < n; ++i) { if (i == n / 2) w.newOption(w.A); w.reg(i % 3 == 1 ? w.B : w.A); if (n <= 17 || i < 2 || i > n - 3 || (i & (i - 1)) == 0) at.push_back(i); }
    int j = x.pick(at), i = x.pick(at), act = x.choose(4);
    struct Trick : MarketDataObserver { std::function<void()> f; Trick(const std::string& id) : MarketDataObserver(id) {} void update() override { if (f) { auto g = f; f = nullptr; g(); } } };
    (void)j;
    // the reacting observer is inserted by re-registering order: use an extra observer registered last or first in rotation
    auto t = std::make_shared<Trick>(w.A); w.md->addObserver(t);
    for (int k = 0; k < j; ++k) w.regAgain(k);
    t->f = [&] { switch (act) { case 0: if (w.obs[i].ref) w.release(i); break; case 1: if (w.obs[i].ref) w.release(i); w.purge(); break; case 2: for (int k = 0; k < n + 3; ++k) w.reg(w.A); break; case 3: for (auto& s : w.obs) if (&s != &w.obs[i]) s.ref.reset(); w.dropOption(); break; } };
    if (x.flip()) w.price(w.A, 55); else w.rate(0.08);
    t.reset(); finish(w);
}
// an observer that is the last owner of an option on the same ticker, chained
static void bodyChain(X& x) {
    World w(x); int n = 2 + x.choose(3);
    for (int i = 0; i < n; ++i) { w.newOption(i % 2 ? w.A : w.B); w.reg(w.A); }
    w.reactions = true; for (int k = 0; k < 2; ++k) { if (x.flip()) w.price(w.A, 90 + k); else w.notifyAll(); }
    finish(w);
}

MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"histories-depth-4-all-ops", bodyHist<4, 21>, -1, 2});
    u.push_back({"one-round-2-reactions", bodySetup, mc::thorough ? 3 : 2, 4});
    u.push_back({"histories-depth-3-1-reaction", bodyReact<3>, 1, 3});
    u.push_back({"large-populations", bodyMany, -1, 2});
    u.push_back({"options-released-in-callbacks", bodyChain, mc::thorough ? 3 : 2, 4});
    if (mc::thorough) { u.push_back({"histories-depth-6-main-ops", bodyHist<6, 12>, -1, 3}); u.push_back({"histories-depth-4-2-reactions", bodyReact<4>, 2, 4}); }
    else u.push_back({"histories-depth-5-main-ops", bodyHist<5, 12>, -1, 3});
    return u;
})
