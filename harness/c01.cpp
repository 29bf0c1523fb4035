// C01: market data is always valid; a rejected change changes nothing.
// Reference model: a map ticker -> (S, sigma, c) plus the rate; compared in full after every operation.
#include "mc.hpp"
#include <limits>
#include <map>
#include <optional>
#include "market_data/market_data.h"
using namespace OptionPricer; using mc::X;

struct Rec { double S, sigma; std::optional<double> c; };
using Model = std::map<std::string, Rec>;
static bool valid(const Rec& r) { return r.S > 0 && r.sigma >= 0 && (!r.c || (*r.c >= 0 && *r.c <= 1)); }
static const double NaN = std::numeric_limits<double>::quiet_NaN();

struct World {
    std::shared_ptr<MarketData> md = MarketData::getInstance();
    std::vector<std::string> names; Model m; double r;
    World() {
        static uint64_t n = 0;                    // fresh names: the singleton outlives an execution
        std::string b = "T" + std::to_string(n++);
        names = {b, b + "B", "t" + b.substr(1), b + "_a_ticker_name_longer_than_the_small_string_buffer"};
        md->setR(0.05); r = 0.05;
    }
    void verify(X& x, const char* when) {
        mc::Hash h;
        for (auto& t : names) {
            auto it = m.find(t); std::shared_ptr<const StockData> d;
            try { d = md->getStockData(t); } catch (const std::invalid_argument&) {}
            CHECK(x, bool(d) == (it != m.end()), "%s: ticker %s %s", when, t.c_str(), d ? "is listed but should not be" : "is not listed");
            h(bool(d));
            if (!d) continue;
            const Rec& e = it->second;
            CHECK(x, d->getPrice() == e.S, "%s: price of %s is %.17g, last accepted %.17g", when, t.c_str(), d->getPrice(), e.S);
            CHECK(x, d->getSigma() == e.sigma, "%s: volatility of %s is %.17g, last accepted %.17g", when, t.c_str(), d->getSigma(), e.sigma);
            CHECK(x, d->getCoupon() == e.c, "%s: dividend of %s is %.17g, last accepted %.17g", when, t.c_str(), d->getCoupon().value_or(-7), e.c.value_or(-7));
            h(e.S)(e.sigma)(e.c.value_or(-7));
        }
        CHECK(x, md->getR() == r, "%s: rate is %.17g, last set %.17g", when, md->getR(), r);
        h(r); x.state(h.h);
    }
    // runs an operation; ok says whether the model accepts it
    template<class F> void op(X& x, bool ok, const std::string& what, F f) {
        x.step(); x.note("%s -> expected %s", what.c_str(), ok ? "accepted" : "rejected");
        bool threw = false;
        try { f(); }
        catch (const std::invalid_argument&) { threw = true; }
        catch (const std::exception& e) { x.fail("%s: threw %s, expected invalid_argument", what.c_str(), typeid(e).name()); }
        CHECK(x, threw == !ok, "%s: %s", what.c_str(), ok ? "rejected a valid change" : "accepted an invalid change");
        verify(x, what.c_str());
    }
    static std::string s(double v) { char b[40]; snprintf(b, 40, "%.6g", v); return b; }
    static std::string s(std::optional<double> v) { return v ? s(*v) : "none"; }
    void add(X& x, const std::string& t, Rec q, int form) {
        bool ok = valid(q);
        op(x, ok, "addStock(" + t + "," + s(q.S) + "," + s(q.sigma) + "," + s(q.c) + ")", [&] {
            if (!q.c && form == 0) md->addStock(t, q.S, q.sigma);
            else if (q.c && form == 0) md->addStock(t, q.S, q.sigma, *q.c);
            else { const double a = q.S; md->addStock(t, a, double(q.sigma), std::optional<double>(q.c)); }
            m[t] = q;
        });
    }
    void upd(X& x, const std::string& t, int field, std::optional<double> v) {
        auto it = m.find(t); bool ok = it != m.end(); Rec q{};
        if (ok) { q = it->second; (field == 0 ? q.S : field == 1 ? q.sigma : *(&q.S)) = field == 2 ? q.S : *v; if (field == 2) q.c = v; ok = valid(q); }
        static const char* nm[] = {"updateStockPrice", "updateStockSigma", "updateStockCoupon"};
        if (ok) it->second = q;
        op(x, ok, std::string(nm[field]) + "(" + t + "," + s(v) + ")", [&] {
            if (field == 0) md->updateStockPrice(t, *v); else if (field == 1) md->updateStockSigma(t, *v); else md->updateStockCoupon(t, v);
        });
    }
    void setR(X& x, double v) { r = v; op(x, true, "setR(" + s(v) + ")", [&] { md->setR(v); }); }
};

// one arbitrary operation with arguments from the full value lattice
static void fullOp(X& x, World& w) {
    static const std::vector<double> S{100, 0.01, 5e-324, 1e300, 0, -0.0, -5e-324, -1, -1e300, NaN}, G{0.2, 0, -0.0, 1, 37, 1e-300, -5e-324, -0.1, -3, NaN};
    static const std::vector<std::optional<double>> C{std::nullopt, 0.05, 0.0, 1.0, std::nextafter(1.0, 2), -5e-324, -0.5, 2.0, NaN, -0.0};
    const auto& t = x.pick(w.names);
    switch (x.choose(5)) {
        case 0: { Rec q{x.pick(S), x.pick(G), x.pick(C)}; w.add(x, t, q, x.choose(2)); break; }
        case 1: w.upd(x, t, 0, x.pick(S)); break;
        case 2: w.upd(x, t, 1, x.pick(G)); break;
        case 3: w.upd(x, t, 2, x.pick(C)); break;
        case 4: w.setR(x, x.pick(std::vector<double>{0.03, 0, -0.02, 7})); break;
    }
}
static void start(X& x, World& w, int k) {
    if (k & 1) w.add(x, w.names[0], {50, 0.3, std::nullopt}, 0);
    if (k & 2) w.add(x, w.names[1], {60, 0.4, 0.02}, 0);
    if (k & 4) w.add(x, w.names[3], {70, 0.5, 0.9}, 1);
}
static void bodyFull(X& x) { World w; start(x, w, x.choose(8)); fullOp(x, w); w.upd(x, w.names[0], 0, 51.0); w.upd(x, w.names[1], 2, 0.03); }

// histories over a reduced alphabet
static void smallOp(X& x, World& w, int tickers) {
    int n = tickers * 14 + 2, k = x.choose(n);
    if (k >= tickers * 14) { w.setR(x, k == tickers * 14 ? 0.03 : -0.01); return; }
    const auto& t = w.names[k / 14];
    switch (k % 14) {
        case 0: w.add(x, t, {100, 0.2, std::nullopt}, 0); break;
        case 1: w.add(x, t, {80, 0, 0.05}, 0); break;
        case 2: w.add(x, t, {-1, 0.2, std::nullopt}, 0); break;
        case 3: w.add(x, t, {90, 0.2, 1.5}, 1); break;
        case 4: w.upd(x, t, 0, 110.0); break;
        case 5: w.upd(x, t, 0, 0.0); break;
        case 6: w.upd(x, t, 0, NaN); break;
        case 7: w.upd(x, t, 1, 0.35); break;
        case 8: w.upd(x, t, 1, -0.1); break;
        case 9: w.upd(x, t, 1, 0.0); break;
        case 10: w.upd(x, t, 2, std::nullopt); break;
        case 11: w.upd(x, t, 2, 1.0); break;
        case 12: w.upd(x, t, 2, 1.25); break;
        case 13: w.upd(x, t, 2, -0.25); break;
    }
}
template<int T, int D> static void bodyHist(X& x) { World w; for (int d = 0; d < D; ++d) smallOp(x, w, T); }

// many tickers: an operation on any one of them leaves every other one alone
static void bodyMany(X& x) {
    World w; static const std::vector<int> N{1, 2, 3, 5, 8, 13, 14, 29, 30, 59, 60, 100, 128, 200};
    int n = x.pick(N); std::string b = w.names[0]; w.names.clear();
    for (int i = 0; i < n; ++i) { w.names.push_back(b + std::string(1, char('A' + i % 26)) + (i >= 26 ? std::to_string(i / 26) : "")); w.md->addStock(w.names[i], 100.0 + i, 0.2 + 0.001 * i); w.m[w.names[i]] = {100.0 + i, 0.2 + 0.001 * i, std::nullopt}; }
    w.verify(x, "after listing");
    int i = x.choose(n);
    switch (x.choose(5)) {
        case 0: w.upd(x, w.names[i], 0, 7.5); break;
        case 1: w.upd(x, w.names[i], 1, -1.0); break;
        case 2: w.upd(x, w.names[i], 2, 0.5); break;
        case 3: w.add(x, w.names[i], {5, 0.9, 0.1}, 0); break;
        case 4: w.add(x, w.names[i], {0, 0.9, 0.1}, 0); break;
    }
}
// long histories: a single deviating operation anywhere in a long run of valid updates
static void bodyLong(X& x) {
    World w; w.add(x, w.names[0], {50, 0.3, 0.1}, 0); w.add(x, w.names[1], {60, 0.4, std::nullopt}, 0);
    const int L = mc::thorough ? 300 : 120;
    for (int i = 0; i < L; ++i) {
        switch (x.deviate(6)) {
            case 0: w.upd(x, w.names[i % 2], i % 3, i % 3 == 2 ? 0.001 * i : 1.0 + 0.01 * i); break;
            case 1: w.upd(x, w.names[i % 2], 0, -1.0); break;
            case 2: w.upd(x, w.names[0], 1, NaN); break;
            case 3: w.upd(x, w.names[2], 0, 5.0); break;
            case 4: w.add(x, w.names[1], {61, 0.5, 2.0}, 0); break;
            case 5: w.setR(x, 0.01 * i); break;
        }
    }
}

// every value of wide lattices through every operation, and ticker names of every shape
static const std::vector<double>& lattice() {
    static std::vector<double> v; if (!v.empty()) return v;
    for (int e = -1074; e <= 1023; e += e < -64 || e > 64 ? 37 : 3) for (double m : {1.0, 1.2345678901234567, 1.9999999999999998}) v.push_back(std::ldexp(m, e));
    for (double d : {0.0, -0.0, 0.1, 0.5, 1.0, std::nextafter(1.0, 0), std::nextafter(1.0, 2), 2.0 / 3, 99.99, 123456.789012345, 1e6, 1234567.891234567, 4294967296.5, 9007199254740993.0, 1.7976931348623157e308}) v.push_back(d);
    size_t n = v.size(); for (size_t i = 0; i < n; ++i) v.push_back(-v[i]);
    v.push_back(NaN); return v;
}
static void bodyValues(X& x) {
    World w; w.add(x, w.names[0], {50, 0.3, 0.1}, 0);
    const double v = x.pick(lattice());
    switch (x.choose(7)) {
        case 0: w.upd(x, w.names[0], 0, v); break;
        case 1: w.upd(x, w.names[0], 1, v); break;
        case 2: w.upd(x, w.names[0], 2, v); break;
        case 3: if (v == v) w.setR(x, v); break;
        case 4: w.add(x, w.names[x.choose(2)], {v, 0.2, 0.3}, x.choose(2)); break;
        case 5: w.add(x, w.names[x.choose(2)], {70, v, 0.3}, x.choose(2)); break;
        case 6: w.add(x, w.names[x.choose(2)], {70, 0.2, v}, x.choose(2)); break;
    }
    w.upd(x, w.names[0], 2, std::nullopt); w.upd(x, w.names[0], 0, 51.0);
}
static void bodyNames(X& x) {
    World w; const std::string b = w.names[0];
    w.names = {b, b + " ", " " + b, b + "\n", b + std::string("\0x", 2), b + std::string("\0", 1), b.substr(0, 1), b + b, "\xc3\xa9" + b, b + ".PA", std::string(300, 'z') + b, std::string(300, 'z') + b + "_b"};
    const int n = int(w.names.size()), mask = x.choose(1 << 4); const int i = x.choose(n), j = x.choose(n);
    w.names[6] = "q" + b.substr(1);
    for (int k = 0; k < 4; ++k) if (mask >> k & 1) w.add(x, w.names[(i + k * 3) % n], {10.0 + k, 0.1 * k, 0.1 * k}, 1);
    for (int f = 0; f < 3; ++f) w.upd(x, w.names[j], f, 0.25 + 0.25 * f);
    w.add(x, w.names[j], {44, 0.4, std::nullopt}, 0); w.upd(x, w.names[i], 0, -2.0); w.upd(x, w.names[i], 0, 2.0);
}

MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"one-op-full-lattice", bodyFull, -1, 3, 20000});
    u.push_back({"histories-3-tickers-depth-3", bodyHist<3, 3>, -1, 2, 20000});
    u.push_back({"value lattices", bodyValues, -1, 2, 20000});
    u.push_back({"ticker names", bodyNames, -1, 2, 20000});
    u.push_back({"many-tickers", bodyMany, -1, 2, 300});
    u.push_back({"long-history-1-deviation", bodyLong, 1, 2, 2000});
    if (mc::thorough) u.push_back({"histories-2-tickers-depth-5", bodyHist<2, 5>, -1, 3, 20000});
    else u.push_back({"histories-1-ticker-depth-4", bodyHist<1, 4>, -1, 2, 20000});
    u.push_back({"histories-2-tickers-depth-4", bodyHist<2, 4>, -1, 2, 20000});
    return u;
})
