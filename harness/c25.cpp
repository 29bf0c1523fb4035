// C25: printed descriptions show the contract and the market data of the moment, and printing changes nothing.
#include "op.hpp"
#include <cxxabi.h>
#include <iomanip>
#include <limits>
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
using namespace OptionPricer; using mc::X;

// "  -> Label: value" lines, in order
static std::vector<std::pair<std::string, std::string>> fields(const std::string& s) {
    std::vector<std::pair<std::string, std::string>> v; std::istringstream in(s); std::string l;
    while (std::getline(in, l)) { size_t a = l.find("-> "), b = l.find(": "); if (a == std::string::npos || b == std::string::npos) continue; v.push_back({l.substr(a + 3, b - a - 3), l.substr(b + 2)}); }
    return v;
}
struct Fmt { int prec; std::ios::fmtflags f; };
static const std::vector<Fmt>& formats() { static const std::vector<Fmt> f{{6, {}}, {17, {}}, {3, std::ios::fixed}, {8, std::ios::scientific}, {12, std::ios::showpos}}; return f; }
static void setFmt(std::ostream& o, const Fmt& f) { o.precision(f.prec); o.setf(f.f); }
static std::string shown(double v, const Fmt& f) { std::ostringstream o; setFmt(o, f); o << v; return o.str(); }
struct Seen { std::string text; std::vector<std::pair<std::string, std::string>> f; };
template<class T> Seen print(X& x, const T& what, const Fmt& f) {
    std::ostringstream o; setFmt(o, f); const auto fl = o.flags(); const auto pr = o.precision();
    x.step(); std::ostream& back = (o << what);
    CHECK(x, &back == &o, "operator<< does not return its stream");
    CHECK(x, o.good(), "printing leaves the stream in a failed state");
    CHECK(x, o.flags() == fl && o.precision() == pr && o.width() == 0 && o.fill() == ' ', "printing changes the stream's number format");
    std::string a = o.str(); o.str(""); o << what; CHECK(x, o.str() == a, "printing twice gives different texts");
    std::ostringstream p; p << "before|"; setFmt(p, f); p << what << "|after"; CHECK(x, p.str() == "before|" + a + "|after", "printing disturbs the text around it");
    std::ostringstream dead; dead.setstate(std::ios::badbit); dead << what; CHECK(x, dead.str().empty() && dead.bad(), "printing to a failed stream");
    x.note("%s", a.c_str()); return {a, fields(a)};
}
// the value of the n-th field whose label contains one of the given words
static const std::string* find(const Seen& s, std::initializer_list<const char*> words, int n = 0) {
    for (auto& [l, v] : s.f) for (auto w : words) if (l.find(w) != std::string::npos) { if (n-- == 0) return &v; break; }
    return nullptr;
}
static void expect(X& x, const Seen& s, const char* what, std::initializer_list<const char*> words, const std::string& v, int n = 0) {
    auto p = find(s, words, n); CHECK(x, p, "no %s in:\n%s", what, s.text.c_str());
    CHECK(x, *p == v, "%s is shown as '%s', expected '%s'", what, p->c_str(), v.c_str());
}
static void expectPayoff(X& x, const Seen& s, const op::Contract& c, const Fmt& f, bool insideOption) {
    const char* side = c.kind == op::DOUBLE_DIGITAL ? "DoubleDigital" : c.call ? "Call" : "Put";
    expect(x, s, "payoff type", {"Type"}, side, insideOption ? 1 : 0);
    if (c.kind == op::DOUBLE_DIGITAL) { expect(x, s, "lower strike", {"Lower"}, shown(c.K, f)); expect(x, s, "upper strike", {"Upper"}, shown(c.K2, f)); }
    else if (c.kind != op::FLOAT_LOOKBACK) expect(x, s, "strike", {"Strike", "Stike"}, shown(c.K, f));
}
static void expectStock(X& x, const Seen& s, double S, double sg, std::optional<double> c, const Fmt& f) {
    expect(x, s, "price", {"Price"}, shown(S, f)); expect(x, s, "volatility", {"Volatility"}, shown(sg, f));
    auto p = find(s, {"Coupon", "Dividend"});
    if (c) { CHECK(x, p && *p == shown(*c, f), "dividend yield is shown as '%s', expected %s", p ? p->c_str() : "", shown(*c, f).c_str()); } else CHECK(x, !p, "a dividend yield is shown for a stock without one");
}
static void expectOption(X& x, const op::Contract& c, const std::shared_ptr<Option>& o, double S, double sg, std::optional<double> q, double r, const Fmt& f) {
    static const char* cls[] = {"European", "Digital", "DoubleDigital", "American", "ArithmeticAsian", "GeometricAsian", "KnockInBarrier", "KnockOutBarrier", "FloatingStrikeLookback", "FixedStrikeLookback"};
    auto md = MarketData::getInstance(); auto before = *md->getStockData(c.ticker); double r0 = md->getR();
    Seen s = print(x, *o, f);
    CHECK(x, *md->getStockData(c.ticker) == before && md->getR() == r0, "printing changed the market data");
    auto t = find(s, {"Type"}); CHECK(x, t && t->find(std::string(cls[c.kind]) + "Option") != std::string::npos, "option type is shown as '%s'", t ? t->c_str() : "");
    CHECK(x, o->getType() == *t, "getType() is '%s', shown '%s'", o->getType().c_str(), t->c_str());
    auto T = find(s, {"Expiration"}); CHECK(x, T && T->compare(0, shown(c.T, f).size() + 1, shown(c.T, f) + " ") == 0, "expiration is shown as '%s', expected %s", T ? T->c_str() : "", shown(c.T, f).c_str());
    expectPayoff(x, s, c, f, true); expect(x, s, "ticker", {"Ticker"}, c.ticker); expectStock(x, s, S, sg, q, f); expect(x, s, "rate", {"Interest Rate"}, shown(r, f));
    CHECK(x, op::make(c)->operator==(*o), "printing changed the option");
    mc::Hash h; h(s.text); x.state(h.h);
}
// histories of market-data changes; an option created at the start is printed after each of them
static void bodyHistory(X& x) {
    static int n = 0; op::Contract c; c.kind = x.choose(op::NKINDS); c.call = x.flip(); c.ticker = "P" + std::to_string(n++);
    auto md = MarketData::getInstance(); double S = 100, sg = 0.2, r = 0.05; std::optional<double> q; md->setR(r);
    if (x.flip()) { q = 0.03; md->addStock(c.ticker, S, sg, 0.03); } else md->addStock(c.ticker, S, sg);
    md->addStock(c.ticker + "x", 7.0, 0.7, 0.07);
    auto o = op::make(c); const Fmt& f = x.pick(formats());
    expectOption(x, c, o, S, sg, q, r, f);
    for (int d = 0; d < (mc::thorough ? 4 : 3); ++d) {
        switch (x.choose(9)) {
            case 0: md->updateStockPrice(c.ticker, S = 123.456789012345); break;
            case 1: md->updateStockSigma(c.ticker, sg = 0.0); break;
            case 2: md->updateStockCoupon(c.ticker, q = 0.0); break;
            case 3: md->updateStockCoupon(c.ticker, q = std::nullopt); break;
            case 4: md->setR(r = -0.0123456789); break;
            case 5: md->addStock(c.ticker, S = 1e-7, sg = 3.0, *(q = 1.0)); break;
            case 6: try { md->updateStockPrice(c.ticker, -5.0); } catch (const std::invalid_argument&) {} break;
            case 7: md->updateStockPrice(c.ticker + "x", 55.0); break;
            case 8: md->updateStockPrice(c.ticker, S = 98765432.1); break;
        }
        expectOption(x, c, o, S, sg, q, r, f);
    }
}
static const std::vector<double>& values() { static const std::vector<double> v{0, 5e-324, 1e-9, 0.1, 1.0 / 3, 1, 99.99999999, 100, 123456.789, 1e6, 1234567, 1e15, 1.7e308}; return v; }
static void bodyContracts(X& x) {
    static int n = 0; op::Contract c; c.kind = x.choose(op::NKINDS); c.call = x.flip(); c.T = x.pick(values()); c.K = x.pick(values()); if (c.kind == op::DOUBLE_DIGITAL) c.K2 = x.pick(values());
    if (c.kind == op::KNOCK_IN || c.kind == op::KNOCK_OUT) { c.B = x.flip() ? 90 : 110; c.up = x.flip(); }
    static const std::vector<std::string> names{"A", "BRK.B", "a b", "long_ticker_name_beyond_the_small_buffer"};
    c.ticker = x.pick(names) + std::to_string(n++ % 7); auto md = MarketData::getInstance(); md->setR(0.05); md->addStock(c.ticker, 101.5, 0.25, 0.02);
    expectOption(x, c, op::make(c), 101.5, 0.25, 0.02, 0.05, x.pick(formats()));
}
static void bodyStocks(X& x) {
    double S = x.pick(values()), sg = x.pick(values()); if (S == 0) S = 2.5; std::optional<double> c; if (int k = x.choose(5)) c = std::vector<double>{0, 1.0 / 3, 1, 1e-9}[k - 1];
    StockData d = c ? StockData(S, sg, *c) : StockData(S, sg); const Fmt& f = x.pick(formats());
    expectStock(x, print(x, d, f), S, sg, c, f);
}
static void bodyPayoffs(X& x) {
    static const std::vector<int> kinds{op::EUROPEAN, op::DIGITAL, op::DOUBLE_DIGITAL, op::FLOAT_LOOKBACK};
    op::Contract c; c.kind = x.pick(kinds); c.call = x.flip(); c.K = x.pick(values()); c.K2 = x.pick(values()); auto t = c.call ? PayoffType::Call : PayoffType::Put;
    std::unique_ptr<Payoff> p; std::string name;
    switch (c.kind) { case op::EUROPEAN: p = std::make_unique<PayoffVanilla>(t, c.K); name = "Vanilla"; break; case op::DIGITAL: p = std::make_unique<PayoffDigital>(t, c.K); name = "Digital"; break; case op::DOUBLE_DIGITAL: p = std::make_unique<PayoffDoubleDigital>(c.K, c.K2); name = "Double Digital"; break; default: p = std::make_unique<PayoffLookbackFloatingStrike>(t); name = "Floating Strike Lookback"; }
    const Fmt& f = x.pick(formats()); auto twin = p->clone();
    expectPayoff(x, print(x, *p, f), c, f, false); expectPayoff(x, print(x, *twin, f), c, f, false);
    CHECK(x, *p == *twin, "printing changed the payoff");
    if (c.kind != op::DOUBLE_DIGITAL) name += c.call ? " Call" : " Put";
    CHECK(x, p->getType() == name, "getType() is '%s', expected '%s'", p->getType().c_str(), name.c_str());
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"market-data histories", bodyHistory, -1, 3, 20000});
    u.push_back({"contracts", bodyContracts, -1, 3, 20000});
    u.push_back({"stocks", bodyStocks, -1, 2, 20000});
    u.push_back({"payoffs", bodyPayoffs, -1, 2, 20000});
    return u;
})
