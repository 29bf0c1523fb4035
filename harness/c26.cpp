// C26: a parameter set returns exactly the value set last under a name, with its type, or rejects.
// Reference: an ordered map from names to (type, value), compared in full after every operation.
#include "mc.hpp"
#include <limits>
#include <map>
#include <variant>
#include "option/path_dependent/barrier_option.h"
#include "option/parameter_object.h"
using namespace OptionPricer; using mc::X;
using Val = std::variant<int, double, std::string, BarrierDirection>; using Ref = std::map<std::string, Val>;
static const std::vector<std::string>& names() { static const std::vector<std::string> n{"K", "T", "k", "", "K1", "ticker", std::string("K\0x", 3), std::string(80, 'n') + "1", std::string(80, 'n') + "2"}; return n; }
static bool same(const Val& a, const Val& b) { if (a.index() != b.index()) return false; if (auto d = std::get_if<double>(&a)) { double e = std::get<double>(b); return std::memcmp(d, &e, 8) == 0; } return a == b; }
static std::string str(const Val& v) { char b[60]; switch (v.index()) { case 0: snprintf(b, 60, "int %d", std::get<int>(v)); return b; case 1: snprintf(b, 60, "double %.17g", std::get<double>(v)); return b; case 2: return "string '" + std::get<std::string>(v) + "'"; default: return std::get<BarrierDirection>(v) == BarrierDirection::Up ? "Up" : "Down"; } }
template<class T> void get(X& x, const ParameterObject& p, const std::string& n, const Val* want, const char* when) {
    const bool ok = want && std::holds_alternative<T>(*want); bool threw = false; Val got;
    try { got = p.getParameter<T>(n); } catch (const std::invalid_argument&) { threw = true; } catch (const std::exception& e) { x.fail("%s: reading '%s' throws %s, expected invalid_argument", when, n.c_str(), typeid(e).name()); }
    CHECK(x, threw == !ok, "%s: reading '%s' as type %zu is %s, holds %s", when, n.c_str(), Val(T{}).index(), threw ? "rejected" : "accepted", want ? str(*want).c_str() : "nothing");
    if (ok) CHECK(x, same(got, *want), "%s: '%s' is %s, set last %s", when, n.c_str(), str(got).c_str(), str(*want).c_str());
}
static void verify(X& x, const ParameterObject& p, const Ref& r, const char* when) {
    mc::Hash h;
    for (auto& n : names()) {
        auto it = r.find(n); const Val* w = it == r.end() ? nullptr : &it->second;
        CHECK(x, p.hasParameter(n) == !!w, "%s: hasParameter('%s') is %d", when, n.c_str(), int(!w));
        get<int>(x, p, n, w, when); get<double>(x, p, n, w, when); get<std::string>(x, p, n, w, when); get<BarrierDirection>(x, p, n, w, when);
        h(w ? str(*w) : "-");
    }
    x.state(h.h);
}
static const std::vector<Val>& small() { static const std::vector<Val> v{100.0, -0.0, 7, std::string("TK"), BarrierDirection::Down, BarrierDirection::Up}; return v; }
static const std::vector<Val>& large() {
    static std::vector<Val> v; if (!v.empty()) return v;
    for (int e = -1074; e < 1024; e += 29) { v.push_back(std::ldexp(1.3, e)); v.push_back(-std::ldexp(1.7, e)); }
    for (double d : std::initializer_list<double>{0.0, -0.0, 1.0, 0.1, HUGE_VAL, -HUGE_VAL, std::numeric_limits<double>::quiet_NaN(), 4294967296.0, 2147483647.0}) v.push_back(d);
    for (int i : {0, 1, -1, 2147483647, -2147483647 - 1, 65536, 256}) v.push_back(i);
    for (int n : {0, 1, 15, 16, 17, 300}) v.push_back(std::string(n, 's')); v.push_back(std::string("a\0b", 3)); v.push_back(std::string("1.0")); v.push_back(std::string("Up"));
    v.push_back(BarrierDirection::Up); v.push_back(BarrierDirection::Down); return v;
}
static void bodyHistory(X& x) {              // two sets, one of them a copy taken at some moment
    ParameterObject p, q; Ref rp, rq; const int D = mc::thorough ? 4 : 3;
    for (int d = 0; d < D; ++d) {
        int k = x.choose(3);
        if (k == 2) { int w = x.choose(4); x.step(); x.note("copy %d", w); switch (w) { case 0: q = p; rq = rp; break; case 1: p = q; rp = rq; break; case 2: { ParameterObject t(p); q = std::move(t); rq = rp; break; } case 3: { auto& s = p; p = s; break; } } }
        else { const auto& n = names()[x.choose(4)]; const Val& v = x.pick(small()); x.step(); x.note("set %d '%s' to %s", k, n.c_str(), str(v).c_str()); (k ? q : p).setParameter(n, v); (k ? rq : rp)[n] = v; }
        verify(x, p, rp, "first set"); verify(x, q, rq, "second set");
    }
}
static void bodyValues(X& x) {               // every value under every name, over a value of every type, among n others
    ParameterObject p; Ref r; const auto& n = x.pick(names()); const Val& v = x.pick(large()); int before = x.choose(5);
    if (before) { Val o = small()[std::vector<int>{0, 2, 3, 4}[before - 1]]; p.setParameter(n, o); r[n] = o; }
    if (x.flip()) for (auto& m : names()) if (m != n) { p.setParameter(m, 55); r[m] = 55; }
    p.setParameter(n, v); r[n] = v; x.step(); x.note("set '%s' to %s", n.c_str(), str(v).c_str()); verify(x, p, r, "value");
    p.setParameter(n, v); verify(x, p, r, "value set twice");
}
static void bodyMany(X& x) {                 // many names; one of them is replaced
    static const std::vector<int> N{1, 5, 11, 12, 13, 14, 28, 29, 30, 59, 60, 97, 98, 200, 541}; int n = x.pick(N), i = x.choose(n);
    ParameterObject p; for (int k = 0; k < n; ++k) p.setParameter("p" + std::to_string(k), 1.5 * k);
    ParameterObject c = p; p.setParameter("p" + std::to_string(i), std::string("new")); x.step();
    for (int k = 0; k < n; ++k) { std::string m = "p" + std::to_string(k); Val w = 1.5 * k, nw = std::string("new"); get<double>(x, c, m, &w, "copy"); get<double>(x, p, m, k == i ? &nw : &w, "original"); if (k == i) get<std::string>(x, p, m, &nw, "original"); }
    CHECK(x, !p.hasParameter("p" + std::to_string(n)) && !p.hasParameter("p") && !p.hasParameter("q0"), "a name that was never set is found");
}
static void bodyKinds(X& x) {                // arguments of the types users write
    ParameterObject p; Ref r; std::string lv = "lv"; const char* cs = "cs"; char arr[] = "arr"; const double cd = 2.5; int i = 3; float f = 0.25f;
    switch (x.choose(8)) {
        case 0: p.setParameter("K", 100.0); r["K"] = 100.0; break; case 1: p.setParameter("K", 100); r["K"] = 100; break;
        case 2: p.setParameter("K", lv); r["K"] = lv; lv = "changed"; break; case 3: p.setParameter("K", cs); r["K"] = std::string("cs"); break;
        case 4: p.setParameter("K", arr); r["K"] = std::string("arr"); arr[0] = 'z'; break; case 5: p.setParameter("K", cd); r["K"] = 2.5; break;
        case 6: p.setParameter("K", i); r["K"] = 3; i = 4; break; case 7: p.setParameter("K", f); r["K"] = 0.25; break;
    }
    x.step(); verify(x, p, r, "argument kinds");
    if (auto s = std::get_if<std::string>(&r["K"])) { std::string t = p.getParameter<std::string>("K"); t += "!"; CHECK(x, p.getParameter<std::string>("K") == *s, "changing a value that was read changes the set"); }
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"histories of two sets", bodyHistory, -1, 3, 20000});
    u.push_back({"values", bodyValues, -1, 2, 20000});
    u.push_back({"many names", bodyMany, -1, 2, 20000});
    u.push_back({"argument kinds", bodyKinds, -1, 1, 20000});
    return u;
})
