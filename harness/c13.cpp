// C13: draws follow the law of the parameters; raw generator words are enumerated on lattices.
#include "mc.hpp"
#include "op.hpp"
#include <boost/math/special_functions/gamma.hpp>
#include <limits>
using namespace OptionPricer; using mc::X; using V = std::vector<double>; using L = std::numeric_limits<double>;
enum { UNI, NOR, EXPO, POI, GAM, STD, NK }; static const char* NAME[] = {"Uniform", "Normal", "Exponential", "Poisson", "Gamma", "StandardNormal"};
struct Law { int k; double a, b; };
static std::unique_ptr<Distribution> mk(const Law& l) {
    switch (l.k) { case UNI: return std::make_unique<ContinuousUniformDistribution>(l.a, l.b); case NOR: return std::make_unique<NormalDistribution>(l.a, l.b); case EXPO: return std::make_unique<ExponentialDistribution>(l.a); case POI: return std::make_unique<PoissonDistribution>(l.a); case GAM: return std::make_unique<GammaDistribution>(l.a, l.b); default: return std::make_unique<StandardNormalDistribution>(); }
}
static std::string str(const Law& l) { char b[80]; std::snprintf(b, 80, l.k == STD ? "%s" : l.k == EXPO || l.k == POI ? "%s(%g)" : "%s(%g,%g)", NAME[l.k], l.a, l.b); return b; }
static double mean(const Law& l) { switch (l.k) { case UNI: return (l.a + l.b) / 2; case NOR: return l.a; case EXPO: return 1 / l.a; case POI: return l.a; case GAM: return l.a / l.b; default: return 0; } }
static double sdev(const Law& l) { switch (l.k) { case UNI: return (l.b - l.a) / std::sqrt(12.0); case NOR: return l.b; case EXPO: return 1 / l.a; case POI: return std::sqrt(l.a); case GAM: return std::sqrt(l.a) / l.b; default: return 1; } }
static double cdf(const Law& l, double v) {
    switch (l.k) { case UNI: return v <= l.a ? 0 : v >= l.b ? 1 : (v - l.a) / (l.b - l.a); case NOR: return 0.5 * std::erfc(-(v - l.a) / l.b / std::sqrt(2.0)); case STD: return 0.5 * std::erfc(-v / std::sqrt(2.0)); case EXPO: return v <= 0 ? 0 : -std::expm1(-l.a * v);
        case POI: return v < 0 ? 0 : boost::math::gamma_q(std::floor(v) + 1, l.a); default: return v <= 0 ? 0 : boost::math::gamma_p(l.a, l.b * v); }
}
static bool supported(const Law& l, double v) { if (!std::isfinite(v)) return false; switch (l.k) { case UNI: return v >= l.a && v <= l.b; case EXPO: return v >= 0; case POI: return v >= 0 && v == std::floor(v); case GAM: return v >= 0; default: return true; } }
// How many of the given words did the draw use? (the filler words after them are distinct)
struct Draw { double v; int used; };
static Draw draw(Distribution& d, std::mt19937 g) {
    std::mt19937 ref = g; double v = d(g); int used = 0; while (used < 64 && !(g == ref)) { ref(); ++used; } return {v, used};
}
// The law over a lattice of k uniforms per dimension: the draws that use exactly `dims` uniforms (rejection
// samplers discard the rest) must have the law's moments and distribution function up to the lattice error.
static void lattice(X& x, const Law& l, int dims, int k, double tolF, double tolM, int which, bool moments = true) {
    long n = 1; for (int i = 0; i < dims; ++i) n *= k; std::vector<double> vs; vs.reserve(n); 
    for (long c = 0; c < n; ++c) {
        std::vector<uint32_t> w; long r = c; for (int i = 0; i < dims; ++i) { op::pushU(w, (r % k + 0.5) / k); r /= k; }
        auto d = mk(l); std::mt19937 g = op::engineWith(w);
        double v = 0; int used = 0; std::mt19937 at = g; for (int q = 0; q <= which; ++q) { Draw t = draw(*d, at); v = t.v; used += t.used; at.discard(t.used); }
        x.step(); CHECK(x, supported(l, v), "%s produced %.17g", str(l).c_str(), v); if (used != 2 * dims) continue; vs.push_back(v);
    }
    CHECK(x, vs.size() > n / 4, "%s: only %zu of %ld lattice points were accepted", str(l).c_str(), vs.size(), n);
    std::sort(vs.begin(), vs.end()); long double m = 0, q = 0; for (double v : vs) m += v; m /= vs.size(); for (double v : vs) q += (v - m) * (v - m); double sd = std::sqrt(double(q / vs.size())), D = 0, N = vs.size();
    for (size_t i = 0; i < vs.size(); ) { size_t j = i; while (j < vs.size() && vs[j] == vs[i]) ++j; double F = cdf(l, vs[i]); double lo = l.k == POI ? cdf(l, vs[i] - 1) : F; D = std::max({D, std::fabs(F - j / N), std::fabs(lo - i / N)}); i = j; }
    x.note("%s draw %d over %d^%d lattice: accepted %zu, mean %.6g (%.6g), deviation %.6g (%.6g), distance %.4g", str(l).c_str(), which + 1, k, dims, vs.size(), double(m), mean(l), sd, sdev(l), D);
    if (getenv("SHOW")) std::printf("%s d%d acc %zu/%ld mean err %.4g sd err %.4g D %.4g\n", str(l).c_str(), which, vs.size(), n, (double(m) - mean(l)) / sdev(l), sd / sdev(l) - 1, D);
    CHECK(x, D <= tolF, "%s: distribution function off by %.4g (draw %d)", str(l).c_str(), D, which + 1); if (moments) { CHECK(x, std::fabs(double(m) - mean(l)) <= tolM * sdev(l), "%s: mean %.8g, expected %.8g", str(l).c_str(), double(m), mean(l)); CHECK(x, std::fabs(sd - sdev(l)) <= 2 * tolM * sdev(l), "%s: standard deviation %.8g, expected %.8g", str(l).c_str(), sd, sdev(l)); }
    mc::Hash h; h(l.k)(l.a)(l.b)(dims)(which); x.state(h.h);
}
// engine states: first words at lattice values, or an ordinary seeded state
static std::mt19937 engine(X& x) { static const V U = {1e-9, 0.02, 0.31, 0.5, 0.77, 0.98, 1 - 1e-9}; if (x.flip()) return std::mt19937(unsigned(x.choose(60)) * 2654435761u + 5); std::vector<uint32_t> w; for (int i = 0; i < 3; ++i) op::pushU(w, x.pick(U)); return op::engineWith(w); }
MC_MAIN([] {
    std::vector<mc::Unit> u; 
    static const std::vector<Law> UL = {{UNI, 0, 1}, {UNI, -1, 1}, {UNI, 2, 5}, {UNI, -10, -3}, {UNI, 100, 100.5}, {UNI, 0, 1000}}, EL = {{EXPO, 0.01, 0}, {EXPO, 0.5, 0}, {EXPO, 1, 0}, {EXPO, 2, 0}, {EXPO, 10, 0}, {EXPO, 50, 0}, {EXPO, 1000, 0}};
    static const std::vector<Law> NL = {{STD, 0, 1}, {NOR, 0, 1}, {NOR, 3, 1}, {NOR, -0.1, 0.2}, {NOR, 0, 10}, {NOR, 100, 0.01}}, GL = {{GAM, 1, 1}, {GAM, 1, 4}, {GAM, 2, 1}, {GAM, 3.5, 0.5}, {GAM, 10, 10}, {GAM, 50, 5}}, GS = {{GAM, 0.1, 1}, {GAM, 0.1, 5}, {GAM, 0.25, 4}, {GAM, 0.5, 2}, {GAM, 0.9, 1}, {GAM, 0.02, 0.02}};
    int kn = mc::thorough ? 200 : 80, kg = mc::thorough ? 64 : 40, ks = mc::thorough ? 32 : 22;
    u.push_back({"uniform law", [](X& x) { lattice(x, x.pick(UL), 1, 2000, 0.001, 0.002, 0); }, -1, 1});
    u.push_back({"exponential law", [](X& x) { lattice(x, x.pick(EL), 1, 2000, 0.001, 0.01, 0); }, -1, 1});
    // both ends of the range, point by point: the draw has exactly the given probability below or above it
    u.push_back({"uniform and exponential tails", [](X& x) {
        const Law& l = x.flip() ? x.pick(EL) : x.pick(UL); bool top = x.flip(); double q = std::ldexp(1 + x.choose(8) / 8.0, -1 - (1 + x.choose(50))); std::vector<uint32_t> w; op::pushU(w, top ? 1 - q : q); auto d = mk(l); Draw t = draw(*d, op::engineWith(w)); x.step(); CHECK(x, supported(l, t.v), "%s produced %.17g", str(l).c_str(), t.v); if (t.used != 2) return;
        double lo = l.k == UNI ? (t.v - l.a) / (l.b - l.a) : -std::expm1(-l.a * t.v), up = l.k == UNI ? (l.b - t.v) / (l.b - l.a) : std::exp(-l.a * t.v), tol = 1e-9 * q + 3e-16 + (l.k == UNI ? 1e-15 * (std::fabs(l.a) + std::fabs(l.b)) / (l.b - l.a) : 0);
        CHECK(x, std::fabs(lo - q) <= tol || std::fabs(up - q) <= tol, "%s: a draw at probability %.10g from the %s end is %.17g, which leaves %.10g below and %.10g above", str(l).c_str(), q, top ? "upper" : "lower", t.v, lo, up); mc::Hash h; h(l.k)(l.a)(q)(top); x.state(h.h);
    }, -1, 2});
    u.push_back({"normal law", [kn](X& x) { const Law& l = x.pick(NL); lattice(x, l, 2, kn, 0.006, 0.003, x.choose(2)); }, -1, 2});
    u.push_back({"gamma law, shape >= 1", [kg](X& x) { lattice(x, x.pick(GL), 3, kg, 0.02, 0.008, 0); }, -1, 1});
    u.push_back({"gamma law, shape < 1", [ks](X& x) { const Law& l = x.pick(GS); lattice(x, l, 4, ks, 0.03, 0.02, 0, l.a >= 0.1); }, -1, 1});
    // Poisson: probability of 0, 1 and 2 events over all words of a lattice
    u.push_back({"Poisson law", [](X& x) {
        static const V LS = {0.0005, 0.001, 0.01, 0.05, 0.1, 0.3, 0.7, 1, 1.5, 2, 3, 5}; double lam = x.pick(LS); int k = mc::thorough ? 60 : 40; long cnt[4] = {0, 0, 0, 0}, n = 0; Law l{POI, lam, 0};
        for (int a = 0; a < k; ++a) for (int b = 0; b < k; ++b) for (int c = 0; c < k; ++c) { std::vector<uint32_t> w; op::pushU(w, (a + 0.5) / k); op::pushU(w, (b + 0.5) / k); op::pushU(w, (c + 0.5) / k); for (int i = 0; i < 60; ++i) op::pushU(w, 0.5); std::mt19937 g = op::engineWith(w); PoissonDistribution d(lam); double v = d(g); x.step(); CHECK(x, supported(l, v), "Poisson(%g) produced %g", lam, v); ++cnt[v < 3 ? int(v) : 3]; ++n; }
        for (int i = 0; i < 3; ++i) { double p = std::exp(-lam) * std::pow(lam, i) / std::tgamma(i + 1.0); x.note("Poisson(%g): P(%d) over the lattice %.4f, law %.4f", lam, i, cnt[i] / double(n), p); CHECK(x, std::fabs(cnt[i] / double(n) - p) <= 0.6 / k + 0.015, "Poisson(%g): %d events on %.4f of the lattice, probability %.4f", lam, i, cnt[i] / double(n), p); }
        mc::Hash h; h(lam); x.state(h.h);
    }, -1, 1});
    // the same engine state: draws shift and scale with the parameters, at every draw of a history
    u.push_back({"scaling and shifting", [](X& x) {
        int k = x.choose(4); std::mt19937 g0 = engine(x); double m = x.pick(V{0, 1, -3.5, 100}), s = x.pick(V{1, 0.01, 0.2, 7, 1000}); double shape = k == 3 ? x.pick(V{0.01, 0.3, 1, 2.5, 40}) : 1;
        std::unique_ptr<Distribution> base, par; if (k == 0) { base = mk({UNI, 0, 1}); par = mk({UNI, m, m + s}); } else if (k == 1) { base = mk({NOR, 0, 1}); par = mk({NOR, m, s}); } else if (k == 2) { base = mk({EXPO, 1, 0}); par = mk({EXPO, 1 / s, 0}); m = 0; } else { base = mk({GAM, shape, 1}); par = mk({GAM, shape, 1 / s}); m = 0; }
        std::mt19937 g1 = g0, g2 = g0; for (int i = 0; i < 6; ++i) { double a = (*base)(g1), b = (*par)(g2); x.step(); CHECK(x, mc::near(b, m + s * a, 1e-11, 1e-11 * (std::fabs(m) + s)), "%s: draw %d is %.15g for location %g and scale %g, the standard draw is %.15g", NAME[k == 2 ? EXPO : k == 3 ? GAM : k], i, b, m, s, a); } CHECK(x, g1 == g2, "different numbers of generator words used");
        mc::Hash h; h(k)(m)(s)(shape); x.state(h.h); }, -1, 3});
    u.push_back({"standard normal is Normal(0,1)", [](X& x) { std::mt19937 g = engine(x), h = g; StandardNormalDistribution a; NormalDistribution b(0, 1); for (int i = 0; i < 5; ++i) { double p = a(g), q = b(h); x.step(); CHECK(x, p == q, "draw %d: %.17g and %.17g", i, p, q); } }, -1, 2});
    // objects do not influence each other, whatever the order of construction and use
    u.push_back({"independence of objects", [](X& x) {
        static const std::vector<Law> LS = {{UNI, 0, 1}, {UNI, 2, 5}, {NOR, 0, 1}, {NOR, 3, 2}, {EXPO, 2, 0}, {EXPO, 0.5, 0}, {POI, 0.4, 0}, {POI, 3, 0}, {POI, 20, 0}, {GAM, 2, 3}, {GAM, 0.3, 1}, {GAM, 2, 1}, {STD, 0, 1}};
        int a = x.choose(int(LS.size())), b = x.choose(int(LS.size())); auto solo = [&](int i) { auto d = mk(LS[i]); std::mt19937 g(unsigned(7 + i)); V v; for (int q = 0; q < 4; ++q) v.push_back((*d)(g)); return v; }; V ra = solo(a), rb = solo(b); auto da = mk(LS[a]), db = mk(LS[b]); std::mt19937 ga(7 + a), gb(7 + b); size_t ia = 0, ib = 0;
        while (ia < 4 || ib < 4) { bool first = ib >= 4 || (ia < 4 && !x.flip()); x.step(); if (first) { double v = (*da)(ga); CHECK(x, v == ra[ia], "%s next to %s: draw %zu is %.17g, alone %.17g", str(LS[a]).c_str(), str(LS[b]).c_str(), ia, v, ra[ia]); ++ia; } else { double v = (*db)(gb); CHECK(x, v == rb[ib], "%s next to %s: draw %zu is %.17g, alone %.17g", str(LS[b]).c_str(), str(LS[a]).c_str(), ib, v, rb[ib]); ++ib; } }
        mc::Hash h; h(a)(b); x.state(h.h); }, -1, 2});
    // larger Poisson means: on every enumerated state the standard library's draw, or else moments over all those states
    u.push_back({"Poisson law, larger means", [](X& x) {
        double lam = x.pick(V{0.5, 2, 5, 8, 11.9, 12, 13, 20, 50, 100, 1000, 1e5}); int k = 12; long diff = 0, n = 0; long double s = 0, q = 0; PoissonDistribution d(lam);
        for (int a = 0; a < k * k * k; ++a) { std::vector<uint32_t> w; op::pushU(w, (a % k + 0.5) / k); op::pushU(w, (a / k % k + 0.5) / k); op::pushU(w, (a / k / k + 0.5) / k); std::mt19937 g = op::engineWith(w, 1 + a), h = g; std::poisson_distribution<> ref(lam); for (int i = 0; i < 3; ++i) { double v = d(g); x.step(); CHECK(x, supported({POI, lam, 0}, v), "Poisson(%g) produced %g", lam, v); if (v != ref(h)) ++diff; s += v; q += (long double)v * v; ++n; } d = PoissonDistribution(lam); }
        double m = double(s / n), sd = std::sqrt(std::max(0.0, double(q / n - (s / n) * (s / n)))); x.note("Poisson(%g): mean %.6g, deviation %.6g over %ld draws, %ld differ from the standard library's", lam, m, sd, n, diff);
        if (diff) {     // another sampler than the standard library's: its law over four million consecutive states of eight generators
            std::map<long, long> cnt; long M = 0; long double t = 0, t2 = 0; for (unsigned sd0 = 1; sd0 <= 8; ++sd0) { std::mt19937 g(sd0); for (int i = 0; i < 500000; ++i) { double v = d(g); ++cnt[long(v)]; t += v - lam; t2 += (v - lam) * (v - lam); ++M; } mc::g_ticks = 0; } double mm = double(t / M) / std::sqrt(lam), ss = std::sqrt(double(t2 / M)) / std::sqrt(lam) - 1, ks = 0, acc = 0, cdf = 0; long lo = std::max(0L, long(lam - 10 * std::sqrt(lam)) - 1), hi = long(lam + 12 * std::sqrt(lam)) + 20; for (long v = lo; v <= hi; ++v) { auto it = cnt.find(v); acc += it == cnt.end() ? 0 : it->second / double(M); cdf += std::exp(v * std::log(lam) - lam - std::lgamma(v + 1.0)); ks = std::max(ks, std::fabs(acc - cdf)); }
            CHECK(x, std::fabs(mm) <= 0.004 && std::fabs(ss) <= 0.004 && ks <= 0.003, "Poisson(%g): over %ld states the mean is off by %.4f and the standard deviation by %.4f standard deviations, the distribution function by %.4f", lam, M, mm, ss, ks); }
        if (diff) CHECK(x, std::fabs(m - lam) <= 0.15 * std::sqrt(lam) && std::fabs(sd / std::sqrt(lam) - 1) <= 0.1, "Poisson(%g): mean %g and standard deviation %g over all states", lam, m, sd); mc::Hash h; h(lam); x.state(h.h); }, -1, 1});
    // tails: whatever the sampler, some of the extreme raw words must take each law as far out as it reaches
    u.push_back({"tails are reached", [](X& x) {
        static const std::vector<Law> LS = {{UNI, 0, 1}, {UNI, 2, 5}, {UNI, -10, -3}, {NOR, 0, 1}, {NOR, 3, 2}, {NOR, -0.1, 0.01}, {STD, 0, 1}, {EXPO, 0.5, 0}, {EXPO, 1, 0}, {EXPO, 50, 0}, {POI, 0.001, 0}, {POI, 0.1, 0}, {POI, 0.5, 0}, {POI, 1, 0}, {POI, 3, 0}, {POI, 8, 0}, {GAM, 0.1, 1}, {GAM, 0.25, 4}, {GAM, 0.5, 2}, {GAM, 1, 1}, {GAM, 1, 4}, {GAM, 3.5, 0.5}, {GAM, 50, 5}};
        static const V W = {1e-12, 1e-6, 0.3, 0.5 - 1e-9, 0.5 - 1e-5, 0.5 + 1e-5, 0.5 + 1e-9, 0.8, 1 - 1e-6, 1 - 1e-12}, F = {0.5, 0.9, 0.99, 0.999}; const Law& l = x.pick(LS); double lo = 1e300, hi = -1e300; int k = int(W.size());
        for (double f : F) for (int c = 0; c < k * k * k * k; ++c) { std::vector<uint32_t> w; for (int i = 0, r = c; i < 4; ++i, r /= k) op::pushU(w, W[r % k]); for (int i = 0; i < 300; ++i) op::pushU(w, f); auto d = mk(l); std::mt19937 g = op::engineWith(w); double v = (*d)(g); if (c % 500 == 0) x.step(); CHECK(x, supported(l, v), "%s produced %.17g", str(l).c_str(), v); lo = std::min(lo, v); hi = std::max(hi, v); }
        double pl = cdf(l, lo), ph = l.k == UNI ? (l.b - hi) / (l.b - l.a) : l.k == POI ? boost::math::gamma_p(hi + 1, l.a) : l.k == EXPO ? std::exp(-l.a * hi) : l.k == GAM ? boost::math::gamma_q(l.a, l.b * hi) : 0.5 * std::erfc((hi - mean(l)) / sdev(l) / std::sqrt(2.0));
        if (getenv("SHOW")) std::printf("%s: lo %g (%.2g) hi %g (%.2g)\n", str(l).c_str(), lo, pl, hi, ph);
        x.note("%s: draws between %g and %g", str(l).c_str(), lo, hi); CHECK(x, ph <= 1e-8, "%s: no enumerated state draws more than %g, which the law exceeds with probability %.3g", str(l).c_str(), hi, ph); if (l.k == POI) CHECK(x, lo <= 0 || pl <= 1e-8, "%s: smallest draw %g", str(l).c_str(), lo); else CHECK(x, pl <= (l.k == GAM ? 0.02 : 1e-5), "%s: no enumerated state draws less than %g, which the law does with probability %.3g", str(l).c_str(), lo, pl); mc::Hash h; h(l.k)(l.a)(l.b); x.state(h.h); }, -1, 1});
    u.push_back({"parameter domain", [](X& x) {
        static const V P = {-1e300, -5, -1, -1e-9, -L::denorm_min(), -0.0, 0, 1e-300, 1e-9, 0.5, 1, 2, 1e6}; int k = x.choose(5); double a = x.pick(P), b = k == UNI || k == NOR || k == GAM ? x.pick(P) : 1; bool bad = k == UNI ? a >= b : k == NOR ? b <= 0 : k == GAM ? a <= 0 || b <= 0 : a <= 0, threw = false; if (k == POI && a > 1e9) return; x.step(); try { mk({k, a, b}); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw == bad, "%s: %s", str({k, a, b}).c_str(), threw ? "rejected" : "accepted"); mc::Hash h; h(k)(a)(b); x.state(h.h); }, -1, 2});
    return u;
})
