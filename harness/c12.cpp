// C12: standard normal quantile function, against a quadruple-precision inversion of erfc.
#include "mc.hpp"
#include <limits>
#include <quadmath.h>
#include "random/distribution/standard_normal_distribution.h"
using namespace OptionPricer; using mc::X; using F = __float128;
static F Phi(F x) { return erfcq(-x / sqrtq(F(2))) / 2; }
static double truth(double u) {                              // u <= 0.5
    F q = u, x = u > 0.02 ? F((u - 0.5) * 2.5) : -sqrtq(-2 * logq(q));
    for (int i = 0; i < 200; ++i) { F f = expq(-x * x / 2) / sqrtq(2 * M_PIq), P = Phi(x), d = u < 0.02 ? (logq(P) - logq(q)) * P / f : (P - q) / f; if (d > 0.5) d = 0.5; if (d < -0.5) d = -0.5; x -= d; if (fabsq(d) < 1e-22) break; }
    return double(x);
}
static double tol(double u, double t) { return (u >= 1e-15 ? 1e-8 : 1e-3) * (1 + std::fabs(t)); }
static double inv(X& x, const StandardNormalDistribution& d, double u) { x.step(); double v; try { v = d.inv_cdf(u); } catch (const std::exception& e) { x.fail("quantile %.17g rejected: %s", u, e.what()); } return v; }
// one point: accuracy, oddness, local order
static void at(X& x, double u) {
    StandardNormalDistribution d; if (!(u > 0 && u < 1)) return; double lo = u <= 0.5 ? u : 1 - u; if (lo <= 0) return; double t = truth(lo); if (u > 0.5) t = -t; double v = inv(x, d, u);
    CHECK(x, std::fabs(v - t) <= tol(lo, t), "quantile of %.17g is %.12g, the true value is %.12g (error %g)", u, v, t, v - t);
    if (1 - (1 - u) == u && 1 - u < 1) { double w = inv(x, d, 1 - u); CHECK(x, std::fabs(v + w) <= 1e-12 * (1 + std::fabs(v)), "not odd: quantiles of %.17g and its complement are %.15g and %.15g", u, v, w); }
    double n = std::nextafter(u, 2.0); if (n < 1) { double w = inv(x, d, n); CHECK(x, w >= v - 1e-13 * (1 + std::fabs(v)), "decreasing: quantile %.17g -> %.17g but %.17g -> %.17g", u, v, n, w); }
    x.note("u=%.17g x=%.15g true=%.15g", u, v, t); mc::Hash h; h(u); x.state(h.h);
}
// a block of consecutive lattice points: order across the block, every point at()
static void block(X& x, const std::function<double(long)>& f, long n, long B) {
    long b = x.choose(int((n + B - 1) / B)); StandardNormalDistribution d; double pu = -1, pv = 0;
    for (long i = b * B; i < std::min(n, (b + 1) * B + 1); ++i) { double u = f(i); if (!(u > 0 && u < 1)) continue; at(x, u); double v = d.inv_cdf(u); if (pu >= 0 && u > pu) CHECK(x, v >= pv - 1e-13 * (1 + std::fabs(pv)), "decreasing: quantile %.17g -> %.17g but %.17g -> %.17g", pu, pv, u, v); pu = u; pv = v; }
}
MC_MAIN([] {
    std::vector<mc::Unit> u; using L = std::numeric_limits<double>;
    long n = mc::thorough ? 3000000 : 300000;
    u.push_back({"uniform lattice", [n](X& x) { block(x, [n](long i) { return double(i) / n; }, n + 1, 250); }, -1, 1});
    u.push_back({"lower tail", [](X& x) { long m = mc::thorough ? 200000 : 20000; block(x, [m](long i) { return std::exp(-744.4 + (744.4 + std::log(0.5)) * i / m); }, m + 1, 100); }, -1, 1});
    u.push_back({"upper tail", [](X& x) { long m = mc::thorough ? 200000 : 10000; block(x, [m](long i) { return 1 - std::exp(-36.7 + (36.7 + std::log(0.5)) * (m - i) / m); }, m + 1, 100); }, -1, 1});
    u.push_back({"powers of two", [](X& x) { int e = x.choose(1074), k = x.choose(3), s = x.flip(); double v = std::ldexp(1.0, -1 - e); if (k == 1) v = std::nextafter(v, 0.0); if (k == 2) v = std::nextafter(v, 1.0); if (s) v = 1 - v; at(x, v); }, -1, 1});
    u.push_back({"region boundaries", [](X& x) { static const std::vector<double> C = {0.08, 0.92, 0.5, 0.42, 0.58, 0.25, 0.75, 0.02425, 0.97575, 1e-3, 0.999, 0.1, 0.9, 0.01, 0.99, 0.05, 0.95}; double v = x.pick(C); int k = x.choose(401) - 200, unit = x.choose(3); if (unit == 0) for (int i = 0; i < std::abs(k); ++i) v = std::nextafter(v, k < 0 ? 0.0 : 1.0); else v += k * (unit == 1 ? 1e-10 : 1e-6); at(x, v); }, -1, 2});
    u.push_back({"Sobol and Faure points", [](X& x) { int base = x.pick(std::vector<int>{2, 3, 5, 7, 11, 13}); long p = 1; while (p * base <= (mc::thorough ? 60000 : 6000)) p *= base; long k = x.choose(40); for (long i = k * (p / 40) + 1; i <= (k + 1) * (p / 40); ++i) at(x, double(i) / p); }, -1, 2});
    u.push_back({"domain", [](X& x) {
        double q = x.pick(std::vector<double>{0, -0.0, 1, std::nextafter(1.0, 2), -L::denorm_min(), -1e-300, -0.5, -1, 1.5, 2, 1e300, -1e300, L::infinity(), -L::infinity()}); StandardNormalDistribution d; x.step(); bool threw = false; double v = 0; try { v = d.inv_cdf(q); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw, "quantile %.17g accepted (%g)", q, v); mc::Hash h; h(q); x.state(h.h);
    }, -1, 1});
    u.push_back({"domain inside", [](X& x) { double q = x.pick(std::vector<double>{L::denorm_min(), L::min(), std::nextafter(1.0, 0), 1 - 1e-15, 1e-308, 0.5}); StandardNormalDistribution d; double v = inv(x, d, q); CHECK(x, std::isfinite(v) && std::fabs(v) < 40, "quantile of %.17g is %g", q, v); mc::Hash h; h(q); x.state(h.h); }, -1, 1});
    return u;
})
