// C15: interpolation reproduces nodes, chords, parabolas and clamps outside.
#include "mc.hpp"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
using namespace OptionPricer; using mc::X; using V = std::vector<double>;
static double up(double v) { return std::nextafter(v, 1e308); }
static double dn(double v) { return std::nextafter(v, -1e308); }
static long double chord(const V& x, const V& y, size_t k, long double q) { return y[k] + (q - x[k]) * ((long double)y[k + 1] - y[k]) / ((long double)x[k + 1] - x[k]); }
static long double parabola(const V& x, const V& y, size_t k, long double q) {
    long double a = x[k - 1], b = x[k], c = x[k + 1];
    long double d1 = ((long double)y[k] - y[k - 1]) / (b - a), d2 = ((long double)y[k + 1] - y[k]) / (c - b), dd = (d2 - d1) / (c - a);
    return y[k - 1] + d1 * (q - a) + dd * (q - a) * (q - b);
}
static void ask(X& x, const V& xs, const V& ys, double q) {
    static LinearInterpolation L; static QuadraticInterpolation Q; size_t n = xs.size(); double mag = 0; for (double y : ys) mag = std::max(mag, std::fabs(y)); x.step(2);
    double l = L.interpolate(xs, ys, q), p = Q.interpolate(xs, ys, q); long double wl, wp; size_t k = 0; double cond = 1;
    if (q <= xs.front()) wl = wp = ys.front(); else if (q >= xs.back()) wl = wp = ys.back();
    else { while (q > xs[k + 1]) ++k; wl = chord(xs, ys, k, q); if (k == 0 || k == n - 2) wp = wl; else { wp = parabola(xs, ys, k, q); cond = 1 + (xs[k + 1] - xs[k]) / (xs[k] - xs[k - 1]); cond *= cond; } }
    for (size_t i = 0; i < n; ++i) if (q == xs[i]) wl = wp = ys[i];
    CHECK(x, std::isfinite(l) && fabsl(l - wl) <= 1e-11L * mag + 1e-300L, "linear, %zu nodes, query %.17g: %.17g, expected %.17Lg", n, q, l, wl);
    CHECK(x, std::isfinite(p) && fabsl(p - wp) <= 1e-11L * mag * cond + 1e-300L, "quadratic, %zu nodes, query %.17g in interval %zu: %.17g, expected %.17Lg", n, q, k, p, wp);
}
static void askAll(X& x, const V& xs, const V& ys, bool full = true) {
    ask(x, xs, ys, xs.front() - 1); ask(x, xs, ys, dn(xs.front())); ask(x, xs, ys, xs.back() + 1); ask(x, xs, ys, up(xs.back())); ask(x, xs, ys, -1e300); ask(x, xs, ys, 1e300); ask(x, xs, ys, -INFINITY); ask(x, xs, ys, INFINITY);
    for (size_t i = 0; i < xs.size(); ++i) {
        ask(x, xs, ys, xs[i]); if (full) { ask(x, xs, ys, up(xs[i])); ask(x, xs, ys, dn(xs[i])); }
        if (i + 1 < xs.size()) for (double f : full ? V{1e-12, 1e-3, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 0.9, 0.999} : V{0.3, 0.5, 0.8}) ask(x, xs, ys, xs[i] + f * (xs[i + 1] - xs[i]));
    }
    mc::Hash h; for (size_t i = 0; i < xs.size() && i < 20; ++i) h(xs[i])(ys[i]); h(xs.size()); x.state(h.h);
}
static const V& coords(int s) {
    static const std::vector<V> C = {{0, 1, 2, 3, 4, 5, 6, 7}, {-3, -2.5, -1, 0, 0.25, 2, 7, 7.5}, {0, 1e-3, 1e-2, 0.1, 1, 10, 100, 1000}, {100, 100.5, 101, 101.5, 102, 102.5, 103, 103.5}, {0.1, 0.2, 0.3, 0.4, 0.5, 0.6, 0.7, 0.8}, {1e6, 1e6 + 1, 1e6 + 2, 1e6 + 4, 1e6 + 8, 1e6 + 16, 1e6 + 32, 1e6 + 64}}; return C[s];
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    // every grid that is a subset of 8 coordinates, with every data pattern on up to 5 nodes and basis patterns above
    u.push_back({"all subset grids", [](X& x) {
        const V& c = coords(x.choose(6)); V xs; for (double v : c) if (x.flip()) xs.push_back(v); if (xs.empty()) return; V ys(xs.size());
        if (xs.size() <= (mc::thorough ? 6u : 4u)) for (auto& y : ys) y = x.pick(V{0, 1, -2}); else { int w = x.choose(int(xs.size()) + 3); for (size_t i = 0; i < xs.size(); ++i) ys[i] = w < int(xs.size()) ? (int(i) == w) : w == int(xs.size()) ? 3 * xs[i] - 1 : w == int(xs.size()) + 1 ? xs[i] * xs[i] - 2 * xs[i] : std::sin(5.0 * i) * 50; }
        x.note("%zu nodes from %g to %g", xs.size(), xs.front(), xs.back()); askAll(x, xs, ys);
    }, -1, 4});
    // large grids: every interval, uniform and stretched
    u.push_back({"large grids", [](X& x) {
        int n = x.pick(mc::thorough ? std::vector<int>{9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 101, 127, 128, 129, 200, 255, 256, 257, 500, 513, 1000, 1025, 4097} : std::vector<int>{9, 16, 17, 31, 33, 64, 65, 101, 127, 129, 200, 256, 257, 500, 1025}); int g = x.choose(4), d = x.choose(5); V xs(n), ys(n);
        for (int i = 0; i < n; ++i) { xs[i] = g == 0 ? i * 400.0 / (n - 1) : g == 1 ? -50 + i * 0.37 + 0.1 * (i % 3) : g == 2 ? std::exp(8.0 * i / (n - 1)) : i; ys[i] = d == 0 ? std::max(xs[i] - 100, 0.0) : d == 1 ? 2 * xs[i] + 1 : d == 2 ? xs[i] * xs[i] : d == 3 ? std::sin(1.3 * i) : (i == n / 2); }
        x.note("%d nodes, grid %d, data %d", n, g, d); askAll(x, xs, ys, n <= 257);
    }, -1, 3});
    // one deviating node value at every position
    u.push_back({"one spike", [](X& x) { int n = x.pick(std::vector<int>{2, 3, 4, 5, 6, 9, 20, 50}); int at = x.choose(n); V xs(n), ys(n, 1.0); for (int i = 0; i < n; ++i) xs[i] = 10 + 2.5 * i + (i > n / 2 ? 0.5 * (i - n / 2) : 0); ys[at] = -7; x.note("%d nodes, spike at %d", n, at); askAll(x, xs, ys); }, -1, 2});
    return u;
})
