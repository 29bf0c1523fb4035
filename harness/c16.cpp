// C16: basis functions are the polynomials they are named after (explicit coefficients in quadruple precision).
#include "mc.hpp"
#include <memory>
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/laguerre.h"
using namespace OptionPricer; using mc::X; using Q = __float128;
static std::unique_ptr<BasisFunction> mk(int f, unsigned n) { switch (f) { case 0: return std::make_unique<MonomialBasisFunction>(n); case 1: return std::make_unique<ChebyshevBasisFunction>(n); case 2: return std::make_unique<LegendreBasisFunction>(n); default: return std::make_unique<LaguerreBasisFunction>(n); } }
static const char* FN[] = {"monomial", "Chebyshev", "Legendre", "Laguerre"};
static Q fact(int n) { Q r = 1; for (int i = 2; i <= n; ++i) r *= i; return r; }
static Q binom(int n, int k) { return k < 0 || k > n ? 0 : fact(n) / fact(k) / fact(n - k); }
static const std::vector<Q>& coef(int f, int n) {          // explicit formulas, not recurrences
    static std::vector<Q> C[4][40]; auto& c = C[f][n]; if (!c.empty()) return c; c.assign(n + 1, 0);
    if (f == 0) c[n] = 1;
    else if (f == 1) { if (n == 0) c[0] = 1; else for (int k = 0; 2 * k <= n; ++k) { Q p = 1; for (int i = 0; i < n - 2 * k; ++i) p *= 2; c[n - 2 * k] = (k % 2 ? -1 : 1) * (Q)n / 2 * fact(n - k - 1) / fact(k) / fact(n - 2 * k) * p; } }
    else if (f == 2) { Q p = 1; for (int i = 0; i < n; ++i) p *= 2; for (int k = 0; 2 * k <= n; ++k) c[n - 2 * k] = (k % 2 ? -1 : 1) * binom(n, k) * binom(2 * n - 2 * k, n) / p; }
    else for (int k = 0; k <= n; ++k) c[k] = (k % 2 ? -1 : 1) * binom(n, k) / fact(k);
    return c;
}
static void value(X& x, int f, int n, double t, double got, const char* what) {
    auto& c = coef(f, n); Q s = 0, mag = 0, p = 1; for (int k = 0; k <= n; ++k) { Q v = c[k] * p; s += v; mag += v < 0 ? -v : v; p *= t; }
    if (!(mag < (Q)1e300)) return;                          // beyond double range
    Q d = (Q)got - s; if (d < 0) d = -d; x.step();
    if ((f == 1 || f == 2) && std::fabs(t) <= 1) mag = std::min(mag, (Q)100);   // the recurrences are stable there
    CHECK(x, std::isfinite(got) && d <= (Q)1e-12 * mag + (Q)1e-300, "%s polynomial of degree %d at %.17g: %.17g, expected %.17g (%s)", FN[f], n, t, got, double(s), what);
}
static const std::vector<double>& lattice() { static std::vector<double> v = [] { std::vector<double> w; for (int i = -80; i <= 80; ++i) w.push_back(i / 16.0); for (double d : {0.1, 0.3, 1.0 / 3, 0.7, 0.999999, 1.000001, 7.5, 10.0, 36.0, 50.0, 80.0, 95.5, 100.0, 123.456, 1000.0, 1e5, 1e-3, 1e-9, 1e-300, 1e8}) { w.push_back(d); w.push_back(-d); } return w; }(); return v; }
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"values", [](X& x) {
        int f = x.choose(4); unsigned n = 1 + x.choose(40); double t = x.pick(lattice()); auto b = mk(f, n); Eigen::VectorXd v(1); v[0] = t; auto M = b->generate(v);
        CHECK(x, M.rows() == 1 && M.cols() == long(n), "%s with %u functions: matrix %ldx%ld for one abscissa", FN[f], n, long(M.rows()), long(M.cols()));
        for (unsigned k = 0; k < n; ++k) value(x, f, int(k), t, M(0, k), "alone"); mc::Hash h; h(f)(n)(t); x.state(h.h);
    }, -1, 2});
    // all abscissa vectors of length up to 3 over 6 values: each row depends on its own abscissa only
    u.push_back({"small vectors", [](X& x) {
        int f = x.choose(4); unsigned n = 1 + x.choose(6); int m = x.choose(4); Eigen::VectorXd v(m); for (int i = 0; i < m; ++i) v[i] = x.pick(std::vector<double>{-1.5, 0, 0.25, 1, 2, 100}); auto b = mk(f, n); Eigen::VectorXd w = v; auto M = b->generate(v);
        CHECK(x, M.rows() == m && M.cols() == long(n), "%s: matrix %ldx%ld for %d abscissae and %u functions", FN[f], long(M.rows()), long(M.cols()), m, n); CHECK(x, v == w, "abscissae changed");
        for (int i = 0; i < m; ++i) for (unsigned k = 0; k < n; ++k) value(x, f, int(k), v[i], M(i, k), "in a vector"); mc::Hash h; h(f)(n)(m); for (int i = 0; i < m; ++i) h(v[i]); x.state(h.h);
    }, -1, 3});
    u.push_back({"long vectors, repeated and mixed use", [](X& x) {
        int f = x.choose(4); unsigned n = 1 + x.choose(8); int m = x.pick(std::vector<int>{4, 5, 8, 15, 16, 17, 64, 100, 1000, 4097}); Eigen::VectorXd v(m); for (int i = 0; i < m; ++i) v[i] = 60 * std::sin(1.0 + 0.7 * i) + (i % 5); auto b = mk(f, n); auto c = mk((f + 1) % 4, n + 1);
        auto M = b->generate(v); auto N = c->generate(v.head(3)); auto M2 = b->generate(v); CHECK(x, M == M2, "%s: second call differs", FN[f]); for (int i = 0; i < m; ++i) for (unsigned k = 0; k < n; ++k) value(x, f, int(k), v[i], M(i, k), "in a long vector");
        for (int i = 0; i < 3; ++i) for (unsigned k = 0; k < n + 1; ++k) value(x, (f + 1) % 4, int(k), v[i], N(i, k), "second basis"); mc::Hash h; h(f)(n)(m); x.state(h.h);
    }, -1, 3});
    u.push_back({"number of functions", [](X& x) { int f = x.choose(4); bool threw = false; x.step(); try { mk(f, 0); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw, "%s basis with zero functions is accepted", FN[f]); auto b = mk(f, 1); Eigen::VectorXd v(2); v << 3, 4; auto M = b->generate(v); CHECK(x, M.cols() == 1 && M(0, 0) == 1 && M(1, 0) == 1, "%s basis with one function", FN[f]); x.state(f); }});
    return u;
})
