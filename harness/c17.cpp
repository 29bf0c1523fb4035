// C17: regressions return the minimiser they stand for.
#include "mc.hpp"
#include <memory>
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
using namespace OptionPricer; using mc::X; using Mat = Eigen::MatrixXd; using Vec = Eigen::VectorXd;
// basis of the null space of a small integer matrix
static Mat nullspace(Mat A) {
    int m = int(A.rows()), n = int(A.cols()), r = 0; std::vector<int> piv; 
    for (int c = 0; c < n && r < m; ++c) { int p = r; for (int i = r; i < m; ++i) if (std::fabs(A(i, c)) > std::fabs(A(p, c))) p = i; if (std::fabs(A(p, c)) < 1e-9) continue; A.row(p).swap(A.row(r)); A.row(r) /= A(r, c); for (int i = 0; i < m; ++i) if (i != r) A.row(i) -= A(i, c) * Vec(A.row(r)).transpose(); piv.push_back(c); ++r; }
    std::vector<int> free; for (int c = 0; c < n; ++c) if (std::find(piv.begin(), piv.end(), c) == piv.end()) free.push_back(c);
    Mat N = Mat::Zero(n, free.size()); for (size_t k = 0; k < free.size(); ++k) { N(free[k], k) = 1; for (size_t i = 0; i < piv.size(); ++i) N(piv[i], k) = -A(i, free[k]); } return N;
}
static void note(X& x, const Mat& A, const Vec& y) { if (!x.recording) return; for (int i = 0; i < A.rows() && i < 8; ++i) { std::string s; for (int j = 0; j < A.cols(); ++j) { char b[24]; std::snprintf(b, 24, " %g", A(i, j)); s += b; } x.note("[%s ] y=%g", s.c_str(), y[i]); } }
static Vec checkLS(X& x, const Mat& A, const Vec& y) {
    LeastSquaresRegression ls; Mat A0 = A; Vec y0 = y; Vec b = ls.solve(A, y); x.step(); CHECK(x, A == A0 && y == y0, "least squares changed its input");
    CHECK(x, b.size() == A.cols() && b.allFinite(), "least squares: %ld coefficients for %ld columns", long(b.size()), long(A.cols()));
    Vec g = A.transpose() * (A * b - y); double sc = 1e-9 * (1 + A.norm() * A.norm() * b.norm() + A.norm() * y.norm());
    CHECK(x, g.norm() <= sc, "least squares: the residual is not orthogonal to the columns (%g)", g.norm());
    Mat N = nullspace(A); if (N.cols()) CHECK(x, (N.transpose() * b).norm() <= 1e-9 * (1 + b.norm()), "least squares: not the minimum-norm minimiser of a rank-deficient design (null component %g)", (N.transpose() * b).norm());
    return b;
}
static void checkRidge(X& x, const Mat& A, const Vec& y, double l) {
    if (l == 0 && nullspace(A).cols()) return; RidgeRegression rr(l); Vec b = rr.solve(A, y); x.step(); CHECK(x, b.size() == A.cols() && b.allFinite(), "ridge(%g): coefficients not finite", l);
    Vec g = A.transpose() * (A * b - y) + l * b; double sc = 1e-9 * (1 + (A.norm() * A.norm() + l) * b.norm() + A.norm() * y.norm());
    CHECK(x, g.norm() <= sc, "ridge(%g): gradient of the penalised sum of squares is %g", l, g.norm());
}
static void checkLasso(X& x, const Mat& A, const Vec& y, double l, const Vec& ls) {
    LassoRegression la(l); Vec b = la.solve(A, y); x.step(); CHECK(x, b.size() == A.cols(), "lasso: size");
    for (int i = 0; i < b.size(); ++i) { double w = ls[i] > l ? ls[i] - l : ls[i] < -l ? ls[i] + l : 0; CHECK(x, mc::near(b[i], w, 1e-8, 1e-8), "lasso(%g): coefficient %d is %.12g, expected %.12g (least squares %.12g)", l, i, b[i], w, ls[i]); }
}
static const std::vector<double> LAM = {0, 1e-6, 0.01, 0.1, 0.5, 1, 2, 10, 1000};
static void all(X& x, const Mat& A, const Vec& y) { note(x, A, y); Vec ls = checkLS(x, A, y); for (double l : LAM) { if (l == 0 || l >= 0.01) checkRidge(x, A, y, l); checkLasso(x, A, y, l, ls); } mc::Hash h; for (int i = 0; i < A.size(); ++i) h(A.data()[i]); for (int i = 0; i < y.size(); ++i) h(y[i]); h(A.rows()); x.state(h.h); }
static void grid(X& x, int m, int n, const std::vector<double>& a, const std::vector<double>& ya) { Mat A(m, n); Vec y(m); for (int i = 0; i < m; ++i) for (int j = 0; j < n; ++j) A(i, j) = x.pick(a); for (int i = 0; i < m; ++i) y[i] = x.pick(ya); all(x, A, y); }
MC_MAIN([] {
    std::vector<mc::Unit> u; using V = std::vector<double>; static const V A2 = {0, 1}, A3 = {-1, 0, 2}, A4 = {-1, 0, 1, 3}, Y3 = {-1, 0, 2}, Y2 = {-3, 1}, Y4 = {-10, -1, 0, 2};
    struct G { int m, n; const V *a, *y; }; std::vector<G> gs = {{1, 1, &A4, &Y4}, {2, 1, &A4, &Y4}, {3, 1, &A4, &Y4}, {1, 2, &A4, &Y4}, {2, 2, &A4, &Y4}, {3, 2, &A3, &Y3}, {1, 3, &A4, &Y4}, {2, 3, &A3, &Y3}, {3, 3, &A2, &Y3}, {4, 2, &A2, &Y3}, {4, 3, &A2, &Y2}};
    if (mc::thorough) for (G g : std::vector<G>{{3, 2, &A4, &Y3}, {3, 3, &A3, &Y2}, {4, 2, &A3, &Y2}, {4, 3, &A2, &Y3}, {2, 4, &A2, &Y3}, {5, 2, &A2, &Y2}}) gs.push_back(g);
    for (auto g : gs) u.push_back({"designs " + std::to_string(g.m) + "x" + std::to_string(g.n) + "/" + std::to_string(g.a->size()) + "/" + std::to_string(g.y->size()), [g](X& x) { grid(x, g.m, g.n, *g.a, *g.y); }, -1, 4});
    // larger designs with one deviating row or an added dependent column
    u.push_back({"large designs", [](X& x) {
        int m = x.pick(std::vector<int>{1, 2, 5, 10, 31, 64, 100, 257, 1000}), n = x.pick(std::vector<int>{1, 2, 3, 4, 5, 8, 10, 12, 16}), dep = x.choose(4), at = x.choose(4); Mat A(m, n); Vec y(m);
        for (int i = 0; i < m; ++i) { double t = -1 + 2.0 * ((i * 37) % 101) / 101.0; for (int j = 0; j < n; ++j) A(i, j) = n > 5 ? ((i * 7919L + j * 4729L + i * j * 313L + i * i * 17L * j * j) % 1009) / 504.5 - 1 : std::cos(j * 1.1 * t + 0.3 * j) + (j == 0 ? 1 : 0); y[i] = std::sin(3 * t) * 5 + 0.1 * (i % 7); } int r = at == 0 ? 0 : at == 1 ? m - 1 : at == 2 ? m / 2 : -1; if (r >= 0) { A.row(r) *= 3; y[r] = -20; }
        if (dep == 1 && n > 1) A.col(n - 1) = A.col(0) * 2; if (dep == 2 && n > 2) A.col(1) = A.col(0) - A.col(2); if (dep == 3) A.col(0).setZero();
        LeastSquaresRegression ls; Vec b = ls.solve(A, y); x.step(); Vec g = A.transpose() * (A * b - y); CHECK(x, b.allFinite() && g.norm() <= 1e-8 * (1 + A.norm() * y.norm() + A.squaredNorm() * b.norm()), "least squares on %dx%d: gradient %g", m, n, g.norm());
        Eigen::CompleteOrthogonalDecomposition<Mat> cod; cod.setThreshold(1e-10); cod.compute(A); Vec c = cod.solve(y); CHECK(x, (A * (b - c)).norm() <= 1e-7 * (1 + y.norm()), "least squares on %dx%d (dependent columns %d, deviating row %d): fitted values differ from the projection by %g", m, n, dep, r, (A * (b - c)).norm()); CHECK(x, b.norm() <= c.norm() * (1 + 1e-6) + 1e-7, "least squares on %dx%d (dependent columns %d): norm %g, the minimum is %g", m, n, dep, b.norm(), c.norm());
        for (double l : V{0.01, 1, 50}) checkRidge(x, A, y, l); for (double l : V{0, 0.05, 1}) checkLasso(x, A, y, l, b); mc::Hash h; h(m)(n)(dep)(at); x.state(h.h);
    }, -1, 3});
    u.push_back({"scales", [](X& x) { double sa = x.pick(V{1e-4, 0.01, 1, 100, 1e4}), sy = x.pick(V{1e-6, 1, 1e6}); int n = 1 + x.choose(3); Mat A(5, n); Vec y(5); for (int i = 0; i < 5; ++i) { for (int j = 0; j < n; ++j) A(i, j) = sa * std::pow(0.5 + 0.3 * i, j); y[i] = sy * (i * i - 3); }
        Vec b = LeastSquaresRegression().solve(A, y); x.step(); Vec g = A.transpose() * (A * b - y); CHECK(x, g.norm() <= 1e-9 * (A.squaredNorm() * b.norm() + A.norm() * y.norm()), "least squares, scales %g %g: gradient %g", sa, sy, g.norm());
        for (double l : V{0, 0.01 * sa * sa, sa * sa, 10}) { Vec r = RidgeRegression(l).solve(A, y); Vec q = A.transpose() * (A * r - y) + l * r; CHECK(x, q.norm() <= 1e-8 * ((A.squaredNorm() + l) * r.norm() + A.norm() * y.norm()), "ridge(%g), scales %g %g: gradient %g", l, sa, sy, q.norm()); }
        for (double l : V{0, sy / sa * 0.1, sy / sa}) { Vec r = LassoRegression(l).solve(A, y); for (int i = 0; i < n; ++i) { double w = b[i] > l ? b[i] - l : b[i] < -l ? b[i] + l : 0; CHECK(x, mc::near(r[i], w, 1e-9, 1e-9 * sy / sa), "lasso(%g): %g, expected %g", l, r[i], w); } } mc::Hash h; h(sa)(sy)(n); x.state(h.h); }, -1, 2});
    u.push_back({"penalty domain", [](X& x) { double l = x.pick(V{-1e300, -1, -0.1, -1e-9, -std::numeric_limits<double>::denorm_min(), -0.0, 0, std::numeric_limits<double>::denorm_min(), 1e-9, 1, 1e300}); bool ridge = x.flip(), threw = false; x.step(); try { if (ridge) RidgeRegression r(l); else LassoRegression r(l); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw == (l < 0), "%s penalty %g: %s", ridge ? "ridge" : "lasso", l, threw ? "rejected" : "accepted"); mc::Hash h; h(l)(ridge); x.state(h.h); }});
    return u;
})
