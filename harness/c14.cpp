// C14: matrix solvers return the solution of the linear system.
#include "mc.hpp"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include <Eigen/Dense>
#include <memory>
using namespace OptionPricer; using mc::X; using SM = Eigen::SparseMatrix<double>; using Vec = Eigen::VectorXd; using Mat = Eigen::MatrixXd;
static std::unique_ptr<MatrixSolver> solver(int s) { if (s == 0) return std::make_unique<LUDecompositionSolver>(); if (s == 1) return std::make_unique<PartialPivotingLUSolver>(); return std::make_unique<ThomasAlgorithm>(); }
static const char* SN[] = {"sparse LU", "partial pivoting LU", "tridiagonal"};
static SM sparse(const Mat& M, int storage) {      // 0 compressed without zeros, 1 explicit zeros on the three diagonals, 2 uncompressed
    int n = int(M.rows()); SM S(n, n);
    if (storage == 2) { S.reserve(Eigen::VectorXi::Constant(n, n)); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (M(i, j) != 0) S.insert(i, j) = M(i, j); return S; }
    std::vector<Eigen::Triplet<double>> t; for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (M(i, j) != 0 || (storage == 1 && std::abs(i - j) <= 1)) t.emplace_back(i, j, M(i, j)); S.setFromTriplets(t.begin(), t.end()); return S;
}
static void solveCheck(X& x, int s, const Mat& M, const SM& S, const Vec& b, const MatrixSolver& sv) {
    x.step(); SM before = S; Vec bb = b; Vec v = sv.solve(S, b); int n = int(b.size());
    CHECK(x, v.size() == n, "%s: %ld unknowns instead of %d", SN[s], long(v.size()), n);
    CHECK(x, Mat(S) == Mat(before) && b == bb, "%s changed its input", SN[s]);
    double all = b.lpNorm<Eigen::Infinity>() + (n ? M.cwiseAbs().rowwise().sum().maxCoeff() * v.lpNorm<Eigen::Infinity>() : 0);
    for (int i = 0; i < n; ++i) {
        long double r = -b[i], mag = std::fabs(b[i]); for (int j = 0; j < n; ++j) if (M(i, j) != 0) { r += (long double)M(i, j) * v[j]; mag = std::max<long double>(mag, fabsl((long double)M(i, j) * v[j])); }
        CHECK(x, std::isfinite(v[i]) && fabsl(r) <= 1e-9L * mag + 1e-11L * all + 1e-300L, "%s, n=%d: row %d has residual %Lg", SN[s], n, i, r);
    }
    Vec w = sv.solve(S, b); CHECK(x, (w - v).norm() <= 1e-12 * (1 + v.norm()), "%s: a second call answers differently", SN[s]);
}
static void note(X& x, const Mat& M) { if (!x.recording) return; for (int i = 0; i < M.rows() && i < 8; ++i) { std::string s; for (int j = 0; j < M.cols() && j < 8; ++j) { char b[24]; std::snprintf(b, 24, " %g", M(i, j)); s += b; } x.note("[%s ]", s.c_str()); } }
static void state(X& x, int s, const Mat& M) { mc::Hash h; h(s); for (int i = 0; i < M.size(); ++i) h(M.data()[i]); x.state(h.h); }
static std::vector<Vec> rhs(int n) { std::vector<Vec> v; for (int k = 0; k < n && k < 4; ++k) v.push_back(Vec::Unit(n, k)); Vec a(n); for (int i = 0; i < n; ++i) a[i] = 1.5 * i - 2; v.push_back(a); v.push_back(Vec::Constant(n, -1e5)); v.push_back(Vec::Zero(n)); return v; }
static void dense(X& x, int n, const std::vector<double>& A) {
    Mat M(n, n); for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) M(i, j) = x.pick(A);
    if (std::fabs(M.determinant()) < 0.5) return;                       // singular (entries are integers)
    note(x, M); int st = (int(M(0, 0)) + 4) % 3;
    for (int s = 0; s < 2; ++s) { auto sv = solver(s); SM S = sparse(M, st == 2 ? 2 : 0); for (auto& b : rhs(n)) solveCheck(x, s, M, S, b, *sv); state(x, s, M); }
}
static void tri(X& x, const Mat& M, double scale = 1) { note(x, M); Mat Q = M * scale; for (int s = 0; s < 3; ++s) for (int st = 0; st < 3; ++st) { auto sv = solver(s); SM S = sparse(Q, st); if (M.rows() > 40) { Vec b(M.rows()); for (int i = 0; i < b.size(); ++i) b[i] = (i % 2 ? -1 : 1) * (1 + 0.4 * (i % 7)); solveCheck(x, s, Q, S, b, *sv); st = 2; } else for (auto& b : rhs(int(M.rows()))) solveCheck(x, s, Q, S, b, *sv); } state(x, 3, Q); }
MC_MAIN([] {
    std::vector<mc::Unit> u; using V = std::vector<double>;
    u.push_back({"dense 1x1", [](X& x) { dense(x, 1, V{-3, -1, 0, 1, 2, 7}); }});
    u.push_back({"dense 2x2", [](X& x) { dense(x, 2, V{-3, -2, -1, 0, 1, 2, 5}); }});
    u.push_back({"dense 3x3", [](X& x) { if (mc::thorough) dense(x, 3, V{-2, 0, 1, 3}); else dense(x, 3, V{-1, 0, 2}); }, -1, 3});
    u.push_back({"dense 4x4", [](X& x) { if (mc::thorough) dense(x, 4, V{0, 1}); else { Mat M(4, 4); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) M(i, j) = (i + j) % 4 == 3 || i <= 1 ? (x.flip() ? 1 : 0) : (i == j ? 2 : 0); if (std::fabs(M.determinant()) < 0.5) return; note(x, M); for (int s = 0; s < 2; ++s) { auto sv = solver(s); SM S = sparse(M, 0); for (auto& b : rhs(4)) solveCheck(x, s, M, S, b, *sv); state(x, s, M); } } }, -1, 4});
    // permuted, scaled larger systems with one deviating entry
    u.push_back({"permuted systems", [](X& x) {
        int n = x.pick(std::vector<int>{5, 8, 13, 30}), sh = x.choose(n); Mat M = Mat::Zero(n, n); for (int i = 0; i < n; ++i) { M(i, (i + sh) % n) = 3 + i % 4; M(i, (i + sh + 1) % n) = (i % 2) ? 1 : -1; }
        int i = x.choose(n), j = x.choose(n); M(i, j) += 1; if (std::fabs(M.fullPivLu().rcond()) < 1e-6) return; note(x, M);
        for (int s = 0; s < 2; ++s) { auto sv = solver(s); SM S = sparse(M, 0); auto r = rhs(n); solveCheck(x, s, M, S, r[n > 4 ? 4 : 0], *sv); } state(x, 4, M);
    }, -1, 3});
    for (int n = 2; n <= 4; ++n) u.push_back({"tridiagonal n=" + std::to_string(n), [n](X& x) {
        Mat M = Mat::Zero(n, n); V O = n == 2 ? V{-3, -2, -1, 0, 1, 2, 3} : n == 3 || mc::thorough ? V{-2, 0, 1} : V{-2, 1}; V D = n == 2 ? V{-4, 4, 7} : V{-5, 5};
        for (int i = 0; i < n; ++i) M(i, i) = x.pick(D); for (int i = 0; i + 1 < n; ++i) { M(i, i + 1) = x.pick(O); M(i + 1, i) = x.pick(O); } tri(x, M);
    }, -1, 3});
    u.push_back({"long tridiagonal, one deviation", [](X& x) {
        int n = x.pick(mc::thorough ? std::vector<int>{5, 8, 9, 16, 17, 33, 50, 64, 65, 100, 128, 200, 257, 500} : std::vector<int>{5, 9, 16, 33, 64, 100, 200}); Mat M = Mat::Zero(n, n);
        for (int i = 0; i < n; ++i) { M(i, i) = 4 + (i % 3); if (i + 1 < n) { M(i, i + 1) = -1 - 0.25 * (i % 2); M(i + 1, i) = -1.5 + 0.25 * (i % 3); } }
        int at = x.choose(n), w = x.choose(4); if (w == 0) M(at, at) = -9; else if (w == 1 && at + 1 < n) M(at, at + 1) = 0; else if (w == 2 && at + 1 < n) M(at + 1, at) = 0; else if (w == 3 && at + 1 < n) { M(at, at + 1) = 1.9; M(at + 1, at) = 1.9; }
        x.note("n=%d, deviation %d at %d", n, w, at); tri(x, M);
    }, -1, 2});
    u.push_back({"scales and dominance", [](X& x) {
        int n = x.pick(std::vector<int>{2, 3, 6, 20}); double sc = x.pick(V{1e-12, 1e-6, 1e-3, 1, 1e3, 1e6, 1e12}), d = x.pick(V{2.001, 2.1, 3, 10, 1000}), o = x.pick(V{1, -1, 0.5, 0}); Mat M = Mat::Zero(n, n);
        for (int i = 0; i < n; ++i) { M(i, i) = d; if (i + 1 < n) { M(i, i + 1) = o; M(i + 1, i) = i == 0 && x.choose(2) ? -o : o; } } x.note("n=%d scale %g diagonal %g", n, sc, d); tri(x, M, sc);
    }, -1, 3});
    u.push_back({"tridiagonal size", [](X& x) {
        int n = x.choose(2); SM S(n, n); if (n == 1) S.insert(0, 0) = 2; Vec b = Vec::Constant(n, 3); bool threw = false; x.step();
        try { ThomasAlgorithm().solve(S, b); } catch (const std::invalid_argument&) { threw = true; } CHECK(x, threw, "a system of size %d is not rejected", n); x.state(n);
    }});
    return u;
})
