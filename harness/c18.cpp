// C18: finite-difference schemes reproduce manufactured solutions exactly.
#include "fdm.hpp"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
struct Coef { double d0, dx2, dt, c0, cx, ct, r0, rx, rt; };      // diffusion d0+dx2 x^2+dt t, convection c0+cx x+ct t, reaction r0+rx x+rt t
struct Sol { double a0, a1, a2, b0, b1, b2; double v(double t, double x) const { return (a0 + a1 * x + a2 * x * x) * (b0 + b1 * t + b2 * t * t); } double vx(double t, double x) const { return (a1 + 2 * a2 * x) * (b0 + b1 * t + b2 * t * t); } double vxx(double t) const { return 2 * a2 * (b0 + b1 * t + b2 * t * t); } double vt(double t, double x) const { return (a0 + a1 * x + a2 * x * x) * (b1 + 2 * b2 * t); } };
struct TestPde : Pde {
    Coef c; Sol s; mutable double tmax = -1e300, tmin = 1e300, xmax = -1e300; TestPde(Coef c_, Sol s_) : c(c_), s(s_) {}
    double diffusion(const double& t, const double& x) const override { return c.d0 + c.dx2 * x * x + c.dt * t; }
    double convection(const double& t, const double& x) const override { return c.c0 + c.cx * x + c.ct * t; }
    double reaction(const double& t, const double& x) const override { return c.r0 + c.rx * x + c.rt * t; }
    double rightHandSide(const double& t, const double& x) const override { return diffusion(t, x) * s.vxx(t) + convection(t, x) * s.vx(t, x) + reaction(t, x) * s.v(t, x) - s.vt(t, x); }
    double boundaryLeft(const double& t, const double& x) const override { return s.v(t, x); }
    double boundaryRight(const double& t, const double& x) const override { return s.v(t, x); }
    double initialCondition(const double& x) const override { return s.v(0, x); }
};
static const std::vector<Coef> COEF = {{1, 0, 0, 0, 0, 0, 0, 0, 0}, {0.5, 0.02, 0, 0, 0.05, 0, -0.05, 0, 0}, {0.7, 0, 0.3, 0.4, 0, 0.2, -0.3, 0, -0.1}, {0.3, 0.1, 0.1, -0.3, 0.1, -0.2, -0.1, -0.02, 0.05}, {0.02, 0, 0, 0, 0, 0, 0.2, 0, 0},
    {0.01, 0, 0, 1, 0, 0, 0, 0, 0}, {0.02, 0.001, 0, -1, 0.1, 0, -0.1, 0, 0}, {0.05, 0, 0.01, 0.5, 0, 0.5, 0.1, 0, 0},       // convection dominates
    {0, 0.02, 0, 0, 0.05, 0, -0.05, 0, 0}, {0, 0.005, 0, 0, 0.05, 0, -0.05, 0, 0}, {0, 0.08, 0, 0, -0.03, 0, -0.01, 0, 0}};    // Black-Scholes
static const std::vector<Sol> SOL = {{0, 0, 0, 1, 0, 0}, {1, 0, 0, 1, 0, 0}, {0, 1, 0, 1, 0, 0}, {0.5, -1, 2, 1, 0, 0}, {1, 0, 0, 0, 1, 0}, {1, 2, -0.7, 1, 3, 0}, {-3, 0.5, 0.25, 2, -1, 0}}, SOL2 = {{1, 0, 0, 0, 0, 1}, {1, 2, -0.7, 1, 3, -2}, {-3, 0.5, 0.25, 2, -1, 1.5}};
static bool stable(int scheme, const Coef& c, double X, unsigned long J, double T, unsigned long N) {
    double dx = X / double(J - 1), dt = T / double(N - 1), grow = 1; TestPde p(c, SOL[0]);
    for (unsigned long j = 1; j + 1 < J; ++j) for (double t : {0.0, T}) {
        double x = j * dx, d = p.diffusion(t, x), v = std::fabs(p.convection(t, x)), r = p.reaction(t, x), D = dt * d / (dx * dx), C = dt * v / dx; if (d < 0) return false; if (scheme == EXPLICIT && dt * (2 * d / (dx * dx) - r) > 1) return false; if (scheme != EXPLICIT && r * dt > 0.5) return false; if (scheme == CN && D > 200) return false;
        if (v * dx > 2 * d) {      // convection dominates: a stable central scheme still needs v^2 dt <= 2 d (explicit), or a dominant diagonal
            if (scheme == EXPLICIT) { if (v * v * dt > 1.8 * d) return false; grow = std::max(grow, std::fabs(1 - 2 * D + dt * r) + C); }
            else if (scheme == IMPLICIT) { if (C > 0.9 * (1 + 2 * D - dt * r)) return false; grow = std::max(grow, 1 / (1 + 2 * D - dt * r - C)); }
            else { double m = 1 + D - dt * r / 2 - C / 2; if (m < 0.1) return false; grow = std::max(grow, (std::fabs(1 - D + dt * r / 2) + C / 2) / m); }
        } }
    return std::pow(grow, double(N)) <= 1e4;
}
static void run(X& x, int scheme, const Coef& c, const Sol& s, double Xd, unsigned long J, double T, unsigned long N, int ms) {
    quiet(); x.note("%s xDom=%g J=%lu tDom=%g N=%lu matrix solver %d, solution (%g %+gx %+gx^2)(%g %+gt %+gt^2)", schemeName(scheme), Xd, J, T, N, ms, s.a0, s.a1, s.a2, s.b0, s.b1, s.b2); static auto o = european(true, 100, 1); static auto md = fakeMD(1, 0.2, std::nullopt, 0.05); auto f = fdm(scheme, Xd, J, T, N, std::make_unique<TestPde>(c, s), o, md, nullptr, matrixSolver(ms)); V g = f->solve(); x.step(N); CHECK(x, g.size() == J, "%zu grid values for %lu points", g.size(), J); double mx = 0; for (unsigned long j = 0; j < J; ++j) mx = std::max({mx, std::fabs(s.v(T, Xd * j / (J - 1))), std::fabs(s.v(0, Xd * j / (J - 1)))});
    for (unsigned long j = 0; j < J; ++j) { double w = s.v(T, Xd * j / (J - 1)); CHECK(x, std::fabs(g[j] - w) <= 1e-8 * (mx + 1), "%s scheme, J=%lu, N=%lu, xDom=%g, tDom=%g, coefficients %d: grid value %lu is %.12g, exact %.12g", schemeName(scheme), J, N, Xd, T, int(&c - &COEF[0]), j, g[j], w); } mc::Hash h; h(scheme)(J)(N)(Xd)(T)(ms); for (double v : g) h(v); x.state(h.h);
}
struct RecInterp : Interpolation { mutable V xs, ys; mutable double at = NAN; double ret = 17.25; double interpolate(const V& a, const V& b, const double& q) const override { xs = a; ys = b; at = q; return ret; } };
struct RecSolver : MatrixSolver { mutable long calls = 0; Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { ++calls; return Eigen::VectorXd(Eigen::MatrixXd(A).fullPivLu().solve(b)); } };
MC_MAIN([] {
    std::vector<mc::Unit> u; using L = std::vector<unsigned long>;
    for (int sc = 0; sc < NSCHEMES; ++sc) {
        u.push_back({std::string(schemeName(sc)) + " small grids", [sc](X& x) { int ci = x.choose(int(COEF.size())); unsigned long J = 3 + x.choose(8), N = 2 + x.choose(8); double Xd = x.pick(V{1, 2, 7.3}), T = x.pick(V{0.5, 0.01, 1, 3}); int si = x.choose(int(SOL.size())); int ms = sc == EXPLICIT ? 0 : x.choose(J >= 4 ? 4 : 3); if (!stable(sc, COEF[ci], Xd, J, T, N)) return; run(x, sc, COEF[ci], SOL[si], Xd, J, T, N, ms); }, -1, 3});
        u.push_back({std::string(schemeName(sc)) + " larger grids", [sc](X& x) { int ci = x.choose(int(COEF.size())); unsigned long J = x.pick(mc::thorough ? L{3, 4, 15, 31, 64, 101, 201} : L{3, 4, 15, 31, 64}), N = x.pick(mc::thorough ? L{2, 3, 10, 11, 50, 101, 366, 2001, 20001} : L{2, 3, 10, 11, 50, 101, 366, 1001}); double Xd = x.pick(V{1, 2, 30, 400}), T = x.pick(V{0.1, 0.3, 1, 0.7, 3}); int si = x.pick(std::vector<int>{0, 3, 5, 6}); int ms = sc == EXPLICIT ? 0 : x.pick(std::vector<int>{0, 3}); if (ms == 3 && J < 4) return; if (!mc::thorough && ci >= 5 && J * N > 1500) return; if (J * N > (mc::thorough ? 60000ul : 6000ul) && (ci % 2 || ms)) return; if (!mc::thorough && J * N > 16000 && (Xd != 30 || si != 5)) return; if (!stable(sc, COEF[ci], Xd, J, T, N)) return; run(x, sc, COEF[ci], SOL[si], Xd, J, T, N, ms); }, -1, 4});
    }
    u.push_back({"Crank-Nicolson, quadratic in time", [](X& x) { int ci = x.choose(int(COEF.size())); unsigned long J = x.pick(L{3, 4, 5, 8, 15, 31}), N = x.pick(L{2, 3, 4, 7, 10, 11, 50, 101}); double Xd = x.pick(V{1, 2, 7.3, 30}), T = x.pick(V{0.1, 0.5, 1, 3}); int si = x.choose(int(SOL2.size())); int ms = x.choose(J >= 4 ? 4 : 3); if (!mc::thorough && ci >= 5 && J * N > 350) return; if (!stable(CN, COEF[ci], Xd, J, T, N)) return; run(x, CN, COEF[ci], SOL2[si], Xd, J, T, N, ms); }, -1, 4});
    // every count of time levels: the final time is hit exactly (one step too many or too few shows in a solution linear in time)
    u.push_back({"time levels", [](X& x) { int sc = x.choose(3); unsigned long N = 2 + x.choose(mc::thorough ? 1200 : 500); double T = x.pick(V{1, 0.1, 0.7, 1.0 / 3, 2}); Sol s{1, 0, 0, 1, 1, 0}; Coef c{0.01, 0, 0, 0, 0, 0, 0, 0, 0}; run(x, sc, c, s, 4, 5, T, N, 0); }, -1, 2});
    u.push_back({"space levels", [](X& x) { int sc = x.choose(3); static const L BIG = {256, 257, 258, 300, 400}; int jj = x.choose(mc::thorough ? 400 : 155); unsigned long J = mc::thorough || jj < 150 ? 3 + jj : BIG[jj - 150]; double Xd = x.pick(V{1, 100, 333.3}); Sol s{1, 2, 0.5, 1, 1, 0}; double dx = Xd / (J - 1); Coef c{0.05 * dx * dx, 0, 0, 0, 0, 0, 0, 0, 0}; run(x, sc, c, s, Xd, J, 1, 4, 0); }, -1, 2});
    // tDom = 0: the initial condition
    u.push_back({"no time", [](X& x) { int sc = x.choose(3); unsigned long J = 3 + x.choose(10), N = 2 + x.choose(5); int si = x.choose(int(SOL.size())); run(x, sc, COEF[2], SOL[si], 2, J, 0, N, sc == EXPLICIT || J < 4 ? 0 : x.choose(4)); }, -1, 2});
    // the price is the interpolation of the grid at the current spot, in every order of calls
    u.push_back({"price and call orders", [](X& x) {
        quiet(); int sc = x.choose(3), ik = x.choose(4), ms = sc == EXPLICIT ? 0 : x.choose(5); unsigned long J = x.pick(L{5, 12, 3}), N = 12; if (J == 3 && ms == 3) return;   // the tridiagonal solver needs two unknowns
         double Xd = 10; const Coef& c = COEF[4]; const Sol& s = SOL[5]; auto md = fakeMD(3.3, 0.2, std::nullopt, 0.05); auto rec = std::make_shared<RecInterp>(); auto rs = std::make_shared<RecSolver>(); std::shared_ptr<Interpolation> in; if (ik == 3) in = rec; else in = interpolator(ik); std::shared_ptr<MatrixSolver> m; if (ms == 4) m = rs; else m = matrixSolver(ms); auto o = european(x.flip(), 100, 1);
        auto f = fdm(sc, Xd, J, 1, N, std::make_unique<TestPde>(c, s), o, md, in, m); V xs, ex; for (unsigned long j = 0; j < J; ++j) { xs.push_back(Xd * j / (J - 1)); ex.push_back(s.v(1, xs.back())); } V grid; static const V SP = {0.01, 2.5, 5, 9.99, 10, 14};
        for (int i = 0; i < (J == 3 ? 3 : 4); ++i) { int op = x.choose(3); x.step(); if (op == 0) { V g = f->solve(); if (!grid.empty()) CHECK(x, g == grid, "solving again gives another grid"); grid = g; for (unsigned long j = 0; j < J; ++j) CHECK(x, std::fabs(g[j] - ex[j]) < 1e-8 * 500, "grid value %lu is %.10g, exact %.10g", j, g[j], ex[j]); } else if (op == 1) md->put("TK", SP[x.choose(i < 2 ? 3 : 6)], 0.2);
            else { double S = md->getStockData("TK")->getPrice(), p = f->calculatePrice(); if (ik == 3) { CHECK(x, p == rec->ret && rec->at == S && rec->ys.size() == J && rec->xs.size() == J, "price %g does not come from the given interpolation at the current spot %g (asked at %g)", p, S, rec->at); for (unsigned long j = 0; j < J; ++j) CHECK(x, mc::near(rec->xs[j], xs[j], 1e-12, 1e-12) && std::fabs(rec->ys[j] - ex[j]) < 1e-6, "interpolation node %lu: (%g, %g), expected (%g, %g)", j, rec->xs[j], rec->ys[j], xs[j], ex[j]); } else { double w; if (ik == 2) w = QuadraticInterpolation().interpolate(xs, ex, S); else w = LinearInterpolation().interpolate(xs, ex, S); CHECK(x, std::fabs(p - w) < 1e-6, "price at spot %g is %.10g, interpolation of the exact grid gives %.10g", S, p, w); } } }
        if (ms == 4) { f->solve(); CHECK(x, rs->calls > 0, "the given matrix solver was not used"); } mc::Hash h; h(sc)(ik)(ms)(J); x.state(h.h); }, -1, 4});
    return u;
})
