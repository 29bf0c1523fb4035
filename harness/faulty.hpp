// Collaborators that keep no state, count their lives and their calls, and can be made to fail once at a chosen call.
#pragma once
#include "mcp.hpp"
#include "models.hpp"
#include "fdm.hpp"
#include "payoff/single_strike/payoff_vanilla.h"
#include "payoff/single_strike/payoff_digital.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "payoff/payoff_floating_strike_lookback.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
namespace op {
struct Faults { long calls = 0, at = -1; bool fired = false; void arm(long k) { calls = 0; at = k; fired = false; } void disarm() { at = -1; } void hit(const char* what) { if (calls++ == at) { fired = true; throw std::runtime_error(what); } } };
inline Faults g_faults;
struct Lives { static inline long n = 0; Lives() { ++n; } Lives(const Lives&) { ++n; } ~Lives() { --n; } };
struct AnsGen : NumberGenerator {                  // one answer per kind of law, a little different from call to call of one path but the same in every path
    Lives life; mutable unsigned i = 0; explicit AnsGen(unsigned d) : NumberGenerator(d) {}
    double operator()(Distribution& d) const override {
        g_faults.hit("no more random numbers");
        switch (kindOf(d)) { case Kind::Normal: return 0.4; case Kind::Poisson: return 1; case Kind::Exponential: return 0.05; case Kind::Gamma: return 0.3; case Kind::Uniform: return 0.35; default: return 0; }
    }
};
struct LiveMD : FakeMD { Lives life; double getR() const override { g_faults.hit("no rate"); return r; } std::shared_ptr<const StockData> getStockData(const std::string& t) const override { g_faults.hit("no stock data"); return FakeMD::getStockData(t); } };
struct LiveCIR : CIRDiscretization { Lives life; CIRExplicitEulerDiscretization e; void update(double& V, const double& dt, const double& k, const double& th, const double& sv, const double& z) const override { g_faults.hit("no variance"); e.update(V, dt, k, th, sv, z); } };
struct LiveRegression : Regression { Lives life; LeastSquaresRegression e; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd& y) const override { g_faults.hit("no regression"); return e.solve(A, y); } };
struct LiveBasis : BasisFunction { Lives life; MonomialBasisFunction e; LiveBasis() : BasisFunction(2), e(2) {} Eigen::MatrixXd generate(const Eigen::VectorXd& v) const override { g_faults.hit("no basis"); return e.generate(v); } };
struct LiveMS : MatrixSolver { Lives life; std::shared_ptr<MatrixSolver> e; explicit LiveMS(int i) : e(matrixSolver(i)) {} Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { g_faults.hit("no matrix solution"); return e->solve(A, b); } };
struct LiveInterp : Interpolation { Lives life; std::shared_ptr<Interpolation> e; explicit LiveInterp(int i) : e(interpolator(i)) {} double interpolate(const std::vector<double>& x, const std::vector<double>& y, const double& v) const override { g_faults.hit("no interpolation"); return e->interpolate(x, y, v); } };
struct LivePDE : Pde {
    Lives life; PDE::OneFactor::BlackScholesPDE e; LivePDE(std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> md) : e(o, md) {}
    double diffusion(const double& t, const double& x) const override { g_faults.hit("no diffusion"); return e.diffusion(t, x); } double convection(const double& t, const double& x) const override { g_faults.hit("no convection"); return e.convection(t, x); }
    double reaction(const double& t, const double& x) const override { g_faults.hit("no reaction"); return e.reaction(t, x); } double rightHandSide(const double& t, const double& x) const override { g_faults.hit("no source"); return e.rightHandSide(t, x); }
    double boundaryLeft(const double& t, const double& x) const override { g_faults.hit("no left boundary"); return e.boundaryLeft(t, x); } double boundaryRight(const double& t, const double& x) const override { g_faults.hit("no right boundary"); return e.boundaryRight(t, x); }
    double initialCondition(const double& x) const override { g_faults.hit("no initial condition"); return e.initialCondition(x); }
};
inline std::shared_ptr<LiveMD> liveMD(double S, double sigma, std::optional<double> c, double r, const std::string& t = "TK") { auto p = std::make_shared<LiveMD>(); p->put(t, S, sigma, c); p->r = r; return p; }
} // namespace op
