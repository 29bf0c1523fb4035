PRELUDE = r'''#include <cmath>
#include <cstdio>
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include <thread>
#include <atomic>
#include <iostream>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "payoff/double_strikes/payoff_double_digital.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/lasso.h"
#include "numerical_analysis/regression/ridge.h"
using namespace OptionPricer;
static int bad(const char* what) { std::printf("BROKEN: %s\n", what); return 1; }
// answers every draw from a script: normals, then jump counts, then jump sizes
struct Script : NumberGenerator {
    std::vector<double> z, n, j; mutable size_t iz = 0, in = 0, ij = 0; Script(unsigned d) : NumberGenerator(d) {}
    double operator()(Distribution& d) const override { if (dynamic_cast<PoissonDistribution*>(&d)) return in < n.size() ? n[in++] : 0; if (dynamic_cast<StandardNormalDistribution*>(&d)) return iz < z.size() ? z[iz++] : 0; return ij < j.size() ? j[ij++] : 0; }
};
struct PathModel : StockModel {
    std::vector<std::vector<double>> p; mutable size_t k = 0; PathModel(std::vector<std::vector<double>> q) : StockModel("S", MarketData::getInstance(), std::make_shared<Script>(q[0].size())), p(q) {}
    double simulatePriceAtMaturity(const double&) const override { return p[k++ % p.size()].back(); } std::vector<double> simulatePrices(const double&) const override { return p[k++ % p.size()]; }
};
static ParameterObject par(double K, double T = 1) { ParameterObject q; q.setParameter("ticker", std::string("S")); q.setParameter("T", T); q.setParameter("K", K); return q; }

'''
SEEDS = []
def seed(id, prop, needs, breaks, edits, demo, **k): SEEDS.append(dict(id=id, property=prop, needs=needs, breaks=breaks, edits=edits, demo=demo, **k))
MDC = "src/market_data/market_data.cpp"
seed("dividend-cannot-be-removed", "C01", "an update that removes a dividend yield a stock already has",
 "updating the dividend to 'none' leaves the old yield in place, so queries do not return the last accepted value",
 [(MDC, "            it->second->setCoupon(c);", "            if (c.has_value()) it->second->setCoupon(c);")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2, 0.03); m->updateStockCoupon("S", std::nullopt); return m->getStockData("S")->getCoupon() ? bad("dividend still there") : 0; }
''')
seed("observer-ticker-prefix", "C02", "two tickers where one is a prefix of the other",
 "observers of ABC are notified of changes of AB",
 [(MDC, "                if (obs->getID() == id) {", "                if (obs->getID().rfind(id, 0) == 0) {")],
 r'''struct O : MarketDataObserver { int n = 0; O(std::string s) : MarketDataObserver(s) {} void update() override { ++n; } };
int main() { auto m = MarketData::getInstance(); m->addStock("AB", 1.0, 0.1); m->addStock("ABC", 1.0, 0.1); auto a = std::make_shared<O>("AB"), b = std::make_shared<O>("ABC"); m->addObserver(a); m->addObserver(b); m->updateStockPrice("AB", 2.0); return a->n == 1 && b->n == 0 ? 0 : bad("notified wrongly"); }
''')
seed("double-checked-without-recheck", "C03", "two threads that both find no instance before either has created it",
 "two threads making the first access at the same time get different market-data objects",
 [(MDC, "        std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n        if (!instance_) {\n", "        if (!instance_) {\n            std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n")],
 r'''#include <dlfcn.h>
static std::atomic<int> arrived{0}; static std::atomic<bool> on{false};
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {          // the first two lock requests wait for each other (at most a second)
    static auto f = (int (*)(pthread_mutex_t*))dlsym(RTLD_NEXT, "pthread_mutex_lock");
    if (on.load()) { ++arrived; for (int i = 0; i < 1000 && arrived.load() < 2; ++i) { timespec t{0, 1000000}; nanosleep(&t, nullptr); } }
    return f(m);
}
int main() { void *a = nullptr, *b = nullptr; std::shared_ptr<MarketData> p, q; std::atomic<int> go{0}; std::thread x([&] { ++go; while (go < 3) {} p = MarketData::getInstance(); a = p.get(); }), y([&] { ++go; while (go < 3) {} q = MarketData::getInstance(); b = q.get(); }); while (go < 2) {} on = true; ++go; x.join(); y.join(); on = false; return a == b && a ? 0 : bad("two instances"); }
''')
seed("model-snapshots-stock", "C04", "a market-data update after the model was created and before pricing",
 "models keep the stock data of their creation and ignore later updates",
 [("src/model/base_model.cpp", "        stockData_ = marketData_->getStockData(ticker);", "        stockData_ = std::make_shared<const StockData>(*marketData_->getStockData(ticker));")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); GeometricBrownianMotionModel a("S", m, std::make_shared<PseudoRandomNumberGenerator>(2, 5)); m->updateStockPrice("S", 50.0); GeometricBrownianMotionModel b("S", m, std::make_shared<PseudoRandomNumberGenerator>(2, 5)); return a.simulatePrices(1.0) == b.simulatePrices(1.0) ? 0 : bad("old model prices on old data"); }
''')
seed("double-digital-equality", "C05", "two double-digital payoffs with different corridors of the same width",
 "payoffs with different strikes compare equal",
 [("src/payoff/double_strikes/payoff_double_digital.cpp", "        return K_U_ == otherPayoffPtr->K_U_ && K_L_ == otherPayoffPtr->K_L_;", "        return K_U_ - K_L_ == otherPayoffPtr->K_U_ - otherPayoffPtr->K_L_;")],
 r'''int main() { PayoffDoubleDigital a(90, 100), b(91, 101); return a == b ? bad("different corridors equal") : 0; }
''')
seed("knock-in-direction", "C06", "a down-and-in barrier that lies above the strike",
 "the knock-in factory reads the barrier where it should read the direction's side: down barriers become up barriers when the barrier is above the strike",
 [("src/option/path_dependent/factory_barrier_option.cpp", '''        return std::shared_ptr<KnockInBarrierOption>(new KnockInBarrierOption(
            params.getParameter<std::string>("ticker"),
            std::move(payoff),
            params.getParameter<double>("T"),
            params.getParameter<double>("B"),
            params.getParameter<BarrierDirection>("direction"),''', '''        const double K = payoff->getK();
        const double B = params.getParameter<double>("B");
        const auto direction = params.getParameter<BarrierDirection>("direction");
        return std::shared_ptr<KnockInBarrierOption>(new KnockInBarrierOption(
            params.getParameter<std::string>("ticker"),
            std::move(payoff),
            params.getParameter<double>("T"),
            B,
            B > K ? BarrierDirection::Up : direction,''')],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); auto q = par(90); q.setParameter("B", 95.0); q.setParameter("direction", BarrierDirection::Down); KnockInBarrierOptionFactory f; auto o = std::dynamic_pointer_cast<KnockInBarrierOption>(f.createCallOption(q)); return o->isActive(94) && !o->isActive(96) ? 0 : bad("direction lost"); }
''')
seed("barrier-last-date", "C07", "a path that crosses the barrier at maturity only",
 "the barrier is not monitored on the last date",
 [("src/solver/monte_carlo/mc_barrier.cpp", "            for (int t = 0; t < steps; ++t) {", "            for (int t = 0; t + 1 < steps; ++t) {")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); auto q = par(90); q.setParameter("B", 110.0); q.setParameter("direction", BarrierDirection::Up); KnockInBarrierOptionFactory f; KnockInBarrierMCBuilder b; b.setOption(f.createCallOption(q)); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{100, 105, 120}})); double p = b.build()->calculatePrice(1); return p == 30 ? 0 : bad("crossing at maturity ignored"); }
''')
seed("lookback-either-or", "C07", "a path whose every price is a new minimum",
 "the maximum is only tracked on dates that are not a new minimum, so a falling path has no maximum",
 [("src/solver/monte_carlo/mc_lookback.cpp", "            double S_max = -std::numeric_limits<double>::infinity();\n\n            for (int t = 0; t < steps; ++t) {\n                S_min = std::min(S_min, S[t]);\n                S_max = std::max(S_max, S[t]);\n            }", "            double S_max = -std::numeric_limits<double>::infinity();\n            for (int t = 0; t < steps; ++t) {\n                if (S[t] < S_min)\n                    S_min = S[t];\n                else if (S[t] > S_max)\n                    S_max = S[t];\n            }")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); ParameterObject q; q.setParameter("ticker", std::string("S")); q.setParameter("T", 1.0); FloatingStrikeLookbackOptionFactory f; FloatingStrikeLookbackMCBuilder b; b.setOption(f.createPutOption(q)); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{110, 105, 100}})); double p = b.build()->calculatePrice(1); return p == 10 ? 0 : bad("maximum of a falling path"); }
''')
seed("american-regress-worthless-paths", "C08", "paths that are out of the money at an exercise date",
 "the standard algorithm regresses over paths that are out of the money and may exercise them for nothing",
 [("src/solver/monte_carlo/mc_american.cpp", "                const double exerciseValue = option_->payoff(paths(i, j));\n\n                // Collect In-The-Money paths\n                if (exerciseValue > 0.0) {", "                const double exerciseValue = option_->payoff(paths(i, j));\n\n                // Collect In-The-Money paths\n                if (exerciseValue >= 0.0) {")],
 r'''struct Reg : Regression { mutable std::vector<int> rows; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd&) const override { rows.push_back(A.rows()); return Eigen::VectorXd::Zero(A.cols()); } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); AmericanOptionFactory f; AmericanMCBuilder b; auto r = std::make_shared<Reg>(); b.setOption(f.createPutOption(par(100))); b.setRegressionStrategy(r); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{90, 95}, {120, 130}, {80, 100}})); b.build()->calculatePrice(3); return r->rows.size() == 1 && r->rows[0] == 2 ? 0 : bad("regression over out-of-the-money paths"); }
''')
seed("euler-drift-not-truncated", "C10", "a simulated variance that has become negative",
 "the variance drift uses the negative variance where full truncation requires zero",
 [("src/model/discretization/explicit_euler_cir_discretization.cpp", "        V +=  kappa * (theta-vMax) * dt + sigma_v * sqrt(vMax*dt) * z;", "        V +=  kappa * (theta-V) * dt + sigma_v * sqrt(vMax*dt) * z;")],
 r'''int main() { CIRExplicitEulerDiscretization d; double V = -0.02; d.update(V, 0.1, 2.0, 0.04, 0.3, 1.0); return std::fabs(V - (-0.02 + 2.0 * 0.04 * 0.1)) < 1e-15 ? 0 : bad("drift at negative variance"); }
''')
seed("merton-repeated-jump", "C10", "more than one jump within one time step",
 "all jumps of a step have the size of the last one",
 [("src/model/merton_jump_diffusion_model.cpp", "                jumpSize += (*generator_)(jumpDist); // Add all jump sizes to the stock price", "                jumpSize = (j + 1) * (*generator_)(jumpDist); // Add all jump sizes to the stock price")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); auto mk = [&](std::vector<double> j) { auto g = std::make_shared<Script>(1); g->n = {double(j.size())}; g->j = j; return MertonJumpDiffusionModel("S", m, g, 0.5, 0.0, 0.1).simulatePriceAtMaturity(1.0); }; return std::fabs(mk({0.3, -0.1}) / mk({}) - std::exp(0.2)) < 1e-12 ? 0 : bad("sum of jumps"); }
''')
seed("bates-negative-variance-drift", "C10", "a simulated variance that has become negative",
 "Bates adds the drift of the untruncated variance on dates where the variance is negative",
 [("src/model/bates_model.cpp", "            // Add jumps from a compound Poisson process\n", "            // Add jumps from a compound Poisson process\n            if (V < 0.0) S *= exp(-0.5 * V * dt); // Keep the drift of the truncated variance\n")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); struct Neg : CIRDiscretization { void update(double& V, const double&, const double&, const double&, const double&, const double&) const override { V = -0.04; } }; auto g = std::make_shared<Script>(2); BatesModel b("S", m, g, 1.0, 0.04, 0.3, 0.0, 0.04, 1e-9, 0.0, 1e-6, std::make_shared<Neg>()); auto p = b.simulatePrices(1.0); return std::fabs(p[1] / p[0] - 1) < 1e-6 ? 0 : bad("drift with truncated variance"); }
''')
seed("sobol-seed-truncated", "C11", "a Sobol seed above 65535",
 "seeds that differ only above bit 16 give the same points",
 [("src/random/number_generator/sobol_quasi_random_generator.cpp", "    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {\n        sobolQrng_.seed(seed_);", "    : QuasiRandomNumberGenerator(dim, seed), sobolQrng_(dim_) {\n        sobolQrng_.seed(static_cast<unsigned short>(seed_));")],
 r'''int main() { SobolGenerator a(1, 5), b(1, 65541); StandardNormalDistribution d; return a(d) == b(d) ? bad("different seeds, same stream") : 0; }
''')
seed("quantile-central-region", "C12", "quantiles between 0.02 and 0.08 (or 0.92 and 0.98)",
 "the central approximation is used beyond its region of validity",
 [("src/random/distribution/standard_normal_distribution.cpp", "        if (fabs(x) < 0.42) {", "        if (fabs(x) < 0.49) {")],
 r'''int main() { StandardNormalDistribution d; double u = 0.5 * std::erfc(2.2 / std::sqrt(2.0)); return std::fabs(d.inv_cdf(u) + 2.2) < 1e-6 ? 0 : bad("inaccurate quantile"); }
''')
seed("thomas-last-row", "C14", "a tridiagonal system whose last lower coefficient differs from the one before it",
 "the last elimination step uses the coefficient of the row before",
 [("src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp", "                  (bDiag[n-1] - a[n-2] * cStar[n-2]);", "                  (bDiag[n-1] - a[n > 2 ? n-3 : 0] * cStar[n-2]);")],
 r'''int main() { ThomasAlgorithm t; Eigen::SparseMatrix<double> A(3, 3); A.insert(0, 0) = 4; A.insert(1, 1) = 5; A.insert(2, 2) = 6; A.insert(1, 0) = 1; A.insert(2, 1) = 2; A.insert(0, 1) = 1; A.insert(1, 2) = 1; Eigen::VectorXd b(3); b << 1, 2, 3; return (A * t.solve(A, b) - b).norm() < 1e-12 ? 0 : bad("not a solution"); }
''')
seed("quadratic-last-interval", "C15", "a non-uniform grid",
 "the interpolant assumes equal spacing: it misses the node and does not reproduce parabolas on non-uniform grids",
 [("src/numerical_analysis/interpolation/quadratic_interpolation.cpp", "        const double L2 = ((S-x0) * (S-x1)) / ((x2-x0) * (x2-x1));", "        const double L2 = ((S-x0) * (S-x1)) / (2.0 * (x1-x0) * (x2-x1));")],
 r'''int main() { QuadraticInterpolation q; std::vector<double> x{0, 1, 3, 4, 6}, y; for (double v : x) y.push_back(v * v); return std::fabs(q.interpolate(x, y, 2.0) - 4.0) < 1e-12 ? 0 : bad("a parabola is not reproduced"); }
''')
seed("legendre-integer-division", "C16", "a Legendre basis of at least five functions",
 "the recurrence coefficient (n-1)/n is computed by halving integers, which is right for degrees two and three only",
 [("src/numerical_analysis/basis_function/legendre.cpp", "                - (n-1)*basis.col(n-2).array()) / n;", "                - (n+1)/2*basis.col(n-2).array()) / n;")],
 r'''int main() { LegendreBasisFunction l(5); Eigen::VectorXd x(1); x << 0.5; auto A = l.generate(x); double p[] = {1, 0.5, -0.125, -0.4375, -0.2890625}; for (int i = 0; i < 5; ++i) if (std::fabs(A(0, i) - p[i]) > 1e-12) return bad("not a Legendre polynomial"); return 0; }
''')
seed("ridge-first-unpenalised", "C17", "a ridge regression whose first coefficient is not zero",
 "the first coefficient is not penalised",
 [("src/numerical_analysis/regression/ridge.cpp", "        const Eigen::MatrixXd I = Eigen::MatrixXd::Identity(numBasisFunctions, numBasisFunctions);", "        Eigen::MatrixXd I = Eigen::MatrixXd::Identity(numBasisFunctions, numBasisFunctions);\n        if (A.rows() > numBasisFunctions) I(0, 0) = 0.0;")],
 r'''int main() { RidgeRegression r(1.0); Eigen::MatrixXd A(3, 1); A << 1, 1, 1; Eigen::VectorXd y(3); y << 1, 2, 3; return std::fabs(r.solve(A, y)(0) - 1.5) < 1e-12 ? 0 : bad("not the ridge minimiser"); }
''')
CN = "src/solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.cpp"
PDE = r'''struct P : PDE::OneFactor::ConvectionDiffusionPDE { bool timeRhs; P(bool r) : timeRhs(r) {} double diffusion(const double&, const double&) const override { return 1; } double convection(const double&, const double&) const override { return 0; } double reaction(const double&, const double&) const override { return 0; } double rightHandSide(const double& t, const double&) const override { return timeRhs ? -2 * t : 0; } double boundaryLeft(const double& t, const double&) const override { return timeRhs ? t * t : 0; } double boundaryRight(const double& t, const double& x) const override { return timeRhs ? t * t : x * x * x + 6 * x * t; } double initialCondition(const double& x) const override { return timeRhs ? 0 : x * x * x; } };
static std::shared_ptr<EuropeanOption> eu() { auto m = MarketData::getInstance(); m->addStock("S", 0.5, 0.2); EuropeanOptionFactory f; return std::dynamic_pointer_cast<EuropeanOption>(f.createCallOption(par(1))); }
'''
seed("cn-source-at-current-time", "C18", "an equation whose right-hand side depends on time",
 "Crank-Nicolson takes the source term at the current time only",
 [(CN, "(pde_->rightHandSide(tCurr, xValues[j]) + pde_->rightHandSide(tPrev, xValues[j]))", "(pde_->rightHandSide(tCurr, xValues[j]) + pde_->rightHandSide(tCurr, xValues[j]))")],
 PDE + r'''int main() { std::cerr.setstate(std::ios::failbit); auto o = eu(); FDM::OneFactor::CrankNicolsonFDMSolver s(1.0, 6, 1.0, 5, std::make_unique<P>(true), o, MarketData::getInstance()); for (double v : s.solve()) if (std::fabs(v - 1) > 1e-9) return bad("quadratic in time not reproduced"); return 0; }
''')
seed("implicit-lagged-boundary", "C18", "a right boundary value that changes with time",
 "the implicit scheme couples the inner domain to the previous step's right boundary",
 [("src/solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.cpp", "                b[J_-3] -= gamma * newPrices[J_-1]; // Adjust for the boundary condition on the right", "                b[J_-3] -= gamma * oldPrices[J_-1]; // Adjust for the boundary condition on the right")],
 PDE + r'''int main() { std::cerr.setstate(std::ios::failbit); auto o = eu(); FDM::OneFactor::EulerImplicitFDM s(1.0, 6, 1.0, 5, std::make_unique<P>(false), o, MarketData::getInstance()); auto v = s.solve(); for (int j = 0; j < 6; ++j) { double x = 0.2 * j; if (std::fabs(v[j] - (x * x * x + 6 * x)) > 1e-9) return bad("linear in time not reproduced"); } return 0; }
''')
seed("bs-pde-dividend-ignored", "C19", "a stock with a dividend yield",
 "the convection coefficient ignores dividends above ten percent",
 [("src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp", "        return (r - c) * x;", "        return (r - std::min(c, 0.1)) * x;")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2, 0.15); m->setR(0.05); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(f.createCallOption(par(100))); PDE::OneFactor::BlackScholesPDE p(o, m); return std::fabs(p.convection(0.5, 100.0) + 10.0) < 1e-12 ? 0 : bad("drift with a dividend of 15 percent"); }
''')
seed("builder-first-model-wins", "C20", "setting the stock model twice on one builder",
 "the second stock model given to a builder is ignored",
 [("src/solver/monte_carlo/builder/base_mc_builder.cpp", "        stockModel_ = std::move(stockModel);", "        if (!stockModel_) stockModel_ = std::move(stockModel);")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); EuropeanOptionFactory f; MCSinglePathBuilder b; b.setOption(f.createCallOption(par(100))); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{110}})); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{130}})); return b.build()->calculatePrice(1) == 30 ? 0 : bad("not the last model"); }
''')
seed("kou-rejects-all-up", "C22", "an upward-jump probability of exactly one",
 "Kou rejects the valid boundary value p = 1",
 [("src/model/kou_model.cpp", "        if (p_ < 0 || p_ > 1)", "        if (p_ < 0 || p_ >= 1)")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); try { KouModel k("S", m, std::make_shared<PseudoRandomNumberGenerator>(2, 1), 0.5, 1.0, 5.0, 5.0); } catch (const std::exception&) { return bad("valid parameters rejected"); } return 0; }
''')
seed("thomas-static-scratch", "C24", "two threads solving tridiagonal systems at the same time",
 "the solver keeps its scratch vectors in static storage shared by all threads",
 [("src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp", "        std::vector<double> cStar(n-1), dStar(n);", "        static std::vector<double> cStar, dStar; // Reused between calls\n        if (dStar.size() < n) {\n            cStar.resize(n-1);\n            dStar.resize(n);\n        }")],
 r'''int main() { ThomasAlgorithm t; std::atomic<bool> wrong{false}; auto job = [&](double d) { const int n = 200; Eigen::SparseMatrix<double> A(n, n); for (int i = 0; i < n; ++i) { A.insert(i, i) = d; if (i) { A.insert(i, i - 1) = 1; A.insert(i - 1, i) = 1; } } Eigen::VectorXd b = Eigen::VectorXd::Ones(n); for (int k = 0; k < 30000 && !wrong; ++k) if ((A * t.solve(A, b) - b).norm() > 1e-9) wrong = true; }; std::thread a(job, 4.0), b(job, 9.0); a.join(); b.join(); return wrong ? bad("threads disturb each other") : 0; }
''')
PO = "include/option/parameter_object.h"
seed("set-parameter-keeps-first", "C26", "setting the same parameter twice in one set",
 "a parameter that is set again keeps its first value",
 [("src/option/parameter_object.cpp", "        parameters_[name] = std::move(value);", "        parameters_.emplace(name, std::move(value));")],
 r'''int main() { ParameterObject p; p.setParameter("K", 90.0); p.setParameter("K", 110.0); return p.getParameter<double>("K") == 110.0 ? 0 : bad("old value"); }
''')
seed("parameter-copies-share", "C26", "a copy of a parameter set that is changed afterwards (two cooperating sites: shared storage, and a setter that does not detach)",
 "changing a copy of a parameter set changes the original as well",
 [(PO, "        std::unordered_map<std::string, Parameter> parameters_;", "        std::shared_ptr<std::unordered_map<std::string, Parameter>> parameters_ = std::make_shared<std::unordered_map<std::string, Parameter>>(); // Cheap to copy"),
  (PO, "std::get<T>(parameters_.at(name))", "std::get<T>(parameters_->at(name))"),
  ("src/option/parameter_object.cpp", "        parameters_[name] = std::move(value);", "        (*parameters_)[name] = std::move(value);"),
  ("src/option/parameter_object.cpp", "        return parameters_.contains(name);", "        return parameters_->contains(name);")],
 r'''int main() { ParameterObject p; p.setParameter("K", 90.0); ParameterObject q = p; q.setParameter("K", 110.0); q.setParameter("T", 1.0); return p.getParameter<double>("K") == 90.0 && !p.hasParameter("T") ? 0 : bad("the original changed"); }
''')
seed("zero-dividend-not-shown", "C25", "a stock with a dividend yield of exactly zero",
 "a dividend yield of zero is not shown",
 [("src/market_data/stock_data.cpp", "        if (stockData.getCoupon().has_value()) {", "        if (stockData.getCoupon().value_or(0.0) > 0.0) {")],
 r'''#include <sstream>
int main() { std::ostringstream a, b; a << StockData(100.0, 0.2, 0.0); b << StockData(100.0, 0.2); return a.str() != b.str() ? 0 : bad("zero dividend looks like none"); }
''')
seed("printing-resets-float-format", "C25", "a stream with a fixed or scientific number format",
 "printing an option switches the stream back to the default number format",
 [("src/option/base_option.cpp", 'os << "  -> Expiration: " << option.T_ << " year"', 'os << "  -> Expiration: " << std::defaultfloat << option.T_ << " year"')],
 r'''#include <sstream>
int main() { auto m = MarketData::getInstance(); m->addStock("S", 123456789.25, 0.2); EuropeanOptionFactory f; auto o = f.createCallOption(par(100)); std::ostringstream s; s << std::fixed; s << *o; return s.str().find("123456789.250000") != std::string::npos && (s.flags() & std::ios::fixed) ? 0 : bad("number format lost"); }
''')
seed("notified-before-the-change", "C02", "an observer that reads the volatility when it is notified",
 "observers of a volatility change still see the old volatility",
 [(MDC, "            it->second->setSigma(sigma);\n            notifyObserver(ticker);", "            if (sigma >= 0) notifyObserver(ticker);\n            it->second->setSigma(sigma);")],
 r'''struct O : MarketDataObserver { double s = -1; O(std::string s) : MarketDataObserver(s) {} void update() override { s = MarketData::getInstance()->getStockData("S")->getSigma(); } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); auto o = std::make_shared<O>("S"); m->addObserver(o); m->updateStockSigma("S", 0.5); return o->s == 0.5 ? 0 : bad("old value seen"); }
''')
seed("rate-floored", "C01", "a risk-free rate below minus one",
 "rates below -100% are silently replaced",
 [(MDC, "        r_ = r;", "        r_ = r < -1.0 ? -1.0 : r;")],
 r'''int main() { auto m = MarketData::getInstance(); m->setR(-1.5); return m->getR() == -1.5 ? 0 : bad("another rate"); }
''')
seed("vanilla-equality-tolerance", "C05", "two vanilla payoffs whose strikes differ by less than 1e-9",
 "payoffs with different strikes compare equal",
 [("src/payoff/single_strike/payoff_vanilla.cpp", "K_ == otherPayoffPtr->K_;", "std::fabs(K_ - otherPayoffPtr->K_) < 1e-9;")],
 r'''#include "payoff/single_strike/payoff_vanilla.h"
int main() { PayoffVanilla a(PayoffType::Call, 1e-9), b(PayoffType::Call, 0.5e-9); return a == b ? bad("different strikes equal") : 0; }
''')
seed("option-equality-own-stock", "C06", "two options with equal maturity and payoff on stocks with different data",
 "options on different stocks compare equal",
 [("src/option/base_option.cpp", "*other.marketData_->getStockData(other.id_));", "*other.marketData_->getStockData(id_));")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->addStock("U", 50.0, 0.3); EuropeanOptionFactory f; auto a = f.createCallOption(par(100)); auto q = par(100); q.setParameter("ticker", std::string("U")); auto b = f.createCallOption(q); return *a == *b ? bad("equal on different stocks") : 0; }
''')
seed("lookback-minimum-capped", "C07", "a path whose prices all exceed one million",
 "the running minimum of a lookback starts at 1e6 instead of infinity",
 [("src/solver/monte_carlo/mc_lookback.cpp", "            double S_min = std::numeric_limits<double>::infinity();", "            double S_min = 1e6;")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); FloatingStrikeLookbackOptionFactory f; FloatingStrikeLookbackMCBuilder b; b.setOption(f.createCallOption(par(1))); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{3e6, 2e6, 5e6}})); return b.build()->calculatePrice(1) == 3e6 ? 0 : bad("minimum below the path"); }
''')
seed("bridge-skips-first-date", "C08", "the backward algorithm with more than a hundred steps",
 "the first exercise date is skipped when there are more than 100 steps",
 [("src/solver/monte_carlo/mc_american.cpp", "        for (int j = static_cast<int>(steps) - 1; j > 0; --j) {", "        for (int j = static_cast<int>(steps) - 1; j > (steps > 100 ? 1 : 0); --j) {")],
 r'''struct Zero : Regression { mutable int calls = 0; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd&) const override { ++calls; return Eigen::VectorXd::Zero(A.cols()); } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.0); m->setR(0.0); AmericanOptionFactory f; auto z = std::make_shared<Zero>(); AmericanMCBuilder b; b.setOption(f.createPutOption(par(120))); b.setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>("S", m, std::make_shared<PseudoRandomNumberGenerator>(102, 1))); b.setRegressionStrategy(z); b.build()->calculatePrice(2); return z->calls == 101 ? 0 : bad("dates skipped"); }
''')
seed("merton-intensity-per-step-capped", "C09", "more than one expected jump per step",
 "the Poisson law of the jumps is capped at one jump per step on average while the drift still compensates all of them",
 [("src/model/merton_jump_diffusion_model.cpp", "PoissonDistribution poissonDist(lambda_ * dt);", "PoissonDistribution poissonDist(std::min(lambda_ * dt, 1.0));")],
 r'''struct L : NumberGenerator { mutable double mean = 0; L() : NumberGenerator(1) {} double operator()(Distribution& d) const override { if (auto p = dynamic_cast<PoissonDistribution*>(&d)) { std::mt19937 g(1); double s = 0; for (int i = 0; i < 20000; ++i) s += (*p)(g); mean = s / 20000; } return 0; } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); auto g = std::make_shared<L>(); MertonJumpDiffusionModel k("S", m, g, 5.0, 0.1, 0.1); k.simulatePrices(1.0); return std::fabs(g->mean - 5) < 0.2 ? 0 : bad("jump intensity"); }
''')
seed("milstein-skips-truncated-variance", "C10", "the Milstein scheme after the variance became negative",
 "the Milstein correction is left out while the variance is not positive",
 [("src/model/discretization/milstein_cir_discretization.cpp", "        V += 0.25 *", "        if (V > 0.0) V += 0.25 *")],
 r'''int main() { CIRMilsteinDiscretization d; double v = -0.5; d.update(v, 0.01, 1.0, 0.04, 0.5, 2.0); return std::fabs(v - (-0.5 + 0.0004 + 0.25 * 0.25 * 0.01 * 3)) < 1e-12 ? 0 : bad("correction missing"); }
''')
seed("merton-jump-count-capped", "C10", "a step with more than a hundred jumps",
 "only the first hundred jumps of a step are applied",
 [("src/model/merton_jump_diffusion_model.cpp", "            for (int j = 0; j < jump_count; ++j) {", "            for (int j = 0; j < std::min(jump_count, 100); ++j) {")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); auto run = [&](int n) { auto g = std::make_shared<Script>(1); g->n = {double(n)}; g->j.assign(300, 0.01); return MertonJumpDiffusionModel("S", m, g, 100.0, 0.0, 0.1).simulatePrices(1.0)[0]; }; return std::fabs(std::log(run(150) / run(50)) - 1.0) < 1e-9 ? 0 : bad("jumps lost"); }
''')
seed("seed-high-bit-ignored", "C11", "two seeds that differ in the highest bit only",
 "seeds that differ in their highest bit give the same stream",
 [("src/random/number_generator/base_generator.cpp", "    : dim_(dim), seed_(seed) {", "    : dim_(dim), seed_(seed & 0x7fffffff) {")],
 r'''int main() { StandardNormalDistribution d; PseudoRandomNumberGenerator a(1, 5u); double x = a(d); StandardNormalDistribution e; PseudoRandomNumberGenerator b(1, 5u + 0x80000000u); return b(e) != x ? 0 : bad("same stream"); }
''')
seed("quantile-tail-clamped", "C12", "a quantile in the outermost tail",
 "quantiles below 1e-14 all get the same value",
 [("src/random/distribution/standard_normal_distribution.cpp", "        r = up;\n", "        r = std::max(up, 1e-14);\n")],
 r'''int main() { StandardNormalDistribution d; return std::fabs(d.inv_cdf(1e-15) + 7.941345326170997) < 1e-6 ? 0 : bad("tail"); }
''')
seed("poisson-large-draws-capped", "C13", "an unusually large draw of a Poisson variable with a small intensity",
 "Poisson draws are capped at five times their mean plus three",
 [("src/random/distribution/poisson_distrib.cpp", "        return poisson_dist_(gen);", "        return std::min<double>(poisson_dist_(gen), 5 * lambda_ + 3);")],
 r'''int main() { PoissonDistribution d(0.5); std::mt19937 g(1); double top = 0; for (int i = 0; i < 3000000; ++i) top = std::max(top, d(g)); return top > 5.5 ? 0 : bad("largest of three million draws"); }
''')
seed("lu-drops-small-entries", "C14", "a well-conditioned matrix with entries of very different size",
 "the sparse LU solver drops entries below 1e-6",
 [("src/numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.cpp", "        solver.compute(A);", "        Eigen::SparseMatrix<double> pruned = A;\n        pruned.prune(1.0, 1e-6); // Keep the factors sparse\n        solver.compute(pruned);")],
 r'''#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
int main() { Eigen::SparseMatrix<double> A(2, 2); A.insert(0, 0) = 2e-7; A.insert(1, 1) = 3e-7; A.insert(0, 1) = 1e-7; Eigen::VectorXd b(2); b << 3e-7, 3e-7; try { auto x = LUDecompositionSolver().solve(A, b); return (A * x - b).norm() < 1e-15 ? 0 : bad("not the solution"); } catch (const std::exception&) { return bad("fails"); } }
''')
seed("linear-interval-tolerance", "C15", "a grid with nodes closer than a billionth",
 "a point just right of a node is interpolated on the interval left of it",
 [("src/numerical_analysis/interpolation/linear_interpolation.cpp", "            if (xInterp < xValues[i]) {", "            if (xInterp <= xValues[i] + 1e-9) {")],
 r'''int main() { LinearInterpolation l; std::vector<double> x{0, 1e-9, 2e-9, 3e-9}, y{0, 1, 5, 0}; return std::fabs(l.interpolate(x, y, 1.5e-9) - 3) < 1e-9 ? 0 : bad("wrong chord"); }
''')
seed("chebyshev-high-degrees-missing", "C16", "more than twelve Chebyshev functions",
 "columns beyond the twelfth are left uninitialised",
 [("src/numerical_analysis/basis_function/chebyshev.cpp", "        for (int n = 2; n < numberBasis_; ++n) {", "        for (int n = 2; n < std::min(numberBasis_, 12u); ++n) {")],
 r'''int main() { Eigen::VectorXd x(1); x << std::cos(0.3); auto b = ChebyshevBasisFunction(20).generate(x); return std::fabs(b(0, 19) - std::cos(19 * 0.3)) < 1e-9 ? 0 : bad("degree 19"); }
''')
seed("lasso-asymmetric-threshold", "C17", "a negative coefficient and a penalty above one",
 "negative coefficients are shrunk by at most one",
 [("src/numerical_analysis/regression/lasso.cpp", "std::max(0.0, -beta_i - lambda_)", "std::max(0.0, -beta_i - std::min(lambda_, 1.0))")],
 r'''int main() { Eigen::MatrixXd A = Eigen::MatrixXd::Identity(2, 2); Eigen::VectorXd y(2); y << 5, -5; auto b = LassoRegression(3.0).solve(A, y); return std::fabs(b(0) - 2) < 1e-9 && std::fabs(b(1) + 2) < 1e-9 ? 0 : bad("soft threshold"); }
''')
seed("implicit-reaction-neighbour", "C18", "a reaction coefficient that varies in space, on a grid with more than sixty points",
 "the implicit scheme reads the reaction coefficient of the neighbouring node in the upper part of large grids",
 [("src/solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.cpp", "dt * dx2 * pde_->reaction(tCurr, xValues[j])", "dt * dx2 * pde_->reaction(tCurr, xValues[j > 60 ? j-1 : j])")],
 r'''struct Q : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 0.5; } double convection(const double&, const double&) const override { return 0.0; } double reaction(const double&, const double& x) const override { return -x; } double rightHandSide(const double&, const double& x) const override { return -(x * x); } double boundaryLeft(const double&, const double&) const override { return 0; } double boundaryRight(const double&, const double&) const override { return 1; } double initialCondition(const double& x) const override { return x; } };
int main() { std::cerr.setstate(std::ios::failbit); auto m = MarketData::getInstance(); m->addStock("S", 0.5, 0.2); EuropeanOptionFactory f; auto o = std::dynamic_pointer_cast<EuropeanOption>(f.createCallOption(par(1)));
 FDM::OneFactor::EulerImplicitFDM s(1.0, 101, 1.0, 20, std::make_unique<Q>(), o, m); auto v = s.solve(), e = v; double w = 0; for (int j = 0; j <= 100; ++j) w = std::max(w, std::fabs(v[j] - 0.01 * j)); FDM::OneFactor::EulerImplicitFDM t(1.0, 51, 1.0, 20, std::make_unique<Q>(), o, m); auto u = t.solve(); double w2 = 0; for (int j = 0; j <= 50; ++j) w2 = std::max(w2, std::fabs(u[j] - 0.02 * j)); return std::fabs(w - w2) < 1e-4 ? 0 : bad("large grid differs"); }
''')
seed("basis-resets-regression", "C20", "setting the regression before the basis functions on one American builder",
 "setting the basis functions puts the default regression back",
 [("src/solver/monte_carlo/builder/mc_builder_american.cpp", "        basisFunctionStrategy_ = std::move(basisFunctionStrategy);", "        basisFunctionStrategy_ = std::move(basisFunctionStrategy);\n        regressionStrategy_ = std::make_shared<LeastSquaresRegression>();")],
 r'''struct Zero : Regression { mutable int calls = 0; Eigen::VectorXd solve(const Eigen::MatrixXd& A, const Eigen::VectorXd&) const override { ++calls; return Eigen::VectorXd::Zero(A.cols()); } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.1); m->setR(0.0); AmericanOptionFactory f; auto z = std::make_shared<Zero>(); AmericanMCBuilder b; b.setRegressionStrategy(z); b.setBasisFunctionStrategy(std::make_shared<MonomialBasisFunction>(2)); b.setOption(f.createPutOption(par(120))); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{100, 90}, {95, 99}})); b.build()->calculatePrice(2); return z->calls > 0 ? 0 : bad("regression forgotten"); }
''')
seed("bates-correlation-lower-bound", "C22", "a correlation below minus one",
 "Bates accepts correlations below minus one",
 [("src/model/bates_model.cpp", "        if (rho_ < -1.0 || rho_ > 1.0) {", "        if (rho_ * rho_ * rho_ > 1.0) {")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); try { BatesModel k("S", m, std::make_shared<PseudoRandomNumberGenerator>(2, 1), 1.0, 0.04, 0.3, -1.2, 0.04, 0.5, 0.0, 0.1); } catch (const std::logic_error&) { return 0; } return bad("accepted"); }
''')
seed("monomial-shared-matrix", "C24", "two threads generating monomials at the same time",
 "the monomial basis fills one static matrix for all callers",
 [("src/numerical_analysis/basis_function/monomial.cpp", "        Eigen::MatrixXd A(x.size(), numberBasis_);", "        static Eigen::MatrixXd A; // Keeps its memory between calls\n        A.resize(x.size(), numberBasis_);")],
 r'''int main() { MonomialBasisFunction f(5); std::atomic<bool> wrong{false}; auto job = [&](double s) { Eigen::VectorXd x = Eigen::VectorXd::Constant(200, s); for (int k = 0; k < 60000 && !wrong; ++k) { auto m = f.generate(x); if (m(7, 1) != s || m(199, 2) != s * s) wrong = true; } }; std::thread a(job, 2.0), b(job, 3.0); a.join(); b.join(); return wrong ? bad("threads disturb each other") : 0; }
''')
seed("double-checked-locking-race", "C03", "a thread that asks for the instance while another one is creating it",
 "the instance is read without the lock while another thread writes it (a data race on a shared pointer)",
 [(MDC, "        std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n        if (!instance_) {\n            instance_", "        if (instance_) return instance_; // Fast path\n        std::lock_guard<std::mutex> lock(mutex_); // Ensure thread safety\n        if (!instance_) {\n            instance_")],
 r'''int main() { std::atomic<int> go{0}; std::shared_ptr<MarketData> p, q; std::thread a([&] { p = MarketData::getInstance(); go.store(1, std::memory_order_relaxed); }), b([&] { while (!go.load(std::memory_order_relaxed)) {} q = MarketData::getInstance(); }); a.join(); b.join(); return p == q ? 0 : bad("two instances"); }
''', flags='-fsanitize=thread "$PWD"/src/market_data/*.cpp ', libs='')

RI = "include/numerical_analysis/regression/ridge.h"
seed("ridge-keeps-reference", "C27", "the penalty variable given to a ridge regression changes or goes away before the regression is used",
 "the regression keeps a reference to the caller's penalty instead of its value",
 [(RI, "        double lambda_;  // Regularization parameter for Ridge", "        const double& lambda_;  // Regularization parameter for Ridge")],
 r'''int main() { Eigen::MatrixXd A(3, 2); A << 1, 2, 1, 3, 1, 5; Eigen::VectorXd y(3); y << 1, 2, 4; double l = 0.5; RidgeRegression r(l); Eigen::VectorXd a = r.solve(A, y); l = 50; return (a - r.solve(A, y)).norm() == 0 ? 0 : bad("the penalty follows the caller's variable"); }
''')
seed("replaced-pricer-leaks", "C27", "setting a second pricer on a solver that already has one",
 "the pricer that is replaced is never destroyed, so it keeps its option, model and market data alive for good",
 [("src/solver/monte_carlo/mc_solver.cpp", "        pricer_ = std::move(pricer);", "        pricer_.release(); // Ownership is taken by the new pricer\n        pricer_ = std::move(pricer);")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); EuropeanOptionFactory f; std::weak_ptr<Option> w; MCSolver s(2); { auto o = f.createCallOption(par(100)); w = o; MCSinglePathBuilder b; b.setOption(o); b.setMarketData(m); s.setPricer(b.build()); } if (w.expired()) return bad("setup"); s.setPricer(nullptr); return w.expired() ? 0 : bad("the replaced pricer is still alive"); }
''')
PH = "include/solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"; PC = "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"
seed("pde-borrows-option", "C27", "an equation that outlives the caller's handle on its option and is not used together with a solver that owns the same option",
 "the Black-Scholes equation keeps a raw pointer to its option, which dies with the last handle",
 [(PH, "        std::shared_ptr<EuropeanOption> option_;", "        const EuropeanOption* option_; // Owned by the solver"), (PC, "    : option_(std::move(option)), marketData_(std::move(marketData)) {}", "    : option_(option.get()), marketData_(std::move(marketData)) {}")],
 r'''int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); EuropeanOptionFactory f; auto o = f.createCallOption(par(100)); std::weak_ptr<Option> w = o; PDE::OneFactor::BlackScholesPDE p(o, m); o.reset(); return w.expired() ? bad("the option is gone while the equation needs it") : p.initialCondition(120) == 20 ? 0 : bad("payoff"); }
''')
seed("initial-condition-once", "C28", "a finite-difference solution whose matrix solver (or equation) fails after at least one step, and is then attempted again",
 "the initial condition is computed only once, so the second attempt starts from where the first one stopped",
 [("src/solver/finite_difference_method/solver/one_factor/base_fdm_solver.cpp", "        double currS = 0.0;\n        oldPrices.resize", "        if (!xValues.empty()) return; // Already initialised\n        double currS = 0.0;\n        oldPrices.resize")],
 r'''struct Once : MatrixSolver { mutable int n = 0; bool fails; ThomasAlgorithm t; explicit Once(bool f) : fails(f) {} Eigen::VectorXd solve(const Eigen::SparseMatrix<double>& A, const Eigen::VectorXd& b) const override { if (++n == 3 && fails) throw std::runtime_error("no"); return t.solve(A, b); } };
int main() { std::cerr.setstate(std::ios::failbit); auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.3); EuropeanOptionFactory f; auto o = f.createCallOption(par(100)); double v[2]; for (int i = 0; i < 2; ++i) { FDM::OneFactor::CrankNicolsonFDMSolver s(200, 21, 1.0, 11, std::make_unique<PDE::OneFactor::BlackScholesPDE>(o, m), o, m, std::make_shared<LinearInterpolation>(), std::make_shared<Once>(i == 1)); if (i) try { s.calculatePrice(); return bad("no failure"); } catch (const std::runtime_error&) {} v[i] = s.calculatePrice(); } return v[0] == v[1] ? 0 : bad("the second attempt gives another price"); }
''')
seed("regression-failure-swallowed", "C28", "a regression that fails at one exercise date of an American option",
 "the failure is swallowed and the option is priced as if nobody could exercise at that date",
 [("src/solver/monte_carlo/mc_american.cpp", "                const Eigen::VectorXd coeffs = regressionStrategy_->solve(inTheMoneyBases, vDiscountedCashFlows);\n\n                // Step 5: Determine whether to exercise or continue\n                int idxITM = 0;\n                for (int i = 0; i < N; ++i) {\n                    if (isInTheMoney[i]) {\n                        const double exerciseValue = option_->payoff(paths(i, j));", "                Eigen::VectorXd coeffs;\n                try {\n                    coeffs = regressionStrategy_->solve(inTheMoneyBases, vDiscountedCashFlows);\n                } catch (const std::exception&) {\n                    americanPrices *= discountFactor; // No continuation value at this date\n                    continue;\n                }\n\n                // Step 5: Determine whether to exercise or continue\n                int idxITM = 0;\n                for (int i = 0; i < N; ++i) {\n                    if (isInTheMoney[i]) {\n                        const double exerciseValue = option_->payoff(paths(i, j));")],
 r'''struct Fails : Regression { Eigen::VectorXd solve(const Eigen::MatrixXd&, const Eigen::VectorXd&) const override { throw std::runtime_error("no"); } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.3); AmericanOptionFactory f; auto o = f.createPutOption(par(100)); AmericanMCBuilder b; b.setOption(o); b.setMarketData(m); b.setStockPriceModel(std::make_shared<PathModel>(std::vector<std::vector<double>>{{90, 95}, {80, 85}, {99, 97}})); b.setRegressionStrategy(std::make_shared<Fails>()); MCSolver s(3); s.setPricer(b.build()); try { s.solve(); } catch (const std::runtime_error&) { return 0; } return bad("the failure does not reach the caller"); }
''')
seed("rate-round-guard", "C28", "an observer that throws while it is notified of a new rate, and a later rate change",
 "a guard against nested rounds stays set when an observer throws, so later rate changes are never notified",
 [(MDC, "        r_ = r;\n        notifyObservers();", "        static bool notifying = false; // A round is not restarted from within\n        r_ = r;\n        if (notifying) return;\n        notifying = true;\n        notifyObservers();\n        notifying = false;")],
 r'''struct O : MarketDataObserver { int n = 0; bool t = false; O() : MarketDataObserver("S") {} void update() override { ++n; if (t) throw std::runtime_error("no"); } };
int main() { auto m = MarketData::getInstance(); auto o = std::make_shared<O>(); m->addObserver(o); o->t = true; try { m->setR(0.01); } catch (const std::runtime_error&) {} o->t = false; int n = o->n; m->setR(0.02); return o->n == n + 1 ? 0 : bad("not notified after an interrupted round"); }
''')
seed("set-parameter-erases-first", "C28", "memory running out while an existing parameter is being replaced",
 "the old value is erased before the new entry is allocated, so a failed replacement loses the parameter",
 [("src/option/parameter_object.cpp", "        parameters_[name] = std::move(value);", "        parameters_.erase(name); // Replace any previous value\n        parameters_.emplace(name, std::move(value));")],
 r'''static long left = -1; void* operator new(size_t n) { if (left == 0) { left = -1; throw std::bad_alloc(); } if (left > 0) --left; void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); return p; } void operator delete(void* p) noexcept { std::free(p); } void operator delete(void* p, size_t) noexcept { std::free(p); }
int main() { for (int k = 0; k < 4; ++k) { ParameterObject p; p.setParameter("K", 1.0); bool threw = false; left = k; try { p.setParameter("K", 2.0); } catch (const std::bad_alloc&) { threw = true; } left = -1; if (!p.hasParameter("K")) return bad("the parameter is lost"); double v = p.getParameter<double>("K"); if (v != (threw ? 1.0 : 2.0)) return bad("wrong value"); } return 0; }
''')

seed("bridge-for-every-generator", "C21", "an American option priced with geometric Brownian motion driven by a generator that is not pseudo-random",
 "the backward bridge algorithm, which needs fresh independent draws, is also used with generators that hand out the coordinates of whole points",
 [("src/solver/monte_carlo/mc_american.cpp", "        if (std::dynamic_pointer_cast<PseudoRandomNumberGenerator>(stockModel_->getGenerator())\n            && std::dynamic_pointer_cast<GeometricBrownianMotionModel>(stockModel_)) {", "        if (std::dynamic_pointer_cast<GeometricBrownianMotionModel>(stockModel_)) {")],
 r"""struct E : NumberGenerator { mutable unsigned long k = 0; E() : NumberGenerator(3) {} double operator()(Distribution&) const override { unsigned p = k / 3 % 8, j = k % 3; ++k; return p >> j & 1 ? 1.0 : -1.0; } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 1.0, 0.3); m->setR(0.05); AmericanOptionFactory f; auto o = f.createPutOption(par(1.07));
    AmericanMCBuilder b; b.setOption(o); b.setBasisFunctionStrategy(std::make_shared<LegendreBasisFunction>(3)); b.setStockPriceModel(std::make_shared<GeometricBrownianMotionModel>("S", m, std::make_shared<E>())); MCSolver s(8); s.setPricer(b.build()); double got = s.solve();
    double dt = 1.0 / 3, D = std::exp(-0.05 * dt), nu = (0.05 - 0.045) * dt, v = 0.3 * std::sqrt(dt); auto pay = [&](int j, int u) { return std::max(1.07 - std::exp(nu * j + v * (2 * u - j)), 0.0); }; std::vector<double> c; for (int u = 0; u <= 3; ++u) c.push_back(pay(3, u)); for (int j = 2; j >= 0; --j) for (int u = 0; u <= j; ++u) { double h = D * (c[u] + c[u + 1]) / 2; c[u] = j ? std::max(h, pay(j, u)) : h; }
    std::printf("%.10g %.10g\n", got, c[0]); return std::fabs(got - c[0]) < 1e-6 ? 0 : bad("American price on the tree"); }
""")
seed("heston-variance-capped-in-diffusion", "C09", "a simulated variance above four",
 "the diffusion of the Heston price uses the variance capped at four while its drift uses the variance itself",
 [("src/model/heston_model.cpp", "const double diffusion = sqrt(VMax * dt) * zS;", "const double diffusion = sqrt(std::min(VMax, 4.0) * dt) * zS;")],
 r"""int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.03); double e = 0, w = 0; for (int i = -800; i <= 800; ++i) { double z = i / 100.0, p = std::exp(-z * z / 2); auto g = std::make_shared<Script>(1); g->z = {0.3, z}; e += p * HestonModel("S", m, g, 1.0, 5.0, 0.5, 0.0, 6.0).simulatePrices(0.25)[0]; w += p; }
    std::printf("%.10g\n", e / w); return std::fabs(e / w / (100 * std::exp(0.0075)) - 1) < 1e-6 ? 0 : bad("drift"); }
""")
seed("implicit-upwinds-convection", "C18", "nodes where convection dominates diffusion on the grid",
 "the implicit scheme switches to a one-sided difference for convection-dominated nodes, so that quadratic solutions are no longer reproduced",
 [("src/solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.cpp", "            alpha = dtSig - dtSig2;\n            beta = -dx2 - 2.0 * dtSig + dt * dx2 * pde_->reaction(tCurr, xValues[j]);\n            gamma = dtSig + dtSig2;", "            alpha = dtSig - dtSig2;\n            beta = -dx2 - 2.0 * dtSig + dt * dx2 * pde_->reaction(tCurr, xValues[j]);\n            gamma = dtSig + dtSig2;\n            if (dtSig2 > dtSig) { alpha = dtSig; gamma = dtSig + 2.0 * dtSig2; beta -= 2.0 * dtSig2; }")],
 r"""struct P : PDE::OneFactor::ConvectionDiffusionPDE { double diffusion(const double&, const double&) const override { return 0.01; } double convection(const double&, const double&) const override { return 1; } double reaction(const double&, const double&) const override { return 0; }
    double rightHandSide(const double&, const double& x) const override { return 0.02 + 2 * x - 1; } double boundaryLeft(const double& t, const double&) const override { return t; } double boundaryRight(const double& t, const double& x) const override { return x * x + t; } double initialCondition(const double& x) const override { return x * x; } };
int main() { auto m = MarketData::getInstance(); m->addStock("S", 3.0, 0.2); EuropeanOptionFactory f; auto o = f.createCallOption(par(5)); auto sol = [&](double sg) { struct Q : P { double sg; Q(double s) : sg(s) {} double rightHandSide(const double& t, const double& x) const override { return sg * P::rightHandSide(t, x); } };
    FDM::OneFactor::EulerImplicitFDM s(10.0, 21ul, 1.0, 11ul, std::make_unique<Q>(sg), o, m, nullptr); auto v = s.solve(); double e = 0; for (int j = 0; j < 21; ++j) e = std::max(e, std::fabs(v[j] - (0.25 * j * j + 1))); return e; };
    double e = std::min(sol(1), sol(-1)); std::printf("%g\n", e); return e < 1e-9 ? 0 : bad("quadratic solution"); }
""")
seed("path-count-needs-pricer", "C20", "setting the number of paths of a solver before its pricer",
 "a number of paths set while the solver has no pricer is forgotten",
 [("src/solver/monte_carlo/mc_solver.cpp", "        N_ = N;\n    }\n\n    void MCSolver::setPricer", "        if (pricer_) N_ = N;\n    }\n\n    void MCSolver::setPricer")],
 r"""int main() { auto m = MarketData::getInstance(); m->addStock("S", 100.0, 0.2); m->setR(0.0); EuropeanOptionFactory f; auto mod = std::make_shared<PathModel>(std::vector<std::vector<double>>{{110}, {130}, {170}, {190}}); MCSinglePathBuilder b; b.setOption(f.createCallOption(par(100))); b.setStockPriceModel(mod); MCSolver s(1); s.setN(4); s.setPricer(b.build()); return std::fabs(s.solve() - 50) < 1e-9 ? 0 : bad("number of paths"); }
""")
seed("poisson-normal-approximation", "C13", "a Poisson intensity above five hundred",
 "large intensities are drawn from a rounded-down normal distribution",
 [("src/random/distribution/poisson_distrib.cpp", "return poisson_dist_(gen);", "if (lambda_ > 500.0) {\n            std::normal_distribution<double> normal(lambda_, std::sqrt(lambda_));\n            return std::floor(std::max(normal(gen), 0.0));\n        }\n        return poisson_dist_(gen);")],
 r"""int main() { PoissonDistribution p(600.0); std::mt19937 a(7), b(7); std::poisson_distribution<int> q(600.0); double s = 0, t = 0; for (int i = 0; i < 400000; ++i) { s += p(a); t += q(b); } std::printf("%g %g\n", s / 400000, t / 400000); return std::fabs(s / 400000 - 600) < 0.3 ? 0 : bad("mean"); }
""")
seed("printed-ticker-shortened", "C25", "a ticker longer than sixteen characters",
 "a printed option shows only the first sixteen characters of its ticker",
 [("src/option/base_option.cpp", 'os << "  -> Ticker: " << option.id_ << "\\n";', 'os << "  -> Ticker: " << option.id_.substr(0, 16) << "\\n";')],
 r"""#include <sstream>
int main() { std::string t = "A-RATHER-LONG-TICKER-SYMBOL"; auto m = MarketData::getInstance(); m->addStock(t, 100.0, 0.2); ParameterObject q; q.setParameter("ticker", t); q.setParameter("T", 1.0); q.setParameter("K", 100.0); EuropeanOptionFactory f; std::ostringstream s; s << *f.createCallOption(q); return s.str().find(t) != std::string::npos ? 0 : bad("ticker"); }
""")
