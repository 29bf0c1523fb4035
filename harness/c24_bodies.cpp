// The pricing jobs of C24, compiled with memory accesses reported to the scheduler in sched.hpp. What is created by
// c24_setup is shared by all threads; everything else belongs to the thread that runs the job.
#include <memory>
#include <vector>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/bates_model.h"
#include "model/discretization/milstein_cir_discretization.h"
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "solver/monte_carlo/mc_solver.h"
#include "solver/monte_carlo/builder/mc_builder_single_path.h"
#include "solver/monte_carlo/builder/mc_builder_asian.h"
#include "solver/monte_carlo/builder/mc_builder_barrier.h"
#include "solver/monte_carlo/builder/mc_builder_lookback.h"
#include "solver/monte_carlo/builder/mc_builder_american.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
#include "numerical_analysis/basis_function/laguerre.h"
#include "numerical_analysis/basis_function/chebyshev.h"
#include "numerical_analysis/basis_function/legendre.h"
#include "numerical_analysis/basis_function/monomial.h"
#include "numerical_analysis/regression/least_squares.h"
#include "numerical_analysis/regression/ridge.h"
#include "numerical_analysis/regression/lasso.h"
using namespace OptionPricer;
namespace {
struct Shared {
    std::shared_ptr<MarketData> md; std::shared_ptr<Option> eu, eu2, asian, geo, ki, ko, fl, fx, am, dig; std::shared_ptr<Interpolation> lin, quad; std::shared_ptr<BasisFunction> lag, cheb, leg, mono;
    std::shared_ptr<Regression> ls, ridge, lasso; std::shared_ptr<MatrixSolver> lu, pp, th; std::shared_ptr<CIRDiscretization> mil;
} *g;
ParameterObject par(double K) { ParameterObject p; p.setParameter("ticker", std::string("S")); p.setParameter("T", 1.0); p.setParameter("K", K); return p; }
std::shared_ptr<StockModel> model(int k, std::shared_ptr<NumberGenerator> n) {
    switch (k) {
    case 0: return std::make_shared<GeometricBrownianMotionModel>("S", g->md, n);
    case 1: return std::make_shared<HestonModel>("S", g->md, n, 1.5, 0.04, 0.3, -0.5, 0.04);
    case 2: return std::make_shared<MertonJumpDiffusionModel>("S", g->md, n, 0.8, -0.1, 0.2);
    case 3: return std::make_shared<KouModel>("S", g->md, n, 0.8, 0.4, 6.0, 4.0);
    case 4: return std::make_shared<VarianceGammaModel>("S", g->md, n, 0.2, -0.1);
    case 5: return std::make_shared<BatesModel>("S", g->md, n, 1.5, 0.04, 0.3, -0.5, 0.04, 0.8, -0.1, 0.2);
    default: return std::make_shared<HestonModel>("S", g->md, n, 1.5, 0.04, 0.3, -0.5, 0.04, g->mil);
    }
}
std::shared_ptr<NumberGenerator> gen(int k, unsigned d) { if (k == 0) return std::make_shared<PseudoRandomNumberGenerator>(d, 7u); if (k == 1) return std::make_shared<SobolGenerator>(d, 3u); return std::make_shared<FaureGenerator>(d, 3u); }
template <class B> double mc(std::shared_ptr<Option> o, int m, int gk, unsigned d, unsigned long N = 2) { B b; b.setOption(o); b.setMarketData(g->md); b.setStockPriceModel(model(m, gen(gk, d))); MCSolver s(N); s.setPricer(b.build()); return s.solve(); }
double american(int basis, int reg) {
    AmericanMCBuilder b; b.setOption(g->am); b.setMarketData(g->md); b.setStockPriceModel(model(0, gen(0, 2)));
    b.setBasisFunctionStrategy(basis == 0 ? g->lag : basis == 1 ? g->cheb : basis == 2 ? g->leg : g->mono); b.setRegressionStrategy(reg == 0 ? g->ls : reg == 1 ? g->ridge : g->lasso); MCSolver s(4); s.setPricer(b.build()); return s.solve();
}
template <class S> double fdm(std::shared_ptr<Option> o, std::shared_ptr<Interpolation> in, std::shared_ptr<MatrixSolver> ms) {
    auto e = std::dynamic_pointer_cast<EuropeanOption>(o); auto pde = std::make_unique<PDE::OneFactor::BlackScholesPDE>(e, g->md);
    if constexpr (std::is_same_v<S, FDM::OneFactor::EulerExplicitFDM>) { S s(200.0, 5, 1.0, 5, std::move(pde), e, g->md, in); return s.calculatePrice(); } else { S s(200.0, 5, 1.0, 4, std::move(pde), e, g->md, in, ms); return s.calculatePrice(); }
}
}
extern "C" {
void c24_setup() {
    g = new Shared; g->md = MarketData::getInstance(); g->md->addStock("S", 100.0, 0.2, 0.01); g->md->addStock("U", 50.0, 0.3);
    EuropeanOptionFactory ef; g->eu = ef.createCallOption(par(95)); g->eu2 = ef.createPutOption(par(105)); DigitalOptionFactory df; g->dig = df.createCallOption(par(100)); AmericanOptionFactory af; g->am = af.createPutOption(par(105));
    ArithmeticAsianOptionFactory aa; g->asian = aa.createCallOption(par(100)); GeometricAsianOptionFactory ga; g->geo = ga.createPutOption(par(100)); FloatingStrikeLookbackOptionFactory lf; ParameterObject p; p.setParameter("ticker", std::string("S")); p.setParameter("T", 1.0); g->fl = lf.createCallOption(p); FixedStrikeLookbackOptionFactory xf; g->fx = xf.createPutOption(par(105));
    auto b = par(100); b.setParameter("B", 110.0); b.setParameter("direction", BarrierDirection::Up); KnockInBarrierOptionFactory kf; g->ki = kf.createCallOption(b); KnockOutBarrierOptionFactory of; g->ko = of.createCallOption(b);
    g->lin = std::make_shared<LinearInterpolation>(); g->quad = std::make_shared<QuadraticInterpolation>(); g->lag = std::make_shared<LaguerreBasisFunction>(3); g->cheb = std::make_shared<ChebyshevBasisFunction>(3); g->leg = std::make_shared<LegendreBasisFunction>(3); g->mono = std::make_shared<MonomialBasisFunction>(3);
    g->ls = std::make_shared<LeastSquaresRegression>(); g->ridge = std::make_shared<RidgeRegression>(0.1); g->lasso = std::make_shared<LassoRegression>(0.1); g->lu = std::make_shared<LUDecompositionSolver>(); g->pp = std::make_shared<PartialPivotingLUSolver>(); g->th = std::make_shared<ThomasAlgorithm>(); g->mil = std::make_shared<CIRMilsteinDiscretization>();
}
void c24_european(void**, double* r) { *r = mc<MCSinglePathBuilder>(g->eu, 0, 0, 1); }
void c24_digital_sobol(void**, double* r) { *r = mc<MCSinglePathBuilder>(g->dig, 0, 1, 1); }
void c24_european_faure(void**, double* r) { *r = mc<MCSinglePathBuilder>(g->eu2, 0, 2, 2); }
void c24_asian_heston(void**, double* r) { *r = mc<ArithmeticAsianMCBuilder>(g->asian, 1, 0, 4); }
void c24_asian_merton(void**, double* r) { *r = mc<GeometricAsianMCBuilder>(g->geo, 2, 0, 2); }
void c24_barrier_kou(void**, double* r) { *r = mc<KnockInBarrierMCBuilder>(g->ki, 3, 0, 2); }
void c24_barrier_vg(void**, double* r) { *r = mc<KnockOutBarrierMCBuilder>(g->ko, 4, 0, 2); }
void c24_lookback_bates(void**, double* r) { *r = mc<FloatingStrikeLookbackMCBuilder>(g->fl, 5, 0, 4); }
void c24_lookback_milstein(void**, double* r) { *r = mc<FixedStrikeLookbackMCBuilder>(g->fx, 6, 0, 4); }
void c24_american_ls(void**, double* r) { *r = american(0, 0); }
void c24_american_ridge(void**, double* r) { *r = american(1, 1); }
void c24_american_lasso(void**, double* r) { *r = american(2, 2) + american(3, 0); }
void c24_fdm_explicit(void**, double* r) { *r = fdm<FDM::OneFactor::EulerExplicitFDM>(g->eu, g->lin, nullptr); }
void c24_fdm_implicit(void**, double* r) { *r = fdm<FDM::OneFactor::EulerImplicitFDM>(g->eu2, g->quad, g->lu); }
void c24_fdm_cn(void**, double* r) { *r = fdm<FDM::OneFactor::CrankNicolsonFDMSolver>(g->eu, g->lin, g->th) + fdm<FDM::OneFactor::CrankNicolsonFDMSolver>(g->eu2, nullptr, g->pp); }
void c24_reads(void**, double* r) {
    double a = 0; for (auto& o : {g->eu, g->asian, g->ki, g->fx, g->am, g->dig}) { a += o->getT() + o->payoff(103.0) + (o->getType() == g->eu->getType()) + (*o == *g->eu2) + (o->getPayoff() == g->eu->getPayoff()); auto c = o->getPayoff().clone(); a += (*c == o->getPayoff()); }
    a += g->fl->payoff(103.0, 90.0) + g->eu->calc_price() + g->md->getR() + g->md->getStockData("S")->getPrice() + g->md->getStockData("U")->getSigma() + g->md->getStockData("S")->getCoupon().value_or(0); try { g->md->getStockData("none"); } catch (const std::invalid_argument&) { a += 1; }
    StandardNormalDistribution d; a += d.inv_cdf(0.3) + d.inv_cdf(0.01); std::vector<double> xs{0, 1, 2, 4}, ys{1, 3, 2, 5}; a += g->lin->interpolate(xs, ys, 1.5) + g->quad->interpolate(xs, ys, 2.5);
    *r = a;
}
}
