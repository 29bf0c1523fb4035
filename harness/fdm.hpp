// Finite-difference helpers.
#pragma once
#include "op.hpp"
#include <iostream>
#include "market_data/market_data.h"
#include "solver/finite_difference_method/solver/one_factor/euler_explicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/euler_implicit_fdm_solver.h"
#include "solver/finite_difference_method/solver/one_factor/crank_nicolson_fdm_solver.h"
#include "solver/finite_difference_method/pde/one_factor/black_scholes_pde.h"
#include "numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.h"
#include "numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.h"
#include "numerical_analysis/interpolation/linear_interpolation.h"
#include "numerical_analysis/interpolation/quadratic_interpolation.h"
namespace op {
using Pde = PDE::OneFactor::ConvectionDiffusionPDE; using Fdm = FDM::OneFactor::FDMSolver;
enum { EXPLICIT, IMPLICIT, CN, NSCHEMES }; inline const char* schemeName(int s) { static const char* n[] = {"explicit", "implicit", "Crank-Nicolson"}; return n[s]; }
inline std::shared_ptr<MatrixSolver> matrixSolver(int i) { switch (i) { case 0: return nullptr; case 1: return std::make_shared<LUDecompositionSolver>(); case 2: return std::make_shared<PartialPivotingLUSolver>(); default: return std::make_shared<ThomasAlgorithm>(); } }
inline std::shared_ptr<Interpolation> interpolator(int i) { switch (i) { case 0: return nullptr; case 1: return std::make_shared<LinearInterpolation>(); default: return std::make_shared<QuadraticInterpolation>(); } }
inline std::unique_ptr<Fdm> fdm(int scheme, double xDom, unsigned long J, double tDom, unsigned long N, std::unique_ptr<Pde> pde, std::shared_ptr<EuropeanOption> o, std::shared_ptr<IMarketData> md, std::shared_ptr<Interpolation> in = nullptr, std::shared_ptr<MatrixSolver> ms = nullptr) {
    using namespace FDM::OneFactor;
    if (scheme == EXPLICIT) return std::make_unique<EulerExplicitFDM>(xDom, J, tDom, N, std::move(pde), o, md, in);
    if (scheme == IMPLICIT) return std::make_unique<EulerImplicitFDM>(xDom, J, tDom, N, std::move(pde), o, md, in, ms);
    return std::make_unique<CrankNicolsonFDMSolver>(xDom, J, tDom, N, std::move(pde), o, md, in, ms);
}
inline void quiet() { static bool once = [] { std::cerr.setstate(std::ios::failbit); return true; }(); (void)once; }     // the solvers print warnings
inline std::shared_ptr<EuropeanOption> european(bool call, double K, double T, const std::string& t = "TK") {
    static bool once = [] { MarketData::getInstance()->addStock("TK", 42.0, 0.9, 0.5); return true; }(); (void)once; Contract c; c.kind = EUROPEAN; c.call = call; c.K = K; c.T = T; c.ticker = t; return std::dynamic_pointer_cast<EuropeanOption>(make(c));
}
} // namespace op
