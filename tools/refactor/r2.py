#!/usr/bin/env python3
"""A second behaviour-preserving refactoring (other containers, functions moved to headers, hoisted constants, distributions created per draw, two
passes instead of one): r2.py <tree>. Every check must stay quiet on the result."""
import os, re, sys
T = sys.argv[1]
def rd(f): return open(os.path.join(T, f)).read()
def wr(f, s): open(os.path.join(T, f), "w").write(s)
def sub(f, old, new):
    s = rd(f)
    if s.count(old) < 1: sys.exit("no match in %s: %s" % (f, old[:80]))
    wr(f, s.replace(old, new))
def fn(f, sig, body):
    s = rd(f); i = s.index(sig); j = s.index("{", i + len(sig) - (1 if sig.endswith("{") else 0)); d = 0; k = j
    while True:
        if s[k] == "{": d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    wr(f, s[:j] + "{\n" + body + "\n    }" + s[k + 1:])
def cut(f, sig):
    """remove the definition that starts with sig"""
    s = rd(f); i = s.index(sig); j = s.index("{", i); d = 0; k = j
    while True:
        if s[k] == "{": d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    wr(f, s[:i] + s[k + 1:])
# market data: ordered map, list of observers, rounds that lock everybody first
MD = "src/market_data/market_data.cpp"; MH = "include/market_data/market_data.h"
sub(MH, "std::unordered_map<std::string, std::shared_ptr<StockData>> stockDataMap_;", "std::map<std::string, std::shared_ptr<StockData>, std::less<>> stockDataMap_;")
sub(MH, "std::vector<std::weak_ptr<MarketDataObserver>> observers_;", "std::list<std::weak_ptr<MarketDataObserver>> observers_;")
s = rd(MH); i = s.index("#include"); wr(MH, s[:i] + "#include <list>\n#include <map>\n#include <vector>\n" + s[i:])
fn(MD, "void MarketData::notifyObservers() const {", '''        std::vector<std::shared_ptr<MarketDataObserver>> live;
        for (const auto& observer : observers_) {
            if (auto obs = observer.lock()) live.push_back(std::move(obs));
        }
        for (const auto& obs : live) obs->update();''')
fn(MD, "void MarketData::notifyObserver(const std::string& id) const {", '''        std::vector<std::shared_ptr<MarketDataObserver>> live;
        for (const auto& observer : observers_) {
            auto obs = observer.lock();
            if (obs && obs->getID() == id) live.push_back(std::move(obs));
        }
        for (const auto& obs : live) obs->update();''')
fn(MD, "void MarketData::removeObserver() {", "        observers_.remove_if([](const auto& observer) { return observer.lock() == nullptr; });")
fn(MD, "std::shared_ptr<MarketData> MarketData::getInstance() {", '''        std::unique_lock<std::mutex> lock(mutex_);
        if (instance_) return instance_;
        instance_.reset(new MarketData());
        return instance_;''')
SD = "src/market_data/stock_data.cpp"
for n, a in (("Price(const double& S)", "S_ = S;"), ("Sigma(const double& sigma)", "sigma_ = sigma;")):
    fn(SD, "void StockData::set%s {" % n, "        StockData changed = *this;\n        changed.%s\n        changed.validate();\n        *this = changed;" % a)
# models: every draw helper local, constants hoisted, distributions created where they are used
M = "src/model/"
fn(M + "gbm_model.cpp", "std::vector<double> GeometricBrownianMotionModel::simulatePrices(const double& T) const {", '''        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        const auto stock = stockData_;
        const double sigma = stock->getSigma();
        const double growth = exp((marketData_->getR() - stock->getCoupon().value_or(0.0)) * dt);
        std::vector<double> prices(steps, stock->getPrice());
        for (unsigned int t = 0; t < steps; ++t) {
            StandardNormalDistribution snd;
            const double shock = sigma * sqrt(dt) * (*generator_)(snd) - 0.5 * sigma*sigma * dt;
            prices[t] = (t == 0 ? stock->getPrice() : prices[t-1]) * growth * exp(shock);
        }
        return prices;''')
fn(M + "heston_model.cpp", "std::vector<double> HestonModel::simulatePrices(const double& T) const {", '''        const double r = marketData_->getR();
        const double c = stockData_->getCoupon().value_or(0.0);
        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        const double rhoBar = sqrt(1 - rho_*rho_);
        const auto normal = [this] {
            StandardNormalDistribution snd;
            return (*generator_)(snd);
        };
        double logS = log(stockData_->getPrice());
        double V = v0_;
        std::vector<double> prices;
        prices.reserve(steps);
        for (unsigned int t = 0; t < steps; ++t) {
            const double zV = normal();
            const double zS = rho_ * zV + rhoBar * normal();
            const double oldV = std::max(V, 0.0);
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);
            logS += (r - c) * dt - 0.5 * oldV * dt + sqrt(oldV * dt) * zS;
            prices.push_back(exp(logS));
        }
        return prices;''')
fn(M + "kou_model.cpp", "std::vector<double> KouModel::simulatePrices(const double &T) const {", '''        const double sigma = stockData_->getSigma();
        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        const double carry = marketData_->getR() - stockData_->getCoupon().value_or(0.0);
        const double drift = dt * (carry - sigma*sigma / 2 - lambda_ * (muJ_-1));
        const auto draw = [this](auto dist) { return (*generator_)(dist); };
        double S = stockData_->getPrice();
        std::vector<double> prices(steps);
        for (auto& price : prices) {
            S *= exp(drift + sigma * sqrt(dt) * draw(StandardNormalDistribution()));
            auto jumpsLeft = static_cast<int>(draw(PoissonDistribution(lambda_ * dt)));
            while (jumpsLeft > 0) {
                const bool up = draw(ContinuousUniformDistribution()) < p_;
                S *= up ? exp(draw(ExponentialDistribution(eta1_))) : exp(-draw(ExponentialDistribution(eta2_)));
                --jumpsLeft;
            }
            price = S;
        }
        return prices;''')
fn(M + "merton_jump_diffusion_model.cpp", "std::vector<double> MertonJumpDiffusionModel::simulatePrices(const double &T) const {", '''        const double sigma = stockData_->getSigma();
        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        const double k = std::expm1(muJ_ + 0.5 * sigmaJ_*sigmaJ_);
        const double drift = (marketData_->getR() - stockData_->getCoupon().value_or(0.0) - 0.5 * sigma*sigma - lambda_ * k) * dt;
        double S = stockData_->getPrice();
        std::vector<double> prices(steps);
        for (unsigned int t = 0; t < steps; ++t) {
            StandardNormalDistribution snDist;
            double move = drift + sigma * sqrt(dt) * (*generator_)(snDist);
            PoissonDistribution poissonDist(lambda_ * dt);
            const int count = static_cast<int>((*generator_)(poissonDist));
            for (int j = 1; j <= count; ++j) {
                NormalDistribution jumpDist(muJ_, sigmaJ_);
                move += (*generator_)(jumpDist);
            }
            S *= exp(move);
            prices[t] = S;
        }
        return prices;''')
fn(M + "variance_gamma_model.cpp", "std::vector<double> VarianceGammaModel::simulatePrices(const double &T) const {", '''        const double sigma = stockData_->getSigma();
        const auto steps = getSteps();
        const double dt = T / static_cast<double>(steps);
        const double omega = std::log1p(-nu_ * (theta_ + 0.5 * sigma*sigma)) / nu_;
        const double drift = (marketData_->getR() - stockData_->getCoupon().value_or(0.0) + omega) * dt;
        double S = stockData_->getPrice();
        std::vector<double> prices;
        for (unsigned int left = steps; left > 0; --left) {
            GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
            const double g = (*generator_)(gammaDist);
            StandardNormalDistribution snDist;
            const double w = std::sqrt(g) * (*generator_)(snDist);
            S *= std::exp(drift + theta_ * g + sigma * w);
            prices.push_back(S);
        }
        return prices;''')
# Monte Carlo: running means, two passes
S = "src/solver/monte_carlo/"
fn(S + "mc_single_path.cpp", "double SinglePathMCPricer::calculatePrice(const unsigned long& N) const {", '''        double mean = 0.0;
        for (unsigned long i = 0; i < N; ++i) {
            const double payoff = option_->payoff(stockModel_->simulatePriceAtMaturity(option_->getT()));
            mean += (payoff - mean) / static_cast<double>(i + 1);
        }
        return mean / exp(marketData_->getR() * option_->getT());''')
fn(S + "mc_asian.cpp", "double AsianMCPricer::calculatePrice(const unsigned long& N) const {", '''        std::vector<double> payoffs;
        for (unsigned long i = 0; i < N; ++i) {
            const auto S = stockModel_->simulatePrices(option_->getT());
            const double sum = std::transform_reduce(S.begin(), S.end(), 0.0, std::plus<>(), [this](const double s) { return computeSumPrices(s); });
            payoffs.push_back(option_->payoff(computeAveragePrice(sum, stockModel_->getSteps())));
        }
        const double total = std::accumulate(payoffs.begin(), payoffs.end(), 0.0);
        return total * exp(-marketData_->getR() * option_->getT()) / static_cast<double>(N);''')
sub(S + "mc_asian.cpp", '#include "solver/monte_carlo/mc_asian.h"', '#include "solver/monte_carlo/mc_asian.h"\n#include <functional>\n#include <numeric>')
fn(S + "mc_barrier.cpp", "double BarrierMCPricer::calculatePrice(const unsigned long &N) const {", '''        double sumPayoff = 0.0;
        for (unsigned long i = 0; i < N; ++i) {
            const auto S = stockModel_->simulatePrices(option_->getT());
            bool hasCrossed = false;
            for (const double price : S) checkHasCrossed(price, hasCrossed);
            const double payoff = computePayoff(S.back(), hasCrossed);
            if (payoff != 0.0) sumPayoff += payoff;
        }
        const double undiscounted = sumPayoff / static_cast<double>(N);
        return undiscounted * exp(-marketData_->getR()*option_->getT());''')
fn(S + "mc_lookback.cpp", "double LookbackMCPricer::calculatePrice(const unsigned long &N) const {", '''        const double discountFactor = exp(-marketData_->getR()*option_->getT());
        double price = 0.0;
        for (unsigned long i = N; i > 0; --i) {
            auto S = stockModel_->simulatePrices(option_->getT());
            const double last = S.back();
            std::sort(S.begin(), S.end());
            price += discountFactor / static_cast<double>(N) * computePayoff(last, S.front(), S.back());
        }
        return price;''')
sub(S + "mc_lookback.cpp", '#include "solver/monte_carlo/mc_lookback.h"', '#include "solver/monte_carlo/mc_lookback.h"\n#include <algorithm>')
A = S + "mc_american.cpp"
fn(A, "double AmericanMCPricer::standardPrice(const unsigned long &N) const {", '''        const int steps = static_cast<int>(stockModel_->getSteps());
        const double dt = option_->getT() / static_cast<double>(steps);
        const double r = marketData_->getR();
        std::vector<std::vector<double>> paths(N);
        std::vector<double> cash(N);
        std::vector<int> when(N, steps);
        for (unsigned long i = 0; i < N; ++i) {
            paths[i] = stockModel_->simulatePrices(option_->getT());
            cash[i] = option_->payoff(paths[i].back());
        }
        for (int j = steps - 1; j > 0; --j) {
            std::vector<unsigned long> itm;
            for (unsigned long i = 0; i < N; ++i) {
                if (option_->payoff(paths[i][j-1]) > 0.0) itm.push_back(i);
            }
            if (itm.empty()) continue;
            Eigen::VectorXd x(itm.size()), y(itm.size());
            for (std::size_t k = 0; k < itm.size(); ++k) {
                x[k] = paths[itm[k]][j-1];
                y[k] = cash[itm[k]] * exp(-r * dt * (when[itm[k]] - j));
            }
            const Eigen::MatrixXd bases = basisFunctionStrategy_->generate(x);
            const Eigen::VectorXd coeffs = regressionStrategy_->solve(bases, y);
            for (std::size_t k = 0; k < itm.size(); ++k) {
                const double exercise = option_->payoff(x[k]);
                if (!(exercise > bases.row(k).dot(coeffs))) continue;
                cash[itm[k]] = exercise;
                when[itm[k]] = j;
            }
        }
        double sum = 0.0;
        for (unsigned long i = 0; i < N; ++i) sum += cash[i] * exp(-r * dt * when[i]);
        return sum / static_cast<double>(N);''')
fn(A, "double AmericanMCPricer::calculatePrice(const unsigned long &N) const {", '''        const bool gbm = dynamic_cast<const GeometricBrownianMotionModel*>(stockModel_.get()) != nullptr;
        const auto generator = stockModel_->getGenerator();
        const bool pseudo = dynamic_cast<const PseudoRandomNumberGenerator*>(generator.get()) != nullptr;
        return gbm && pseudo ? brownianBridgePrice(N) : standardPrice(N);''')
fn(S + "mc_solver.cpp", "double MCSolver::solve() const {", '''        if (pricer_ != nullptr) return pricer_->calculatePrice(N_);
        throw std::logic_error("Pricer is not set for MonteCarloSolver.");''')
# options, payoffs, parameters
O = "src/option/"
cut(O + "base_option.cpp", "void Option::update() {")
sub("include/option/base_option.h", "void update() override; //", "void update() override {} //")
sub("include/option/parameter_object.h", "std::unordered_map<std::string, Parameter> parameters_;", "std::map<std::string, Parameter> parameters_;")
s = rd("include/option/parameter_object.h"); i = s.index("#include"); wr("include/option/parameter_object.h", s[:i] + "#include <map>\n" + s[i:])
fn("src/payoff/single_strike/payoff_vanilla.cpp", "double PayoffVanilla::operator()(const double& S) const {", '''        const double sign = type_ == PayoffType::Call ? 1.0 : -1.0;
        const double intrinsic = sign * (S - K_);
        return intrinsic > 0.0 ? intrinsic : 0.0;''')
fn("src/payoff/single_strike/payoff_digital.cpp", "double PayoffDigital::operator()(const double& S) const {", '''        const bool isCall = type_ == PayoffType::Call;
        const bool paid = isCall ? K_ < S : S < K_;
        return static_cast<double>(paid);''')
fn("src/payoff/double_strikes/payoff_double_digital.cpp", "double PayoffDoubleDigital::operator()(const double& S) const {", '''        if (S < K_L_) return 0.0;
        if (K_U_ < S) return 0.0;
        return 1.0;''')
fn("src/payoff/base_payoff.cpp", "bool Payoff::operator==(const Payoff &other) const {", "        return this == &other || (typeid(other) == typeid(*this) && compare(other));")
fn("src/payoff/payoff_floating_strike_lookback.cpp", "double PayoffLookbackFloatingStrike::operator()(const double& S, const double& extremeS) const {", '''        double gain = extremeS - S;
        if (type_ == PayoffType::Call) gain = -gain;
        return std::max(0.0, gain);''')
fn("include/option/base_factory_option.h", "std::shared_ptr<OptionT> OptionFactory<OptionT, PayoffT>::createOption(const ParameterObject &params,", '''        const auto build = [&]() -> std::shared_ptr<OptionT> {
            try {
                return createSpecificOption(params, createSpecificPayoff(params, type), MarketData::getInstance());
            } catch (const std::invalid_argument& e) {
                throw std::invalid_argument(e.what() + ("\\n" + invalidParams(getType(type))));
            }
        };
        const auto created = build();
        created->initialize();
        return created;''')
# generators and numerics
G = "src/random/number_generator/"
for f, cls, q in (("sobol", "Sobol", "sobolQrng_"), ("faure", "Faure", "faureQrng_")):
    fn(G + f + "_quasi_random_generator.cpp", "double %sGenerator::operator()(Distribution& dist) const {" % cls, '''        const bool used = step_ >= dim_;
        if (used) {
            %s.generate(point_.begin(), point_.end());
            step_ = 0;
        }
        const double u = static_cast<double>(point_[step_]) / static_cast<double>(boost::random::%s::max());
        ++step_;
        return dist.inv_cdf(u);''' % (q, f))
N = "src/numerical_analysis/"
fn(N + "linear_algebra/matrix_solver/lu_decomposition.cpp", "Eigen::VectorXd LUDecompositionSolver::solve(const Eigen::SparseMatrix<double> &A,", '''        Eigen::SparseMatrix<double> M = A;
        M.makeCompressed();
        Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;
        solver.analyzePattern(M);
        solver.factorize(M);
        return solver.solve(b);''')
fn(N + "linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.cpp", "Eigen::VectorXd PartialPivotingLUSolver::solve(const Eigen::SparseMatrix<double> &A,", '''        const Eigen::MatrixXd dense(A);
        const Eigen::PartialPivLU<Eigen::MatrixXd> lu(dense);
        return lu.solve(b);''')
fn(N + "interpolation/linear_interpolation.cpp", "double LinearInterpolation::interpolate(const std::vector<double> &xValues,", '''        const std::size_t last = xValues.size() - 1;
        if (!(xInterp > xValues[0])) return yValues[0];
        if (!(xInterp < xValues[last])) return yValues[last];
        std::size_t lo = 0, hi = last;
        while (hi - lo > 1) {
            const std::size_t mid = (lo + hi) / 2;
            (xInterp < xValues[mid] ? hi : lo) = mid;
        }
        const double w = (xInterp - xValues[lo]) / (xValues[hi] - xValues[lo]);
        return (1 - w) * yValues[lo] + w * yValues[hi];''')
R = N + "regression/"
fn(R + "ridge.cpp", "Eigen::VectorXd RidgeRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {", '''        const Eigen::MatrixXd normal = A.transpose() * A + lambda_ * Eigen::MatrixXd::Identity(A.cols(), A.cols());
        return normal.fullPivLu().solve(A.transpose() * vY);''')
# finite differences: implicit matrix by insertion, explicit with precomputed coefficients
F = "src/solver/finite_difference_method/solver/one_factor/"
fn(F + "euler_implicit_fdm_solver.cpp", "void EulerImplicitFDM::calculateInnerDomain() {", '''        const auto n = static_cast<Eigen::Index>(J_) - 2;
        Eigen::MatrixXd dense = Eigen::MatrixXd::Zero(n, n);
        for (Eigen::Index i = n - 1; i >= 0; --i) {
            const double x = xValues[i+1];
            const double d = pde_->diffusion(tCurr, x) * dt, v = pde_->convection(tCurr, x) * dt * dx / 2;
            dense(i, i) = dt * dx2 * pde_->reaction(tCurr, x) - dx2 - 2 * d;
            b[i] = -dx2 * oldPrices[i+1] + dx2 * dt * pde_->rightHandSide(tCurr, x);
            if (i == 0) b[i] += (v - d) * newPrices.front();
            else dense(i, i-1) = d - v;
            if (i + 1 == n) b[i] -= (d + v) * newPrices.back();
            else dense(i, i+1) = d + v;
        }
        A = dense.sparseView();
        const Eigen::VectorXd inner = matrixSolver_->solve(A, b);
        for (Eigen::Index i = 0; i < n; ++i) newPrices[i+1] = inner(i);''')
fn(F + "euler_explicit_fdm_solver.cpp", "void EulerExplicitFDM::calculateInnerDomain() {", '''        std::vector<double> next(oldPrices);
        for (unsigned long j = 1; j + 1 < J_; ++j) {
            const double x = xValues[j];
            const double d = dt * pde_->diffusion(tPrev, x) / dx2;
            const double v = 0.5 * dt * pde_->convection(tPrev, x) / dx;
            next[j] += (d - v) * oldPrices[j-1] - 2 * d * oldPrices[j] + (d + v) * oldPrices[j+1];
            next[j] += dt * (pde_->reaction(tPrev, x) * oldPrices[j] - pde_->rightHandSide(tPrev, x));
        }
        std::copy(next.begin() + 1, next.end() - 1, newPrices.begin() + 1);''')
fn(F + "base_fdm_solver.cpp", "std::vector<double> FDMSolver::solve() {", '''        if (!solved) {
            calculateInitialConditions();
            for (unsigned long n = 0; n + 1 < N_; ++n) {
                tPrev = static_cast<double>(n) * dt;
                tCurr = tPrev + dt;
                calculateBoundaryConditions();
                calculateInnerDomain();
                std::swap(oldPrices, newPrices);
            }
            newPrices = oldPrices;
            solved = true;
        }
        return newPrices;''')
print("refactored", T)
