#!/usr/bin/env python3
"""Writes a behaviour-preserving refactoring of the code (helpers extracted, loops rewritten, statements reordered, formulas regrouped) over a
copy of /repo's src and include: r1.py <tree>. Every check must stay quiet on the result."""
import os, re, sys
T = sys.argv[1]
def rd(f): return open(os.path.join(T, f)).read()
def wr(f, s): open(os.path.join(T, f), "w").write(s)
def sub(f, old, new, n=1):
    s = rd(f)
    if s.count(old) < 1: sys.exit("no match in %s: %s" % (f, old[:80]))
    wr(f, s.replace(old, new))
def fn(f, sig, body):
    """replace the body of the function whose definition starts with sig"""
    s = rd(f); i = s.index(sig); j = s.index("{", i + len(sig) - (1 if sig.endswith("{") else 0)); d = 0; k = j
    while True:
        if s[k] == "{": d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    wr(f, s[:j] + "{\n" + body + "\n    }" + s[k + 1:])
MD = "src/market_data/market_data.cpp"
sub(MD, "    MarketData::~MarketData() = default;", '''    namespace {
        template<typename Map>
        auto& lookUp(Map& stocks, const std::string& ticker) {
            const auto it = stocks.find(ticker);
            if (it == stocks.end()) {
                throw std::invalid_argument(ticker + " is no present in the MarketData object");
            }
            return it->second;
        }
        template<typename Predicate>
        void callLive(const std::vector<std::weak_ptr<MarketDataObserver>> observers, Predicate wanted) {
            for (std::size_t i = 0; i < observers.size(); ++i) {
                const auto obs = observers[i].lock();
                if (!obs || !wanted(*obs)) continue;
                obs->update();
            }
        }
    }

    MarketData::~MarketData() = default;''')
fn(MD, "void MarketData::notifyObserver(const std::string& id) const {", "        callLive(observers_, [&id](const MarketDataObserver& obs) { return id == obs.getID(); });")
fn(MD, "void MarketData::notifyObservers() const {", "        callLive(observers_, [](const MarketDataObserver&) { return true; });")
for n, s, v in (("Price", "double S", "S"), ("Sigma", "double sigma", "sigma"), ("Coupon", "std::optional<double> c", "c")):
    fn(MD, "void MarketData::updateStock%s(const std::string& ticker, %s) {" % (n, s), "        lookUp(stockDataMap_, ticker)->set%s(%s);\n        notifyObserver(ticker);" % (n, v))
fn(MD, "std::shared_ptr<const StockData> MarketData::getStockData(const std::string &ticker) const {", "        const std::shared_ptr<const StockData> found = lookUp(stockDataMap_, ticker);\n        return found;")
fn(MD, "void MarketData::removeObserver() {", '''        std::vector<std::weak_ptr<MarketDataObserver>> live;
        live.reserve(observers_.size());
        for (auto& o : observers_) {
            if (o.use_count() > 0) live.push_back(std::move(o));
        }
        observers_.swap(live);''')
fn(MD, "std::shared_ptr<MarketData> MarketData::getInstance() {", '''        const std::scoped_lock guard{mutex_};
        if (instance_ == nullptr) {
            std::shared_ptr<MarketData> created(new MarketData());
            instance_ = std::move(created);
        }
        return instance_;''')
SD = "src/market_data/stock_data.cpp"
fn(SD, "bool StockData::operator==(const StockData& other) const {", "        return S_ == other.S_ && sigma_ == other.sigma_ && c_ == other.c_;")
fn(SD, "void StockData::setPrice(const double& S) {", "        const StockData changed(S, sigma_, c_);\n        S_ = changed.S_;")
fn(SD, "void StockData::setSigma(const double& sigma) {", "        const StockData changed(S_, sigma, c_);\n        sigma_ = changed.sigma_;")
fn(SD, "void StockData::validate() const {", '''        const auto require = [](const bool ok, const char* what) {
            if (!ok) throw std::invalid_argument(what);
        };
        require(!c_ || (0 <= *c_ && *c_ <= 1), "Coupon rate must be between 0 and 1.");
        require(sigma_ >= 0, "Sigma cannot be negative.");
        require(S_ > 0, "Price must be positive.");''')
sub(SD, "#include <ostream>", "#include <ostream>\n#include <stdexcept>")
sub("include/market_data/market_data.h", "*it->second = stockData; // Keep", "it->second->operator=(stockData); // Keep")
# models
M = "src/model/"
LOOP = '''        const double S0 = stockData_->getPrice();
        const double r = marketData_->getR();
        const double c = stockData_->getCoupon().value_or(0.0);
        const std::size_t steps = getSteps();
        const double dt = T / static_cast<double>(steps);
'''
fn(M + "gbm_model.cpp", "std::vector<double> GeometricBrownianMotionModel::simulatePrices(const double& T) const {", LOOP + '''        const double sigma = stockData_->getSigma();
        const double drift = (r - c) * dt - 0.5 * sigma * sigma * dt;
        const double vol = sigma * std::sqrt(dt);
        StandardNormalDistribution snd;
        std::vector<double> prices;
        prices.reserve(steps);
        double S = S0;
        while (prices.size() < steps) {
            S = S * std::exp(drift + vol * (*generator_)(snd));
            prices.push_back(S);
        }
        return prices;''')
fn(M + "gbm_model.cpp", "double GeometricBrownianMotionModel::simulatePriceAtMaturity(const double &T) const {", "        const auto prices = simulatePrices(T);\n        return prices[prices.size() - 1];")
s = rd(M + "gbm_model.cpp"); i = s.index("double GeometricBrownianMotionModel::simulatePriceBackward"); j = s.index("{", i); k = s.rindex("    }\n")
wr(M + "gbm_model.cpp", s[:j] + '''{
        StandardNormalDistribution snd;
        const double weight = t_j / t_jp1;
        const double stdev = stockData_->getSigma() * std::sqrt(weight * (t_jp1 - t_j));
        const double spot = stockData_->getPrice();
        return spot * std::exp(weight * std::log(S_next / spot) + stdev * (*generator_)(snd));
''' + s[k:])
fn(M + "heston_model.cpp", "std::vector<double> HestonModel::simulatePrices(const double& T) const {", LOOP + '''        const double rhoBar = std::sqrt((1.0 - rho_) * (1.0 + rho_));
        StandardNormalDistribution snd;
        std::vector<double> prices(steps, S0);
        double S = S0, V = v0_;
        for (auto& price : prices) {
            const double z1 = (*generator_)(snd);
            const double z2 = (*generator_)(snd);
            const double VPos = V > 0.0 ? V : 0.0;
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, z1);
            S *= std::exp((r - c) * dt - 0.5 * VPos * dt + std::sqrt(VPos) * std::sqrt(dt) * (rho_ * z1 + rhoBar * z2));
            price = S;
        }
        return prices;''')
fn(M + "kou_model.cpp", "std::vector<double> KouModel::simulatePrices(const double &T) const {", LOOP + '''        const double sigma = stockData_->getSigma();
        const double drift = (r - c - 0.5 * sigma*sigma) * dt + lambda_ * (1 - muJ_) * dt;
        StandardNormalDistribution snDist;
        PoissonDistribution poissonDist(lambda_ * dt);
        ContinuousUniformDistribution uniformDist;
        ExponentialDistribution up(eta1_), down(eta2_);
        const auto jump = [&] {
            if ((*generator_)(uniformDist) >= p_) return -(*generator_)(down);
            return (*generator_)(up);
        };
        std::vector<double> prices(steps);
        double S = S0;
        for (std::size_t t = 0; t != steps; ++t) {
            double move = drift + sigma * std::sqrt(dt) * (*generator_)(snDist);
            for (auto left = static_cast<long>((*generator_)(poissonDist)); left > 0; --left) {
                move += jump();
            }
            prices[t] = S *= std::exp(move);
        }
        return prices;''')
fn(M + "merton_jump_diffusion_model.cpp", "std::vector<double> MertonJumpDiffusionModel::simulatePrices(const double &T) const {", LOOP + '''        const double sigma = stockData_->getSigma();
        const double meanJump = exp(muJ_ + sigmaJ_*sigmaJ_ / 2);
        const double drift = (r - c - sigma*sigma / 2 - lambda_ * (meanJump - 1)) * dt;
        StandardNormalDistribution snDist;
        PoissonDistribution poissonDist(lambda_ * dt);
        NormalDistribution jumpDist(muJ_, sigmaJ_);
        std::vector<double> prices;
        double S = S0;
        for (std::size_t t = 0; t < steps; ++t) {
            const double z = (*generator_)(snDist);
            int jumps = static_cast<int>((*generator_)(poissonDist));
            double jumpSize = 0.0;
            while (jumps-- > 0) jumpSize += (*generator_)(jumpDist);
            S *= exp(drift + sigma * sqrt(dt) * z + jumpSize);
            prices.emplace_back(S);
        }
        return prices;''')
fn(M + "bates_model.cpp", "std::vector<double> BatesModel::simulatePrices(const double& T) const {", LOOP + '''        const double compensator = lambda_ * (exp(muJ_ + 0.5 * sigmaJ_*sigmaJ_) - 1);
        StandardNormalDistribution snd;
        PoissonDistribution poissonDist(lambda_ * dt);
        NormalDistribution jumpDist(muJ_, sigmaJ_);
        std::vector<double> prices(steps);
        double S = S0, V = v0_;
        for (std::size_t t = 0; t < steps; ++t) {
            const double zV = (*generator_)(snd);
            const double zS = rho_ * zV + sqrt(1 - rho_*rho_) * (*generator_)(snd);
            const double VMax = std::max(0.0, V);
            double X = (r - c - compensator - VMax / 2) * dt + sqrt(VMax * dt) * zS;
            const int n = static_cast<int>((*generator_)(poissonDist));
            for (int j = n; j > 0; --j) X += (*generator_)(jumpDist);
            varDiscretization_->update(V, dt, kappa_, theta_, sigma_v_, zV);
            S *= exp(X);
            prices.at(t) = S;
        }
        return prices;''')
fn(M + "variance_gamma_model.cpp", "std::vector<double> VarianceGammaModel::simulatePrices(const double &T) const {", LOOP + '''        const double sigma = stockData_->getSigma();
        const double drift = (r - c) * dt + std::log(1.0 - nu_ * (theta_ + 0.5 * sigma*sigma)) / nu_ * dt;
        StandardNormalDistribution snDist;
        GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);
        std::vector<double> prices(steps);
        double S = S0;
        std::generate(prices.begin(), prices.end(), [&] {
            const double g = (*generator_)(gammaDist);
            const double z = (*generator_)(snDist);
            return S *= std::exp(drift + theta_ * g + sigma * z * std::sqrt(g));
        });
        return prices;''')
sub(M + "variance_gamma_model.cpp", "#include \"random/distribution/gamma_distrib.h\"", "#include <algorithm>\n#include <cmath>\n#include \"random/distribution/gamma_distrib.h\"")
D = M + "discretization/"
fn(D + "milstein_cir_discretization.cpp", "void CIRMilsteinDiscretization::update(double &V, const double &dt,", "        const double correction = sigma_v*sigma_v * dt / 4 * (z - 1) * (z + 1);\n        CIRExplicitEulerDiscretization::update(V, dt, kappa, theta, sigma_v, z);\n        V = V + correction;")
fn(D + "explicit_euler_cir_discretization.cpp", "void CIRExplicitEulerDiscretization::update(double &V, const double &dt,", "        const double vPos = V < 0.0 ? 0.0 : V;\n        const double pull = kappa * dt * (theta - vPos);\n        V = V + pull + sigma_v * std::sqrt(vPos) * std::sqrt(dt) * z;")
# Monte Carlo pricers
S = "src/solver/monte_carlo/"
fn(S + "mc_single_path.cpp", "double SinglePathMCPricer::calculatePrice(const unsigned long& N) const {", '''        const double T = option_->getT();
        long double total = 0.0;
        unsigned long left = N;
        while (left-- > 0) total += option_->payoff(stockModel_->simulatePriceAtMaturity(T));
        return static_cast<double>(total / N) * exp(-marketData_->getR() * T);''')
fn(S + "mc_asian.cpp", "double AsianMCPricer::calculatePrice(const unsigned long& N) const {", '''        double mean = 0.0;
        for (unsigned long i = 1; i <= N; ++i) {
            const std::vector<double> S = stockModel_->simulatePrices(option_->getT());
            double sum = 0.0;
            for (const double price : S) sum += computeSumPrices(price);
            mean += option_->payoff(computeAveragePrice(sum, static_cast<unsigned int>(S.size())));
        }
        mean /= static_cast<double>(N);
        return std::exp(-option_->getT() * marketData_->getR()) * mean;''')
fn(S + "mc_barrier.cpp", "double BarrierMCPricer::calculatePrice(const unsigned long &N) const {", '''        const double T = option_->getT();
        double sumPayoff = 0.0;
        for (unsigned long i = 0; i < N; ++i) {
            const auto S = stockModel_->simulatePrices(T);
            bool hasCrossed = false;
            for (auto it = S.rbegin(); it != S.rend(); ++it) {
                if (checkHasCrossed(*it, hasCrossed)) break;
            }
            sumPayoff += computePayoff(S.back(), hasCrossed);
        }
        return std::exp(-marketData_->getR() * T) * sumPayoff / static_cast<double>(N);''')
fn(S + "mc_lookback.cpp", "double LookbackMCPricer::calculatePrice(const unsigned long &N) const {", '''        double sumPayoff = 0.0;
        for (unsigned long i = 0; i != N; ++i) {
            const auto S = stockModel_->simulatePrices(option_->getT());
            const auto [lowest, highest] = std::minmax_element(S.begin(), S.end());
            sumPayoff += computePayoff(S.back(), *lowest, *highest);
        }
        const double price = sumPayoff / static_cast<double>(N);
        return price * exp(-marketData_->getR()*option_->getT());''')
sub(S + "mc_lookback.cpp", '#include "solver/monte_carlo/mc_lookback.h"', '#include "solver/monte_carlo/mc_lookback.h"\n#include <algorithm>')
A = S + "mc_american.cpp"
STEP = '''
    namespace {
        // One backward step of Longstaff-Schwartz on the prices of one date
        void stepBack(const AmericanOption& option, const Eigen::VectorXd& prices, Eigen::VectorXd& values, const double discount,
                      const BasisFunction& basis, const Regression& regression) {
            values *= discount;
            std::vector<Eigen::Index> itm;
            for (Eigen::Index i = 0; i < prices.size(); ++i) {
                if (option.payoff(prices(i)) > 0.0) itm.push_back(i);
            }
            if (itm.empty()) return;
            Eigen::VectorXd x(itm.size()), y(itm.size());
            for (std::size_t k = 0; k < itm.size(); ++k) {
                x(k) = prices(itm[k]);
                y(k) = values(itm[k]);
            }
            const Eigen::MatrixXd design = basis.generate(x);
            const Eigen::VectorXd continuation = design * regression.solve(design, y);
            for (std::size_t k = 0; k < itm.size(); ++k) {
                const double exercise = option.payoff(x(k));
                if (continuation(k) < exercise) values(itm[k]) = exercise;
            }
        }
    }
'''
sub(A, "namespace OptionPricer {\n", "namespace OptionPricer {\n" + STEP)
fn(A, "double AmericanMCPricer::standardPrice(const unsigned long &N) const {", '''        const auto steps = stockModel_->getSteps();
        const double T = option_->getT();
        const double discountFactor = exp(-marketData_->getR() * T / static_cast<double>(steps));
        Eigen::MatrixXd paths(steps, N);
        for (Eigen::Index i = 0; i < paths.cols(); ++i) {
            const std::vector<double> prices = stockModel_->simulatePrices(T);
            for (Eigen::Index t = 0; t < paths.rows(); ++t) paths(t, i) = prices[t];
        }
        Eigen::VectorXd values(N);
        for (Eigen::Index i = 0; i < values.size(); ++i) values(i) = option_->payoff(paths(steps - 1, i));
        for (unsigned int j = steps - 1; j-- > 0;) {
            stepBack(*option_, paths.row(j).transpose(), values, discountFactor, *basisFunctionStrategy_, *regressionStrategy_);
        }
        return discountFactor * values.mean();''')
fn(A, "double AmericanMCPricer::brownianBridgePrice(const unsigned long &N) const{", '''        const unsigned int steps = stockModel_->getSteps();
        const double T = option_->getT();
        const double dt = T / static_cast<double>(steps);
        const double discountFactor = exp(-marketData_->getR() * dt);
        Eigen::VectorXd prices(N), values(N);
        for (Eigen::Index i = 0; i < prices.size(); ++i) {
            prices(i) = stockModel_->simulatePriceAtMaturity(T);
            values(i) = option_->payoff(prices(i));
        }
        for (unsigned int j = steps - 1; j >= 1; --j) {
            const double now = dt * j, next = dt * (j + 1);
            for (double& price : prices) price = stockModel_->simulatePriceBackward(price, now, next);
            stepBack(*option_, prices, values, discountFactor, *basisFunctionStrategy_, *regressionStrategy_);
        }
        return values.mean() * discountFactor;''')
B = S + "builder/"
for f in ("mc_builder_single_path", "mc_builder_american", "mc_builder_asian", "mc_builder_barrier", "mc_lookback_builder"):
    s = rd(B + f + ".cpp")
    s = re.sub(r"auto stockModel = stockModel_;\s*if \(!stockModel\) \{.*?\}\s*return", "const auto stockModel = modelFor(option_->getID());\n        return", s, flags=re.S)
    s = re.sub(r"option_ = std::dynamic_pointer_cast<(\w+)>\(option\);\s*if \(!option_\) \{\s*throw (.*?);\s*\}", r"if (auto fitting = std::dynamic_pointer_cast<\1>(std::move(option))) {\n            option_ = std::move(fitting);\n        } else {\n            option_.reset();\n            throw \2;\n        }", s, flags=re.S)
    wr(B + f + ".cpp", s)
sub("include/solver/monte_carlo/builder/base_mc_builder.h", "    protected:\n", '''    protected:
        // The configured model, or 52 steps of geometric Brownian motion
        [[nodiscard]] std::shared_ptr<StockModel> modelFor(const std::string& ticker) const {
            if (stockModel_) return stockModel_;
            return std::make_shared<GeometricBrownianMotionModel>(ticker, marketData_, std::make_shared<PseudoRandomNumberGenerator>(52));
        }

''')
# numerics
N = "src/numerical_analysis/"
fn(N + "interpolation/linear_interpolation.cpp", "double LinearInterpolation::interpolate(const std::vector<double> &xValues,", '''        if (xInterp >= xValues.back()) return yValues.back();
        if (xInterp <= xValues.front()) return yValues.front();
        const auto it = std::upper_bound(xValues.begin(), xValues.end(), xInterp);
        const auto i = static_cast<std::size_t>(it - xValues.begin());
        const double slope = (yValues[i] - yValues[i-1]) / (xValues[i] - xValues[i-1]);
        return yValues[i-1] + slope * (xInterp - xValues[i-1]);''')
sub(N + "interpolation/linear_interpolation.cpp", "namespace OptionPricer {", "#include <algorithm>\nnamespace OptionPricer {")
Q = N + "interpolation/quadratic_interpolation.cpp"
fn(Q, "unsigned int QuadraticInterpolation::findInterval(const std::vector<double> &xValues, const double &target) const {", '''        unsigned int k = 0;
        while (k + 2 < xValues.size() && xValues[k+1] < target) ++k;
        return k;''')
s = rd(Q); i = s.index("double QuadraticInterpolation::quadraticInterpolation"); j = s.index("{", i); k = s.rindex("    }\n")
wr(Q, s[:j] + '''{
        double value = 0.0;
        for (unsigned int i = k - 1; i <= k + 1; ++i) {
            double basis = 1.0;
            for (unsigned int j = k - 1; j <= k + 1; ++j) {
                if (j != i) basis *= (S - grid[j]) / (grid[i] - grid[j]);
            }
            value += prices[i] * basis;
        }
        return value;
''' + s[k:])
for f, cls, rec in (("chebyshev", "Chebyshev", "2 * x(i) * basis(i, n-1) - basis(i, n-2)"), ("legendre", "Legendre", "((2.0*n - 1) * x(i) * basis(i, n-1) - (n - 1.0) * basis(i, n-2)) / n"), ("laguerre", "Laguerre", "((2.0*n - 1 - x(i)) * basis(i, n-1) - (n - 1.0) * basis(i, n-2)) / n")):
    fn(N + "basis_function/%s.cpp" % f, "Eigen::MatrixXd %sBasisFunction::generate(const Eigen::VectorXd &x) const {" % cls, '''        Eigen::MatrixXd basis(x.size(), numberBasis_);
        for (Eigen::Index i = 0; i < x.size(); ++i) {
            for (int n = 0; n < static_cast<int>(numberBasis_); ++n) {
                switch (n) {
                    case 0: basis(i, n) = 1.0; break;
                    case 1: basis(i, n) = %s; break;
                    default: basis(i, n) = %s;
                }
            }
        }
        return basis;''' % ("1.0 - x(i)" if f == "laguerre" else "x(i)", rec))
fn(N + "basis_function/monomial.cpp", "Eigen::MatrixXd MonomialBasisFunction::generate(const Eigen::VectorXd &x) const {", '''        Eigen::MatrixXd A = Eigen::MatrixXd::Ones(x.size(), numberBasis_);
        for (unsigned int n = 1; n < numberBasis_; ++n) A.col(n) = A.col(n-1).cwiseProduct(x);
        return A;''')
R = N + "regression/"
fn(R + "ridge.cpp", "Eigen::VectorXd RidgeRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {", '''        Eigen::MatrixXd gram = A.transpose() * A;
        gram.diagonal().array() += lambda_;
        const Eigen::VectorXd rhs = A.transpose() * vY;
        return gram.ldlt().solve(rhs);''')
fn(R + "lasso.cpp", "Eigen::VectorXd LassoRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {", '''        Eigen::VectorXd beta = LeastSquaresRegression::solve(A, vY);
        for (double& b : beta) {
            if (b > lambda_) b -= lambda_;
            else if (b < -lambda_) b += lambda_;
            else b = 0.0;
        }
        return beta;''')
fn(R + "least_squares.cpp", "Eigen::VectorXd LeastSquaresRegression::solve(const Eigen::MatrixXd &A, const Eigen::VectorXd &vY) const {", '''        const double size = std::max<double>(static_cast<double>(A.cols()), static_cast<double>(A.rows()) / 10);
        Eigen::BDCSVD<Eigen::MatrixXd> svd(A, Eigen::ComputeThinU | Eigen::ComputeThinV);
        svd.setThreshold(std::numeric_limits<double>::epsilon() * size);
        return svd.solve(vY);''')
L = N + "linear_algebra/matrix_solver/"
fn(L + "thomas_algorithm.cpp", "Eigen::VectorXd ThomasAlgorithm::solve(const Eigen::SparseMatrix<double> &A, const Eigen::VectorXd &b) const {", '''        const auto n = static_cast<Eigen::Index>(A.rows());
        if (n < 2)
            throw std::invalid_argument("Matrix size must be at least 2x2 for Thomas Algorithm.");
        Eigen::VectorXd upper(n), x(n);
        double pivot = A.coeff(0, 0);
        x[0] = b[0] / pivot;
        for (Eigen::Index i = 1; i < n; ++i) {
            const double lower = A.coeff(i, i-1);
            upper[i-1] = A.coeff(i-1, i) / pivot;
            pivot = A.coeff(i, i) - lower * upper[i-1];
            x[i] = (b[i] - lower * x[i-1]) / pivot;
        }
        for (Eigen::Index i = n - 1; i-- > 0;) x[i] -= upper[i] * x[i+1];
        return x;''')
fn(L + "partial_pivoting_lu_decomposition.cpp", "Eigen::VectorXd PartialPivotingLUSolver::solve(const Eigen::SparseMatrix<double> &A,", "        return A.toDense().partialPivLu().solve(b);")
sub("src/random/distribution/standard_normal_distribution.cpp", "        const bool sup = quantile > 0.5;\n        const double up = sup ? 1.0 - quantile : quantile;", "        const bool sup = !(quantile <= 0.5);\n        double up = quantile;\n        if (sup) up = 1.0 - up;")
# finite differences: rows divided by -dx^2, neighbours first, time counted downwards
F = "src/solver/finite_difference_method/solver/one_factor/"
fn(F + "euler_explicit_fdm_solver.cpp", "void EulerExplicitFDM::calculateInnerDomain() {", '''        for (unsigned long j = J_ - 2; j >= 1; --j) {
            const double x = xValues[j];
            const double centre = oldPrices[j];
            const double second = (oldPrices[j+1] - 2 * centre + oldPrices[j-1]) / dx2;
            const double first = (oldPrices[j+1] - oldPrices[j-1]) / (2 * dx);
            const double rate = pde_->diffusion(tPrev, x) * second + pde_->convection(tPrev, x) * first + pde_->reaction(tPrev, x) * centre;
            newPrices[j] = centre + dt * (rate - pde_->rightHandSide(tPrev, x));
        }''')
for f, cls, th in (("euler_implicit_fdm_solver.cpp", "EulerImplicitFDM", "1.0"), ("crank_nicolson_fdm_solver.cpp", "CrankNicolsonFDMSolver", "0.5")):
    fn(F + f, "void %s::calculateInnerDomain() {" % cls, '''        const unsigned long n = J_ - 2;
        constexpr double theta = %s;
        A.setZero();
        for (unsigned long i = 0; i < n; ++i) {
            const unsigned long j = i + 1;
            const auto row = [&](const double t, double& low, double& mid, double& up) {
                const double d = pde_->diffusion(t, xValues[j]) / dx2;
                const double c = pde_->convection(t, xValues[j]) / (2 * dx);
                low = d - c;
                up = d + c;
                mid = pde_->reaction(t, xValues[j]) - 2 * d;
            };
            double low = 0, mid = 0, up = 0;
            row(tCurr, low, mid, up);
            alpha = -theta * dt * low;
            beta = 1 - theta * dt * mid;
            gamma = -theta * dt * up;
            double known = oldPrices[j] - theta * dt * pde_->rightHandSide(tCurr, xValues[j]);
            if (theta < 1) {
                row(tPrev, low, mid, up);
                known += (1 - theta) * dt * (low * oldPrices[j-1] + mid * oldPrices[j] + up * oldPrices[j+1] - pde_->rightHandSide(tPrev, xValues[j]));
            }
            A.coeffRef(i, i) = beta;
            if (i > 0) A.coeffRef(i, i-1) = alpha;
            else known -= alpha * newPrices.front();
            if (j < n) A.coeffRef(i, j) = gamma;
            else known -= gamma * newPrices.back();
            b[i] = known;
        }
        A.makeCompressed();
        const Eigen::VectorXd inner = matrixSolver_->solve(A, b);
        std::copy(inner.begin(), inner.end(), newPrices.begin() + 1);''' % th)
fn(F + "base_fdm_solver.cpp", "std::vector<double> FDMSolver::solve() {", '''        if (solved) return newPrices;
        calculateInitialConditions();
        unsigned long n = 0;
        while (++n < N_) {
            tPrev = tDom_ * static_cast<double>(n - 1) / static_cast<double>(N_ - 1);
            tCurr = tDom_ * static_cast<double>(n) / static_cast<double>(N_ - 1);
            calculateBoundaryConditions();
            calculateInnerDomain();
            std::copy(newPrices.begin(), newPrices.end(), oldPrices.begin());
        }
        solved = true;
        return newPrices;''')
P = "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"
fn(P, "double BlackScholesPDE::boundaryLeft(const double &t, const double &x) const {", '''        const auto* payoff = dynamic_cast<const PayoffSingleStrike*>(&option_->getPayoff());
        if (payoff == nullptr) throw std::invalid_argument("Option payoff is not present");
        return payoff->getPayoffType() == PayoffType::Put ? std::exp(-t * marketData_->getR()) * payoff->getK() : 0.0;''')
sub(P, "0.5 * sigma*sigma * x*x", "0.5 * (sigma * x) * (sigma * x)")
# options
O = "src/option/"
fn(O + "base_option.cpp", "bool Option::operator==(const Option &other) const {", '''        const auto mine = marketData_->getStockData(id_), theirs = other.marketData_->getStockData(other.id_);
        if (*mine != *theirs) return false;
        if (T_ != other.T_) return false;
        return *payoff_ == *other.payoff_;''')
fn(O + "base_option.cpp", "std::string Option::getType() const {", '''        int status = 0;
        const std::unique_ptr<char, decltype(&std::free)> name(abi::__cxa_demangle(typeid(*this).name(), nullptr, nullptr, &status), &std::free);
        return status == 0 ? name.get() : typeid(*this).name();''')
fn(O + "path_dependent/barrier_option.cpp", "bool BarrierOption::isActive(const double &S) const {", "        return direction_ == BarrierDirection::Up ? !(S < B_) : !(S > B_);")
fn(O + "parameter_object.cpp", "void ParameterObject::setParameter(const std::string &name, Parameter value) {", "        parameters_.insert_or_assign(name, std::move(value));")
sub("include/option/parameter_object.h", '''            if (!hasParameter(name)) {
                throw std::invalid_argument("Parameter not found: " + name);
            }
            try {
                return std::get<T>(parameters_.at(name));
            } catch (const std::bad_variant_access&) {
                throw std::invalid_argument("Parameter type mismatch for: " + name);
            }''', '''            const auto it = parameters_.find(name);
            if (it == parameters_.end()) throw std::invalid_argument("Parameter not found: " + name);
            if (const T* value = std::get_if<T>(&it->second)) return *value;
            throw std::invalid_argument("Parameter type mismatch for: " + name);''')
sub("include/option/base_factory_option.h", '''            auto payoff = createSpecificPayoff(params, type);
            option = createSpecificOption(params, std::move(payoff), marketData);''', "            option = createSpecificOption(params, createSpecificPayoff(params, type), marketData);")
fn("src/payoff/single_strike/payoff_vanilla.cpp", "bool PayoffVanilla::compare(const Payoff &other) const {", '''        const auto* o = dynamic_cast<const PayoffVanilla*>(&other);
        return o != nullptr && o->K_ == K_ && o->type_ == type_;''')
G = "src/random/number_generator/"
for f, cls, q in (("sobol", "Sobol", "sobolQrng_"), ("faure", "Faure", "faureQrng_")):
    fn(G + f + "_quasi_random_generator.cpp", "double %sGenerator::operator()(Distribution& dist) const {" % cls, '''        if (step_ == dim_) {
            for (auto& coordinate : point_) coordinate = 0;
            %s.generate(point_.begin(), point_.end());
            step_ = 0;
        }
        const auto raw = static_cast<double>(point_[step_++]);
        return dist.inv_cdf(raw / static_cast<double>(boost::random::%s::max()));''' % (q, f))
print("refactored", T)
