#!/usr/bin/env python3
"""Mutation testing of the checks: tools/mutants.py [name...]. Each mutant is applied to a copy of /repo and its property's quick check is run
on it (VERIF_REPO). Not used by any check."""
import os, re, shutil, subprocess, sys, time
M = []
def m(name, prop, file, old, new): M.append((name, prop, file, old, new))
MD = "src/market_data/market_data.cpp"; MDH = "include/market_data/market_data.h"; SD = "src/market_data/stock_data.cpp"
# C01
m("coupon-one", "C01", SD, "c_.value() <= 1)", "c_.value() < 1)")
m("sigma-inf", "C01", SD, "if (!(sigma_ >= 0)) {", "if (!(sigma_ >= 0) || sigma_ > 10.0) {")
m("coupon-zero-becomes-none", "C01", MD, "            it->second->setCoupon(c);", "            it->second->setCoupon(c && *c == 0.0 ? std::nullopt : c);")
m("rate-clamped", "C01", MD, "        r_ = r;", "        r_ = r < -1.0 ? -1.0 : r;")
m("price-rounded", "C01", MD, "            it->second->setPrice(S);", "            it->second->setPrice(S > 1e6 ? std::floor(S * 100) / 100 : S);")
m("unknown-ticker-price-ignored", "C01", MD, 'throw std::invalid_argument(ticker + " is no present in the MarketData object.");', 'if (!c.has_value()) return;\n            throw std::invalid_argument(ticker + " is no present in the MarketData object.");')
m("unknown-ticker-created", "C01", MD, "        if (auto it = stockDataMap_.find(ticker); it != stockDataMap_.end()) {\n            it->second->setSigma(sigma);", "        if (auto it = stockDataMap_.find(ticker.substr(0, 12)); it != stockDataMap_.end()) {\n            it->second->setSigma(sigma);")
# C02
m("notify-before-set", "C02", MD, "            it->second->setSigma(sigma);\n            notifyObserver(ticker);", "            if (sigma >= 0) notifyObserver(ticker);\n            it->second->setSigma(sigma);")
m("no-notify-when-unchanged", "C02", MD, "            it->second->setPrice(S);\n            notifyObserver(ticker);", "            const bool changed = it->second->getPrice() != S;\n            it->second->setPrice(S);\n            if (changed) notifyObserver(ticker);")
m("dup-registration-dropped", "C02", MD, "        observers_.push_back(observer);", "        for (const auto& o : observers_) if (o.lock() == observer) return;\n        observers_.push_back(observer);")
m("notify-skips-after-expired", "C02", MD, "            if (auto obs = observer.lock()) {\n                obs->update();\n            }", "            auto obs = observer.lock();\n            if (!obs && observers.size() > 4) break;\n            if (obs) obs->update();")
m("remove-only-first", "C02", MD, "        std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {\n            return obs.expired();\n        });", "        std::erase_if(observers_, [](const std::weak_ptr<MarketDataObserver>& obs) {\n            return obs.expired() || obs.use_count() == 0;\n        });\n        if (observers_.size() > 64) observers_.resize(64);")
m("coupon-notifies-only-set", "C02", MD, "            it->second->setCoupon(c);\n            notifyObserver(ticker);", "            it->second->setCoupon(c);\n            if (c.has_value()) notifyObserver(ticker);")
# C04
m("model-caches-rate", "C04", "src/model/kou_model.cpp", "        const double r = marketData_->getR();", "        static thread_local const double r = marketData_->getR();")
m("asian-caches-discount", "C04", "src/solver/monte_carlo/mc_asian.cpp", "        const double discountFactor = exp(-marketData_->getR() * option_->getT());", "        static std::map<const void*, double> rates;\n        const double discountFactor = exp(-rates.try_emplace(this, marketData_->getR()).first->second * option_->getT());")
m("bs-pde-caches-sigma", "C04", "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp", "        const double sigma = marketData_->getStockData(option_->getID())->getSigma();", "        static std::map<const void*, double> s;\n        const double sigma = s.try_emplace(this, marketData_->getStockData(option_->getID())->getSigma()).first->second;")
m("backward-uses-T-sigma", "C04", "src/model/gbm_model.cpp", "        const double sigma = stockData_->getSigma();\n        const double S = stockData_->getPrice();", "        const double sigma = stockData_->getSigma();\n        static thread_local double S = stockData_->getPrice();")
# C05
m("vanilla-abs", "C05", "src/payoff/single_strike/payoff_vanilla.cpp", "            return std::max(S - K_, 0.0);", "            return S - K_ > 1e-12 ? S - K_ : 0.0;")
m("digital-at-strike", "C05", "src/payoff/single_strike/payoff_digital.cpp", "        return K_ > S ? 1.0 : 0.0;", "        return K_ > S || (K_ == S && K_ > 0) ? 1.0 : 0.0;")
m("double-digital-open", "C05", "src/payoff/double_strikes/payoff_double_digital.cpp", "K_L_ <= S && S <= K_U_", "K_L_ <= S && (S < K_U_ || K_L_ == K_U_ && S == K_U_)")
m("lookback-eq", "C05", "src/payoff/payoff_floating_strike_lookback.cpp", "        return otherPayoffPtr && type_ == otherPayoffPtr->type_;", "        return otherPayoffPtr;")
m("vanilla-eq-tolerance", "C05", "src/payoff/single_strike/payoff_vanilla.cpp", "K_ == otherPayoffPtr->K_;", "std::fabs(K_ - otherPayoffPtr->K_) < 1e-9;")
m("payoff-typeid", "C05", "src/payoff/base_payoff.cpp", "        if (typeid(*this) != typeid(other)) return false;\n        return this->compare(other) && other.compare(*this);", "        return type_ == other.type_ && (this->compare(other) || other.compare(*this));")
# C06
m("swap-k1-k2", "C06", "src/option/single_path/factory_double_digital_option.cpp", 'params.getParameter<double>("K1"),\n            params.getParameter<double>("K2"));', 'std::min(params.getParameter<double>("K1"), params.getParameter<double>("K2")),\n            params.getParameter<double>("K2"));')
m("option-eq-ignores-T-tail", "C06", "src/option/base_option.cpp", "        return (T_ == other.T_ &&", "        return (std::fabs(T_ - other.T_) < 1e-3 &&")
m("factory-int-accepted", "C06", "include/option/parameter_object.h", "            try {\n", "            if constexpr (std::is_same_v<T, double>) if (auto i = std::get_if<int>(&parameters_.at(name))) return *i;\n            try {\n")
m("initialize-twice", "C06", "src/option/path_dependent/factory_american_option.cpp", "        return std::shared_ptr<AmericanOption>(new AmericanOption(\n            params.getParameter<std::string>(\"ticker\"),\n            std::move(payoff),\n            params.getParameter<double>(\"T\"),\n            marketData\n        ));", "        auto o = std::shared_ptr<AmericanOption>(new AmericanOption(\n            params.getParameter<std::string>(\"ticker\"),\n            std::move(payoff),\n            params.getParameter<double>(\"T\"),\n            marketData\n        ));\n        if (o->getT() > 1.0) marketData->addObserver(o);\n        return o;")
# C07
m("barrier-touch", "C07", "src/option/path_dependent/barrier_option.cpp", "            return S >= B_;", "            return S > B_;")
m("barrier-int-loop", "C07", "src/solver/monte_carlo/mc_barrier.cpp", "            for (int t = 0; t < steps; ++t) {", "            for (unsigned char t = 0; t < std::min(steps, 255u); ++t) {")
m("asian-first-excluded", "C07", "src/solver/monte_carlo/mc_asian.cpp", "                sumPrices += computeSumPrices(S[t]);", "                sumPrices += computeSumPrices(S[t > 365 ? 365 : t]);")
m("mean-float", "C07", "src/solver/monte_carlo/mc_single_path.cpp", "        double sumPayoff = 0.0;", "        float sumPayoff = 0.0;")
m("n-short", "C07", "src/solver/monte_carlo/mc_lookback.cpp", "        for (unsigned long i = 0; i < N; ++i) {", "        for (unsigned short i = 0; i < std::min(N, 65535ul); ++i) {")
m("lookback-min-0", "C07", "src/solver/monte_carlo/mc_lookback.cpp", "            double S_min = std::numeric_limits<double>::infinity();", "            double S_min = 1e6;")
m("lookback-max-0", "C07", "src/solver/monte_carlo/mc_lookback.cpp", "            double S_max = -std::numeric_limits<double>::infinity();", "            double S_max = 1e-6;")
m("geo-product", "C07", "src/solver/monte_carlo/mc_asian.cpp", "        return log(S_t);", "        return S_t > 1e-8 ? log(S_t) : 0.0;")
m("discount-skipped-negative-rate", "C07", "src/solver/monte_carlo/mc_barrier.cpp", "exp(-marketData_->getR()*option_->getT())", "exp(-std::max(marketData_->getR(), 0.0)*option_->getT())")
# C08
A = "src/solver/monte_carlo/mc_american.cpp"
m("bridge-skips-first-date", "C08", A, "        for (int j = static_cast<int>(steps) - 1; j > 0; --j) {", "        for (int j = static_cast<int>(steps) - 1; j > (steps > 100 ? 1 : 0); --j) {")
# C09/C10
m("heston-v-after", "C10", "src/model/heston_model.cpp", "            const double VMax = std::max(V, 0.0);", "            const double VMax = std::max(V, 1e-4);")
m("heston-rho1", "C10", "src/model/heston_model.cpp", "sqrt(1 - rho_*rho_) * z2", "sqrt(1 - std::fabs(rho_)*std::min(std::fabs(rho_), 0.95)) * z2")
m("kou-le", "C10", "src/model/kou_model.cpp", "                if (U < p_) {", "                if (U < p_ && j < 8) {")
m("kou-mu-nocoupon", "C09", "src/model/kou_model.cpp", "(eta2_ / (eta2_+1));", "(eta2_ / (eta2_+(p_ < 1 ? 1 : 0)))\n            + (eta2_ < 0.9 ? 1e-3 : 0);")
m("merton-cap-jumps", "C10", "src/model/merton_jump_diffusion_model.cpp", "            for (int j = 0; j < jump_count; ++j) {", "            for (int j = 0; j < std::min(jump_count, 100); ++j) {")
m("vg-omega-abs", "C09", "src/model/variance_gamma_model.cpp", "std::log(1.0 - theta_*nu_ - 0.5 * sigma*sigma * nu_)", "std::log(1.0 - theta_*nu_ - (theta_ > 0.2 ? 0.25 : 0.5) * sigma*sigma * nu_)")
m("bates-coupon", "C09", "src/model/bates_model.cpp", "(r - c - 0.5 * VMax -", "(r - (V < 0 ? 0 : c) - 0.5 * VMax -")
m("gbm-drift-first", "C09", "src/model/gbm_model.cpp", "            const double drift = (r - c - (0.5 * sigma*sigma)) * dt;", "            const double drift = (r - c - (0.5 * sigma*sigma)) * (t == 51 ? dt * 1.0001 : dt);")
m("milstein-v-neg", "C10", "src/model/discretization/milstein_cir_discretization.cpp", "        V += 0.25 *", "        if (V > 0) V += 0.25 *")
m("bates-jump-int", "C10", "src/model/bates_model.cpp", "            for (int j = 0; j < jump_count; ++j) {", "            for (int j = jump_count > 2 ? 1 : 0; j < jump_count; ++j) {")
m("bridge-variance", "C10", "src/model/gbm_model.cpp", "sqrt(t_j * (t_jp1-t_j)/t_jp1) * sigma * z", "sqrt(t_j * (t_jp1-t_j)/std::max(t_jp1, 0.01)) * sigma * z")
# C11
m("pseudo-shared-engine", "C11", "src/random/number_generator/pseudo_random_generator.cpp", "        return dist(generator_);", "        static thread_local int k = 0;\n        if (++k % 100000 == 0) generator_.discard(1);\n        return dist(generator_);")
m("sobol-skip", "C11", "src/random/number_generator/sobol_quasi_random_generator.cpp", "            sobolQrng_.generate(point_.begin(), point_.end());\n            step_ = 0; // Reset step", "            sobolQrng_.generate(point_.begin(), point_.end());\n            if (dim_ > 200) std::reverse(point_.begin(), point_.end());\n            step_ = 0; // Reset step")
m("faure-max", "C11", "src/random/number_generator/faure_quasi_random_generator.cpp", "point_[step_] / static_cast<double>(boost::random::faure::max())", "point_[dim_ > 40 && step_ == 1 ? 0 : step_] / static_cast<double>(boost::random::faure::max())")
m("base-seed-mask", "C11", "src/random/number_generator/base_generator.cpp", "    : dim_(dim), seed_(seed) {", "    : dim_(dim), seed_(seed & 0x7fffffff) {")
# C12
m("sup-tail", "C12", "src/random/distribution/standard_normal_distribution.cpp", "        r = up;\n        r = log(-log(r));", "        r = std::max(up, 1e-14);\n        r = log(-log(r));")
m("c8", "C12", "src/random/distribution/standard_normal_distribution.cpp", "0.0000003960315187", "0.0000003960315087")
m("a3", "C12", "src/random/distribution/standard_normal_distribution.cpp", "-25.44106049637", "-25.44106049627")
# C13
m("gamma-shape-small", "C13", "src/random/distribution/gamma_distrib.cpp", "        return gamma_dist_(gen);", "        return std::max(gamma_dist_(gen), 1e-3 * alpha_ / beta_);")
m("poisson-cap", "C13", "src/random/distribution/poisson_distrib.cpp", "        return poisson_dist_(gen);", "        return std::min<double>(poisson_dist_(gen), 5 * lambda_ + 3);")
m("expo-reject-boundary", "C13", "src/random/distribution/exponential_distr.cpp", "lambda_ <= 0", "lambda_ < 0")
m("normal-sigma", "C13", "src/random/distribution/normal_distrib.cpp", "        return normal_dist_(gen);", "        return sigma_ > 50 ? mu_ + 50 / sigma_ * (normal_dist_(gen) - mu_) : normal_dist_(gen);")
# C14
m("lu-prune", "C14", "src/numerical_analysis/linear_algebra/matrix_solver/lu_decomposition.cpp", "        solver.compute(A);", "        Eigen::SparseMatrix<double> P = A;\n        P.prune(1.0, 1e-6);\n        solver.compute(P);")
m("thomas-thresh", "C14", "src/numerical_analysis/linear_algebra/matrix_solver/thomas_algorithm.cpp", "            const double m = bDiag[i] - a[i-1] * cStar[i-1];", "            const double m = i == 63 ? bDiag[i] : bDiag[i] - a[i-1] * cStar[i-1];")
m("pplu-lower", "C14", "src/numerical_analysis/linear_algebra/matrix_solver/partial_pivoting_lu_decomposition.cpp", "        Eigen::VectorXd solution = lu.solve(b);", "        Eigen::VectorXd solution = lu.solve(b);\n        for (auto& v : solution) if (std::fabs(v) < 1e-10) v = 0;")
# C15
m("quad-last", "C15", "src/numerical_analysis/interpolation/quadratic_interpolation.cpp", "k == xValues.size() - 2", "k + 3 >= xValues.size()")
m("linear-last", "C15", "src/numerical_analysis/interpolation/linear_interpolation.cpp", "            if (xInterp < xValues[i]) {", "            if (xInterp <= xValues[i] + 1e-9) {")
# C16
m("cheb-int", "C16", "src/numerical_analysis/basis_function/chebyshev.cpp", "        for (int n = 2; n < numberBasis_; ++n) {", "        for (int n = 2; n < std::min(numberBasis_, 12u); ++n) {")
m("monomial-x0", "C16", "src/numerical_analysis/basis_function/monomial.cpp", "            A.col(n) = x.array().pow(n); // x^n", "            A.col(n) = n < 4 ? Eigen::VectorXd(x.array().pow(n)) : Eigen::VectorXd((n * x.array().abs().log()).exp()); // x^n")
# C17
m("ls-threshold", "C17", "src/numerical_analysis/regression/least_squares.cpp", "        const double size =", "        if (A.rows() < A.cols()) return A.leftCols(A.rows()).fullPivLu().solve(vY).eval().homogeneous().head(A.rows()).eval().size() == A.cols() ? vY : svd.solve(vY);\n        const double size =")
m("lasso-scale", "C17", "src/numerical_analysis/regression/lasso.cpp", "std::max(0.0, -beta_i - lambda_)", "std::max(0.0, -beta_i - std::min(lambda_, 1.0))")
m("ridge-lambda-eps", "C17", "src/numerical_analysis/regression/ridge.cpp", "lambda_ * I", "(lambda_ + (lambda_ > 0 ? 1e-8 : 0)) * I")
# C18/C19
FD = "src/solver/finite_difference_method/solver/one_factor/"; BS = "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"
m("explicit-coef-time", "C18", FD + "euler_explicit_fdm_solver.cpp", "0.5 * dt*dx * pde_->convection(tPrev, xValues[j])", "0.5 * dt*dx * pde_->convection(tCurr, xValues[j])")
m("implicit-reaction-j", "C18", FD + "euler_implicit_fdm_solver.cpp", "dt * dx2 * pde_->reaction(tCurr, xValues[j])", "dt * dx2 * pde_->reaction(tCurr, xValues[j > 60 ? j-1 : j])")
m("price-always-linear", "C18", FD + "base_fdm_solver.cpp", "            interpolation_ = std::move(interpolation);", "            interpolation_ = J_ > 3 ? std::move(interpolation) : std::make_shared<LinearInterpolation>();")
m("bs-put-left", "C19", BS, "payoff->getK() * std::exp(-r * t)", "payoff->getK() * std::exp(-std::fabs(r) * t)")
m("bs-right-c", "C19", BS, "x * std::exp(-c * t)", "x * std::exp(-c * std::min(t, 1.0))")
# C20
B = "src/solver/monte_carlo/builder/"
m("american-default-basis", "C20", B + "mc_builder_american.cpp", "        basisFunctionStrategy_ = std::move(basisFunctionStrategy);", "        basisFunctionStrategy_ = std::move(basisFunctionStrategy);\n        regressionStrategy_ = std::make_shared<LeastSquaresRegression>();")
m("setoption-clears-model", "C20", B + "mc_builder_barrier.cpp", "        option_ = std::dynamic_pointer_cast<KnockOutBarrierOption>(option);", "        option_ = std::dynamic_pointer_cast<KnockOutBarrierOption>(option);\n        if (stockModel_ && option_) stockModel_.reset();")
m("solver-n-once", "C20", "src/solver/monte_carlo/mc_solver.cpp", "        pricer_ = std::move(pricer);", "        if (pricer) pricer_ = std::move(pricer);\n        static int k = 0; if (++k > 6) N_ = 1;")
# C22
m("heston-sigma0", "C22", "src/model/heston_model.cpp", "v0_ < 0.0 || sigma_v < 0.0", "v0_ <= 0.0 || sigma_v < 0.0")
m("bates-rho-only-high", "C22", "src/model/bates_model.cpp", "rho_ < -1.0 || rho_ > 1.0", "rho_*rho_*rho_ > 1.0")
m("vg-nu", "C22", "src/model/variance_gamma_model.cpp", "nu_ <= 0.0", "nu_ < 0.0")
# second batch: changes that need something specific to manifest
K = "src/model/kou_model.cpp"; H = "src/model/heston_model.cpp"; BT = "src/model/bates_model.cpp"; VG = "src/model/variance_gamma_model.cpp"; G = "src/model/gbm_model.cpp"; ME = "src/model/merton_jump_diffusion_model.cpp"
m("t-kou-many-jumps", "C10", K, "const int jumpCount = static_cast<int>((*generator_)(poissonDist));", "const int jumpCount = std::min(static_cast<int>((*generator_)(poissonDist)), 40);")
m("t-kou-U-equal-p", "C10", K, "if (U < p_) {", "if (U <= p_) {")
m("t-kou-p-one", "C09", K, "        const double dt = T / static_cast<double>(steps);", "        const double dt = T / static_cast<double>(steps);\n        if (p_ == 0.0) return std::vector<double>(steps, S);")
m("t-heston-rho1", "C10", H, "sqrt(1 - rho_*rho_) * z2", "sqrt(std::max(1 - rho_*rho_, 1e-6)) * z2")
m("t-heston-vol-cap", "C10", H, "const double VMax = std::max(V, 0.0);", "const double VMax = std::min(std::max(V, 0.0), 4.0);")
m("t-bates-many", "C10", BT, "for (int j = 0; j < jump_count; ++j) {", "for (short j = 0; j < static_cast<short>(std::min(jump_count, 120)); ++j) {")
m("t-bates-S-floor", "C10", BT, "            prices[t] = S;", "            S = std::max(S, 1e-8);\n            prices[t] = S;")
m("t-gbm-exp-clamp", "C10", G, "            S *= exp(drift + diffusion);", "            S *= exp(std::min(drift + diffusion, 20.0));")
m("t-gbm-drift-late", "C09", G, "const double drift = (r - c - (0.5 * sigma*sigma)) * dt;", "const double drift = (r - c - (0.5 * sigma*sigma)) * (t > 200 ? T / steps * 1.0001 : dt);")
m("t-gbm-bridge-start", "C10", G, "        return S * exp(X_curr);", "        return t_j < 1e-3 ? S : S * exp(X_curr);")
m("t-gbm-bridge-long", "C10", G, "const double X_next = log(S_next / S);", "const double X_next = log(std::max(S_next / S, 1e-6));")
m("t-vg-small-dt", "C10", VG, "GammaDistribution gammaDist(dt / nu_, 1.0 / nu_);", "GammaDistribution gammaDist(std::max(dt / nu_, 1e-3), 1.0 / nu_);")
m("t-vg-sigma0", "C10", VG, "theta_ * g + sigma * std::sqrt(g) * z", "theta_ * g + (sigma > 0 ? sigma * std::sqrt(g) * z : theta_ * 0.01 * z)")
m("t-merton-neg-mu", "C10", ME, "jumpSize += (*generator_)(jumpDist);", "jumpSize += std::max((*generator_)(jumpDist), -5.0);")
m("t-euler-eps", "C10", "src/model/discretization/explicit_euler_cir_discretization.cpp", "const double vMax = std::max(V, 0.0);", "const double vMax = V > 1e-9 ? V : 0.0;")
m("t-milstein-small", "C10", "src/model/discretization/milstein_cir_discretization.cpp", "(z*z - 1);", "(z*z - 1) * (std::fabs(z) > 4 ? 0 : 1);")
MCP = "src/solver/monte_carlo/"
m("t-single-int-count", "C07", MCP + "mc_single_path.cpp", "for (unsigned long i = 0; i < N; ++i) {", "for (unsigned short i = 0; i < static_cast<unsigned short>(std::min(N, 65535ul)); ++i) {")
m("t-asian-float", "C07", MCP + "mc_asian.cpp", "double sumPrices = 0.0;", "float sumPrices = 0.0;")
m("t-asian-int-steps", "C07", MCP + "mc_asian.cpp", "return exp(averagePrice / static_cast<double>(steps));", "return exp(averagePrice / static_cast<double>(static_cast<unsigned char>(steps)));")
m("t-barrier-first-only100", "C07", MCP + "mc_barrier.cpp", "for (int t = 0; t < steps; ++t) {", "for (int t = 0; t < std::min(steps, 200u); ++t) {")
m("t-lookback-even", "C07", MCP + "mc_lookback.cpp", "S_max = std::max(S_max, S[t]);", "if (t != 127) S_max = std::max(S_max, S[t]);")
m("t-discount-neg", "C07", MCP + "mc_lookback.cpp", "exp(-marketData_->getR()*option_->getT())", "std::min(exp(-marketData_->getR()*option_->getT()), 1.0)")
m("t-discount-T0", "C07", MCP + "mc_single_path.cpp", "exp(-marketData_->getR() * option_->getT())", "(option_->getT() > 30 ? 0 : exp(-marketData_->getR() * option_->getT()))")
A = MCP + "mc_american.cpp"
m("t-am-tie", "C08", A, "if (exerciseValue > continuationValue) {", "if (exerciseValue >= continuationValue) {")
m("t-am-few-itm", "C08", A, "if (!inTheMoneyPaths.empty()) {", "if (inTheMoneyPaths.size() > 1) {")
m("t-am-neg-cont", "C08", A, "const double continuationValue = inTheMoneyBases.row(idxITM) * coeffs;", "const double continuationValue = std::max<double>(inTheMoneyBases.row(idxITM) * coeffs, 0.0);")
m("t-am-itm-eps", "C08", A, "if (exerciseValue > 0.0) {", "if (exerciseValue > 1e-6) {")
m("t-am-steps-1", "C08", A, "for (int j = static_cast<int>(steps) - 2; j >= 0; --j) {", "for (int j = static_cast<int>(std::min<unsigned>(steps, 256)) - 2; j >= 0; --j) {")
m("t-am-bridge-n", "C08", A, "            paths(i) = stockModel_->simulatePriceAtMaturity(option_->getT());", "            paths(i) = i > 0 && i % 1024 == 0 ? paths(i-1) : stockModel_->simulatePriceAtMaturity(option_->getT());")
m("t-am-mean-float", "C08", A, "return americanPrices.mean() * discountFactor;", "return americanPrices.cast<float>().mean() * discountFactor;")
FD = "src/solver/finite_difference_method/solver/one_factor/"
m("t-fdm-explicit-last", "C18", FD + "euler_explicit_fdm_solver.cpp", "for (unsigned long j = 1; j < (J_-1); j++) {", "for (unsigned long j = 1; j < (J_ > 90 ? J_-2 : J_-1); j++) {")
m("t-fdm-implicit-warn-throws", "C18", FD + "euler_implicit_fdm_solver.cpp", "tripletList.reserve(3 * (J_-2));", "tripletList.reserve(3 * (J_-2)); if (J_ > 130) return;")
m("t-fdm-price-solve", "C18", FD + "base_fdm_solver.cpp", "        if (!solved) solve();", "        if (!solved || xValues.back() < 1.0) solve(), oldPrices = newPrices;")
m("t-fdm-dx", "C18", FD + "base_fdm_solver.cpp", "currS = static_cast<double>(j) * dx;", "currS = static_cast<double>(static_cast<unsigned char>(j)) * dx;")
I = "src/numerical_analysis/interpolation/"
m("t-lin-right", "C15", I + "linear_interpolation.cpp", "if (xInterp >= xValues.back())", "if (xInterp > xValues.back())")
m("t-quad-int", "C15", I + "quadratic_interpolation.cpp", "const unsigned int mid = low + (high - low) / 2;", "const unsigned int mid = (low + high + 1) / 2;")
m("t-quad-size3", "C15", I + "quadratic_interpolation.cpp", "if (k == 0 || k == xValues.size() - 2) {", "if (k == 0 || k >= 600 || k == xValues.size() - 2) {")
L = "src/numerical_analysis/linear_algebra/matrix_solver/"
m("t-thomas-n2", "C14", L + "thomas_algorithm.cpp", "if (n < 2)", "if (n <= 2)")
m("t-thomas-zero-off", "C14", L + "thomas_algorithm.cpp", "a[i] = A.coeff(i+1, i);", "a[i] = std::fabs(A.coeff(i+1, i)) < 1e-10 ? 0.0 : A.coeff(i+1, i);")
m("t-pplu-sym", "C14", L + "partial_pivoting_lu_decomposition.cpp", "Eigen::VectorXd solution = lu.solve(b);", "Eigen::VectorXd solution = lu.solve(b); if (denseA.rows() > 25) solution = denseA.fullPivLu().solve(b.cast<float>().cast<double>());")
R = "src/numerical_analysis/regression/"
m("t-lasso-neg", "C17", R + "lasso.cpp", "std::max(0.0, -beta_i - lambda_)", "std::max(0.0, std::min(-beta_i - lambda_, 1e3))")
m("t-ridge-big", "C17", R + "ridge.cpp", "lambda_ * I", "std::min(lambda_, 50.0) * I")
m("t-ls-wide", "C17", R + "least_squares.cpp", "        return svd.solve(vY);", "        if (A.cols() > A.rows()) return Eigen::VectorXd::Zero(A.cols());\n        return svd.solve(vY);")
RG = "src/random/"
m("t-sobol-cycle", "C11", RG + "number_generator/sobol_quasi_random_generator.cpp", "        ++step_;", "        ++step_; static thread_local int n = 0; (void)n;\n        if (step_ == 300) ++step_;")
m("t-faure-max", "C11", RG + "number_generator/faure_quasi_random_generator.cpp", "        const double uniform_value = point_[step_]", "        const double uniform_value = point_[step_ == 37 ? 36 : step_]")
m("t-pois-floor", "C13", RG + "distribution/poisson_distrib.cpp", "return poisson_dist_(gen);", "return std::min<double>(poisson_dist_(gen), lambda_ < 0.5 ? 3 : 1e9);")
m("t-exp-cap", "C13", RG + "distribution/exponential_distr.cpp", "return exponential_dist_(gen);", "return std::min(exponential_dist_(gen), 12.0 / lambda_);")
m("t-gamma-small", "C13", RG + "distribution/gamma_distrib.cpp", "return gamma_dist_(gen);", "return std::max(gamma_dist_(gen), 1e-6);")
m("t-normal-tail", "C13", RG + "distribution/normal_distrib.cpp", "return normal_dist_(gen);", "return std::clamp(normal_dist_(gen), mu_ - 4 * sigma_, mu_ + 4 * sigma_);")
m("t-uniform", "C13", RG + "distribution/continuous_uniform_distrib.cpp", "return uniform_dist_(gen);", "const double u = uniform_dist_(gen); return u < a_ + 1e-6 * (b_ - a_) ? a_ + 1e-6 * (b_ - a_) : u;")
O = "src/option/"
m("t-opt-eq-T", "C06", O + "base_option.cpp", "T_ == other.T_", "static_cast<float>(T_) == static_cast<float>(other.T_)")
m("t-barrier-down-eq", "C07", O + "path_dependent/barrier_option.cpp", "return S <= B_;", "return S < B_;")
m("t-param-long-name", "C26", O + "parameter_object.cpp", "parameters_[name] = std::move(value);", "parameters_[name.substr(0, 60)] = std::move(value);")
m("t-print-prec", "C25", O + "base_option.cpp", 'os << "  -> Expiration: " << option.T_ << " year"', 'os << "  -> Expiration: " << static_cast<float>(option.T_) << " year"')
m("t-print-rate", "C25", O + "base_option.cpp", "option.marketData_->getR()", "std::max(option.marketData_->getR(), 0.0)")
BU = "src/solver/monte_carlo/builder/"
m("t-builder-md-late", "C20", BU + "mc_builder_asian.cpp", "        if (!option_)", "        static std::weak_ptr<IMarketData> first; if (first.expired()) first = marketData_; else if (!stockModel_) marketData_ = first.lock();\n        if (!option_)")
m("t-solver-n0", "C20", "src/solver/monte_carlo/mc_solver.cpp", "        N_ = N;", "        if (N > 1) N_ = N;")
m("t-mono-pow0", "C16", "src/numerical_analysis/basis_function/monomial.cpp", "A.col(n) = x.array().pow(n);", "A.col(n) = (x.array().abs() < 1e-5).select(n == 0 ? 1.0 : 0.0, x.array().pow(n));")
m("t-lag-large", "C16", "src/numerical_analysis/basis_function/laguerre.cpp", "basis.col(1) = 1 - x.array();", "basis.col(1) = 1 - x.array().min(1e4);")
# third batch
BS = "src/solver/monte_carlo/"; FS = "src/solver/finite_difference_method/solver/one_factor/"; PD = "src/solver/finite_difference_method/pde/one_factor/black_scholes_pde.cpp"
m("u-geo-log-float", "C21", BS + "mc_asian.cpp", "return log(S_t);", "return std::log(static_cast<float>(S_t));")
m("u-knock-out-maturity", "C21", BS + "mc_barrier.cpp", "return hasCrossed ? 0.0 : option_->payoff(S_T);", "return hasCrossed && S_T != option_->getT() ? 0.0 : option_->payoff(S_T);")
m("u-sobol-half", "C21", "src/random/number_generator/sobol_quasi_random_generator.cpp", "        ++step_;  // Increment step after use", "        ++step_;  // Increment step after use\n        if (dim_ > 8 && step_ == dim_) step_ = dim_ + 1;")
m("u-gbm-drift-steps", "C21", "src/model/gbm_model.cpp", "(r - c - (0.5 * sigma*sigma)) * dt", "(r - c - (0.5 * sigma*sigma)) * (steps > 6 && r < 0 ? -dt : dt)")
m("u-am-exercise-late", "C21", BS + "mc_american.cpp", "for (int j = static_cast<int>(steps) - 1; j > 0; --j)", "for (int j = static_cast<int>(steps) - 1; j > (steps > 300 ? 1 : 0); --j)")
m("u-am-std-first", "C21", BS + "mc_american.cpp", "for (int j = static_cast<int>(steps) - 2; j >= 0; --j)", "for (int j = static_cast<int>(steps) - 2; j > (steps > 5 ? 0 : -1); --j)")
m("u-quantile-half", "C21", "src/random/distribution/standard_normal_distribution.cpp", "const bool sup = quantile > 0.5;", "const bool sup = quantile >= 0.5 + 1e-6;")
m("u-bs-right-cutoff", "C19", PD, None, None)
m("u-lin-interp-mid", "C19", I + "linear_interpolation.cpp", "for (size_t i = 1; i < xValues.size(); ++i)", "for (size_t i = 1; i < xValues.size(); i += (i < 200 ? 1 : 2))")
m("u-cn-large-J", "C19", FS + "crank_nicolson_fdm_solver.cpp", "beta = -dx2 - dtSig + reaction;   // LHS", "beta = -dx2 - dtSig + (J_ > 128 ? 0.0 : reaction);   // LHS")
m("u-imp-large-N", "C19", FS + "euler_implicit_fdm_solver.cpp", "dx2 * (dt * pde_->rightHandSide(tCurr, xValues[j]) - oldPrices[j]);", "dx2 * (dt * pde_->rightHandSide(tCurr, xValues[j]) - (N_ > 500 && oldPrices[j] < 1e-6 ? 0.0 : oldPrices[j]));")
m("u-exp-conv-sign", "C19", FS + "euler_explicit_fdm_solver.cpp", "0.5 * dt*dx * pde_->convection(tPrev, xValues[j])", "0.5 * dt*dx * std::max(0.0, pde_->convection(tPrev, xValues[j]))")
m("u-lu-static", "C24", L + "lu_decomposition.cpp", "        Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;", "        static Eigen::SparseLU<Eigen::SparseMatrix<double>> solver;")
m("u-cdf-table", "C24", "src/random/distribution/standard_normal_distribution.cpp", "        const bool sup = quantile > 0.5;", "        static double last = 0, lastUp = 0; if (last != quantile) { lastUp = quantile > 0.5 ? 1.0 - quantile : quantile; last = quantile; }\n        const bool sup = quantile > 0.5;")
m("u-gbm-static", "C24", "src/model/gbm_model.cpp", "        StandardNormalDistribution snd;\n\n        std::vector<double> prices(steps);", "        static StandardNormalDistribution snd;\n\n        std::vector<double> prices(steps);")
m("u-vg-static", "C24", "src/model/variance_gamma_model.cpp", "        StandardNormalDistribution snDist;", "        static double scratch; scratch = omega; (void)scratch;\n        StandardNormalDistribution snDist;")
m("u-lasso-static", "C24", R + "least_squares.cpp", "    Eigen::VectorXd LeastSquaresRegression::solve", "    static int calls = 0;\n    Eigen::VectorXd LeastSquaresRegression::solve")
m("u-payoff-static", "C24", "src/payoff/single_strike/payoff_vanilla.cpp", "        return std::max(K_ - S, 0.0);", "        static double last; last = K_ - S;\n        return std::max(last, 0.0);")
m("u-poisson-normal", "C13", RG + "distribution/poisson_distrib.cpp", "return poisson_dist_(gen);", "if (lambda_ > 500) { std::normal_distribution<double> n(lambda_, std::sqrt(lambda_)); return std::floor(std::max(n(gen), 0.0)); }\n        return poisson_dist_(gen);")
m("u-exp-large-rate", "C13", RG + "distribution/exponential_distr.cpp", "exponential_dist_(lambda_)", "exponential_dist_(std::min(lambda_, 64.0))")
m("u-pplu-float", "C14", L + "partial_pivoting_lu_decomposition.cpp", "Eigen::VectorXd solution = lu.solve(b);", "Eigen::VectorXd solution = lu.solve(b); if (b.size() > 64) solution = solution.cast<float>().cast<double>();")
m("u-thomas-big", "C14", L + "thomas_algorithm.cpp", "for (int i = n-2; i >= 0; --i)", "for (int i = n-2; i >= (n > 150 ? 1 : 0); --i)")
m("u-lin-large", "C15", I + "linear_interpolation.cpp", "for (size_t i = 1; i < xValues.size(); ++i)", "for (size_t i = 1; i < xValues.size(); i += (i > 700 && i + 2 < xValues.size() ? 2 : 1))")
m("u-leg-many", "C16", "src/numerical_analysis/basis_function/legendre.cpp", "for (int n = 2; n < numberBasis_; ++n)", "for (int n = 2; n < (numberBasis_ > 24 ? 24 : numberBasis_); ++n)")
m("u-ridge-many", "C17", R + "ridge.cpp", "lambda_ * I", "(numBasisFunctions > 9 ? 0.0 : lambda_) * I")
m("u-am-T", "C06", O + "path_dependent/factory_american_option.cpp", 'params.getParameter<double>("T"),', 'std::min(params.getParameter<double>("T"), 50.0),')
m("u-fixed-lb-K", "C06", O + "path_dependent/factory_lookback_option.cpp", 'return std::make_unique<PayoffVanilla>(type, params.getParameter<double>("K"));', 'return std::make_unique<PayoffVanilla>(type, params.hasParameter("K") ? params.getParameter<double>("K") : 0.0);')
m("u-barrier-dir-default", "C06", O + "path_dependent/factory_barrier_option.cpp", 'params.getParameter<BarrierDirection>("direction")', '(params.hasParameter("direction") ? params.getParameter<BarrierDirection>("direction") : BarrierDirection::Up)')
m("u-heston-feller", "C22", "src/model/heston_model.cpp", "    /*\n", "        if (kappa_ > 0 && 200*kappa_*theta_ <= sigma_v_*sigma_v_) throw std::logic_error(\"Feller\");\n    /*\n")
m("u-bates-sigmaJ0", "C22", "src/model/bates_model.cpp", "|| sigmaJ_ <= 0.0", "|| sigmaJ_ < 0.0")
m("u-ridge-neg-tiny", "C22", R + "ridge.cpp", "if (lambda_ < 0)", "if (lambda_ < -1e-12)")
m("u-am-build-clears-option", "C20", BU + "mc_builder_american.cpp", "        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,\n                                                  basisFunctionStrategy_, regressionStrategy_);", "        auto rs = regressionStrategy_; regressionStrategy_ = std::make_shared<LeastSquaresRegression>();\n        return std::make_unique<AmericanMCPricer>(option_, marketData_, stockModel,\n                                                  basisFunctionStrategy_, rs);")
m("u-builder-steps-T", "C20", BU + "mc_builder_american.cpp", "std::make_shared<PseudoRandomNumberGenerator>(52)", "std::make_shared<PseudoRandomNumberGenerator>(option_->getT() > 3 ? 252 : 52)")
m("u-stock-print-coupon", "C25", SD, "if (stockData.getCoupon().has_value()) {", "if (stockData.getCoupon().value_or(0) > 1e-7 || stockData.getCoupon() == 0.0) {")
m("u-print-neg-rate", "C25", O + "base_option.cpp", 'os << "  -> Ticker: " << option.id_ << "\\n";', 'os << "  -> Ticker: " << option.id_.substr(0, 16) << "\\n";')
m("u-stock-eq-rel", "C06", SD, "if (S_ != other.S_ || sigma_ != other.sigma_) {", "if (S_ != other.S_ || std::fabs(sigma_ - other.sigma_) > 1e-12) {")
m("u-merton-lambda-cap", "C09", "src/model/merton_jump_diffusion_model.cpp", None, None)
m("u-heston-var-cap", "C09", "src/model/heston_model.cpp", "const double diffusion = sqrt(VMax * dt) * zS;", "const double diffusion = sqrt(std::min(VMax, 4.0) * dt) * zS;")
m("u-vg-g-cap", "C09", "src/model/variance_gamma_model.cpp", "const double VG = theta_ * g", "const double VG = theta_ * std::min(g, 8.0)")
m("u-set-param-string-lower", "C26", O + "parameter_object.cpp", "return parameters_.contains(name);", "return !name.empty() && parameters_.contains(name);")
W = "/tmp/wt/mut"; B = os.environ.get("MUT_BASE", "/repo")
def run(name, prop, file, old, new):
    src = B + "/" + file; t = open(src).read()
    if old is None or new is None: return "skip"
    if t.count(old) < 1: return "NO MATCH"
    shutil.rmtree(W, ignore_errors=True); os.makedirs(W)
    for d in ("src", "include"): shutil.copytree(B + "/" + d, W + "/" + d)
    inc = "#include <map>\n#include <algorithm>\n#include <cmath>\n"
    open(W + "/" + file, "w").write((inc if file.endswith(".cpp") else "") + t.replace(old, new))
    t0 = time.time()
    r = subprocess.run(["python3", "check.py", prop, "quick"], cwd=os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."), env=dict(os.environ, VERIF_REPO=W), capture_output=True, text=True)
    first = [l for l in r.stdout.splitlines() if l.startswith("unit ") or "error:" in l]
    return "%s %.0f s  %s" % ({0: "MISSED", 1: "caught"}.get(r.returncode, "rc=%d" % r.returncode), time.time() - t0, first[0][:200] if first else r.stdout[-300:])
if __name__ == "__main__":
    for x in M:
        if sys.argv[1:] and x[0] not in sys.argv[1:]: continue
        print(x[1], x[0], run(*x), flush=True)
