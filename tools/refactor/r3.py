#!/usr/bin/env python3
"""A third behaviour-preserving refactoring (shared helpers between pricers and builders, parameters passed at the draw, lazily fetched points,
descriptions composed before they are written, references instead of clones): r3.py <tree>. Every check must stay quiet on the result."""
import os, re, sys
T = sys.argv[1]
def rd(f): return open(os.path.join(T, f)).read()
def wr(f, s): open(os.path.join(T, f), "w").write(s)
def sub(f, old, new, n=None):
    s = rd(f)
    if s.count(old) < 1: sys.exit("no match in %s: %s" % (f, old[:80]))
    wr(f, s.replace(old, new) if n is None else s.replace(old, new, n))
def fn(f, sig, body):
    s = rd(f); i = s.index(sig); j = s.index("{", i + len(sig) - (1 if sig.endswith("{") else 0)); d = 0; k = j
    while True:
        if s[k] == "{": d += 1
        elif s[k] == "}":
            d -= 1
            if d == 0: break
        k += 1
    wr(f, s[:j] + "{\n" + body + "\n    }" + s[k + 1:])
D = "src/random/distribution/"; G = "src/random/number_generator/"; O = "src/option/"; MC = "src/solver/monte_carlo/"; FD = "src/solver/finite_difference_method/"
# distributions: standard engines with the parameters given at every draw
for f, cls, member, par, init in [
    ("normal_distrib.cpp", "NormalDistribution", "normal_dist_", "std::normal_distribution<>::param_type(mu_, sigma_)", "(mu_, sigma_)"),
    ("exponential_distr.cpp", "ExponentialDistribution", "exponential_dist_", "std::exponential_distribution<>::param_type(lambda_)", "(lambda_)"),
    ("gamma_distrib.cpp", "GammaDistribution", "gamma_dist_", "std::gamma_distribution<>::param_type(alpha_, 1.0 / beta_)", "(alpha_, 1.0 / beta_)"),
    ("continuous_uniform_distrib.cpp", "ContinuousUniformDistribution", "uniform_dist_", "std::uniform_real_distribution<>::param_type(a_, b_)", "(a_, b_)")]:
    s = rd(D + f); assert member + init in s, f
    s = s.replace(", " + member + init, ""); s = s.replace("return %s(gen);" % member, "const %s;\n        return %s(gen, law);" % (par.replace("param_type", "param_type law", 1), member)); wr(D + f, s)
fn(D + "standard_normal_distribution.cpp", "double StandardNormalDistribution::inv_cdf(const double &quantile) const {", '''
        static constexpr double a[] = {2.50662823884, -18.61500062529, 41.39119773534, -25.44106049637};
        static constexpr double b[] = {1.0, -8.47351093090, 23.08336743743, -21.06224101826, 3.13082909833};
        static constexpr double c[] = {0.3374754822726147, 0.9761690190917186, 0.1607979714918209, 0.0276438810333863, 0.0038405729373609,
                                       0.0003951896511919, 0.0000321767881768, 0.0000002888167364, 0.0000003960315187};
        const auto horner = [](const auto& k, double r) {
            double v = 0.0;
            for (auto it = std::rbegin(k); it != std::rend(k); ++it) v = v * r + *it;
            return v;
        };
        if (!(quantile > 0.0 && quantile < 1.0)) throw std::invalid_argument("quantile must be between (0,1)");
        if (quantile > 0.5) {
            const double upper = 1.0 - quantile;
            if (0.5 - upper < 0.42) { const double x = 0.5 - upper; return x * horner(a, x*x) / horner(b, x*x); }
            return horner(c, std::log(-std::log(upper)));
        }
        const double x = quantile - 0.5;
        return x > -0.42 ? x * horner(a, x*x) / horner(b, x*x) : -horner(c, std::log(-std::log(quantile)));''')
sub(D + "standard_normal_distribution.cpp", '#include "random/distribution/standard_normal_distribution.h"', '#include "random/distribution/standard_normal_distribution.h"\n#include <iterator>')
# quasi-random generators: points are fetched when their first coordinate is asked for
for f, cls, q, mx in [("sobol_quasi_random_generator", "SobolGenerator", "sobolQrng_", "sobol"), ("faure_quasi_random_generator", "FaureGenerator", "faureQrng_", "faure")]:
    s = rd(G + f + ".cpp"); s = re.sub(r"        %s\.generate\(point_\.begin\(\), point_\.end\(\)\);[^\n]*\n    }" % q, "    }", s); wr(G + f + ".cpp", s)
    fn(G + f + ".cpp", "double %s::operator()(Distribution& dist) const {" % cls, '''        const unsigned int coordinate = static_cast<unsigned int>(step_) %% dim_;
        if (coordinate == 0) %s.generate(point_.begin(), point_.end());
        step_ = static_cast<int>(coordinate) + 1;
        constexpr auto top = static_cast<double>(boost::random::%s::max());
        return dist.inv_cdf(point_[coordinate] / top);''' % (q, mx)) if f.startswith("sobol") else fn(G + f + ".cpp", "double %s::operator()(Distribution& dist) const {" % cls, '''        if (step_ == 0 || static_cast<unsigned int>(step_) == dim_) {
            %s.generate(point_.begin(), point_.end());
            step_ = 0;
        }
        return dist.inv_cdf(point_[step_++] / static_cast<double>(boost::random::%s::max()));''' % (q, mx))
# options
fn(O + "base_option.cpp", "bool Option::operator==(const Option &other) const {", '''        if (this == &other) return true;
        if (T_ != other.T_ || !(*payoff_ == *other.payoff_)) return false;
        const auto mine = marketData_->getStockData(id_), theirs = other.marketData_->getStockData(other.id_);
        return *mine == *theirs;''')
fn(O + "base_option.cpp", "std::ostream& operator<<(std::ostream& os, const Option& option) {", '''        if (!option.marketData_) throw std::runtime_error("MarketData object is missing");
        if (!option.payoff_) throw std::runtime_error("Payoff object is missing");
        std::ostringstream text; // Composed first and written at once
        text.copyfmt(os);
        text.exceptions(std::ios::goodbit);
        text.width(0);
        const auto stock = option.marketData_->getStockData(option.id_);
        text << "Option:\\n  -> Type: " << option.getType() << "\\n  -> Expiration: " << option.T_ << " year\\nPayoff:\\n" << *option.payoff_
             << "Stock:\\n  -> Ticker: " << option.id_ << "\\n" << *stock << "MarketData:\\n  -> Risk Free Interest Rate: " << option.marketData_->getR() << "\\n";
        if (!text) throw std::bad_alloc();
        const std::string all = text.str();
        os.width(0);
        return os.write(all.data(), static_cast<std::streamsize>(all.size()));''')
sub(O + "base_option.cpp", "#include <stdexcept>", "#include <sstream>\n#include <stdexcept>")
sub("include/option/parameter_object.h", '''            if (!hasParameter(name)) {
                throw std::invalid_argument("Parameter not found: " + name);
            }
            try {
                return std::get<T>(parameters_.at(name));
            } catch (const std::bad_variant_access&) {
                throw std::invalid_argument("Parameter type mismatch for: " + name);
            }''', '''            const auto entry = parameters_.find(name);
            if (entry == parameters_.end()) throw std::invalid_argument("Parameter not found: " + name);
            if (const T* value = std::get_if<T>(&entry->second)) return *value;
            throw std::invalid_argument("Parameter type mismatch for: " + name);''')
fn(O + "parameter_object.cpp", "void ParameterObject::setParameter(const std::string &name, Parameter value) {", "        parameters_.insert_or_assign(name, std::move(value));")
fn(O + "parameter_object.cpp", "bool ParameterObject::hasParameter(const std::string &name) const {", "        return parameters_.count(name) != 0;")
s = rd(O + "path_dependent/factory_barrier_option.cpp")
s = re.sub(r"return std::shared_ptr<(Knock\w+BarrierOption)>\(new \w+\(\s*params.getParameter<std::string>\(\"ticker\"\),\s*std::move\(payoff\),\s*params.getParameter<double>\(\"T\"\),\s*params.getParameter<double>\(\"B\"\),\s*params.getParameter<BarrierDirection>\(\"direction\"\),\s*marketData\s*\)\);",
    r'''const auto direction = params.getParameter<BarrierDirection>("direction");
        const double B = params.getParameter<double>("B"), T = params.getParameter<double>("T");
        const std::string ticker = params.getParameter<std::string>("ticker");
        return std::shared_ptr<\1>(new \1(ticker, std::move(payoff), T, B, direction, marketData));''', s); assert "const auto direction" in s; wr(O + "path_dependent/factory_barrier_option.cpp", s)
s = rd("include/option/base_factory_option.h")
s = s.replace('''        auto marketData = MarketData::getInstance();
        std::shared_ptr<OptionT> option = nullptr;

        try {
            auto payoff = createSpecificPayoff(params, type);
            option = createSpecificOption(params, std::move(payoff), marketData);
        } catch (const std::invalid_argument& e) {
            const std::string err = std::string(e.what()) + "\\n" + invalidParams(getType(type));
            throw std::invalid_argument(err);
        }

        option->initialize();
        return option;''', '''        const auto make = [&]() -> std::shared_ptr<OptionT> {
            try {
                return createSpecificOption(params, createSpecificPayoff(params, type), MarketData::getInstance());
            } catch (const std::invalid_argument& e) {
                throw std::invalid_argument(std::string(e.what()) + "\\n" + invalidParams(getType(type)));
            }
        };
        const auto option = make();
        option->initialize();
        return option;'''); assert "const auto make" in s; wr("include/option/base_factory_option.h", s)
# builders: one helper decides on the model
sub("include/solver/monte_carlo/builder/base_mc_builder.h", "    protected:\n", '''    protected:
        [[nodiscard]] std::shared_ptr<StockModel> modelFor(const Option& option) const {
            if (stockModel_) return stockModel_;
            auto generator = std::make_shared<PseudoRandomNumberGenerator>(52u);
            return std::make_shared<GeometricBrownianMotionModel>(option.getID(), marketData_, std::move(generator));
        }

''')
B = MC + "builder/"
for f in os.listdir(os.path.join(T, B)):
    if f.startswith("base_"): continue
    s = rd(B + f); n = len(re.findall(r"auto stockModel = stockModel_;", s))
    s = re.sub(r"auto stockModel = stockModel_;\s*if \(!stockModel\) \{.*?\n        \}\n", "const auto stockModel = modelFor(*option_);\n", s, flags=re.S); assert s.count("modelFor") == n and n, f
    s = re.sub(r"option_ = std::dynamic_pointer_cast<(\w+)>\(option\);\s*if \(!option_\) \{\s*(throw [^;]*;)\s*\}", r"auto fitting = std::dynamic_pointer_cast<\1>(std::move(option));\n        if (!fitting) \2 // Keeps the option set before\n        option_ = std::move(fitting);", s); wr(B + f, s)
# American options: one exercise step for both algorithms
A = MC + "mc_american.cpp"
sub("include/solver/monte_carlo/mc_american.h", "    private:\n", "    private:\n        void exerciseStep(const std::vector<double>& spots, std::vector<double>& values, double discount) const;\n")
sub("include/solver/monte_carlo/mc_american.h", '#include "solver/monte_carlo/base_mc.h"', '#include <vector>\n#include "solver/monte_carlo/base_mc.h"')
fn(A, "double AmericanMCPricer::standardPrice(const unsigned long &N) const {", '''        const unsigned int steps = stockModel_->getSteps();
        const double T = option_->getT();
        const double discount = std::exp(-marketData_->getR() * (T / static_cast<double>(steps)));
        std::vector<std::vector<double>> dates(steps, std::vector<double>(N)); // One row per date
        for (unsigned long i = 0; i < N; ++i) {
            const auto path = stockModel_->simulatePrices(T);
            for (unsigned int t = 0; t < steps; ++t) dates[t][i] = path[t];
        }
        std::vector<double> values(N);
        std::transform(dates.back().begin(), dates.back().end(), values.begin(), [this](double S) { return option_->payoff(S); });
        for (unsigned int t = steps - 1; t-- > 0;) exerciseStep(dates[t], values, discount);
        return discount * std::accumulate(values.begin(), values.end(), 0.0) / static_cast<double>(N);''')
fn(A, "double AmericanMCPricer::brownianBridgePrice(const unsigned long &N) const{", '''        const unsigned int steps = stockModel_->getSteps();
        const double T = option_->getT(), dt = T / static_cast<double>(steps);
        const double discount = std::exp(-marketData_->getR() * dt);
        std::vector<double> spots(N), values(N);
        for (auto& S : spots) S = stockModel_->simulatePriceAtMaturity(T);
        for (unsigned long i = 0; i < N; ++i) values[i] = option_->payoff(spots[i]);
        for (unsigned int t = steps; --t > 0;) {
            const double now = static_cast<double>(t) * dt, next = static_cast<double>(t + 1) * dt;
            for (auto& S : spots) S = stockModel_->simulatePriceBackward(S, now, next);
            exerciseStep(spots, values, discount);
        }
        double sum = 0.0;
        for (const double v : values) sum += v * discount;
        return sum / static_cast<double>(N);
    }

    void AmericanMCPricer::exerciseStep(const std::vector<double>& spots, std::vector<double>& values, const double discount) const {
        for (auto& v : values) v *= discount;
        std::vector<std::size_t> candidates;
        std::vector<double> exercise;
        for (std::size_t i = 0; i < spots.size(); ++i) {
            if (const double e = option_->payoff(spots[i]); e > 0.0) {
                candidates.push_back(i);
                exercise.push_back(e);
            }
        }
        if (candidates.empty()) return;
        Eigen::VectorXd x(candidates.size()), y(candidates.size());
        for (std::size_t k = 0; k < candidates.size(); ++k) {
            x[k] = spots[candidates[k]];
            y[k] = values[candidates[k]];
        }
        const Eigen::MatrixXd design = basisFunctionStrategy_->generate(x);
        const Eigen::VectorXd continuation = design * regressionStrategy_->solve(design, y);
        for (std::size_t k = 0; k < candidates.size(); ++k) {
            if (exercise[k] > continuation[k]) values[candidates[k]] = exercise[k];
        }''')
sub(A, "#include <Eigen/Dense>", "#include <Eigen/Dense>\n#include <algorithm>\n#include <cmath>\n#include <numeric>")
fn(A, "double AmericanMCPricer::calculatePrice(const unsigned long &N) const {", '''        const bool pseudo = dynamic_cast<const PseudoRandomNumberGenerator*>(stockModel_->getGenerator().get()) != nullptr;
        const bool lognormal = dynamic_cast<const GeometricBrownianMotionModel*>(stockModel_.get()) != nullptr;
        return pseudo && lognormal ? brownianBridgePrice(N) : standardPrice(N);''')
# Crank-Nicolson: the two halves of the scheme apart
fn(FD + "solver/one_factor/crank_nicolson_fdm_solver.cpp", "void CrankNicolsonFDMSolver::calculateInnerDomain() {", '''        struct Weights { double below, at, above; };
        const auto weights = [this](double t, double x) {
            const double s = dt * pde_->diffusion(t, x), m = 0.5 * dt * dx * pde_->convection(t, x), q = 0.5 * dt * dx2 * pde_->reaction(t, x);
            return Weights{0.5 * (s - m), q - s, 0.5 * (s + m)};
        };
        const Eigen::Index n = static_cast<Eigen::Index>(J_) - 2;
        for (Eigen::Index i = 0; i < n; ++i) {                       // Explicit half
            const double x = xValues[i + 1];
            const auto w = weights(tPrev, x);
            b[i] = -w.below * oldPrices[i] - (dx2 + w.at) * oldPrices[i + 1] - w.above * oldPrices[i + 2]
                 + 0.5 * dx2 * dt * (pde_->rightHandSide(tPrev, x) + pde_->rightHandSide(tCurr, x));
        }
        std::vector<Eigen::Triplet<double>> entries;
        for (Eigen::Index i = 0; i < n; ++i) {                       // Implicit half
            const auto w = weights(tCurr, xValues[i + 1]);
            entries.emplace_back(i, i, w.at - dx2);
            if (i > 0) entries.emplace_back(i, i - 1, w.below); else b[i] -= w.below * newPrices.front();
            if (i + 1 < n) entries.emplace_back(i, i + 1, w.above); else b[i] -= w.above * newPrices.back();
        }
        A.setFromTriplets(entries.begin(), entries.end());
        const Eigen::VectorXd inner = matrixSolver_->solve(A, b);
        std::copy(inner.data(), inner.data() + n, newPrices.begin() + 1);''')
sub(FD + "solver/one_factor/crank_nicolson_fdm_solver.cpp", "#include <iostream>", "#include <algorithm>\n#include <iostream>")
# Black-Scholes equation: no clone
P = FD + "pde/one_factor/black_scholes_pde.cpp"
for side, sig in (("Left", "double BlackScholesPDE::boundaryLeft(const double &t, const double &x) const {"), ("Right", "double BlackScholesPDE::boundaryRight(const double &t, const double &x) const {")):
    fn(P, sig, '''        const Payoff& payoff = option_->getPayoff();
        const auto* vanilla = dynamic_cast<const PayoffSingleStrike*>(&payoff);
        if (vanilla == nullptr) throw std::invalid_argument("Option payoff is not present");
        const bool call = payoff.getPayoffType() == PayoffType::Call;
''' + ('''        return call ? 0.0 : std::exp(-marketData_->getR() * t) * vanilla->getK();''' if side == "Left" else '''        if (!call) return 0.0;
        const double yield = marketData_->getStockData(option_->getID())->getCoupon().value_or(0.0);
        const double strike = std::exp(-marketData_->getR() * t) * vanilla->getK();
        return std::exp(-yield * t) * x - strike;'''))
# Bates: logarithm of the price, jumps summed
s = rd("src/model/bates_model.cpp")
s = s.replace("            S *= exp(drift + diffusion);\n", "            double move = drift + diffusion;\n").replace("                const double jumpSize = (*generator_)(jumpDist);\n                S *= exp(jumpSize);\n", "                move += (*generator_)(jumpDist);\n").replace("            prices[t] = S;\n", "            S *= exp(move);\n            prices[t] = S;\n"); assert "move +=" in s; wr("src/model/bates_model.cpp", s)
# solver
fn(MC + "mc_solver.cpp", "double MCSolver::solve() const {", '''        const MCPricer* pricer = pricer_.get();
        if (pricer == nullptr) throw std::logic_error("Pricer is not set for MonteCarloSolver.");
        return pricer->calculatePrice(N_);''')
fn(MC + "mc_solver.cpp", "void MCSolver::setPricer(std::unique_ptr<MCPricer> pricer) {", "        pricer_.swap(pricer);")
