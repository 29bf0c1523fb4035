// Shared seams: scripted market data, generators, stock models and option helpers.
#pragma once
#include "mc.hpp"
#include <map>
#include <memory>
#include <optional>
#include <sstream>
#include <random>
#include "market_data/market_data.h"
#include "option/parameter_object.h"
#include "option/single_path/factory_european_option.h"
#include "option/single_path/factory_digital_option.h"
#include "option/single_path/factory_double_digital_option.h"
#include "option/path_dependent/factory_american_option.h"
#include "option/path_dependent/factory_asian_option.h"
#include "option/path_dependent/factory_barrier_option.h"
#include "option/path_dependent/factory_lookback_option.h"
#include "random/number_generator/base_generator.h"
#include "random/distribution/standard_normal_distribution.h"
#include "random/distribution/normal_distrib.h"
#include "random/distribution/poisson_distrib.h"
#include "random/distribution/exponential_distr.h"
#include "random/distribution/gamma_distrib.h"
#include "random/distribution/continuous_uniform_distrib.h"
#include "model/base_model.h"

namespace op {
using namespace OptionPricer;

struct FakeMD : IMarketData {                      // a second market data implementation, as tests would inject
    std::map<std::string, std::shared_ptr<StockData>> m; double r = 0.05; mutable long queries = 0;
    void addObserver(const std::shared_ptr<MarketDataObserver>&) override {}
    void removeObserver() override {}
    std::shared_ptr<const StockData> getStockData(const std::string& t) const override {
        ++queries; auto it = m.find(t); if (it == m.end()) throw std::invalid_argument("no such ticker"); return it->second;
    }
    double getR() const override { return r; }
    void setR(const double& x) override { r = x; }
    void put(const std::string& t, double S, double sigma, std::optional<double> c = std::nullopt) { m[t] = std::make_shared<StockData>(S, sigma, c); }
};
inline std::shared_ptr<FakeMD> fakeMD(double S, double sigma, std::optional<double> c, double r, const std::string& t = "TK") {
    auto p = std::make_shared<FakeMD>(); p->put(t, S, sigma, c); p->r = r; return p;
}

struct ScriptModel : StockModel {                  // replays the paths it is given, in order
    std::vector<std::vector<double>> paths; mutable size_t next = 0; mutable std::vector<double> askedT; mutable bool over = false;
    // backward mode: value returned by the k-th backward call
    std::function<double(double, double, double)> back;
    ScriptModel(std::shared_ptr<IMarketData> md, std::shared_ptr<NumberGenerator> g, const std::string& t = "TK") : StockModel(t, md, g) {}
    const std::vector<double>& take(double T) const {
        askedT.push_back(T); if (next >= paths.size()) { over = true; return paths.back(); }
        return paths[next++];
    }
    double simulatePriceAtMaturity(const double& T) const override { return take(T).back(); }
    std::vector<double> simulatePrices(const double& T) const override { return take(T); }
    double simulatePriceBackward(const double& S, const double& a, const double& b) const override { return back ? back(S, a, b) : throw std::logic_error("no backward"); }
};
struct DimGen : NumberGenerator {                  // only carries a dimension
    explicit DimGen(unsigned d) : NumberGenerator(d) {}
    double operator()(Distribution&) const override { throw std::logic_error("no draws expected"); }
};

// ---- crafted Mersenne Twister states: the next raw words are the ones we choose ----
inline uint32_t untemper(uint32_t y) {
    auto undoR = [](uint32_t v, int s) { uint32_t r = v; for (int i = 0; i < 32; ++i) r = v ^ (r >> s); return r; };
    auto undoL = [](uint32_t v, int s, uint32_t m) { uint32_t r = v; for (int i = 0; i < 32; ++i) r = v ^ ((r << s) & m); return r; };
    y = undoR(y, 18); y = undoL(y, 15, 0xefc60000u); y = undoL(y, 7, 0x9d2c5680u); y = undoR(y, 11); return y;
}
inline std::mt19937 engineWith(const std::vector<uint32_t>& words, uint32_t fillSeed = 1) {
    static std::map<uint32_t, std::vector<uint32_t>> fills; auto& fill = fills[fillSeed];
    if (fill.empty()) { std::mt19937 base(fillSeed); for (int i = 0; i < 624; ++i) fill.push_back(untemper(base())); }
    auto text = [&] { std::ostringstream o; for (int i = 0; i < 624; ++i) o << (i < int(words.size()) ? untemper(words[i]) : fill[i]) << ' '; o << 0; std::istringstream in(o.str()); std::mt19937 g; in >> g; return g; };
    struct Raw { uint_fast32_t x[624]; size_t p; };               // libstdc++'s layout, verified once against the textual form
    auto raw = [&] { Raw r; for (int i = 0; i < 624; ++i) r.x[i] = i < int(words.size()) ? untemper(words[i]) : fill[i]; r.p = 0; std::mt19937 g; static_assert(sizeof(std::mt19937) == sizeof(Raw)); std::memcpy((void*)&g, &r, sizeof r); return g; };
    static const bool ok = raw() == text();
    return ok ? raw() : text();
}
inline void pushU(std::vector<uint32_t>& w, double u) {          // two words giving generate_canonical<double,53> ~ u
    double lo = 0; uint64_t k = uint64_t(u * 18446744073709551616.0); w.push_back(uint32_t(k)); w.push_back(uint32_t(k >> 32)); (void)lo;
}

// ---- which law a model asks for: compared by behaviour with a fresh distribution object ----
enum class Kind { Normal, Poisson, Exponential, Gamma, Uniform, Other };
inline Kind kindOf(const Distribution& d) {
    if (dynamic_cast<const NormalDistribution*>(&d)) return Kind::Normal;
    if (dynamic_cast<const PoissonDistribution*>(&d)) return Kind::Poisson;
    if (dynamic_cast<const ExponentialDistribution*>(&d)) return Kind::Exponential;
    if (dynamic_cast<const GammaDistribution*>(&d)) return Kind::Gamma;
    if (dynamic_cast<const ContinuousUniformDistribution*>(&d)) return Kind::Uniform;
    return Kind::Other;
}
template<class D> double drawCopy(const Distribution& d, std::mt19937& g) { D c(dynamic_cast<const D&>(d)); return c(g); }
inline double drawOf(const Distribution& d, std::mt19937 g) {    // draws from a copy: the model's own object is not disturbed
    switch (kindOf(d)) {
        case Kind::Normal: return drawCopy<NormalDistribution>(d, g);
        case Kind::Poisson: return drawCopy<PoissonDistribution>(d, g);
        case Kind::Exponential: return drawCopy<ExponentialDistribution>(d, g);
        case Kind::Gamma: return drawCopy<GammaDistribution>(d, g);
        case Kind::Uniform: return drawCopy<ContinuousUniformDistribution>(d, g);
        default: return NAN;
    }
}
inline const std::vector<std::mt19937>& probes() {
    static std::vector<std::mt19937> p = [] { std::vector<std::mt19937> v; for (unsigned s : {1u, 77u, 4242u}) { v.emplace_back(s); v.back().discard(1); } return v; }();
    return p;
}
inline bool sameLaw(const Distribution& d, const Distribution& fresh) {
    if (kindOf(d) != kindOf(fresh) || kindOf(d) == Kind::Other) return false;
    for (auto& g : probes()) { double a = drawOf(d, g), b = drawOf(fresh, g); if (!mc::near(a, b, 1e-9, 1e-12)) return false; }
    return true;
}
// Poisson laws are compared on engine states placed just around the probability of "no event" (and of at most one)
inline const std::vector<std::mt19937>& poissonProbes(double lambda) {
    static std::map<double, std::vector<std::mt19937>> cache;
    auto& v = cache[lambda];
    if (v.empty()) {
        for (double e : {-1e-7, 1e-7}) {
            std::vector<uint32_t> w; pushU(w, std::min(0.999999999, std::exp(-lambda) * (1 + e))); for (int i = 0; i < 40; ++i) pushU(w, 0.5); v.push_back(engineWith(w));
            w.clear(); double q = std::exp(-lambda / 2) * (1 + e / 2); pushU(w, q); pushU(w, q); for (int i = 0; i < 40; ++i) pushU(w, 0.5); v.push_back(engineWith(w));
        }
    }
    return v;
}
inline bool samePoisson(const Distribution& d, double lambda) {
    if (kindOf(d) != Kind::Poisson) return false;
    PoissonDistribution f(lambda);
    for (auto& g : poissonProbes(lambda)) if (drawOf(d, g) != drawOf(f, g)) return false;
    for (auto& g : probes()) if (drawOf(d, g) != drawOf(f, g)) return false;
    return true;
}

// ---- options ----
enum OptKind { EUROPEAN, DIGITAL, DOUBLE_DIGITAL, AMERICAN, ARITH_ASIAN, GEOM_ASIAN, KNOCK_IN, KNOCK_OUT, FLOAT_LOOKBACK, FIXED_LOOKBACK, NKINDS };
inline const char* optName(int k) { static const char* n[] = {"European", "Digital", "DoubleDigital", "American", "ArithmeticAsian", "GeometricAsian", "KnockIn", "KnockOut", "FloatingLookback", "FixedLookback"}; return n[k]; }
inline std::shared_ptr<Option> createOption(int kind, bool call, const ParameterObject& p) {
    auto mk = [&](auto&& f) -> std::shared_ptr<Option> { if (call) return f.createCallOption(p); return f.createPutOption(p); };
    switch (kind) {
        case EUROPEAN: return mk(EuropeanOptionFactory()); case DIGITAL: return mk(DigitalOptionFactory());
        case DOUBLE_DIGITAL: return mk(DoubleDigitalOptionFactory()); case AMERICAN: return mk(AmericanOptionFactory());
        case ARITH_ASIAN: return mk(ArithmeticAsianOptionFactory()); case GEOM_ASIAN: return mk(GeometricAsianOptionFactory());
        case KNOCK_IN: return mk(KnockInBarrierOptionFactory()); case KNOCK_OUT: return mk(KnockOutBarrierOptionFactory());
        case FLOAT_LOOKBACK: return mk(FloatingStrikeLookbackOptionFactory()); default: return mk(FixedStrikeLookbackOptionFactory());
    }
}
struct Contract { int kind = EUROPEAN; bool call = true; double T = 1, K = 100, K2 = 110, B = 120; bool up = true; std::string ticker = "TK"; };
inline std::shared_ptr<Option> make(const Contract& c) {
    ParameterObject p; p.setParameter("ticker", c.ticker); p.setParameter("T", c.T);
    if (c.kind == DOUBLE_DIGITAL) { p.setParameter("K1", c.K); p.setParameter("K2", c.K2); }
    else if (c.kind != FLOAT_LOOKBACK) p.setParameter("K", c.K);
    if (c.kind == KNOCK_IN || c.kind == KNOCK_OUT) { p.setParameter("B", c.B); p.setParameter("direction", c.up ? BarrierDirection::Up : BarrierDirection::Down); }
    return createOption(c.kind, c.call, p);
}
inline std::string str(const Contract& c) {
    char b[200]; std::snprintf(b, sizeof b, "%s %s T=%g K=%g K2=%g B=%g %s %s", optName(c.kind), c.call ? "call" : "put", c.T, c.K, c.K2, c.B, c.up ? "up" : "down", c.ticker.c_str()); return b;
}
// the contract's payoff on one path (reference)
inline double refPayoff(const Contract& c, const std::vector<double>& S) {
    double last = S.back(), mx = S[0], mn = S[0]; long double sum = 0, ls = 0; bool hit = false;
    for (double s : S) { mx = std::max(mx, s); mn = std::min(mn, s); sum += s; ls += logl((long double)s); if (c.up ? s >= c.B : s <= c.B) hit = true; }
    auto van = [&](double s) { return c.call ? std::max(s - c.K, 0.0) : std::max(c.K - s, 0.0); };
    switch (c.kind) {
        case EUROPEAN: return van(last);
        case DIGITAL: return (c.call ? last > c.K : last < c.K) ? 1.0 : 0.0;
        case DOUBLE_DIGITAL: return last >= c.K && last <= c.K2 ? 1.0 : 0.0;
        case ARITH_ASIAN: return van(double(sum / S.size()));
        case GEOM_ASIAN: return van(double(expl(ls / S.size())));
        case KNOCK_IN: return hit ? van(last) : 0.0;
        case KNOCK_OUT: return hit ? 0.0 : van(last);
        case FLOAT_LOOKBACK: return c.call ? std::max(last - mn, 0.0) : std::max(mx - last, 0.0);
        case FIXED_LOOKBACK: return c.call ? van(mx) : van(mn);
    }
    return NAN;
}
} // namespace op
