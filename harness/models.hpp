// Stock models driven by scripted draws: the generator answers every request from standardised scripts, scaled by the
// law the model really asks for (recovered from the distribution object's behaviour).
#pragma once
#include "op.hpp"
#include "model/gbm_model.h"
#include "model/heston_model.h"
#include "model/merton_jump_diffusion_model.h"
#include "model/kou_model.h"
#include "model/variance_gamma_model.h"
#include "model/bates_model.h"
#include "model/discretization/explicit_euler_cir_discretization.h"
#include "model/discretization/milstein_cir_discretization.h"
namespace op {
enum ModelKind { GBM, HESTON, MERTON, KOU, VG, BATES, NMODELS };
inline const char* modelName(int k) { static const char* n[] = {"GBM", "Heston", "Merton", "Kou", "VarianceGamma", "Bates"}; return n[k]; }
struct Spec {
    int kind = GBM; double S = 100, sigma = 0.2; std::optional<double> c; double r = 0.05, T = 1; unsigned steps = 1;
    double kappa = 1.5, theta = 0.04, sv = 0.3, rho = -0.5, v0 = 0.04;        // Heston, Bates
    double lambda = 0.8, muJ = -0.1, sJ = 0.2;                                // Merton, Bates, Kou(lambda)
    double p = 0.4, eta1 = 6, eta2 = 4; double nu = 0.2, vtheta = -0.1;       // Kou; VG
    int cir = 0;                                                              // 0 default, 1 Euler, 2 Milstein, 3 given object
    double dt() const { return T / steps; } double cc() const { return c.value_or(0.0); }
};
inline std::string str(const Spec& s) {
    char b[400]; int n = std::snprintf(b, 400, "%s S=%g sigma=%g c=%g r=%g T=%g steps=%u", modelName(s.kind), s.S, s.sigma, s.c ? *s.c : -1, s.r, s.T, s.steps);
    if (s.kind == HESTON || s.kind == BATES) n += std::snprintf(b + n, 400 - n, " kappa=%g theta=%g sigma_v=%g rho=%g v0=%g scheme=%d", s.kappa, s.theta, s.sv, s.rho, s.v0, s.cir);
    if (s.kind == MERTON || s.kind == BATES) n += std::snprintf(b + n, 400 - n, " lambda=%g muJ=%g sigmaJ=%g", s.lambda, s.muJ, s.sJ);
    if (s.kind == KOU) n += std::snprintf(b + n, 400 - n, " lambda=%g p=%g eta1=%g eta2=%g", s.lambda, s.p, s.eta1, s.eta2);
    if (s.kind == VG) n += std::snprintf(b + n, 400 - n, " nu=%g theta=%g", s.nu, s.vtheta);
    return b;
}
struct Script { std::vector<double> z, jz, u, e, g; std::vector<int> n; };    // standardised draws, in order of request per kind
struct BadLaw { std::string what; };

inline const std::vector<std::mt19937>& gammaProbes() {           // small shapes raise the fourth uniform to a huge power: keep it near one
    static const std::vector<std::mt19937> p = [] { std::vector<std::mt19937> v; for (auto q : std::vector<std::vector<double>>{{0.6, 0.55, 0.3, 1 - 1e-4}, {0.45, 0.62, 0.2, 1 - 1e-3}, {0.52, 0.35, 0.35, 1 - 3e-5}}) { std::vector<uint32_t> w; for (double u : q) pushU(w, u); v.push_back(engineWith(w)); } return v; }();
    return p;
}
struct ScriptGen : NumberGenerator {
    const Spec* sp; Script s; mutable size_t iz = 0, ij = 0, iu = 0, ie = 0, ig = 0, in = 0; bool strict = true;
    mutable double askedPoisson = NAN; mutable long requests = 0; mutable std::string log;
    double dz = 0, djz = 0, du = 0.5, de = 1, dg = 1; int dn = 0;             // answers beyond the script
    ScriptGen(const Spec* sp_, unsigned dim) : NumberGenerator(dim), sp(sp_) {}
    void rewind() const { iz = ij = iu = ie = ig = in = 0; }
    static double at(const std::vector<double>& v, size_t& i, double d) { size_t k = i++; return k < v.size() ? v[k] : d; }
    [[noreturn]] void bad(const char* f, double a, double b) const { char t[200]; std::snprintf(t, 200, f, a, b); throw BadLaw{t}; }
    double operator()(Distribution& d) const override {
        ++requests;
        switch (kindOf(d)) {
        case Kind::Normal: {
            if (dynamic_cast<StandardNormalDistribution*>(&d)) return at(s.z, iz, dz);
            static const double b1 = drawOf(StandardNormalDistribution(), probes()[0]), b2 = drawOf(StandardNormalDistribution(), probes()[1]);
            double a1 = drawOf(d, probes()[0]), a2 = drawOf(d, probes()[1]), sg = (a1 - a2) / (b1 - b2), mu = a1 - sg * b1;
            if (std::fabs(mu) < 1e-12 && std::fabs(sg - 1) < 1e-12) return at(s.z, iz, dz);
            return mu + sg * at(s.jz, ij, djz);
        }
        case Kind::Poisson: {
            double want = sp->lambda * sp->dt();
            if (samePoisson(d, want)) askedPoisson = want;
            else { if (strict) bad("jump counts are not asked for with intensity %g per step", want, 0);
                if (askedPoisson == askedPoisson && askedPoisson != want && samePoisson(d, askedPoisson)) ; else { double lo = 1e-12, hi = 1 - 1e-12; for (int i = 0; i < 48; ++i) { double m = (lo + hi) / 2; std::vector<uint32_t> w; pushU(w, m); for (int q = 0; q < 40; ++q) pushU(w, 0.5); (drawOf(d, engineWith(w)) == 0 ? lo : hi) = m; } askedPoisson = -std::log((lo + hi) / 2); } }
            size_t k = in++; return k < s.n.size() ? s.n[k] : dn;
        }
        case Kind::Uniform: {
            static const double b1 = drawOf(ContinuousUniformDistribution(), probes()[0]), b2 = drawOf(ContinuousUniformDistribution(), probes()[1]);
            double a1 = drawOf(d, probes()[0]), a2 = drawOf(d, probes()[1]), w = (a1 - a2) / (b1 - b2), a = a1 - w * b1; return a + w * at(s.u, iu, du);
        }
        case Kind::Exponential: { static const double b = drawOf(ExponentialDistribution(1), probes()[0]); return drawOf(d, probes()[0]) / b * at(s.e, ie, de); }
        case Kind::Gamma: {
            double shape = sp->dt() / sp->nu; auto scale = [&](int i) { return drawOf(d, gammaProbes()[i]) / drawOf(GammaDistribution(shape, 1), gammaProbes()[i]); };
            double s0 = 0; int m = 0; for (int i = 0; i < 3; ++i) { double q = scale(i); if (!std::isfinite(q) || q == 0) continue; if (!m) s0 = q; else if (!mc::near(q, s0, 1e-7)) bad("gamma time change asked for with another shape than dt/nu = %g", shape, 0); ++m; }
            if (m < 2) bad("gamma law not recognised (shape %g)", shape, 0);
            return s0 * at(s.g, ig, dg);
        }
        default: bad("a draw from an unknown distribution was requested", 0, 0);
        }
    }
};
inline std::shared_ptr<StockModel> makeModel(const Spec& s, std::shared_ptr<IMarketData> md, std::shared_ptr<NumberGenerator> g, std::shared_ptr<CIRDiscretization> cir = nullptr, const std::string& t = "TK") {
    if (s.cir == 1) cir = std::make_shared<CIRExplicitEulerDiscretization>(); if (s.cir == 2) cir = std::make_shared<CIRMilsteinDiscretization>();
    switch (s.kind) {
        case GBM: return std::make_shared<GeometricBrownianMotionModel>(t, md, g);
        case HESTON: return std::make_shared<HestonModel>(t, md, g, s.kappa, s.theta, s.sv, s.rho, s.v0, cir);
        case MERTON: return std::make_shared<MertonJumpDiffusionModel>(t, md, g, s.lambda, s.muJ, s.sJ);
        case KOU: return std::make_shared<KouModel>(t, md, g, s.lambda, s.p, s.eta1, s.eta2);
        case VG: return std::make_shared<VarianceGammaModel>(t, md, g, s.nu, s.vtheta);
        default: return std::make_shared<BatesModel>(t, md, g, s.kappa, s.theta, s.sv, s.rho, s.v0, s.lambda, s.muJ, s.sJ, cir);
    }
}
inline bool hasVar(int k) { return k == HESTON || k == BATES; }
inline bool hasJumps(int k) { return k == MERTON || k == KOU || k == BATES; }
inline double cirStep(int scheme, double V, double dt, double kappa, double theta, double sv, double z) {
    double vp = std::max(V, 0.0), r = V + kappa * (theta - vp) * dt + sv * std::sqrt(vp * dt) * z; if (scheme == 2) r += 0.25 * sv * sv * dt * (z * z - 1); return r;
}
// reference log-Euler path; corr selects how the two normals of a step are correlated; Vs (scheme 3): variances given by the user's scheme
inline std::vector<double> refPath(const Spec& s, const Script& c, int corr = 0, const std::vector<double>* Vs = nullptr, std::vector<double>* zVs = nullptr) {
    double dt = s.dt(), x = std::log(s.S), V = s.v0; size_t iz = 0, ij = 0, iu = 0, ie = 0; std::vector<double> out; auto at = [](const std::vector<double>& v, size_t i, double d) { return i < v.size() ? v[i] : d; };
    double comp = s.kind == KOU ? s.p * s.eta1 / (s.eta1 - 1) + (1 - s.p) * s.eta2 / (s.eta2 + 1) - 1 : std::exp(s.muJ + 0.5 * s.sJ * s.sJ) - 1;
    for (unsigned k = 0; k < s.steps; ++k) {
        double dr = (s.r - s.cc()) * dt, zV = 0;
        if (hasVar(s.kind)) {
            double a = at(c.z, iz, 0), b = at(c.z, iz + 1, 0); iz += 2; double q = std::sqrt(1 - s.rho * s.rho), zS; if (corr & 1) std::swap(a, b); if (corr & 2) { zS = a; zV = s.rho * a + q * b; } else { zV = a; zS = s.rho * a + q * b; }
            double vp = std::max(V, 0.0); x += dr - 0.5 * vp * dt + std::sqrt(vp * dt) * zS;
        } else if (s.kind == VG) {
            double g = s.nu * at(c.g, k, 1), om = std::log(1 - s.vtheta * s.nu - 0.5 * s.sigma * s.sigma * s.nu) / s.nu; x += dr + om * dt + s.vtheta * g + s.sigma * std::sqrt(g) * at(c.z, iz++, 0);
        } else x += dr - 0.5 * s.sigma * s.sigma * dt + s.sigma * std::sqrt(dt) * at(c.z, iz++, 0);
        if (hasJumps(s.kind)) {
            x -= s.lambda * comp * dt; int n = k < c.n.size() ? c.n[k] : 0;
            for (int j = 0; j < n; ++j) if (s.kind == KOU) { double e = at(c.e, ie++, 1); x += at(c.u, iu++, 0.5) < s.p ? e / s.eta1 : -e / s.eta2; } else x += s.muJ + s.sJ * at(c.jz, ij++, 0);
        }
        if (hasVar(s.kind)) { if (zVs) zVs->push_back(zV); V = Vs ? (k < Vs->size() ? (*Vs)[k] : V) : cirStep(s.cir, V, dt, s.kappa, s.theta, s.sv, zV); }
        out.push_back(std::exp(x));
    }
    return out;
}
} // namespace op
