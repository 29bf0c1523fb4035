// C10: simulated paths follow the model's dynamics, for every sequence of draws.
#include "models.hpp"
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
static const V Z3 = {0.4, -2.5, 3.1}, Z5 = {0.4, 0, -0.7, -2.5, 3.1}, JZ = {0.3, -1.7, 2.2}, UU = {0.05, 0.95, 0.5, 0.35, 0.61}, EE = {0.5, 0.001, 3.0}, GG = {0.8, 1e-4, 4.0, 1e-9};
static void compare(X& x, const Spec& s, const V& got, const V& want, const Script& c) {
    CHECK(x, got.size() == s.steps, "%s: %zu prices for %u steps", str(s).c_str(), got.size(), s.steps); x.step(s.steps);
    for (size_t k = 0; k < got.size(); ++k) { CHECK(x, std::isfinite(got[k]) && got[k] > 0, "%s: price %zu is %g", str(s).c_str(), k, got[k]); CHECK(x, mc::near(got[k], want[k], 1e-9 * (1 + k * 0.01)), "%s: price %zu is %.12g, the model gives %.12g%s", str(s).c_str(), k, got[k], want[k], ""); }
}
static bool matches(const V& got, const V& want) { if (got.size() != want.size()) return false; for (size_t k = 0; k < got.size(); ++k) if (!mc::near(got[k], want[k], 1e-9 * (1 + k * 0.01))) return false; return true; }
struct RecCIR : CIRDiscretization { V vs; mutable size_t i = 0; mutable V args, zs, vin; void update(double& v, const double& dt, const double& k, const double& th, const double& sv, const double& z) const override { vin.push_back(v); args = {dt, k, th, sv}; zs.push_back(z); v = i < vs.size() ? vs[i] : v; ++i; } };
// simulate with the script (whole path and terminal price) and compare
static void run(X& x, const Spec& s, const Script& c, bool terminal) {
    x.note("%s", str(s).c_str()); if (x.recording) { auto pr = [&](const char* n, const V& v) { std::string t; for (size_t i = 0; i < v.size() && i < 12; ++i) { char b[24]; std::snprintf(b, 24, " %g", v[i]); t += b; } if (!v.empty()) x.note("  %s:%s", n, t.c_str()); }; pr("z", c.z); pr("jump normals", c.jz); pr("u", c.u); pr("e", c.e); pr("g", c.g); V nn(c.n.begin(), c.n.end()); pr("jump counts", nn); }
    auto md = fakeMD(s.S, s.sigma, s.c, s.r); auto g = std::make_shared<ScriptGen>(&s, s.steps); g->s = c; auto m = makeModel(s, md, g); CHECK(x, m->getSteps() == s.steps, "steps");
    V got; double last = NAN; try { got = m->simulatePrices(s.T); if (terminal) { g->rewind(); last = m->simulatePriceAtMaturity(s.T); } } catch (const BadLaw& b) { x.fail("%s: %s", str(s).c_str(), b.what.c_str()); }
    V want = refPath(s, c);
    if (hasVar(s.kind) && !matches(got, want)) for (int k = 1; k < 4; ++k) { V w = refPath(s, c, k); if (matches(got, w)) { want = w; break; } }
    compare(x, s, got, want, c); if (terminal) CHECK(x, mc::near(last, got.back(), 1e-12), "%s: terminal price %.12g, path ends at %.12g", str(s).c_str(), last, got.back());
    mc::Hash h; for (double v : got) h(v); x.state(h.h);
}
static V distinct(const V& v, int n) { return V(v.begin(), v.begin() + std::min<size_t>(n, v.size())); }
// all draws of every step from alphabets (full product), or defaults with deviations
static Script draws(X& x, const Spec& s, bool full, int nz, int maxN) {
    Script c; auto ch = [&](const V& a) { return full ? a[x.choose(int(a.size()))] : a[x.deviate(int(a.size()))]; }; V z = distinct(nz > 3 ? Z5 : Z3, nz);
    for (unsigned k = 0; k < s.steps; ++k) {
        c.z.push_back(ch(z)); if (hasVar(s.kind)) c.z.push_back(ch(z)); if (s.kind == VG) c.g.push_back(ch(GG));
        if (hasJumps(s.kind)) { int n = full ? x.choose(maxN + 1) : x.deviate(maxN + 1); c.n.push_back(n); for (int j = 0; j < n; ++j) if (s.kind == KOU) { double u = ch(UU); if (std::fabs(u - s.p) < 1e-3) u += 0.01; c.u.push_back(u); c.e.push_back(ch(distinct(EE, full ? 2 : 3))); } else c.jz.push_back(ch(distinct(JZ, full ? 2 : 3))); }
    }
    return c;
}
static std::vector<Spec> params(int kind) {                       // parameter sets of a model
    std::vector<Spec> o; Spec s; s.kind = kind;
    if (kind == GBM) return {s};
    if (hasVar(kind)) { for (int cir : {0, 1, 2}) for (auto q : std::vector<V>{{1.5, 0.04, 0.3, -0.5, 0.04}, {3, 0.09, 1.5, 0.7, 0.01}, {0.5, 0.3, 0.9, 0, 0.5}, {2, 0.05, 0.4, -1, 0.1}, {2, 0.05, 0.4, 1, 0.1}, {0.1, 0.02, 2.5, 0.3, 0.2}}) { s.cir = cir; s.kappa = q[0]; s.theta = q[1]; s.sv = q[2]; s.rho = q[3]; s.v0 = q[4]; o.push_back(s); } if (kind == BATES) { for (size_t i = 0; i < o.size(); ++i) if (i % 2) { o[i].lambda = 3; o[i].muJ = 0.15; o[i].sJ = 0.05; } } else { Spec q = s; q.cir = 0; q.kappa = 1; q.theta = 0.04; q.sv = 0; q.v0 = 0; q.rho = 0; o.push_back(q); } return o; }
    if (kind == MERTON) { for (auto q : std::vector<V>{{0.8, -0.1, 0.2}, {5, 0.2, 0.01}, {0.05, -0.9, 0.6}, {1, 0, 0.3}}) { s.lambda = q[0]; s.muJ = q[1]; s.sJ = q[2]; o.push_back(s); } return o; }
    if (kind == KOU) { for (auto q : std::vector<V>{{0.8, 0.4, 6, 4}, {3, 0.9, 1.5, 0.5}, {0.05, 0, 10, 3}, {0.5, 1, 10, 3}, {2, 0.2, 50, 25}}) { s.lambda = q[0]; s.p = q[1]; s.eta1 = q[2]; s.eta2 = q[3]; o.push_back(s); } return o; }
    for (auto q : std::vector<V>{{0.2, -0.1}, {0.5, 0.2}, {0.05, 0}, {1, -0.4}, {0.01, 0.3}}) { s.nu = q[0]; s.vtheta = q[1]; o.push_back(s); } return o;
}
static void market(Spec& s, int i) { static const struct { double S, sg; std::optional<double> c; double r; } M[] = {{100, 0.2, std::nullopt, 0.05}, {100, 0.3, 0.03, 0.01}, {0.5, 0.6, 0.5, -0.02}, {2500, 0.05, 0.0, 0.1}, {42, 0, 0.02, 0.07}, {1, 0.9, 1.0, 0}}; s.S = M[i].S; s.sigma = M[i].sg; s.c = M[i].c; s.r = M[i].r; }
MC_MAIN([] {
    std::vector<mc::Unit> u;
    for (int k = 0; k < NMODELS; ++k) {
        std::string nm = modelName(k);
        // all parameter sets x markets x maturities, short paths, few draws
        u.push_back({nm + " parameters", [k](X& x) { auto ps = params(k); Spec s = ps[x.choose(int(ps.size()))]; market(s, x.choose(6)); s.T = x.pick(V{1, 0.25, 5, 1.0 / 365, 0.01}); s.steps = 1 + x.choose(3); Script c; if (s.kind == VG && 1 - s.vtheta * s.nu - 0.5 * s.sigma * s.sigma * s.nu <= 0.01) return; c = draws(x, s, false, 5, 3); run(x, s, c, s.steps < 3); }, hasVar(k) ? 2 : 3, 3});
        // all draw sequences up to 2-3 steps
        for (unsigned st = 1; st <= (k == GBM ? 5u : k == BATES ? 2u : 3u); ++st) u.push_back({nm + " all draws, steps " + std::to_string(st), [k, st](X& x) { auto ps = params(k); int np = int(ps.size()); Spec s = ps[st <= 2 && k != BATES ? x.choose(np) : x.choose(std::min(np, 2)) * (np > 1)]; market(s, st == 1 ? x.choose(2) : 1); s.steps = st; s.T = 0.7; Script c = draws(x, s, true, k == GBM || (st == 1) ? 5 : st >= 3 && k != HESTON ? 2 : 3, st == 1 ? 3 : k == KOU && st == 3 ? 1 : k == BATES && st == 2 ? 1 : st == 3 ? 1 : 2); run(x, s, c, st == 1); }, -1, 4});
        // long paths, one deviating draw anywhere (two for moderate length)
        for (unsigned st : mc::thorough ? std::vector<unsigned>{12, 52, 252, 365} : std::vector<unsigned>{10, 52, 252}) u.push_back({nm + " long path " + std::to_string(st), [k, st](X& x) { auto ps = params(k); int np = int(ps.size()); Spec s = ps[st <= 12 ? x.choose(std::min(np, 3)) : x.choose(std::min(np, 2))]; market(s, 1); s.steps = st; s.T = st == 252 ? 1 : 2; Script c = draws(x, s, false, 3, 2); run(x, s, c, false); }, st <= 12 ? 2 : 1, 2});
        // many jumps in a step
        if (hasJumps(k)) u.push_back({nm + " many jumps", [k](X& x) { Spec s = params(k)[0]; market(s, 1); s.steps = 3; s.lambda = 4; int at = x.choose(3), n = x.pick(std::vector<int>{4, 5, 10, 37, 150}), d = x.choose(2); Script c; for (int q = 0; q < 3; ++q) { c.n.push_back(q == at ? n : d); c.z.push_back(0.3 - q); if (hasVar(k)) c.z.push_back(0.1 * q); } for (int i = 0; i < n + 2 * d; ++i) { c.jz.push_back(0.05 * ((i * 7) % 5 - 2)); c.u.push_back(((i * 3) % 10 + 0.5) / 10); c.e.push_back(0.02 * (i % 9 + 1)); } run(x, s, c, true); }, -1, 2});
        // far outside the usual range: tiny and huge spots, long horizons, large volatilities, draws eight deviations out
        u.push_back({nm + " extreme values", [k](X& x) {
            Spec s = params(k)[0]; s.S = x.pick(V{1e-8, 1, 1e7}); s.sigma = hasVar(k) ? 0.4 : x.pick(V{1e-5, 0.4, 3}); s.r = k == BATES ? x.pick(V{-0.4, 0.9}) : x.pick(V{0.05, -0.4, 0.9}); s.c = k == BATES ? x.pick(V{0, 1}) : x.pick(V{0, 1, 1e-9}); s.T = x.pick(V{1e-6, 2, 30}); s.steps = 1 + x.choose(2);
            int big = x.choose(3); if (hasVar(k)) { static const V Q[] = {{1.5, 0.04, 0.3, 0.99999, 0.04}, {8, 4, 5, -0.9, 6}, {1e-3, 1e-6, 1e-3, 0.1, 1e-8}}; s.kappa = Q[big][0]; s.theta = Q[big][1]; s.sv = Q[big][2]; s.rho = Q[big][3]; s.v0 = Q[big][4]; s.cir = x.choose(3); }
            if (k == MERTON || k == BATES) { static const V Q[] = {{0.3, -3, 1}, {20, 0.01, 0.02}, {1e-4, 2.5, 0.5}}; s.lambda = Q[big][0]; s.muJ = Q[big][1]; s.sJ = Q[big][2]; } if (k == KOU) { static const V Q[] = {{0.3, 0.5, 1.001, 0.05}, {20, 0.3, 200, 300}, {1e-4, 0.999, 3, 1e-3}}; s.lambda = Q[big][0]; s.p = Q[big][1]; s.eta1 = Q[big][2]; s.eta2 = Q[big][3]; } if (k == VG) { static const V Q[] = {{0.2, -2}, {8, -6}, {1e-3, 2}}; s.nu = Q[big][0]; s.vtheta = Q[big][1]; }
            if (s.kind == VG && 1 - s.vtheta * s.nu - 0.5 * s.sigma * s.sigma * s.nu <= 0.01) return; if (k == VG && s.dt() < 2e-4 * s.nu) s.T = 1e-3 * s.nu * s.steps; if (k == KOU && s.lambda * s.dt() * std::fabs(s.p * s.eta1 / (s.eta1 - 1)) > 250) return;
            static const V Z = {0.3, -8, -4.5, 4.5, 8}; Script c; for (unsigned q = 0; q < s.steps; ++q) { c.z.push_back(Z[x.choose(5)]); if (hasVar(k)) c.z.push_back(x.flip() ? -6 : 0.2); if (k == VG) c.g.push_back(x.flip() ? 20 : 1e-12); if (hasJumps(k)) { int n = q ? 1 : x.choose(3); c.n.push_back(n); for (int j = 0; j < n; ++j) if (k == KOU) { c.u.push_back(j % 2 ? 1e-9 : 1 - 1e-9); c.e.push_back(x.flip() ? 1e-9 : 12); } else c.jz.push_back(x.flip() ? -8 : 5); } }
            for (double w : refPath(s, c)) if (!(std::fabs(std::log(w)) < 200)) return; run(x, s, c, true); }, -1, 4});
        // a second and third simulation with the same model: nothing carries over
        u.push_back({nm + " repeated simulations", [k](X& x) { auto ps = params(k); Spec s = ps[x.choose(int(ps.size()))]; market(s, 1); s.steps = 2; auto md = fakeMD(s.S, s.sigma, s.c, s.r); auto g = std::make_shared<ScriptGen>(&s, s.steps); auto m = makeModel(s, md, g); static const V TT = {0.7, 2, 0.1};
            for (int i = 0; i < 3; ++i) { Spec q = s; q.T = TT[x.choose(3)]; g->sp = &q; Script c = draws(x, q, false, 3, 2); g->s = c; g->rewind(); bool term = x.flip(); V got; try { if (term) got = {m->simulatePriceAtMaturity(q.T)}; else got = m->simulatePrices(q.T); } catch (const BadLaw& b) { x.fail("%s: %s", str(q).c_str(), b.what.c_str()); } bool ok = false; for (int cr = 0; cr < (hasVar(k) ? 4 : 1) && !ok; ++cr) { V w = refPath(q, c, cr); if (term) w = {w.back()}; ok = matches(got, w); } x.step(); CHECK(x, ok, "%s: simulation %d ends at %.12g, expected %.12g", str(q).c_str(), i, got.empty() ? NAN : got.back(), refPath(q, c).back()); } }, 1, 3});
    }
    for (int k : {int(HESTON), int(BATES)}) u.push_back({std::string(modelName(k)) + " user-defined variance scheme", [k](X& x) {
        Spec s = params(k)[x.choose(6)]; s.cir = 3; market(s, x.choose(2)); s.steps = 1 + x.choose(4); s.T = 0.8; auto rec = std::make_shared<RecCIR>(); static const V VS = {0.09, 0, -0.3, 4, 1e-6}; for (unsigned i = 0; i < s.steps; ++i) rec->vs.push_back(i + 1 < s.steps ? VS[x.choose(s.steps > 3 ? 4 : 5)] : 0.1); Script c; for (unsigned i = 0; i < 2 * s.steps; ++i) c.z.push_back(Z3[(i * 2 + i / 3) % 3] + 0.1 * i); if (k == BATES) for (unsigned i = 0; i < s.steps; ++i) { int n = int(i % 3); c.n.push_back(n); for (int j = 0; j < n; ++j) c.jz.push_back(0.4 - j); }
        auto md = fakeMD(s.S, s.sigma, s.c, s.r); auto g = std::make_shared<ScriptGen>(&s, s.steps); g->s = c; V got; try { got = makeModel(s, md, g, rec)->simulatePrices(s.T); } catch (const BadLaw& b) { x.fail("%s: %s", str(s).c_str(), b.what.c_str()); }
        bool ok = false, zok = false; V want; for (int cr = 0; cr < 4 && !(ok && zok); ++cr) { V zv; V w = refPath(s, c, cr, &rec->vs, &zv); if (cr == 0) want = w; ok = matches(got, w); zok = true; for (size_t i = 0; i < rec->zs.size(); ++i) zok = zok && i < zv.size() && mc::near(rec->zs[i], zv[i], 1e-9, 1e-12); } CHECK(x, ok, "%s: path with the user's variances differs from the model: first price %.12g, expected %.12g, last %.12g, expected %.12g", str(s).c_str(), got[0], want[0], got.back(), want.back());
        CHECK(x, rec->zs.size() == s.steps || rec->zs.size() + 1 == s.steps, "%s: the user's variance scheme was called %zu times for %u steps", str(s).c_str(), rec->zs.size(), s.steps); CHECK(x, zok, "%s: the variance scheme was not given the correlated normal", str(s).c_str()); if (!rec->zs.empty()) { CHECK(x, mc::near(rec->args[0], s.dt(), 1e-12) && rec->args[1] == s.kappa && rec->args[2] == s.theta && rec->args[3] == s.sv, "%s: the variance scheme got dt=%g kappa=%g theta=%g sigma_v=%g", str(s).c_str(), rec->args[0], rec->args[1], rec->args[2], rec->args[3]); for (size_t i = 0; i < rec->vin.size(); ++i) { double v = i ? rec->vs[i - 1] : s.v0; CHECK(x, rec->vin[i] == v || rec->vin[i] == std::max(v, 0.0), "%s: step %zu starts from variance %g, expected %g", str(s).c_str(), i, rec->vin[i], v); } } x.step(s.steps); mc::Hash h; for (double v : got) h(v); x.state(h.h);
    }, -1, 3});
    u.push_back({"variance schemes", [](X& x) { int sch = 1 + x.choose(2); double v = x.pick(V{0.04, 0, -0.0, 1e-12, -0.2, 2}), dt = x.pick(V{0.004, 0.5, 1, 3}), k = x.pick(V{0, 0.5, 3}), th = x.pick(V{0, 0.04, 0.6}), sv = x.pick(V{0, 0.3, 2}), z = x.pick(V{0, 1, -1, 0.5, -3, 4, 7.5, -6}); double got = v; std::shared_ptr<CIRDiscretization> c; if (sch == 2) c = std::make_shared<CIRMilsteinDiscretization>(); else c = std::make_shared<CIRExplicitEulerDiscretization>(); c->update(got, dt, k, th, sv, z); x.step(); double w = cirStep(sch, v, dt, k, th, sv, z); CHECK(x, mc::near(got, w, 1e-12, 1e-14), "%s variance step from %g (dt=%g kappa=%g theta=%g sigma_v=%g z=%g): %.12g, expected %.12g", sch == 2 ? "Milstein" : "Euler", v, dt, k, th, sv, z, got, w); mc::Hash h; h(got); x.state(h.h); }, -1, 3});
    u.push_back({"Brownian bridge", [](X& x) { Spec s; market(s, x.choose(6)); double tn = x.pick(V{1, 0.25, 3, 1.0 / 365, 50}), f = x.pick(V{0, 1e-6, 0.1, 0.5, 0.9, 251.0 / 252, 1}), z = x.pick(V{0, 1, -1, 2.7, -3.3, 8}), q = x.pick(V{1, 0.3, 1.0001, 7, 1e-12, 1e9}); double tj = f * tn, Sn = s.S * q; auto md = fakeMD(s.S, s.sigma, s.c, s.r); auto g = std::make_shared<ScriptGen>(&s, 1); g->s.z = {z}; GeometricBrownianMotionModel m("TK", md, g); double got; try { got = m.simulatePriceBackward(Sn, tj, tn); } catch (const BadLaw& b) { x.fail("bridge: %s", b.what.c_str()); } double w = s.S * std::exp(tj / tn * std::log(Sn / s.S) + std::sqrt(tj * (tn - tj) / tn) * s.sigma * z); x.step(); CHECK(x, mc::near(got, w, 1e-10), "bridge between %g today and %g at %g: price at %g for draw %g is %.12g, expected %.12g (sigma %g)", s.S, Sn, tn, tj, z, got, w, s.sigma); mc::Hash h; h(got); x.state(h.h); }, -1, 3});
    return u;
})
