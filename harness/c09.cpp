// C09: every model is risk-neutral: the expected next price given any history is price * exp((r-c) dt).
// The draws of one step are integrated by enumerating all nodes of Gaussian quadratures for the laws the model asks for.
#include "models.hpp"
#include <Eigen/Dense>
using namespace OptionPricer; using namespace op; using mc::X; using V = std::vector<double>;
struct Q { V x, w; };
static Q golub(int n, const std::function<double(int)>& a, const std::function<double(int)>& b2) {    // weights sum to one
    Eigen::MatrixXd J = Eigen::MatrixXd::Zero(n, n); for (int i = 0; i < n; ++i) { J(i, i) = a(i); if (i) J(i, i - 1) = J(i - 1, i) = std::sqrt(b2(i)); } Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> es(J); Q q; for (int i = 0; i < n; ++i) { q.x.push_back(es.eigenvalues()[i]); q.w.push_back(es.eigenvectors()(0, i) * es.eigenvectors()(0, i)); } return q;
}
static Q normal(int n) { return golub(n, [](int) { return 0.0; }, [](int i) { return double(i); }); }
static Q gammaQ(int n, double shape) { double al = shape - 1; return golub(n, [al](int i) { return 2 * i + 1 + al; }, [al](int i) { return i * (i + al); }); }
static const Q& N(int n) { static std::map<int, Q> c; auto it = c.find(n); if (it == c.end()) it = c.emplace(n, normal(n)).first; return it->second; }
static const Q& E(int n) { static std::map<int, Q> c; auto it = c.find(n); if (it == c.end()) it = c.emplace(n, gammaQ(n, 1)).first; return it->second; }
static Q uniformCells(double p, int n) { V b; for (int i = 0; i <= n; ++i) b.push_back(double(i) / n); b.push_back(p); b.push_back(1 - p); std::sort(b.begin(), b.end()); Q q; for (size_t i = 0; i + 1 < b.size(); ++i) if (b[i + 1] - b[i] > 1e-12) { q.x.push_back((b[i] + b[i + 1]) / 2); q.w.push_back(b[i + 1] - b[i]); } return q; }
static int g_en = 14, g_uc = 20, g_vgz = 24, g_nj = 12, g_vgn = 28; static double g_skip = 1e-18;          // nodes: exponential sizes, direction cells, normals and time change of variance gamma, jump sizes
struct Sim {
    X& x; const Spec& s; std::shared_ptr<ScriptGen> g; std::shared_ptr<StockModel> m; unsigned k; double prev = NAN;
    double price(const Script& c) { g->s = c; g->rewind(); V v; try { v = m->simulatePrices(s.T); } catch (const BadLaw& b) { x.fail("%s: %s", str(s).c_str(), b.what.c_str()); } x.step(); CHECK(x, v.size() == s.steps, "%s: %zu prices", str(s).c_str(), v.size()); prev = k ? v[k - 1] : s.S; return v[k]; }
};
// expected price at step k given the scripted history (first k steps of c)
static double expect(X& x, Sim& sim, Script c, unsigned k, int fine) {
    const Spec& s = sim.s; int kind = s.kind;
    if (hasVar(kind)) c.z.resize(2 * k); else c.z.resize(k); c.g.resize(std::min<size_t>(c.g.size(), k)); size_t nj = 0; if (hasJumps(kind)) { c.n.resize(k); for (int n : c.n) nj += n; c.jz.resize(nj * (kind != KOU)); c.u.resize(nj * (kind == KOU)); c.e.resize(nj * (kind == KOU)); }
    const Q& z = N(kind == VG ? g_vgz : fine); auto overZ = [&](Script& t) {      // integrates the normals of the step
        long double sum = 0; if (hasVar(kind)) { const Q& zz = N(fine); t.z.resize(2 * k + 2); for (size_t i = 0; i < zz.x.size(); ++i) for (size_t j = 0; j < zz.x.size(); ++j) { t.z[2 * k] = zz.x[i]; t.z[2 * k + 1] = zz.x[j]; sum += (long double)zz.w[i] * zz.w[j] * sim.price(t); } }
        else { t.z.resize(k + 1); for (size_t i = 0; i < z.x.size(); ++i) { t.z[k] = z.x[i]; sum += (long double)z.w[i] * sim.price(t); } } return double(sum); };
    if (kind == VG) { Q gq = gammaQ(g_vgn, s.dt() / s.nu); long double sum = 0; c.g.resize(k + 1); for (size_t i = 0; i < gq.x.size(); ++i) { if (gq.w[i] < g_skip) continue; c.g[k] = gq.x[i]; sum += (long double)gq.w[i] * overZ(c); } return double(sum); }
    if (!hasJumps(kind)) return overZ(c);
    c.n.resize(k + 1); double e[3]; c.n[k] = 0; e[0] = overZ(c);
    // one and two jumps, every node of the jump law (and of the direction)
    Q jq; std::vector<std::array<double, 3>> nodes, nodes2; if (kind == KOU) { Q u1 = uniformCells(s.p, g_uc), u2 = uniformCells(s.p, 2); const Q& ex = E(g_en); for (size_t i = 0; i < u1.x.size(); ++i) for (size_t j = 0; j < ex.x.size(); ++j) nodes.push_back({u1.x[i], ex.x[j], u1.w[i] * ex.w[j]}); for (size_t i = 0; i < u2.x.size(); ++i) for (size_t j = 0; j < ex.x.size(); ++j) nodes2.push_back({u2.x[i], ex.x[j], u2.w[i] * ex.w[j]}); } else { const Q& n1 = N(g_nj); for (size_t i = 0; i < n1.x.size(); ++i) nodes.push_back({0, n1.x[i], n1.w[i]}); nodes2 = nodes; }
    auto put = [&](Script& t, size_t j, const std::array<double, 3>& v) { if (kind == KOU) { t.u.resize(nj + j + 1); t.e.resize(nj + j + 1); t.u[nj + j] = v[0]; t.e[nj + j] = v[1]; } else { t.jz.resize(nj + j + 1); t.jz[nj + j] = v[1]; } };
    { Script t = c; t.n[k] = 1; long double sum = 0; for (auto& v : nodes) { if (v[2] < g_skip) continue; put(t, 0, v); sum += v[2] * overZ(t); } e[1] = double(sum); }
    { Script t = c; t.n[k] = 2; long double sum = 0; double zfix = 0.3; if (hasVar(kind)) { t.z.resize(2 * k + 2); t.z[2 * k] = zfix; t.z[2 * k + 1] = -0.2; } else { t.z.resize(k + 1); t.z[k] = zfix; } for (auto& v : nodes2) for (auto& q : nodes2) { if (v[2] * q[2] < g_skip) continue; put(t, 0, v); put(t, 1, q); sum += (long double)v[2] * q[2] * sim.price(t); } Script t0 = t; t0.n[k] = 0; double base = sim.price(t0); e[2] = double(sum) / base * e[0]; }      // the normals integrate out of the ratio
    CHECK(x, e[0] > 0 && e[1] > 0, "%s: expected prices %g, %g", str(s).c_str(), e[0], e[1]); double m = e[1] / e[0]; CHECK(x, mc::near(e[2], e[1] * m, 1e-7), "%s step %u: expected price after 0, 1 and 2 jumps is %.12g, %.12g, %.12g: not multiplicative", str(s).c_str(), k, e[0], e[1], e[2]);
    return e[0] * std::exp(sim.g->askedPoisson * (m - 1));           // sum over all jump counts
}
static void check(X& x, Spec s, const Script& c, unsigned k, int fine) {
    x.note("%s, step %u", str(s).c_str(), k); auto md = fakeMD(s.S, s.sigma, s.c, s.r); Sim sim{x, s, std::make_shared<ScriptGen>(&s, s.steps), nullptr, k}; sim.g->strict = false; sim.m = makeModel(s, md, sim.g); double e = expect(x, sim, c, k, fine), want = sim.prev * std::exp((s.r - s.cc()) * s.dt());
    x.note("price before %.10g, expected next price %.12g, forward %.12g", sim.prev, e, want); CHECK(x, mc::near(e, want, 1e-7), "%s: given %.10g before step %u the expected next price is %.12g, risk-neutral is %.12g", str(s).c_str(), sim.prev, k, e, want); mc::Hash h; h(e)(s.kind)(k); x.state(h.h);
}
static std::vector<Spec> params(int kind) {
    std::vector<Spec> o; Spec s; s.kind = kind; if (kind == GBM) return {s};
    if (hasVar(kind)) { for (auto q : std::vector<V>{{1.5, 0.04, 0.3, -0.5, 0.04}, {3, 0.09, 1.5, 0.7, 0.01}, {0.5, 0.3, 0.9, 0, 0.5}, {2, 0.05, 0.4, -1, 0.1}, {2, 0.05, 0.4, 1, 0.1}}) { s.kappa = q[0]; s.theta = q[1]; s.sv = q[2]; s.rho = q[3]; s.v0 = q[4]; s.cir = int(o.size() % 3); if (o.size() % 2) { s.lambda = 3; s.muJ = 0.15; s.sJ = 0.05; } else { s.lambda = 0.8; s.muJ = -0.3; s.sJ = 0.25; } o.push_back(s); } return o; }
    if (kind == MERTON) { for (auto q : std::vector<V>{{0.8, -0.1, 0.2}, {5, 0.2, 0.01}, {0.05, -0.9, 0.6}, {1, 0, 0.3}, {12, -0.02, 0.1}}) { s.lambda = q[0]; s.muJ = q[1]; s.sJ = q[2]; o.push_back(s); } return o; }
    if (kind == KOU) { for (auto q : std::vector<V>{{0.8, 0.4, 6, 4}, {3, 0.9, 3, 0.5}, {0.05, 0, 10, 3}, {0.5, 1, 10, 3}, {2, 0.2, 50, 25}}) { s.lambda = q[0]; s.p = q[1]; s.eta1 = q[2]; s.eta2 = q[3]; o.push_back(s); } return o; }
    for (auto q : std::vector<V>{{0.2, -0.1}, {0.5, 0.2}, {0.05, 0}, {1, -0.4}, {0.01, 0.3}}) { s.nu = q[0]; s.vtheta = q[1]; o.push_back(s); } return o;
}
static void market(Spec& s, int i) { static const struct { double S, sg; std::optional<double> c; double r; } M[] = {{100, 0.2, std::nullopt, 0.05}, {100, 0.3, 0.03, 0.01}, {0.5, 0.6, 0.5, -0.02}, {2500, 0.05, 0.0, 0.1}, {42, 0, 0.02, 0.07}, {1, 0.45, 1.0, 0}}; s.S = M[i].S; s.sigma = M[i].sg; s.c = M[i].c; s.r = M[i].r; }
static Script history(X& x, const Spec& s, unsigned k) {          // draws of the first k steps, deviating from a default
    Script c; static const V Z = {0.3, -2, 2.5}, J = {0.2, -1.5}, U = {0.1, 0.95}, G = {0.7, 3.0, 0.01}; auto ch = [&](const V& a) { return a[x.deviate(int(a.size()))]; };
    for (unsigned i = 0; i < k; ++i) { c.z.push_back(ch(Z)); if (hasVar(s.kind)) c.z.push_back(ch(Z)); if (s.kind == VG) c.g.push_back(ch(G)); if (hasJumps(s.kind)) { int n = x.deviate(3); c.n.push_back(n); for (int j = 0; j < n; ++j) if (s.kind == KOU) { c.u.push_back(ch(U)); c.e.push_back(0.4 + j); } else c.jz.push_back(ch(J)); } }
    return c;
}
static bool ok(const Spec& s) { return s.kind != VG || 1 - s.vtheta * s.nu - 0.5 * s.sigma * s.sigma * s.nu > 0.3; }
MC_MAIN([] {
    std::vector<mc::Unit> u;
    for (int k = 0; k < NMODELS; ++k) {
        int fine = k == BATES ? 10 : k == HESTON ? 16 : 14; std::string nm = modelName(k);
        u.push_back({nm + " parameters and markets", [k, fine](X& x) { auto ps = params(k); Spec s = ps[x.choose(int(ps.size()))]; market(s, x.choose(6)); s.T = x.pick(V{1, 0.25, 1.0 / 365, 2}); s.steps = x.pick(std::vector<unsigned>{1, 2, 12}); if (!ok(s) || (hasVar(k) && s.dt() > 1)) return; if (k == KOU && s.dt() > 1) return; check(x, s, history(x, s, 0), 0, fine); }, 0, 3});
        // wide ranges of every parameter, market value and horizon, for one step (and the first of several)
        u.push_back({nm + " wide ranges", [k](X& x) {
            Spec s; s.kind = k; struct Nodes { int a = g_en, b = g_uc, c = g_vgz, d = g_nj; ~Nodes() { g_skip = 1e-18; g_en = a; g_uc = b; g_vgz = c; g_nj = d; } } keep; int fine = 30; double m = 1;
            auto mkt = [&](const V& S, const V& sg, const V& c, const V& r, const V& T) { s.S = x.pick(S); s.sigma = x.pick(sg); double cc = x.pick(c); if (cc >= 0) s.c = cc; s.r = x.pick(r); s.T = x.pick(T); };
            if (k == GBM) { mkt({1e-6, 1, 50, 1e6}, {0, 1e-4, 0.1, 0.5, 1.2, 6}, {-1, 0, 0.01, 0.3, 1}, {-0.2, 0, 0.001, 0.08, 0.5, 1}, {1e-4, 0.1, 1, 3, 10, 30}); s.steps = x.pick(std::vector<unsigned>{1, 3, 100}); if (s.sigma * std::sqrt(s.dt()) > 2.2) return; }
            else if (k == HESTON) { s.rho = x.pick(V{-1, -0.999, -0.3, 0, 0.6, 1}); s.v0 = x.pick(V{0, 1e-6, 0.04, 1, 12}); s.sv = x.pick(V{0.01, 0.5, 3}); s.kappa = x.pick(V{0, 0.5, 9}); s.theta = x.pick(V{0, 0.04, 1}); s.cir = x.choose(3); mkt({1, 1e5}, {0.2}, {-1, 0.4}, {-0.1, 0.06}, {1e-3, 0.5, 2}); fine = 16; }
            else if (k == BATES) { s.rho = x.pick(V{-1, -0.3, 0, 0.6, 1}); s.v0 = x.pick(V{1e-6, 0.04, 1, 12}); s.lambda = x.pick(V{1e-3, 1, 20}); s.muJ = x.pick(V{-1, -0.01, 0, 0.5}); s.sJ = x.pick(V{1e-3, 0.2, 0.99}); m = std::exp(s.muJ + s.sJ * s.sJ / 2); mkt({30}, {0.2}, {-1, 0.4}, {0.06}, {0.01, 1}); fine = 10; }
            else if (k == MERTON) { s.lambda = x.pick(V{1e-4, 0.1, 1, 7, 40, 600}); s.muJ = x.pick(V{-2, -0.5, -0.01, 0, 0.3, 1}); s.sJ = x.pick(V{1e-3, 0.1, 0.5, 0.99}); m = std::exp(s.muJ + s.sJ * s.sJ / 2); mkt({1, 1e5}, {0.01, 0.6, 4}, {-1, 0.4}, {-0.1, 0.06}, {0.02, 1, 8}); fine = 22; }
            else if (k == KOU) { s.lambda = x.pick(V{1e-3, 15}); s.p = x.pick(V{0, 0.03, 0.6, 1}); s.eta1 = x.pick(V{1.6, 3, 60}); s.eta2 = x.pick(V{0.3, 3, 40}); m = s.p * s.eta1 / (s.eta1 - 1) + (1 - s.p) * s.eta2 / (s.eta2 + 1); mkt({1e5}, {0.3}, {-1, 0.4}, {0.06}, {0.02, 3}); fine = 10; g_en = 36; g_uc = 3; g_skip = 1e-27; }
            else { s.nu = x.pick(V{0.01, 0.2, 1, 3}); s.vtheta = x.pick(V{-1, -0.3, -0.01, 0, 0.2}); mkt({1, 1e5}, {0, 1e-3, 0.1, 0.4}, {-1, 0.4}, {-0.1, 0.06}, {0.02, 1, 4}); }
            if (k != GBM) s.steps = 1 + 2 * x.choose(2); if (!ok(s) || std::fabs(s.lambda * s.dt() * (m - 1)) > 60) return; if (hasVar(k) && s.v0 * s.dt() > 3) return; if (k == MERTON && (s.sigma * std::sqrt(s.dt()) > 2.2 || s.lambda * s.dt() > 330)) return; check(x, s, Script(), 0, fine); }, -1, 4});
        u.push_back({nm + " histories", [k, fine](X& x) { auto ps = params(k); int np = int(ps.size()); Spec s = ps[x.choose(np)]; market(s, x.choose(mc::thorough ? 6 : 2)); s.steps = mc::thorough ? 4 : 3; s.T = 1; unsigned at = 1 + x.choose(int(s.steps) - 1); if (!ok(s)) return; check(x, s, history(x, s, at), at, fine); }, mc::thorough && !hasVar(k) ? 2 : 1, 4});
        u.push_back({nm + " long paths", [k, fine](X& x) { Spec s = params(k)[0]; market(s, 1); s.steps = x.pick(std::vector<unsigned>{52, 252}); s.T = 1; unsigned at = x.pick(std::vector<unsigned>{0, 1, 25, s.steps - 2, s.steps - 1}); check(x, s, history(x, s, at), at, k == BATES ? 6 : k == HESTON ? 8 : 8); }, 0, 2});
    }
    return u;
})
