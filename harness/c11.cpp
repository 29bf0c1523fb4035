// C11: generators are reproducible, independent and hand out points in order.
#include "mc.hpp"
#include "op.hpp"
#include <boost/random/sobol.hpp>
#include <boost/random/faure.hpp>
#include "random/number_generator/pseudo_random_generator.h"
#include "random/number_generator/sobol_quasi_random_generator.h"
#include "random/number_generator/faure_quasi_random_generator.h"
using namespace OptionPricer; using mc::X; using V = std::vector<double>; using U = unsigned;
struct Id : Distribution { mutable long calls = 0; double scale = 1, shift = 0; double inv_cdf(const double& q) const override { ++calls; return shift + scale * q; } double operator()(std::mt19937&) const override { throw std::logic_error("a quasi-random generator drew pseudo-random numbers"); } };
enum { PRNG, SOBOL, FAURE }; static const char* GN[] = {"pseudo-random", "Sobol", "Faure"};
static std::unique_ptr<NumberGenerator> mk(int k, U dim, U seed) { if (k == PRNG) return std::make_unique<PseudoRandomNumberGenerator>(dim, seed); if (k == SOBOL) return std::make_unique<SobolGenerator>(dim, seed); return std::make_unique<FaureGenerator>(dim, seed); }
static std::unique_ptr<Distribution> law(int i) { switch (i) { case 0: return std::make_unique<ContinuousUniformDistribution>(); case 1: return std::make_unique<StandardNormalDistribution>(); case 2: return std::make_unique<PoissonDistribution>(2.5); case 3: return std::make_unique<GammaDistribution>(0.7, 2); case 4: return std::make_unique<ExponentialDistribution>(3); default: return std::make_unique<NormalDistribution>(1, 2); } }
static const std::vector<U> SEEDS = [] { std::vector<U> s = {0, 1, 2, 3, 5, 42, 52, 99, 100, 255, 256, 999, 1000, 12345, 65535, 65536, 1u << 20, 123456789, 2147483647, 2147483648u, 4294967294u, 4294967295u}; return s; }();
// reference points: coordinate j of point n, n counted from the first non-trivial point
struct Ref {
    int k; U dim; std::vector<double> pt; boost::random::sobol* s = nullptr; boost::random::faure* f = nullptr;
    Ref(int k_, U d, U seed) : k(k_), dim(d), pt(d) { if (k == SOBOL) { s = new boost::random::sobol(d); s->seed(seed); } else { f = new boost::random::faure(d); f->seed(uint64_t(seed) + 1); } }
    ~Ref() { delete s; delete f; } Ref(const Ref&) = delete;
    const V& next() { for (U i = 0; i < dim; ++i) pt[i] = s ? double((*s)()) / std::ldexp(1.0, 64) : double((*f)()); return pt; }
};
// own Faure construction (no library): Pascal matrix powers in the smallest prime base not below the dimension
static double faure(uint64_t n, U dim, U j) {
    U p = std::max(2u, dim); auto prime = [](U q) { for (U i = 2; i * i <= q; ++i) if (q % i == 0) return false; return true; }; while (!prime(p)) ++p;
    std::vector<uint64_t> d; for (uint64_t m = n; m; m /= p) d.push_back(m % p); size_t R = d.size(); std::vector<std::vector<uint64_t>> C(R, std::vector<uint64_t>(R, 0)); for (size_t i = 0; i < R; ++i) { C[i][0] = 1; for (size_t l = 1; l <= i; ++l) C[i][l] = (C[i - 1][l - 1] + (l <= i - 1 ? C[i - 1][l] : 0)) % p; }
    auto pw = [&](uint64_t b, size_t e) { uint64_t r = 1; while (e--) r = r * b % p; return r; }; long double v = 0, q = 1.0L / p; for (size_t r = 0; r < R; ++r, q /= p) { uint64_t y = 0; for (size_t i = r; i < R; ++i) y = (y + C[i][r] * pw(j, i - r) % p * d[i]) % p; v += y * q; } return double(v);
}
MC_MAIN([] {
    std::vector<mc::Unit> u;
    u.push_back({"same seed, same stream", [](X& x) {       // all sequences of 4 (5) distributions out of 6, every seed and dimension
        U seed = x.pick(SEEDS), dim = x.pick(std::vector<U>{1, 2, 7, 252}); auto a = mk(PRNG, dim, seed), b = mk(PRNG, dim, seed); std::unique_ptr<Distribution> da[6], db[6]; for (int i = 0; i < 6; ++i) da[i] = law(i), db[i] = law(i); CHECK(x, a->getDim() == dim, "dimension %u reported as %u", dim, a->getDim());
        int n = mc::thorough ? 5 : 4; mc::Hash h; h(seed); for (int i = 0; i < n; ++i) { int l = x.choose(6); double v = (*a)(*da[l]), w = (*b)(*db[l]); x.step(2); CHECK(x, v == w, "seed %u: draw %d differs between two generators: %.17g and %.17g", seed, i, v, w); h(v); } x.state(h.h); }, -1, 2});
    u.push_back({"long streams repeat", [](X& x) { U seed = x.pick(SEEDS); int l = x.choose(6); PseudoRandomNumberGenerator a(3, seed), b(5, seed); auto da = law(l), db = law(l); for (int i = 0; i < 5000; ++i) { double v = a(*da), w = b(*db); CHECK(x, v == w, "seed %u: draw %d differs: %.17g and %.17g", seed, i, v, w); } x.step(10000); mc::Hash h; h(seed)(l); x.state(h.h); }, -1, 1});
    u.push_back({"different seeds, different streams", [](X& x) {   // every seed against all its single-bit flips and its successor
        U s = x.pick(SEEDS); int f = x.choose(33); U t = f < 32 ? s ^ (1u << f) : s + 1; int l = x.pick(std::vector<int>{0, 1, 3, 4}), lag = x.choose(3); PseudoRandomNumberGenerator a(1, s), b(1, t); auto da = law(l), db = law(l); int same = 0; for (int i = 0; i < lag; ++i) (void)a(*da); for (int i = 0; i < 8; ++i) same += a(*da) == b(*db); x.step(16); CHECK(x, same < 2, "seeds %u and %u: %d of 8 draws are equal", s, t, same); mc::Hash h; h(s)(t)(l)(lag); x.state(h.h); }, -1, 2});
    u.push_back({"different seeds, all pairs", [](X& x) { int n = int(SEEDS.size()); U s = SEEDS[x.choose(n)]; for (U t : SEEDS) if (s != t) { PseudoRandomNumberGenerator a(1, s), b(1, t); ContinuousUniformDistribution d; int same = 0; for (int i = 0; i < 6; ++i) same += a(d) == b(d); x.step(); CHECK(x, same < 2, "seeds %u and %u give the same stream", s, t); } }, -1, 1});
    // all interleavings of draws from two generators equal their streams alone
    u.push_back({"interleavings", [](X& x) {
        int ka = x.choose(3), kb = x.choose(3); U sa = x.pick(std::vector<U>{1, 42}), sb = x.pick(std::vector<U>{1, 7}), dim = 1 + x.choose(3), n = mc::thorough ? 7 : 5; auto mkd = [](int k) -> std::unique_ptr<Distribution> { if (k == PRNG) return law(1); return std::make_unique<Id>(); };
        auto solo = [&](int k, U seed) { auto g = mk(k, dim, seed); auto d = mkd(k); V v; for (U i = 0; i < n; ++i) v.push_back((*g)(*d)); return v; }; V ra = solo(ka, sa), rb = solo(kb, sb); auto a = mk(ka, dim, sa), b = mk(kb, dim, sb); auto da = mkd(ka), db = mkd(kb); size_t i = 0, j = 0;
        while (i < n || j < n) { bool first = j >= n || (i < n && !x.flip()); x.step(); if (first) { double v = (*a)(*da); CHECK(x, v == ra[i], "%s draw %zu is %.17g next to a %s generator and %.17g alone", GN[ka], i, v, GN[kb], ra[i]); ++i; } else { double v = (*b)(*db); CHECK(x, v == rb[j], "%s draw %zu is %.17g next to a %s generator and %.17g alone", GN[kb], j, v, GN[ka], rb[j]); ++j; } } mc::Hash h; h(ka)(kb)(sa)(sb)(dim); x.state(h.h); }, -1, 5});
    // construction, use and destruction of other generators in between
    u.push_back({"lifetimes", [](X& x) {
        int k = x.choose(3); auto d = [&]() -> std::unique_ptr<Distribution> { if (k == PRNG) return law(1); return std::make_unique<Id>(); }; V solo; { auto g = mk(k, 2, 11); auto dd = d(); for (int i = 0; i < 8; ++i) solo.push_back((*g)(*dd)); }
        auto g = mk(k, 2, 11); auto dg = d(); std::vector<std::unique_ptr<NumberGenerator>> others; size_t i = 0; for (int s = 0; s < (mc::thorough ? 7 : 6); ++s) { int o = x.choose(5); x.step(); if (o == 0) { double v = (*g)(*dg); CHECK(x, v == solo[i], "%s draw %zu is %.17g, alone %.17g", GN[k], i, v, solo[i]); ++i; } else if (o <= 3) others.push_back(mk(o - 1, 2, 11)); else if (!others.empty()) others.pop_back(); } double v = (*g)(*dg); CHECK(x, v == solo[i], "%s draw %zu is %.17g, alone %.17g", GN[k], i, v, solo[i]); }, -1, 3});
    // quasi-random: points in order, d draws per point, for every dimension and seed
    u.push_back({"points in order", [](X& x) {
        int k = 1 + x.choose(2); static const std::vector<U> D = [] { std::vector<U> d; for (U i = 1; i <= 40; ++i) d.push_back(i); for (U i : {52u, 64u, 100u, 128u, 252u, 365u, 500u}) d.push_back(i); return d; }(); U dim = x.pick(D), seed = x.pick(SEEDS); if (k == FAURE && dim > 100 && seed > 1u << 20) seed &= 0xfffff; auto g = mk(k, dim, seed); Ref r(k, dim, seed); Id d; CHECK(x, g->getDim() == dim, "dimension");
        int pts = dim <= 40 ? 70 : 12; for (int p = 0; p < pts; ++p) { const V& q = r.next(); for (U j = 0; j < dim; ++j) { double v = (*g)(d); x.step(); CHECK(x, v > 0 && v < 1, "%s dim %u seed %u: point %d coordinate %u is %.17g", GN[k], dim, seed, p, j, v); CHECK(x, std::fabs(v - q[j]) <= 1e-12, "%s dim %u seed %u: point %d coordinate %u is %.17g, the sequence has %.17g", GN[k], dim, seed, p, j, v, q[j]); } } CHECK(x, d.calls == long(pts) * dim, "quantile function called %ld times for %ld draws", d.calls, long(pts) * dim); mc::Hash h; h(k)(dim)(seed); x.state(h.h); }, -1, 2});
    u.push_back({"Faure construction", [](X& x) { U dim = 1 + x.choose(12), seed = x.pick(std::vector<U>{0, 1, 2, 6, 24, 42, 99, 624, 1000, 4094}); FaureGenerator g(dim, seed); Id d; int pts = mc::thorough ? 400 : 120; for (int p = 0; p < pts; ++p) for (U j = 0; j < dim; ++j) { double v = g(d), w = faure(uint64_t(seed) + 1 + p, dim, j); x.step(); CHECK(x, std::fabs(v - w) <= 1e-12, "Faure dim %u: point %u coordinate %u is %.15g, expected %.15g", dim, seed + 1 + p, j, v, w); } mc::Hash h; h(dim)(seed); x.state(h.h); }, -1, 2});
    u.push_back({"long quasi-random streams", [](X& x) { int k = 1 + x.choose(2); U dim = x.pick(std::vector<U>{1, 2, 3, 5, 10, 50}), seed = x.pick(std::vector<U>{0, 42, 70000}); auto g = mk(k, dim, seed); Ref r(k, dim, seed); Id d; int pts = mc::thorough ? 70000 : 9000; for (int p = 0; p < pts; ++p) { const V& q = r.next(); for (U j = 0; j < dim; ++j) { double v = (*g)(d); CHECK(x, v > 0 && v < 1 && std::fabs(v - q[j]) <= 1e-12, "%s dim %u seed %u: point %d coordinate %u is %.17g, the sequence has %.17g", GN[k], dim, seed, p, j, v, q[j]); } } x.step(uint64_t(pts) * dim); mc::Hash h; h(k)(dim)(seed); x.state(h.h); }, -1, 2});
    // whatever distributions are used: all sequences of 3 distributions
    u.push_back({"mixed distributions", [](X& x) {
        int k = 1 + x.choose(2); U dim = 1 + x.choose(4), seed = x.pick(std::vector<U>{0, 1, 5, 42}); auto g = mk(k, dim, seed); Ref r(k, dim, seed); Id a, b; b.scale = -3; b.shift = 10; StandardNormalDistribution n, n2; const V* q = nullptr; int len = mc::thorough ? 9 : 7;
        for (int i = 0; i < len; ++i) { U j = U(i) % dim; if (j == 0) q = &r.next(); int l = x.choose(3); double v, w; x.step(); if (l == 0) v = (*g)(a), w = (*q)[j]; else if (l == 1) v = (*g)(b), w = 10 - 3 * (*q)[j]; else v = (*g)(n), w = n2.inv_cdf((*q)[j]); CHECK(x, std::fabs(v - w) <= 1e-9 * (1 + std::fabs(w)), "%s dim %u seed %u: draw %d through distribution %d is %.15g, expected %.15g", GN[k], dim, seed, i, l, v, w); } mc::Hash h; h(k)(dim)(seed); x.state(h.h); }, -1, 4});
    // stratification of the Sobol points (independent of the library's tables): every dyadic interval once, per coordinate; elementary boxes for the first two
    u.push_back({"dyadic strata", [](X& x) { U dim = 1 + x.choose(16); int m = 1 + x.choose(mc::thorough ? 13 : 11); SobolGenerator g(dim, 0); Id d; long n = 1L << m; std::vector<std::vector<char>> hit(dim, std::vector<char>(n, 0)); for (U j = 0; j < dim; ++j) hit[j][0] = 1; std::vector<std::vector<char>> box(m + 1, std::vector<char>(n, 0)); for (auto& b : box) b[0] = 1;
        for (long p = 1; p < n; ++p) { V pt; for (U j = 0; j < dim; ++j) { double v = g(d); pt.push_back(v); long c = long(v * n + 1e-9); CHECK(x, c >= 0 && c < n && !hit[j][c], "Sobol dim %u: interval %ld of %ld hit twice in coordinate %u (point %ld)", dim, c, n, j, p); hit[j][c] = 1; } if (dim >= 2) for (int e = 0; e <= m; ++e) { long a = long(pt[0] * (1L << e) + 1e-9), b = long(pt[1] * (1L << (m - e)) + 1e-9), c = (a << (m - e)) | b; CHECK(x, !box[e][c], "Sobol dim %u: elementary box hit twice at point %ld", dim, p); box[e][c] = 1; } } x.step(uint64_t(n) * dim); mc::Hash h; h(dim)(m); x.state(h.h); }, -1, 2});
    // real quantile draws stay finite
    u.push_back({"normal draws", [](X& x) { int k = 1 + x.choose(2); U dim = x.pick(std::vector<U>{1, 2, 3, 12, 50}), seed = x.pick(SEEDS); auto g = mk(k, dim, seed); StandardNormalDistribution d; for (int i = 0; i < 600; ++i) { double v = (*g)(d); CHECK(x, std::isfinite(v), "%s dim %u seed %u: draw %d is %g", GN[k], dim, seed, i, v); } x.step(600); mc::Hash h; h(k)(dim)(seed); x.state(h.h); }, -1, 2});
    u.push_back({"unseeded generators", [](X& x) { int k = x.choose(3); U dim = 1 + x.choose(5); std::unique_ptr<NumberGenerator> g; if (k == PRNG) g = std::make_unique<PseudoRandomNumberGenerator>(dim); else if (k == SOBOL) g = std::make_unique<SobolGenerator>(dim); else g = std::make_unique<FaureGenerator>(dim); Id d; auto n = law(1); for (int i = 0; i < 200; ++i) { double v = k == PRNG ? (*g)(*n) : (*g)(d); CHECK(x, std::isfinite(v) && (k == PRNG || (v > 0 && v < 1)), "%s: draw %d is %g", GN[k], i, v); } x.step(200); CHECK(x, g->getDim() == dim, "dimension"); mc::Hash h; h(k)(dim); x.state(h.h); }, -1, 1});
    return u;
})
