// Stateless explicit exploration of choice trees.
//
// A harness is a list of units. The body of a unit is a closed, deterministic program that asks the
// explorer for every decision (operation, argument, draw, environment answer). The explorer runs the
// body once for every sequence of answers, depth first, so that a finished run has covered the whole
// tree: "exhaustive within the bounds of the unit". deviate() bounds the number of departures from
// the default answer instead of the depth.
#pragma once
#include <cinttypes>
#include <cmath>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <string>
#include <typeinfo>
#include <unordered_set>
#include <vector>
#include <algorithm>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

namespace mc {

struct Violation { std::string msg; };
struct Skip {};

inline bool thorough = false;

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
    h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33;
    return h;
}
inline uint64_t bits(double d) { uint64_t u; if (d == 0) d = 0; std::memcpy(&u, &d, 8); return u; }
struct Hash {
    uint64_t h = 0x1234567;
    Hash& operator()(double d) { h = mix(h, bits(d)); return *this; }
    Hash& operator()(float d) { return (*this)(double(d)); }
    template<class T> requires std::is_integral_v<T> Hash& operator()(T i) { h = mix(h, uint64_t(i)); return *this; }
    Hash& operator()(const std::string& s) { for (char c : s) h = mix(h, (unsigned char)c); h = mix(h, s.size()); return *this; }
    template<class T> Hash& operator()(const std::vector<T>& v) { for (auto& e : v) (*this)(e); return *this; }
};

constexpr int kMaxChoices = 1 << 16;

struct Shared {                 // lives in a mmapped file: survives a crash of the worker
    int unit;
    int len;
    uint64_t execs, transitions, skipped, maxDepth;
    int done;
    int choices[kMaxChoices];
    int arity[kMaxChoices];
    int sampleLen; int sample[4096];
};

struct X {
    Shared* s = nullptr;
    int pos = 0;
    int devLeft = -1;           // -1: unbounded
    bool recording = false;
    int shard = 0, nshards = 1, shardDepth = 0;
    std::vector<std::string> notes;
    std::unordered_set<uint64_t>* states = nullptr;

    int choose(int n) {
        if (n <= 0) { std::fprintf(stderr, "MC-ERROR choose(%d)\n", n); std::_Exit(98); }
        if (n == 1) return 0;
        if (pos < s->len) {
            if (s->arity[pos] != n) {
                if (s->arity[pos] == 0) s->arity[pos] = n;   // replay of a bare choice list
                else { std::fprintf(stderr, "MC-ERROR divergence at choice %d: arity %d, was %d\n", pos, n, s->arity[pos]); std::_Exit(98); }
            }
            if (s->choices[pos] >= n) { std::fprintf(stderr, "MC-ERROR choice out of range\n"); std::_Exit(98); }
        } else {
            if (pos >= kMaxChoices) { std::fprintf(stderr, "MC-ERROR too many choices\n"); std::_Exit(98); }
            s->choices[pos] = 0; s->arity[pos] = n; s->len = pos + 1;
        }
        const int c = s->choices[pos++];
        if (shardDepth && pos == shardDepth && !mine(shardDepth)) throw Skip();
        return c;
    }
    bool mine(int depth) const {
        uint64_t h = 77 + s->unit;
        for (int i = 0; i < depth; ++i) h = mix(h, s->choices[i] + 1);
        return int(h % nshards) == shard;
    }
    // 0 is the default answer; any other answer costs one deviation
    int deviate(int n) {
        if (devLeft == 0) return 0;
        const int c = choose(n);
        if (c && devLeft > 0) --devLeft;
        return c;
    }
    template<class T> const T& pick(const std::vector<T>& v) { return v[choose(int(v.size()))]; }
    bool flip() { return choose(2) == 1; }

    void step(uint64_t n = 1) { s->transitions += n; }
    void state(uint64_t h) { if (states) states->insert(h); }

    static std::string vfmt(const char* f, va_list ap) {
        char buf[4096]; vsnprintf(buf, sizeof buf, f, ap); return buf;
    }
    __attribute__((format(printf, 2, 3))) void note(const char* f, ...) {
        if (!recording) return;
        va_list ap; va_start(ap, f); auto m = vfmt(f, ap); va_end(ap);
        if (notes.size() < 400) notes.push_back(m);
    }
    [[noreturn]] __attribute__((format(printf, 2, 3))) void fail(const char* f, ...) {
        va_list ap; va_start(ap, f); auto m = vfmt(f, ap); va_end(ap);
        throw Violation{m};
    }
};

// a macro so that the message is only formatted when the check fails
#define CHECK(x, cond, ...) do { if (!(cond)) (x).fail(__VA_ARGS__); } while (0)

inline bool near(double a, double b, double rtol, double atol = 0) {
    if (!(std::isfinite(a) && std::isfinite(b))) return a == b;
    return std::fabs(a - b) <= atol + rtol * std::max(std::fabs(a), std::fabs(b));
}

struct Unit {
    std::string name;
    std::function<void(X&)> body;
    int devs = -1;              // deviation bound (-1: deviate() is unbounded)
    int shardDepth = 2;         // choices that decide which worker runs an execution
    uint64_t chunk = 0;         // executions per forked child (0: no fork)
};

inline Shared* g_shared = nullptr;
inline uint64_t g_lastExec = ~0ULL; inline int g_ticks = 0;
inline int g_hangTicks = 15;    // x 4 s of CPU time in one execution
inline void onTick(int) {
    if (g_shared->execs + g_shared->skipped * 1000003ULL != g_lastExec) { g_lastExec = g_shared->execs + g_shared->skipped * 1000003ULL; g_ticks = 0; return; }
    if (++g_ticks >= g_hangTicks) { static const char m[] = "MC-HANG\n"; (void)!write(2, m, sizeof m - 1); _exit(97); }
}
inline void armWatchdog() {
    struct sigaction sa{}; sa.sa_handler = onTick; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
    itimerval it{{4, 0}, {4, 0}}; setitimer(ITIMER_PROF, &it, nullptr);
}

inline void jsonStr(FILE* f, const std::string& s) {
    std::fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') std::fprintf(f, "\\%c", c);
        else if (c < 32 || c > 126) std::fprintf(f, "\\u%04x", c);
        else std::fputc(c, f);
    }
    std::fputc('"', f);
}
inline void jsonList(FILE* f, const std::vector<std::string>& v) {
    std::fputc('[', f);
    for (size_t i = 0; i < v.size(); ++i) { if (i) std::fputc(',', f); jsonStr(f, v[i]); }
    std::fputc(']', f);
}
inline std::string demangled(const std::exception& e) { return typeid(e).name(); }

// Runs one execution; returns the violation message or "".
inline std::string runOne(const Unit& u, X& x) {
    x.pos = 0; x.devLeft = u.devs; x.notes.clear();
    try { u.body(x); return ""; }
    catch (const Skip&) { throw; }
    catch (const Violation& v) { return v.msg.empty() ? "violation" : v.msg; }
    catch (const std::exception& e) { return std::string("unexpected exception ") + demangled(e) + ": " + e.what(); }
    catch (...) { return "unexpected exception"; }
}

inline void emitViolation(FILE* f, const Unit& u, const Shared* s, const std::string& msg, const std::vector<std::string>& notes) {
    std::fprintf(f, "{\"kind\":\"violation\",\"unit\":"); jsonStr(f, u.name);
    std::fprintf(f, ",\"message\":"); jsonStr(f, msg);
    std::fprintf(f, ",\"choices\":[");
    for (int i = 0; i < s->len; ++i) std::fprintf(f, "%s%d", i ? "," : "", s->choices[i]);
    std::fprintf(f, "],\"trace\":"); jsonList(f, notes);
    std::fprintf(f, "}\n"); std::fflush(f);
}

inline void flushStates(const std::unordered_set<uint64_t>& st, const std::string& path) {
    if (path.empty()) return;
    std::vector<uint64_t> v(st.begin(), st.end());
    int fd = open(path.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644);
    size_t off = 0; const char* p = (const char*)v.data(); size_t n = v.size() * 8;
    while (off < n) { ssize_t k = write(fd, p + off, n - off); if (k <= 0) break; off += k; }
    ::close(fd);
}

// Explores unit from the position stored in shared memory. Returns 0: unit finished, 1: chunk full, 2: violation
inline int exploreSome(const Unit& u, X& x, uint64_t limit, FILE* out) {
    Shared* s = x.s;
    uint64_t n = 0;
    for (;;) {
        if (limit && n >= limit) return 1;
        bool skipped = false; std::string v;
        try { v = runOne(u, x); } catch (const Skip&) { skipped = true; }
        if (!skipped && x.pos != s->len) { std::fprintf(stderr, "MC-ERROR divergence: execution ended after %d of %d choices\n", x.pos, s->len); std::_Exit(98); }
        if (!v.empty()) {
            x.recording = true; int sd = x.shardDepth; x.shardDepth = 0;
            X y = x; y.states = nullptr;
            uint64_t tr = s->transitions;
            std::string v2; try { v2 = runOne(u, y); } catch (const Skip&) {}
            s->transitions = tr; x.shardDepth = sd;
            emitViolation(out, u, s, v2.empty() ? v + " (not repeated within the same process)" : v2, y.notes);
            return 2;
        }
        if (skipped) ++s->skipped;
        else if (s->len < x.shardDepth && !x.mine(s->len)) ++s->skipped;
        else {
            ++s->execs; ++n;
            if ((s->execs & (s->execs - 1)) == 0 && s->len <= 4096) {   // remember one representative execution for the evidence
                s->sampleLen = s->len; std::memcpy(s->sample, s->choices, sizeof(int) * s->len);
            } s->maxDepth = std::max<uint64_t>(s->maxDepth, s->len); }
        while (s->len > 0 && s->choices[s->len - 1] + 1 >= s->arity[s->len - 1]) --s->len;
        if (s->len == 0) return 0;
        ++s->choices[s->len - 1];
    }
}

inline int mainImpl(int argc, char** argv, const std::function<std::vector<Unit>()>& make) {
    std::string mode = argc > 1 ? argv[1] : "";
    auto arg = [&](const char* k, const char* d) -> std::string {
        for (int i = 2; i + 1 < argc; ++i) if (!std::strcmp(argv[i], k)) return argv[i + 1];
        return d;
    };
    if (mode == "merge") {      // number of distinct 64-bit words in the given files
        std::vector<uint64_t> all;
        for (int i = 2; i < argc; ++i) {
            FILE* f = std::fopen(argv[i], "rb"); if (!f) continue;
            uint64_t b[4096]; size_t k; while ((k = std::fread(b, 8, 4096, f)) > 0) all.insert(all.end(), b, b + k);
            std::fclose(f);
        }
        std::sort(all.begin(), all.end());
        std::printf("%zu\n", size_t(std::unique(all.begin(), all.end()) - all.begin()));
        return 0;
    }
    thorough = arg("--tier", "quick") == "thorough";
    std::string crumb = arg("--crumb", "");
    int fd = crumb.empty() ? -1 : open(crumb.c_str(), O_RDWR | O_CREAT, 0644);
    if (fd >= 0 && ftruncate(fd, sizeof(Shared))) return 98;
    auto* s = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, fd >= 0 ? MAP_SHARED : (MAP_SHARED | MAP_ANONYMOUS), fd, 0);
    if (s == MAP_FAILED) return 98;
    g_shared = s; std::memset((void*)s, 0, offsetof(Shared, choices));
    if (auto h = arg("--hang", ""); !h.empty()) g_hangTicks = std::max(1, std::stoi(h) / 4);
    armWatchdog();
    auto units = make();
    const std::string only = arg("--unit", "");
    X x; x.s = s;

    if (mode == "replay") {
        for (size_t i = 0; i < units.size(); ++i) if (units[i].name == only) {
            s->unit = int(i); std::string c = arg("--choices", "");
            int n = 0; const char* p = c.c_str();
            while (*p) { s->choices[n] = int(std::strtol(p, (char**)&p, 10)); s->arity[n] = 0; ++n; if (*p == ',') ++p; }
            s->len = n; x.recording = true;
            std::string v = runOne(units[i], x);
            if (!v.empty()) { emitViolation(stdout, units[i], s, v, x.notes); return 1; }
            std::printf("{\"kind\":\"ok\",\"unit\":"); jsonStr(stdout, only); std::printf(",\"choices\":[");
            for (int k = 0; k < s->len; ++k) std::printf("%s%d", k ? "," : "", s->choices[k]);
            std::printf("],\"trace\":"); jsonList(stdout, x.notes); std::printf("}\n");
            return 0;
        }
        std::fprintf(stderr, "MC-ERROR no unit %s\n", only.c_str()); return 98;
    }
    if (mode == "list") { for (auto& u : units) std::printf("%s\n", u.name.c_str()); return 0; }

    x.shard = std::stoi(arg("--shard", "0")); x.nshards = std::stoi(arg("--of", "1"));
    const std::string statesPath = arg("--states", "");
    std::unordered_set<uint64_t> states;
    x.states = &states;
    for (size_t i = 0; i < units.size(); ++i) {
        const Unit& u = units[i];
        if (!only.empty() && only != u.name) continue;
        s->unit = int(i); s->len = 0; s->execs = s->transitions = s->skipped = s->maxDepth = 0; s->sampleLen = 0;
        x.shardDepth = u.shardDepth;
        timeval t0; gettimeofday(&t0, nullptr);
        int rc = 0;
        if (!u.chunk) rc = exploreSome(u, x, 0, stdout);
        else for (;;) {
            std::fflush(stdout);
            pid_t p = fork();
            if (p == 0) {
                armWatchdog(); states.clear();
                rc = exploreSome(u, x, u.chunk, stdout);
                flushStates(states, statesPath); std::fflush(stdout); _exit(rc);
            }
            int st = 0; waitpid(p, &st, 0);
            if (!WIFEXITED(st)) { std::fprintf(stderr, "MC-CHILD killed by signal %d\n", WTERMSIG(st)); return 96; }
            rc = WEXITSTATUS(st);
            if (rc == 1) continue;
            if (rc != 0 && rc != 2) return rc;
            break;
        }
        if (rc == 2) return 1;
        timeval t1; gettimeofday(&t1, nullptr);
        std::printf("{\"kind\":\"unit\",\"unit\":"); jsonStr(stdout, u.name);
        std::printf(",\"executions\":%" PRIu64 ",\"transitions\":%" PRIu64 ",\"max_depth\":%" PRIu64 ",\"deviations\":%d,\"wall\":%.3f,\"sample\":[",
                    s->execs, s->transitions, s->maxDepth, u.devs, (t1.tv_sec - t0.tv_sec) + 1e-6 * (t1.tv_usec - t0.tv_usec));
        for (int k = 0; k < s->sampleLen; ++k) std::printf("%s%d", k ? "," : "", s->sample[k]);
        std::printf("]}\n");
        std::fflush(stdout);
    }
    flushStates(states, statesPath);
    s->done = 1;
    return 0;
}

} // namespace mc

#define MC_MAIN(...) int main(int argc, char** argv) { return mc::mainImpl(argc, argv, __VA_ARGS__); }
