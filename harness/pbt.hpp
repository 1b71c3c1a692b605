// pbt.hpp - a small property-based testing engine with integrated shrinking.
//
// A property is a function of a Ctx.  Every random decision is drawn through the Ctx and recorded
// as a sequence of integers ("choices").  A failing case is its choice sequence; shrinking edits that
// sequence (delete spans, lower values) and re-runs the property in a forked child, so crashes,
// sanitizer reports and hangs shrink exactly like failed assertions.  The shrunk sequence is the
// replay file.  Case i of property P is a pure function of (VERIF_SEED, P, i): it does not depend on
// the number of workers.
#pragma once
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iomanip>
#include <limits>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace pbt {

inline uint64_t splitmix(uint64_t& s)
{
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 1469598103934665603ull)
{
    const unsigned char* b = static_cast<const unsigned char*>(p);
    for (size_t i = 0; i < n; ++i) {
        h ^= b[i];
        h *= 1099511628211ull;
    }
    return h;
}
inline uint64_t hash_str(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// Cheap PRNG for bulk data whose individual values need not shrink.
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed) : s(seed * 0x9e3779b97f4a7c15ull + 0x1234567) {}
    uint64_t u64() { return splitmix(s); }
    double unit() { return double(u64() >> 11) * 0x1.0p-53; }
    double real(double lo, double hi) { return lo + (hi - lo) * unit(); }
    uint64_t below(uint64_t n) { return n ? u64() % n : 0; }
    int range(int lo, int hi) { return int(lo + int64_t(below(uint64_t(int64_t(hi) - lo + 1)))); }
};

struct Fail {
    std::string sig, msg;
};
struct Discard {};

constexpr size_t MAXC = 1u << 16;
constexpr size_t MAXN = 1u << 15;
struct Shared {
    volatile uint64_t done;        // cases completed by this worker
    volatile uint64_t current;     // index of the case being run
    volatile uint64_t evaluations; // completed, not discarded
    volatile uint64_t discards;
    volatile uint64_t known_hits;
    volatile uint64_t nchoices;
    volatile uint64_t nnotes;
    uint64_t choices[MAXC];
    char notes[MAXN];
    char fail_sig[256];
    char fail_msg[4096];
};

class Ctx {
  public:
    Ctx(Shared* sh, uint64_t seed) : sh_(sh), rng_(seed), replay_(false) { reset(); }
    Ctx(Shared* sh, const std::vector<uint64_t>& in) : sh_(sh), rng_(0), replay_(true), in_(in) { reset(); }

    // ---- choices ----
    uint64_t below(uint64_t n)
    {
        uint64_t v;
        if (replay_) {
            v = pos_ < in_.size() ? in_[pos_] : 0;
            if (n && v >= n)
                v = n - 1;
        } else {
            v = splitmix(rng_);
            if (n)
                v %= n;
        }
        ++pos_;
        if (sh_->nchoices < MAXC) {
            sh_->choices[sh_->nchoices] = v;
            sh_->nchoices = sh_->nchoices + 1;
        }
        return v;
    }
    bool boolean() { return below(2) != 0; }
    // probability num/den of true; shrinks to false
    bool chance(uint64_t num, uint64_t den) { return below(den) >= den - num; }
    int range(int lo, int hi) { return int(lo + int64_t(below(uint64_t(int64_t(hi) - lo + 1)))); }
    int64_t range64(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pick(std::initializer_list<T> v) { return *(v.begin() + below(v.size())); }
    Rng bulk() { return Rng(below(1u << 30)); }

    // real in [lo,hi]; a mixture of end points, "round" values and uniform ones; shrinks towards lo
    double real(double lo, double hi)
    {
        uint64_t mode = below(8);
        if (mode == 0)
            return lo;
        if (mode == 1)
            return lo + (hi - lo) * double(below(17)) / 16.0;
        return uniform(lo, hi);
    }
    double uniform(double lo, double hi)
    {
        double u = double(below(1ull << 53)) * 0x1.0p-53;
        double r = lo + (hi - lo) * u;
        return r > hi ? hi : r;
    }
    // symmetric, shrinks to 0
    double sym(double a)
    {
        uint64_t mode = below(8);
        if (mode == 0)
            return 0.0;
        double s = boolean() ? -1.0 : 1.0;
        if (mode == 1)
            return s * a * double(below(17)) / 16.0;
        return s * uniform(0, a);
    }
    // log-uniform in [lo,hi], lo>0
    double logreal(double lo, double hi)
    {
        double v = std::exp(uniform(std::log(lo), std::log(hi)));
        return v < lo ? lo : (v > hi ? hi : v);
    }
    double slogreal(double lo, double hi) { return (boolean() ? -1.0 : 1.0) * logreal(lo, hi); }

    // ---- description ----
    template <class T> void note(const std::string& k, const T& v)
    {
        std::ostringstream o;
        o << std::setprecision(17) << k << "=" << v << "; ";
        append(o.str());
    }
    void append(const std::string& s)
    {
        size_t n = sh_->nnotes;
        size_t k = std::min(s.size(), MAXN - 1 - n);
        std::memcpy(sh_->notes + n, s.data(), k);
        sh_->notes[n + k] = 0;
        sh_->nnotes = n + k;
    }
    void nontrivial(bool b = true) { nontrivial_ = nontrivial_ || b; }
    bool is_nontrivial() const { return nontrivial_; }
    void label(const std::string& l) { labels_.insert(l); }
    const std::set<std::string>& labels() const { return labels_; }

  private:
    void reset()
    {
        sh_->nchoices = 0;
        sh_->nnotes = 0;
        sh_->notes[0] = 0;
        pos_ = 0;
    }
    Shared* sh_;
    uint64_t rng_;
    bool replay_;
    std::vector<uint64_t> in_;
    size_t pos_ = 0;
    bool nontrivial_ = false;
    std::set<std::string> labels_;
};

[[noreturn]] inline void fail(const std::string& tag, const std::string& msg) { throw Fail{tag, msg}; }
[[noreturn]] inline void discard() { throw Discard{}; }

#define PBT_CHECK(tag, cond, stream)                                                                                   \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream o_;                                                                                     \
            o_ << std::setprecision(17) << stream;                                                                     \
            ::pbt::fail(tag, o_.str());                                                                                \
        }                                                                                                              \
    } while (0)

struct Property {
    std::string name;
    uint64_t quick, thorough;
    std::function<void(Ctx&)> fn;
};
inline std::vector<Property>& registry()
{
    static std::vector<Property> r;
    return r;
}
struct Reg {
    Reg(const char* n, uint64_t q, uint64_t t, void (*f)(Ctx&)) { registry().push_back({n, q, t, f}); }
};
// PROP(name, cases in the quick tier, cases in the thorough tier) { body using c }
#define PROP(name, q, t)                                                                                               \
    static void prop_##name(::pbt::Ctx& c);                                                                            \
    static ::pbt::Reg reg_##name(#name, q, t, prop_##name);                                                            \
    static void prop_##name([[maybe_unused]] ::pbt::Ctx& c)

// Hooks a harness may set.
struct Hooks {
    std::function<void()> worker_init = [] {};
    double case_cpu_seconds = 30;
    double idle_seconds = 20; // of a case that waits for other programs: longer
    int workers = 0;
    bool repeat_for_races = false; // replays are repeated: a race need not show every time
};
inline Hooks& hooks()
{
    static Hooks h;
    return h;
}
// Per-process scratch directory, removed by the parent.
inline std::string& scratch()
{
    static std::string s;
    return s;
}

inline std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char ch : s) {
        switch (ch) {
        case '"': o += "\\\""; break;
        case '\\': o += "\\\\"; break;
        case '\n': o += "\\n"; break;
        case '\t': o += "\\t"; break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                char b[8];
                std::snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            } else
                o += char(ch);
        }
    }
    return o + "\"";
}

struct Outcome {
    int kind; // 0 pass, 1 fail, 2 discard
    std::string sig, msg, notes;
    std::vector<uint64_t> used;
};

inline int run_case(const Property& p, Ctx& c, Shared* sh, std::string& sig, std::string& msg)
{
    try {
        p.fn(c);
        return 0;
    } catch (const Discard&) {
        return 2;
    } catch (const Fail& f) {
        sig = p.name + "/" + f.sig;
        msg = f.msg;
        return 1;
    } catch (const std::exception& e) {
        sig = p.name + "/exception";
        msg = std::string("unexpected exception: ") + e.what();
        return 1;
    } catch (...) {
        sig = p.name + "/exception";
        msg = "unexpected non-standard exception";
        return 1;
    }
    (void)sh;
}

inline void arm_timer(double s)
{
    itimerval t{};
    t.it_value.tv_sec = long(s);
    t.it_value.tv_usec = long((s - std::floor(s)) * 1e6);
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_timeout(int)
{
    static const char m[] = "PBT-TIMEOUT\n";
    ssize_t r = write(2, m, sizeof m - 1);
    (void)r;
    _exit(77);
}
inline void child_setup(const std::string& errfile)
{
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_RDWR, 0644);
    if (fd >= 0) {
        dup2(fd, 2);
        if (!std::getenv("PBT_STDOUT"))
            dup2(fd, 1);
        close(fd);
    }
    struct sigaction sa {};
    sa.sa_handler = on_timeout;
    sigaction(SIGPROF, &sa, nullptr);
    rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    hooks().worker_init();
}
inline std::string read_file(const std::string& f, size_t max = 1 << 20)
{
    std::ifstream i(f, std::ios::binary);
    std::string s((std::istreambuf_iterator<char>(i)), {});
    if (s.size() > max)
        s.resize(max);
    return s;
}
inline std::string crash_summary(int status, const std::string& err)
{
    std::string why;
    if (err.find("PBT-TIMEOUT") != std::string::npos)
        return "hang";
    for (const char* key : {"SUMMARY: ", "runtime error: ", "terminate called"}) {
        size_t a = err.find(key);
        if (a != std::string::npos) {
            size_t e = err.find('\n', a);
            return err.substr(a, e - a);
        }
    }
    if (WIFSIGNALED(status))
        return std::string("signal ") + std::to_string(WTERMSIG(status));
    return "exit status " + std::to_string(WEXITSTATUS(status));
}
inline std::string crash_kind(const std::string& summary)
{
    if (summary == "hang")
        return "hang";
    for (const char* k : {"heap-buffer-overflow", "stack-buffer-overflow", "global-buffer-overflow", "use-after-free",
                          "use-after-poison", "allocation-size-too-big", "out-of-memory", "SEGV", "data race",
                          "undefined-behavior", "stack-overflow", "double-free", "container-overflow", "calloc-overflow",
                          "negative-size-param", "memcpy-param-overlap"})
        if (summary.find(k) != std::string::npos)
            return k;
    return "abnormal-exit";
}

// A child that is blocked (a deadlock uses no CPU time, so its own timer never fires) is ended here.
inline double cpu_of(pid_t pid)
{
    std::ifstream f("/proc/" + std::to_string(pid) + "/stat");
    std::string s((std::istreambuf_iterator<char>(f)), {});
    size_t a = s.rfind(')');
    if (a == std::string::npos)
        return -1;
    std::istringstream i(s.substr(a + 1));
    std::string skip;
    for (int k = 0; k < 11; ++k) i >> skip;
    double u = 0, v = 0;
    i >> u >> v;
    return (u + v) / double(sysconf(_SC_CLK_TCK));
}
struct Idle {
    std::chrono::steady_clock::time_point since = std::chrono::steady_clock::now();
    double cpu = 0;
    uint64_t mark = ~0ull;
    // ends pid when for a while it has used next to no CPU time and made no progress
    void look(pid_t pid, uint64_t now_at, const std::string& errf)
    {
        auto now = std::chrono::steady_clock::now();
        if (std::chrono::duration<double>(now - since).count() < hooks().idle_seconds)
            return;
        double u = cpu_of(pid);
        if (u >= 0 && mark == now_at && u - cpu < 0.2) {
            std::ofstream(errf, std::ios::app) << "\nPBT-TIMEOUT (blocked)\n";
            kill(pid, SIGKILL);
        }
        since = now, cpu = u, mark = now_at;
    }
};

// Run one choice sequence in a child.
inline Outcome run_forked(const Property& p, const std::vector<uint64_t>& in, Shared* sh, const std::string& dir)
{
    std::string errf = dir + "/replay.err";
    pid_t pid = fork();
    if (pid == 0) {
        scratch() = dir + "/s" + std::to_string(getpid());
        mkdir(scratch().c_str(), 0700);
        child_setup(errf);
        arm_timer(hooks().case_cpu_seconds);
        Ctx c(sh, in);
        std::string sig, msg;
        int k = run_case(p, c, sh, sig, msg);
        std::snprintf(sh->fail_sig, sizeof sh->fail_sig, "%s", sig.c_str());
        std::snprintf(sh->fail_msg, sizeof sh->fail_msg, "%s", msg.c_str());
        fflush(nullptr);
        _exit(k == 0 ? 0 : (k == 1 ? 71 : 72));
    }
    int st = 0;
    Idle idle;
    idle.mark = 0;
    for (useconds_t nap = 50; waitpid(pid, &st, WNOHANG) == 0; nap = std::min<useconds_t>(nap * 2, 5000)) {
        idle.look(pid, 0, errf);
        usleep(nap);
    }
    std::string rmcmd = dir + "/s" + std::to_string(pid);
    if (!dir.empty()) {
        std::string cmd = "rm -rf '" + rmcmd + "'";
        if (system(cmd.c_str())) {}
    }
    Outcome o;
    o.used.assign(sh->choices, sh->choices + sh->nchoices);
    o.notes = sh->notes;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
        o.kind = 0;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 72)
        o.kind = 2;
    else if (WIFEXITED(st) && WEXITSTATUS(st) == 71) {
        o.kind = 1;
        o.sig = sh->fail_sig;
        o.msg = sh->fail_msg;
    } else {
        o.kind = 1;
        std::string err = read_file(errf);
        std::string s = crash_summary(st, err);
        o.sig = p.name + "/crash:" + crash_kind(s);
        o.msg = s;
        if (size_t a = err.find("runtime error"); a != std::string::npos) {
            size_t b = err.rfind('\n', a);
            b = b == std::string::npos ? 0 : b + 1;
            o.msg = err.substr(b, err.find('\n', a) - b);
        }
        if (size_t a = err.find("    #0 "); a != std::string::npos)
            o.msg += "\n" + err.substr(a, 1500);
    }
    return o;
}

struct Failure {
    std::string prop, sig, msg, notes;
    std::vector<uint64_t> choices;
};

inline std::set<std::string>& known()
{
    static std::set<std::string> k;
    return k;
}

inline Failure shrink(const Property& p, Failure f, Shared* sh, const std::string& dir, double budget_s)
{
    auto t0 = std::chrono::steady_clock::now();
    auto spent = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    int runs = 0;
    auto attempt = [&](std::vector<uint64_t> v) {
        if (spent() > budget_s || runs > 4000)
            return false;
        ++runs;
        Outcome o = run_forked(p, v, sh, dir);
        if (o.kind != 1 || known().count(o.sig) || o.sig != f.sig)
            return false;
        // accept only if simpler: shorter, or lexicographically smaller
        if (o.used.size() > f.choices.size() || (o.used.size() == f.choices.size() && !(o.used < f.choices)))
            return false;
        f.choices = o.used;
        f.msg = o.msg;
        f.notes = o.notes;
        return true;
    };
    bool progress = true;
    while (progress && spent() < budget_s) {
        progress = false;
        // delete spans
        for (size_t k : {64u, 32u, 16u, 8u, 4u, 2u, 1u}) {
            for (size_t i = 0; i + k <= f.choices.size() && spent() < budget_s;) {
                auto v = f.choices;
                v.erase(v.begin() + long(i), v.begin() + long(i + k));
                if (attempt(v))
                    progress = true;
                else
                    i += k;
            }
        }
        // zero, then bisect each value
        for (size_t i = 0; i < f.choices.size() && spent() < budget_s; ++i) {
            if (!f.choices[i])
                continue;
            auto v = f.choices;
            v[i] = 0;
            if (attempt(v)) {
                progress = true;
                continue;
            }
            uint64_t lo = 0, hi = f.choices[i];
            for (int it = 0; it < 12 && lo + 1 < hi && i < f.choices.size(); ++it) {
                uint64_t mid = lo + (hi - lo) / 2;
                v = f.choices;
                v[i] = mid;
                if (attempt(v)) {
                    progress = true;
                    if (i >= f.choices.size())
                        break;
                    hi = f.choices[i];
                } else
                    lo = mid;
            }
        }
    }
    return f;
}

inline bool confirm(const Property& p, Failure& f, Shared* sh, const std::string& dir)
{
    int need = 3, tries = hooks().repeat_for_races ? 30 : 3, got = 0;
    for (int i = 0; i < tries && got < need; ++i) {
        Outcome o = run_forked(p, f.choices, sh, dir);
        if (o.kind == 1 && !known().count(o.sig)) {
            ++got;
            f.msg = o.msg;
            f.sig = o.sig;
            f.notes = o.notes;
        }
    }
    return hooks().repeat_for_races ? got >= 1 : got == need;
}

inline int pbt_main(int argc, char** argv)
{
    std::string out = "/dev/null", replay, replay_dir = ".", only;
    bool thorough = false;
    uint64_t seed = 1;
    double scale = 1, max_s = 0;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto nxt = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") out = nxt();
        else if (a == "--tier") thorough = nxt() == "thorough";
        else if (a == "--seed") seed = std::strtoull(nxt().c_str(), nullptr, 10);
        else if (a == "--replay") replay = nxt();
        else if (a == "--replay-dir") replay_dir = nxt();
        else if (a == "--only") only = nxt();
        else if (a == "--scale") scale = std::atof(nxt().c_str());
        else if (a == "--max-s") max_s = std::atof(nxt().c_str());
        else if (a == "--known") {
            std::ifstream k(nxt());
            std::string l;
            while (std::getline(k, l))
                if (!l.empty())
                    known().insert(l);
        }
    }
    if (max_s <= 0)
        max_s = thorough ? 600 : 150;
    auto start = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count(); };
    char dirt[] = "/tmp/pbtXXXXXX";
    std::string dir = mkdtemp(dirt);
    const size_t ssz = sizeof(Shared);
    int W = hooks().workers ? hooks().workers : 8;
    std::vector<Shared*> sh(size_t(W) + 1);
    for (auto& s : sh)
        s = static_cast<Shared*>(mmap(nullptr, ssz, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    int rc = 0;

    if (!replay.empty()) {
        std::ifstream in(replay);
        std::string tok, name;
        std::vector<uint64_t> ch;
        std::string line;
        while (std::getline(in, line)) {
            std::istringstream ls(line);
            ls >> tok;
            if (tok == "property") ls >> name;
            if (tok == "choices") {
                uint64_t v;
                while (ls >> v) ch.push_back(v);
            }
        }
        for (auto& p : registry())
            if (p.name == name) {
                Outcome o;
                for (int i = 0; i < (hooks().repeat_for_races ? 30 : 1); ++i) {
                    o = run_forked(p, ch, sh[0], dir);
                    if (o.kind == 1) break;
                }
                std::printf("case: %s\n", o.notes.c_str());
                if (o.kind == 1) {
                    std::printf("FAILS %s: %s\n", o.sig.c_str(), o.msg.c_str());
                    rc = 1;
                } else
                    std::printf("passes\n");
            }
        std::string cmd = "rm -rf '" + dir + "'";
        if (system(cmd.c_str())) {}
        return rc;
    }

    std::vector<Failure> failures;
    std::vector<std::string> flaky;
    std::ostringstream props;
    uint64_t evals = 0, discards = 0, nontriv = 0;
    std::vector<std::string> samples;
    std::map<std::string, uint64_t> known_hits;
    bool firstp = true;
    double budget_end = max_s;
    size_t total_props = 0;
    for (auto& p : registry())
        if (only.empty() || p.name == only) ++total_props;
    size_t pi = 0;
    for (auto& p : registry()) {
        if (!only.empty() && p.name != only)
            continue;
        ++pi;
        double remaining = budget_end - elapsed();
        double my_deadline = elapsed() + remaining / double(total_props - pi + 1) * (pi == total_props ? 1.0 : 2.0);
        if (my_deadline > budget_end)
            my_deadline = budget_end;
        uint64_t N = uint64_t(double(thorough ? p.thorough : p.quick) * scale);
        if (N < 1)
            N = 1;
        std::vector<pid_t> pids(size_t(W), -1);
        std::vector<uint64_t> next(size_t(W), 0);
        for (int w = 0; w < W; ++w)
            next[size_t(w)] = uint64_t(w);
        for (auto* s : sh)
            s->evaluations = s->discards = s->known_hits = 0;
        int crashes = 0;
        auto spawn = [&](int w) {
            fflush(nullptr);
            pid_t pid = fork();
            if (pid)
                return pid;
            Shared* S = sh[size_t(w)];
            std::string base = dir + "/w" + std::to_string(w);
            scratch() = base + ".d";
            mkdir(scratch().c_str(), 0700);
            child_setup(base + ".err");
            std::ofstream hs(base + ".hash", std::ios::app | std::ios::binary);
            std::ofstream kh(base + ".known", std::ios::app);
            std::ofstream sm(base + ".samples", std::ios::app);
            std::ofstream lb(base + ".labels", std::ios::app);
            int nsamp = 0;
            std::map<std::string, uint64_t> labels;
            for (uint64_t i = next[size_t(w)]; i < N; i += uint64_t(W)) {
                if (elapsed() > my_deadline)
                    break;
                S->current = i;
                uint64_t s = seed * 0x100000001b3ull ^ hash_str(p.name) ^ (i * 0xd1342543de82ef95ull);
                splitmix(s);
                arm_timer(hooks().case_cpu_seconds);
                Ctx c(S, splitmix(s));
                std::string sig, msg;
                int k = run_case(p, c, S, sig, msg);
                if (k == 1 && known().count(sig)) {
                    S->known_hits = S->known_hits + 1;
                    kh << sig << "\n";
                    kh.flush();
                    k = 0;
                }
                if (k == 1) {
                    std::snprintf(S->fail_sig, sizeof S->fail_sig, "%s", sig.c_str());
                    std::snprintf(S->fail_msg, sizeof S->fail_msg, "%s", msg.c_str());
                    hs.flush(); sm.flush(); fflush(nullptr);
                    _exit(71);
                }
                if (k == 2) {
                    S->discards = S->discards + 1;
                    continue;
                }
                S->evaluations = S->evaluations + 1;
                for (auto& l : c.labels()) labels[l]++;
                if (c.is_nontrivial()) {
                    uint64_t h = hash_bytes(S->choices, S->nchoices * 8);
                    hs.write(reinterpret_cast<char*>(&h), 8);
                    if (w == 0 && nsamp < 2 && S->nnotes) {
                        ++nsamp;
                        std::string t = S->notes;
                        if (t.size() > 600) t = t.substr(0, 600) + "...";
                        for (auto& ch : t) if (ch == '\n') ch = ' ';
                        sm << t << "\n";
                    }
                }
            }
            for (auto& [l, n] : labels) lb << l << "\t" << n << "\n";
            hs.close(); sm.close(); kh.close(); lb.close();
            fflush(nullptr);
            _exit(0);
        };
        for (int w = 0; w < W; ++w)
            pids[size_t(w)] = spawn(w);
        int alive = W;
        std::vector<Failure> found;
        std::vector<Idle> idle(static_cast<size_t>(W));
        while (alive > 0) {
            int st = 0;
            pid_t pid = waitpid(-1, &st, WNOHANG);
            if (pid == 0) {
                for (int k = 0; k < W; ++k)
                    if (pids[size_t(k)] > 0)
                        idle[size_t(k)].look(pids[size_t(k)], sh[size_t(k)]->current, dir + "/w" + std::to_string(k) + ".err");
                usleep(5000);
                continue;
            }
            if (pid < 0) {
                if (errno == EINTR) continue;
                break;
            }
            int w = -1;
            for (int k = 0; k < W; ++k)
                if (pids[size_t(k)] == pid) w = k;
            if (w < 0)
                continue;
            pids[size_t(w)] = 0;
            idle[size_t(w)] = {};
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) {
                --alive;
                continue;
            }
            Shared* S = sh[size_t(w)];
            Failure f;
            f.prop = p.name;
            f.choices.assign(S->choices, S->choices + S->nchoices);
            f.notes = S->notes;
            bool isknown = false;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 71) {
                f.sig = S->fail_sig;
                f.msg = S->fail_msg;
            } else {
                std::string s = crash_summary(st, read_file(dir + "/w" + std::to_string(w) + ".err"));
                f.sig = p.name + "/crash:" + crash_kind(s);
                f.msg = s;
                if (known().count(f.sig)) {
                    isknown = true;
                    known_hits[f.sig]++;
                }
            }
            if (!isknown)
                found.push_back(f);
            ++crashes;
            // keep going past known crashes, and past a few others so that distinct failures are seen
            if (isknown || (crashes < 3 && found.size() < 3 && f.sig.find("crash:hang") == std::string::npos)) {
                next[size_t(w)] = S->current + uint64_t(W);
                S->evaluations = S->evaluations + 1;
                pids[size_t(w)] = spawn(w);
            } else
                --alive;
        }
        uint64_t pe = 0, pd = 0;
        std::unordered_set<uint64_t> hs;
        std::map<std::string, uint64_t> labels;
        for (int w = 0; w < W; ++w) {
            pe += sh[size_t(w)]->evaluations;
            pd += sh[size_t(w)]->discards;
            std::string base = dir + "/w" + std::to_string(w);
            std::string b = read_file(base + ".hash", 1ull << 30);
            for (size_t i = 0; i + 8 <= b.size(); i += 8) {
                uint64_t h;
                std::memcpy(&h, b.data() + i, 8);
                hs.insert(h);
            }
            std::ifstream k(base + ".known");
            std::string l;
            while (std::getline(k, l))
                known_hits[l]++;
            std::ifstream sm(base + ".samples");
            while (std::getline(sm, l))
                if (samples.size() < 40)
                    samples.push_back(p.name + ": " + l);
            std::ifstream lb(base + ".labels");
            while (std::getline(lb, l)) {
                size_t t = l.find('\t');
                if (t != std::string::npos)
                    labels[l.substr(0, t)] += std::strtoull(l.c_str() + t, nullptr, 10);
            }
        }
        if (system(("rm -rf '" + dir + "'/w*").c_str())) {}
        evals += pe;
        discards += pd;
        nontriv += hs.size();
        // shrink one failure per distinct signature
        std::set<std::string> seen;
        for (auto& f0 : found) {
            if (!seen.insert(f0.sig).second || seen.size() > 2)
                continue;
            Failure f = f0;
            // re-establish in a child, to normalise the signature
            Outcome o;
            bool again = false;
            for (int t = 0; t < (hooks().repeat_for_races ? 30 : 2) && !again; ++t) {
                o = run_forked(p, f.choices, sh.back(), dir);
                again = o.kind == 1;
            }
            if (!again) {
                flaky.push_back(f.sig + ": " + f.msg);
                continue;
            }
            f.sig = o.sig;
            f.msg = o.msg;
            f.notes = o.notes;
            if (known().count(f.sig)) {
                known_hits[f.sig]++;
                continue;
            }
            if (!hooks().repeat_for_races)
                f = shrink(p, f, sh.back(), dir, thorough ? 60 : 25);
            if (confirm(p, f, sh.back(), dir))
                failures.push_back(f);
            else
                flaky.push_back(f.sig + ": " + f.msg);
        }
        props << (firstp ? "" : ",") << "{\"name\":" << jstr(p.name) << ",\"evaluations\":" << pe << ",\"discards\":" << pd
              << ",\"distinct_nontrivial\":" << hs.size() << ",\"requested\":" << N << ",\"labels\":{";
        bool fl = true;
        for (auto& [l, n] : labels) {
            props << (fl ? "" : ",") << jstr(l) << ":" << n;
            fl = false;
        }
        props << "}}";
        firstp = false;
    }
    std::ofstream o(out);
    o << "{\"evaluations\":" << evals << ",\"discards\":" << discards << ",\"distinct_nontrivial\":" << nontriv
      << ",\"wall_s\":" << elapsed() << ",\"props\":[" << props.str() << "],\"samples\":[";
    for (size_t i = 0; i < samples.size(); ++i)
        o << (i ? "," : "") << jstr(samples[i]);
    o << "],\"flaky\":[";
    for (size_t i = 0; i < flaky.size(); ++i)
        o << (i ? "," : "") << jstr(flaky[i]);
    o << "],\"known_hits\":{";
    bool fk = true;
    for (auto& [k, n] : known_hits) {
        o << (fk ? "" : ",") << jstr(k) << ":" << n;
        fk = false;
    }
    o << "},\"failures\":[";
    for (size_t i = 0; i < failures.size(); ++i) {
        auto& f = failures[i];
        std::string path = replay_dir + "/" + f.prop + "-" + std::to_string(i) + ".replay";
        std::ofstream r(path);
        r << "property " << f.prop << "\nsignature " << f.sig << "\nseed " << seed << "\ncase " << f.notes << "\nfailure ";
        for (char ch : f.msg)
            r << (ch == '\n' ? '|' : ch);
        r << "\nchoices";
        for (auto v : f.choices)
            r << " " << v;
        r << "\n";
        o << (i ? "," : "") << "{\"prop\":" << jstr(f.prop) << ",\"sig\":" << jstr(f.sig) << ",\"msg\":" << jstr(f.msg)
          << ",\"case\":" << jstr(f.notes) << ",\"replay\":" << jstr(path) << "}";
        rc = 1;
    }
    o << "]}\n";
    o.close();
    std::string cmd = "rm -rf '" + dir + "'";
    if (system(cmd.c_str())) {}
    return rc;
}

// ---- numeric helpers ----
inline bool close(double a, double b, double rel, double abs_)
{
    if (std::isnan(a) || std::isnan(b))
        return false;
    if (a == b)
        return true;
    return std::fabs(a - b) <= abs_ + rel * std::max(std::fabs(a), std::fabs(b));
}
} // namespace pbt

#define PBT_MAIN                                                                                                       \
    int main(int argc, char** argv) { return ::pbt::pbt_main(argc, argv); }
