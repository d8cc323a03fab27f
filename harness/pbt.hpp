// Choice-sequence property-based testing engine (in the style of Hypothesis/minithesis).
//
// Every random decision of a case is drawn through Case::draw(), so a case is the sequence of its
// choices: it is replayed from them and shrunk by shrinking them. Cases run in forked children in
// batches, so that a crash, a hang or a sanitizer abort of the code under test is a failure of one
// case. Which cases are run is a pure function of (seed, tier); no clock decides an outcome.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <unordered_set>
#include <functional>
#include <sstream>
#include <iostream>
#include <fstream>
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <cmath>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <sys/resource.h>
#include <sys/prctl.h>
#include <time.h>
#include <ftw.h>

namespace pbt {

inline uint64_t splitmix(uint64_t& s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t s = a * 0x9e3779b97f4a7c15ull + b; splitmix(s); return splitmix(s); }

struct Fail : std::exception {            // a violated property
    std::string msg, key;
    explicit Fail(std::string m, std::string k = "") : msg(std::move(m)), key(std::move(k)) {}
    const char* what() const noexcept override { return msg.c_str(); }
};
struct Discard {};                        // the case is outside the domain (rare by construction)

class Case {
public:
    std::vector<uint64_t> choices;        // what was drawn
    bool tracing = false;
    bool nontrivial_ = false;
    std::string trace;
    int trace_fd = -1;                    // set in replays, so that a crash keeps the trace
    void log(const std::string& s) { trace += s; trace += '\n'; if (trace_fd >= 0) { std::string t = s + "\n"; if (write(trace_fd, t.data(), t.size()) < 0) {} } }
    std::map<std::string, uint64_t> labels;
    uint64_t key_ = 0; bool has_key_ = false;

    Case(uint64_t seed) : rnd_(seed) {}
    Case(std::vector<uint64_t> pre, bool) : pre_(std::move(pre)), replay_(true) {}

    // uniform integer in [0, n]; 0 is the simplest
    uint64_t draw(uint64_t n) {
        uint64_t v;
        if (choices.size() > 200000) throw Discard();
        if (replay_) {
            v = choices.size() < pre_.size() ? pre_[choices.size()] : 0;
            if (v > n) v = n;
        } else if (n == ~0ull) v = splitmix(rnd_);
        else v = (uint64_t)(((unsigned __int128)splitmix(rnd_) * ((unsigned __int128)n + 1)) >> 64);
        choices.push_back(v);
        return v;
    }
    int64_t range(int64_t lo, int64_t hi) { return (int64_t)((uint64_t)lo + draw((uint64_t)hi - (uint64_t)lo)); }
    uint64_t urange(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo); }
    bool flip() { return draw(1) == 1; }
    // true with probability num/den; false is simplest
    bool chance(unsigned num, unsigned den) { return draw(den - 1) >= den - num; }
    // small sizes are likelier, all of [lo,hi] reachable
    uint64_t small(uint64_t lo, uint64_t hi) {
        if (lo >= hi) return lo;
        uint64_t r = draw(3);
        if (r == 0) return lo + draw(std::min<uint64_t>(hi - lo, 3));
        if (r <= 2) return lo + draw(std::min<uint64_t>(hi - lo, std::max<uint64_t>(3, (hi - lo) / 4)));
        return lo + draw(hi - lo);
    }
    // full-range integers of `bits` bits with boundary bias
    uint64_t bits(unsigned b = 64) {
        uint64_t m = b >= 64 ? ~0ull : ((1ull << b) - 1);
        switch (draw(5)) {
        case 0: return draw(std::min<uint64_t>(m, 3));
        case 1: return draw(std::min<uint64_t>(m, 255));
        case 2: return m - draw(std::min<uint64_t>(m, 3));
        case 3: { unsigned k = (unsigned)draw(b - 1); uint64_t v = 1ull << k; int64_t d = range(-1, 1); return (v + (uint64_t)d) & m; }
        default: return draw(m);
        }
    }
    template <class T> const T& pick(const std::vector<T>& v) { return v.at(draw(v.size() - 1)); }
    template <class T> T pickl(std::initializer_list<T> v) { return *(v.begin() + draw(v.size() - 1)); }
    // index drawn with the given weights; index 0 is the simplest
    size_t weighted(std::initializer_list<unsigned> w) {
        uint64_t t = 0; for (auto x : w) t += x;
        uint64_t r = draw(t - 1); size_t i = 0;
        for (auto x : w) { if (r < x) return i; r -= x; ++i; }
        return 0;
    }
    std::string str(const std::string& alphabet, size_t lo, size_t hi) {
        size_t n = small(lo, hi); std::string s;
        for (size_t i = 0; i < n; ++i) s += alphabet[draw(alphabet.size() - 1)];
        return s;
    }
    void label(const std::string& l, uint64_t n = 1) { labels[l] += n; }
    void nontrivial(bool b = true) { if (b) nontrivial_ = true; }
    // canonical identity of the case for counting distinct ones (default: its choices)
    void identity(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) h = (h ^ c) * 1099511628211ull; key_ = h; has_key_ = true; }
    uint64_t hash() const {
        if (has_key_) return key_;
        uint64_t h = 0x1234567; for (auto c : choices) h = mix(h, c); return h;
    }
    void fail(const std::string& m, const std::string& key = "") { throw Fail(m, key); }
private:
    uint64_t rnd_ = 0;
    std::vector<uint64_t> pre_;
    bool replay_ = false;
};

#define LOG(c, expr) do { if ((c).tracing) { std::ostringstream o__; o__ << expr; (c).log(o__.str()); } } while (0)
#define REQUIRE(cond, expr) do { if (!(cond)) { std::ostringstream o__; o__ << __func__ << ":" << __LINE__ << ": " << #cond << " | " << expr; throw ::pbt::Fail(o__.str()); } } while (0)
#define REQUIRE_EQ(a, b, expr) do { const auto& a__ = (a); const auto& b__ = (b); if (!(a__ == b__)) { std::ostringstream o__; o__ << __func__ << ":" << __LINE__ << ": " << #a << " == " << #b << " : " << a__ << " vs " << b__ << " | " << expr; throw ::pbt::Fail(o__.str()); } } while (0)
// the statement must throw a std::exception
#define REQUIRE_THROWS(stmt, expr) do { bool t__ = false; try { stmt; } catch (const ::pbt::Fail&) { throw; } catch (const std::exception&) { t__ = true; } if (!t__) { std::ostringstream o__; o__ << __func__ << ":" << __LINE__ << ": no exception from " << #stmt << " | " << expr; throw ::pbt::Fail(o__.str()); } } while (0)

struct Prop { std::string name; uint64_t quick, thorough; std::function<void(Case&)> fn; uint64_t batch; };
inline std::vector<Prop>& props() { static std::vector<Prop> p; return p; }
struct Reg { Reg(const char* n, uint64_t q, uint64_t t, std::function<void(Case&)> f, uint64_t batch = 200) { props().push_back({n, q, t, f, batch}); } };
#define PROPERTY(name, quick, thorough) \
    static void prop_##name(::pbt::Case& c); \
    static ::pbt::Reg reg_##name(#name, quick, thorough, prop_##name); \
    static void prop_##name(::pbt::Case& c)
#define PROPERTY_BATCH(name, quick, thorough, batch) \
    static void prop_##name(::pbt::Case& c); \
    static ::pbt::Reg reg_##name(#name, quick, thorough, prop_##name, batch); \
    static void prop_##name(::pbt::Case& c)

// hook: work to do once in a child before its first case
inline std::function<void()>& child_setup() { static std::function<void()> f; return f; }

struct Slot { volatile uint64_t cur; volatile int state; char msg[4000]; char key[100]; volatile uint64_t done; };
enum { S_IDLE = 0, S_RUN = 1, S_FAIL = 2, S_DONE = 3 };

inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
inline double cpu_of(pid_t p) {
    char b[64]; snprintf(b, sizeof b, "/proc/%d/stat", (int)p); std::ifstream f(b); std::string s; std::getline(f, s);
    auto k = s.rfind(')'); if (k == std::string::npos) return 0; std::istringstream is(s.substr(k + 2)); std::string x; unsigned long u = 0, v = 0;
    for (int i = 0; i < 11; ++i) is >> x; is >> u >> v; return double(u + v) / sysconf(_SC_CLK_TCK);
}
inline double rss_mb(pid_t p) {
    char b[64]; snprintf(b, sizeof b, "/proc/%d/statm", (int)p); std::ifstream f(b); unsigned long a = 0, r = 0; f >> a >> r; return r * 4096.0 / 1e6;
}

struct Opts { uint64_t seed = 1; bool thorough = false; unsigned workers = 8; std::string out, replay_out, scratch, replay, only; double cap = 600; double scale = 1; double cpu_limit = 20, wall_limit = 90, mem_mb = 3000; };
inline Opts& opts() { static Opts o; return o; }

struct Batch { size_t prop; uint64_t first, last; };   // [first,last)
struct Running { pid_t pid; size_t slot; Batch b; uint64_t last_cur; double cur_since, cpu_since; std::string dir; };

inline uint64_t case_seed(const Prop& p, uint64_t i) { uint64_t h = 7; for (char c : p.name) h = mix(h, (unsigned char)c); return mix(mix(opts().seed, h), i); }

inline void set_msg(Slot& s, const std::string& m, const std::string& k) {
    strncpy(s.msg, m.c_str(), sizeof s.msg - 1); strncpy(s.key, k.c_str(), sizeof s.key - 1);
}
inline std::string demangle_what(const std::exception& e) { return std::string("unexpected exception: ") + e.what(); }

// runs one case; true = held (or discarded)
inline bool run_case(const Prop& p, Case& c, std::string& msg, std::string& key, bool& discarded) {
    discarded = false;
    try { p.fn(c); return true; }
    catch (const Discard&) { discarded = true; return true; }
    catch (const Fail& f) { msg = f.msg; key = f.key; return false; }
    catch (const std::exception& e) { msg = demangle_what(e); key = "exception"; return false; }
}
inline int rmcb(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
inline void rmtree(const std::string& d) { if (d.find("pbt") != std::string::npos) nftw(d.c_str(), rmcb, 32, FTW_DEPTH | FTW_PHYS); }
inline void child_env(const std::string& dir) {
    prctl(PR_SET_PDEATHSIG, SIGKILL);
    mkdir(dir.c_str(), 0755); if (chdir(dir.c_str())) _exit(99);
    int fd = open("log.txt", O_CREAT | O_WRONLY | O_TRUNC, 0644); dup2(fd, 1); dup2(fd, 2); close(fd);
    rlimit rl{0, 0}; setrlimit(RLIMIT_CORE, &rl);
    if (child_setup()) child_setup()();
}
inline std::string tail_of(const std::string& f, size_t n) {
    std::ifstream i(f, std::ios::binary); std::string s((std::istreambuf_iterator<char>(i)), {}); 
    auto k = s.find("ERROR: AddressSanitizer"); if (k == std::string::npos) k = s.find("runtime error");
    if (k != std::string::npos) return s.substr(k, n);
    return s.size() > n ? s.substr(s.size() - n) : s;
}
// escape for JSON
inline std::string js(const std::string& s) {
    std::string o = "\""; char b[8];
    for (unsigned char ch : s) { if (ch == '"' || ch == '\\') { o += '\\'; o += ch; } else if (ch == '\n') o += "\\n"; else if (ch < 32 || ch > 126) { snprintf(b, 8, "\\u%04x", ch); o += b; } else o += ch; }
    return o + "\"";
}

struct Totals { uint64_t eval = 0, discard = 0, nontriv = 0; std::map<std::string, uint64_t> labels; std::unordered_set<uint64_t> hashes; std::vector<std::string> samples; std::map<std::string, uint64_t> per_prop; };

// one forked attempt of a choice sequence. Result: 0 held, 1 failed, 2 hang/limit, 3 discarded
struct Attempt { int res; std::string msg, key; std::vector<uint64_t> choices; std::string trace; };
inline int wait_limited(pid_t pid, double cpu_limit, double wall_limit, int& st) {
    double t0 = now(); unsigned us = 300;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) return 0;
        usleep(us); if (us < 20000) us = us * 3 / 2;
        double el = now() - t0;
        if (el > 1 && (el > wall_limit || cpu_of(pid) > cpu_limit || rss_mb(pid) > opts().mem_mb)) { kill(pid, SIGKILL); waitpid(pid, &st, 0); return 1; }
    }
}
inline Attempt attempt(const Prop& p, const std::vector<uint64_t>& pre, bool trace, double cpu_limit) {
    static uint64_t n = 0; std::string dir = opts().scratch + "/pbt_a" + std::to_string(n++);
    pid_t pid = fork();
    if (pid == 0) {
        child_env(dir);
        Case c(pre, true); c.tracing = trace; std::string msg, key; bool disc;
        if (trace) c.trace_fd = open("trace.txt", O_CREAT | O_WRONLY | O_TRUNC, 0644);
        bool ok = run_case(p, c, msg, key, disc);
        std::ofstream o("result.txt", std::ios::binary);
        o << (disc ? 3 : ok ? 0 : 1) << "\n" << c.choices.size() << "\n"; for (auto x : c.choices) o << x << " "; o << "\n" << key << "\n" << msg.size() << "\n" << msg << "\n" << c.trace; o.close();
        _exit(0);
    }
    int st = 0; int lim = wait_limited(pid, cpu_limit, opts().wall_limit, st);
    Attempt a; a.choices = pre;
    if (lim) { a.res = 2; a.msg = "the case did not terminate within its CPU/memory limit"; a.key = "hang"; }
    else if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) {
        a.res = 1; a.key = "crash"; std::ostringstream o; o << "the process died (" << (WIFSIGNALED(st) ? "signal " : "exit ") << (WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)) << "): " << tail_of(dir + "/log.txt", 1500); a.msg = o.str();
    }
    if (trace && a.res) { std::ifstream t(dir + "/trace.txt", std::ios::binary); a.trace.assign((std::istreambuf_iterator<char>(t)), {}); }
    if (!lim && !WIFSIGNALED(st) && WEXITSTATUS(st) == 0) {
        std::ifstream i(dir + "/result.txt", std::ios::binary); size_t nc = 0, ml = 0; i >> a.res >> nc; a.choices.resize(nc); for (auto& x : a.choices) i >> x; i.ignore(); i.ignore();
        std::getline(i, a.key); i >> ml; i.ignore(); a.msg.resize(ml); i.read(&a.msg[0], ml); i.ignore();
        a.trace.assign((std::istreambuf_iterator<char>(i)), {});
    }
    rmtree(dir); return a;
}
inline bool failed(const Attempt& a) { return a.res == 1 || a.res == 2; }

inline std::vector<uint64_t> shrink(const Prop& p, std::vector<uint64_t> best, const std::string& key, double budget_s, unsigned max_tries) {
    double t0 = now(); unsigned tries = 0; bool hang = key == "hang";
    double lim = hang ? opts().cpu_limit : opts().cpu_limit;
    auto spent = [&] { return tries >= max_tries || now() - t0 > budget_s; };
    auto tryit = [&](const std::vector<uint64_t>& cand) {
        if (spent() || cand == best) return false; ++tries;
        Attempt a = attempt(p, cand, false, lim);
        if (!failed(a) || (a.res == 2) != hang) return false;
        auto& ch = a.res == 2 ? cand : a.choices;
        auto less = [](const std::vector<uint64_t>& x, const std::vector<uint64_t>& y) { return x.size() != y.size() ? x.size() < y.size() : x < y; };
        if (a.key == "crash") { if (less(cand, best)) { best = cand; return true; } return false; }
        if (less(ch, best)) { best = ch; return true; } return false;
    };
    bool improved = true;
    while (improved && !spent()) {
        improved = false;
        for (size_t k = std::max<size_t>(1, best.size() / 2); k >= 1 && !spent(); k = k == 1 ? 0 : k / 2) {
            for (size_t i = best.size(); i-- > 0 && !spent();) {
                if (i + k > best.size()) continue;
                auto c = best; c.erase(c.begin() + i, c.begin() + i + k);
                if (tryit(c)) { improved = true; if (i > best.size()) i = best.size(); }
                else if (k > 1) { i = i >= k - 1 ? i - (k - 1) : 0; }
            }
        }
        for (size_t k : {8, 2}) for (size_t i = 0; i + k <= best.size() && !spent(); i += k) { auto c = best; bool nz = false; for (size_t j = i; j < i + k; ++j) { nz |= c[j] != 0; c[j] = 0; } if (nz && tryit(c)) improved = true; }
        for (size_t i = 0; i < best.size() && !spent(); ++i) {
            if (!best[i]) continue;
            auto c = best; c[i] = 0; if (tryit(c)) { improved = true; continue; }
            uint64_t lo = 0; unsigned guard = 0;
            while (i < best.size() && best[i] - lo > 1 && guard++ < 12 && !spent()) { uint64_t mid = lo + (best[i] - lo) / 2; c = best; c[i] = mid; if (tryit(c)) improved = true; else lo = mid; }
            if (i < best.size() && best[i] > 0) { c = best; c[i]--; if (tryit(c)) improved = true; }
            // decrement with deletion of a following element (counts)
            if (i < best.size() && best[i] > 0 && i + 1 < best.size()) { c = best; c[i]--; c.erase(c.begin() + i + 1); if (tryit(c)) improved = true; }
        }
    }
    return best;
}

inline void run_batch_child(const Prop& p, const Batch& b, Slot& slot, bool sampling) {
    Totals t; std::string agg;
    for (uint64_t i = b.first; i < b.last; ++i) {
        slot.cur = i; slot.state = S_RUN;
        Case c(case_seed(p, i)); c.tracing = sampling && i < b.first + 40;
        std::string msg, key; bool disc;
        bool ok = run_case(p, c, msg, key, disc);
        if (!ok) { set_msg(slot, msg, key); slot.state = S_FAIL; _exit(0); }
        ++t.eval; if (disc) { ++t.discard; }
        for (auto& l : c.labels) t.labels[l.first] += l.second;
        if (c.nontrivial_ && !disc) { ++t.nontriv; t.hashes.insert(c.hash()); if (c.tracing && t.samples.size() < 2) t.samples.push_back(c.trace.substr(0, 1500)); }
        slot.done = i + 1 - b.first;
    }
    std::ofstream o("agg.bin", std::ios::binary);
    o << t.eval << " " << t.discard << " " << t.nontriv << "\n" << t.labels.size() << "\n";
    for (auto& l : t.labels) o << l.second << " " << l.first << "\n";
    o << t.hashes.size() << "\n"; for (auto h : t.hashes) o << h << "\n";
    o << t.samples.size() << "\n"; for (auto& s : t.samples) o << s.size() << "\n" << s << "\n";
    o.close(); slot.state = S_DONE; _exit(0);
}
inline void merge(const std::string& f, Totals& t, const std::string& pname) {
    std::ifstream i(f, std::ios::binary); uint64_t e = 0, d = 0, n = 0, k = 0; i >> e >> d >> n; t.eval += e; t.discard += d; t.nontriv += n; t.per_prop[pname] += e;
    i >> k; while (k--) { uint64_t v; std::string l; i >> v; i.ignore(); std::getline(i, l); t.labels[pname + "/" + l] += v; }
    i >> k; while (k--) { uint64_t h; i >> h; t.hashes.insert(mix(h, std::hash<std::string>()(pname))); }
    i >> k; while (k--) { size_t n2; i >> n2; i.ignore(); std::string s(n2, 0); i.read(&s[0], n2); t.samples.push_back(pname + ": " + s); }
}
inline std::string seqstr(const std::vector<uint64_t>& v) { std::string s; for (auto x : v) { s += std::to_string(x); s += ' '; } return s; }

struct Violation { bool found = false; std::string prop, msg, key, replay_text; };

inline bool batch_replay(const Prop& p, uint64_t first, uint64_t last, std::string& msg) {
    static uint64_t n = 0; std::string dir = opts().scratch + "/pbt_b" + std::to_string(n++);
    pid_t pid = fork();
    if (pid == 0) {
        child_env(dir);
        for (uint64_t i = first; i <= last; ++i) { Case c(case_seed(p, i)); std::string m, k; bool d; if (!run_case(p, c, m, k, d)) { std::ofstream("m.txt") << "case " << i << ": " << m; _exit(7); } }
        _exit(0);
    }
    int st; int lim = wait_limited(pid, opts().cpu_limit * 6, opts().wall_limit * 2, st);
    bool bad = lim || WIFSIGNALED(st) || WEXITSTATUS(st) != 0;
    if (bad) { std::ifstream i(dir + "/m.txt"); msg.assign((std::istreambuf_iterator<char>(i)), {}); if (msg.empty()) msg = tail_of(dir + "/log.txt", 1500); }
    rmtree(dir); return bad;
}

inline int main_(int argc, char** argv) {
    auto& o = opts();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
        if (a == "--seed") o.seed = strtoull(nx().c_str(), 0, 10);
        else if (a == "--tier") o.thorough = nx() == "thorough";
        else if (a == "--workers") o.workers = atoi(nx().c_str());
        else if (a == "--out") o.out = nx(); else if (a == "--replay-out") o.replay_out = nx();
        else if (a == "--scratch") o.scratch = nx(); else if (a == "--replay") o.replay = nx();
        else if (a == "--only") o.only = nx(); else if (a == "--cap") o.cap = atof(nx().c_str());
        else if (a == "--scale") o.scale = atof(nx().c_str());
    }
    if (o.scratch.empty()) { char t[] = "/tmp/pbtXXXXXX"; o.scratch = mkdtemp(t); }
    mkdir(o.scratch.c_str(), 0755);
    signal(SIGPIPE, SIG_IGN);
    if (!o.replay.empty()) {
        std::ifstream f(o.replay); std::string line; std::string pname, mode; std::vector<uint64_t> ch; uint64_t first = 0, last = 0;
        while (std::getline(f, line)) {
            if (line.rfind("prop=", 0) == 0) pname = line.substr(5);
            if (line.rfind("mode=", 0) == 0) mode = line.substr(5);
            if (line.rfind("seed=", 0) == 0) o.seed = strtoull(line.c_str() + 5, 0, 10);
            if (line.rfind("first=", 0) == 0) first = strtoull(line.c_str() + 6, 0, 10);
            if (line.rfind("last=", 0) == 0) last = strtoull(line.c_str() + 5, 0, 10);
            if (line.rfind("choices=", 0) == 0) { std::istringstream is(line.substr(8)); uint64_t x; while (is >> x) ch.push_back(x); }
        }
        for (auto& p : props()) if (p.name == pname) {
            if (mode == "batch") { std::string m; bool bad = batch_replay(p, first, last, m); printf("%s %s\n", bad ? "FAILED" : "held", m.c_str()); rmtree(o.scratch); return bad; }
            Attempt a = attempt(p, ch, true, o.cpu_limit);
            printf("%s\n%s\n%s\n", a.trace.c_str(), failed(a) ? "FAILED" : "held", a.msg.c_str()); rmtree(o.scratch); return failed(a);
        }
        printf("no such property %s\n", pname.c_str()); return 2;
    }
    std::vector<Batch> q;
    {   // interleave the batches of all properties
        std::vector<uint64_t> n; uint64_t maxb = 0;
        for (auto& p : props()) { uint64_t k = (uint64_t)std::max(1.0, (o.thorough ? p.thorough : p.quick) * o.scale); if (!o.only.empty() && p.name != o.only) k = 0; n.push_back(k); maxb = std::max(maxb, (k + p.batch - 1) / p.batch); }
        std::vector<std::pair<double, Batch>> v;
        for (size_t i = 0; i < n.size(); ++i) { uint64_t bs = props()[i].batch, nb = (n[i] + bs - 1) / bs; for (uint64_t b = 0; b < nb; ++b) v.push_back({double(b) / nb, {i, b * bs, std::min(n[i], (b + 1) * bs)}}); }
        std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
        for (auto& x : v) q.push_back(x.second);
    }
    Slot* slots = (Slot*)mmap(nullptr, sizeof(Slot) * o.workers, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    Totals tot; Violation vio; std::vector<Running> run; size_t nexti = 0; double t0 = now(); bool capped = false; uint64_t nonrepro = 0; uint64_t dirn = 0;
    std::vector<char> used(o.workers, 0); std::vector<std::string> notes;
    struct Found { size_t prop; uint64_t idx; Batch b; std::string msg, key; bool hang; };
    std::vector<Found> found;
    auto kill_all = [&] { for (auto& r : run) { kill(r.pid, SIGKILL); int st; waitpid(r.pid, &st, 0); tot.eval += slots[r.slot].done; tot.per_prop[props()[r.b.prop].name] += slots[r.slot].done; rmtree(r.dir); used[r.slot] = 0; } run.clear(); };
    auto investigate = [&](const Found& f) {
        const Prop& p = props()[f.prop];
        std::vector<uint64_t> ch; std::string msg = f.msg, key = f.key; bool ok = false; std::string mode = "case";
        // recover the choices: rerun from the seed in a child that dumps them (a crash leaves the raw stream)
        // the choice list of a crashing case is recovered by drawing through a shared buffer
        struct Shared { volatile uint64_t n; uint64_t v[200100]; };
        Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        pid_t pid = fork();
        if (pid == 0) {
            std::string dir = o.scratch + "/pbt_r" + std::to_string(dirn); child_env(dir);
            Case c(case_seed(p, f.idx)); 
            // mirror choices as they are drawn
            c.choices.reserve(200100);
            std::string m, k; bool d;
            // the vector's storage does not move; publish through a timer-free approach: copy at exit or on signal
            static Case* gc; static Shared* gs; gc = &c; gs = sh;
            auto dump = [](int sig) { gs->n = gc->choices.size(); for (size_t i = 0; i < gc->choices.size(); ++i) gs->v[i] = gc->choices[i]; if (sig) { signal(sig, SIG_DFL); raise(sig); } };
            static void (*gd)(int) = dump;
            for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGTERM, SIGXCPU}) signal(s, gd);
            atexit([] { gd(0); });
            rlimit rl{(rlim_t)o.cpu_limit, (rlim_t)o.cpu_limit + 5}; setrlimit(RLIMIT_CPU, &rl);
            run_case(p, c, m, k, d); dump(0); _exit(0);
        }
        int st; wait_limited(pid, o.cpu_limit + 4, o.wall_limit, st); rmtree(o.scratch + "/pbt_r" + std::to_string(dirn)); ++dirn;
        ch.assign(sh->v, sh->v + sh->n); munmap(sh, sizeof(Shared));
        unsigned hits = 0; for (int i = 0; i < 3; ++i) { Attempt a = attempt(p, ch, false, o.cpu_limit); if (failed(a)) { ++hits; msg = a.msg; key = a.key; } else if (hits == 0 && i == 0) break; }
        if (hits == 0 && !f.hang) for (int i = 0; i < 10; ++i) { Attempt a = attempt(p, ch, false, o.cpu_limit); if (failed(a)) { hits = 3; msg = a.msg; key = a.key; break; } }
        if (hits == 3) ok = true;
        else if (hits > 0 && !f.hang) ok = true;
        std::ostringstream rt;
        if (ok) {
            auto small = shrink(p, ch, key, o.thorough ? 120 : 60, 4000);
            Attempt a = attempt(p, small, true, o.cpu_limit);
            if (failed(a)) { msg = a.msg; key = a.key; } else { small = ch; a = attempt(p, small, true, o.cpu_limit); }
            rt << "prop=" << p.name << "\nmode=case\nseed=" << o.seed << "\ncase=" << f.idx << "\nchoices=" << seqstr(small) << "\n\n# failure: " << msg << "\n# trace:\n" << a.trace << "\n";
        } else {
            std::string m; unsigned h = 0;
            for (int i = 0; i < 3; ++i) if (batch_replay(p, f.b.first, f.idx, m)) ++h;
            if (h == 3 || (h > 0 && !f.hang)) { ok = true; msg = "(needs the preceding cases of its batch) " + m; rt << "prop=" << p.name << "\nmode=batch\nseed=" << o.seed << "\nfirst=" << f.b.first << "\nlast=" << f.idx << "\n\n# failure: " << msg << "\n"; }
        }
        if (ok) { vio.found = true; vio.prop = p.name; vio.msg = msg; vio.key = key; vio.replay_text = rt.str(); }
        else { ++nonrepro; notes.push_back("case " + p.name + "#" + std::to_string(f.idx) + " failed once and did not reproduce: " + f.msg.substr(0, 300)); }
        return ok;
    };
    while ((nexti < q.size() || !run.empty()) && !vio.found) {
        while (run.size() < o.workers && nexti < q.size()) {
            if (now() - t0 > o.cap) { capped = true; nexti = q.size(); break; }
            size_t s = 0; while (used[s]) ++s; used[s] = 1;
            Batch b = q[nexti++]; memset(&slots[s], 0, sizeof(Slot)); slots[s].cur = b.first;
            std::string dir = o.scratch + "/pbt_" + std::to_string(dirn++);
            pid_t pid = fork();
            if (pid == 0) { child_env(dir); run_batch_child(props()[b.prop], b, slots[s], b.first == 0); }
            run.push_back({pid, s, b, b.first, now(), 0, dir});
        }
        usleep(2000);
        for (size_t k = 0; k < run.size();) {
            auto& r = run[k]; int st; Slot& sl = slots[r.slot]; pid_t w = waitpid(r.pid, &st, WNOHANG); bool gone = w == r.pid, hang = false;
            if (!gone) {
                if (sl.cur != r.last_cur) { r.last_cur = sl.cur; r.cur_since = now(); r.cpu_since = cpu_of(r.pid); }
                else if (now() - r.cur_since > 2) {
                    double cpu = cpu_of(r.pid) - r.cpu_since;
                    if (cpu > o.cpu_limit || now() - r.cur_since > o.wall_limit || rss_mb(r.pid) > o.mem_mb) { kill(r.pid, SIGKILL); waitpid(r.pid, &st, 0); gone = hang = true; }
                }
            }
            if (!gone) { ++k; continue; }
            bool bad = false; Found f{r.b.prop, sl.cur, r.b, "", "", hang};
            if (hang) { bad = true; f.msg = "no termination within limits"; }
            else if (WIFSIGNALED(st) || WEXITSTATUS(st) != 0) { bad = true; f.msg = "process died: " + tail_of(r.dir + "/log.txt", 500); }
            else if (sl.state == S_FAIL) { bad = true; f.msg = sl.msg; f.key = sl.key; }
            if (!bad) merge(r.dir + "/agg.bin", tot, props()[r.b.prop].name); else { tot.eval += sl.done; tot.per_prop[props()[r.b.prop].name] += sl.done; }
            rmtree(r.dir); used[r.slot] = 0; run.erase(run.begin() + k);
            if (bad && nonrepro < 20) found.push_back(f);
        }
        if (!found.empty()) {
            Found f = found.front(); found.erase(found.begin());
            if (investigate(f)) { kill_all(); break; }
        }
    }
    kill_all();
    std::ostringstream j; j << "{\"evaluations\":" << tot.eval << ",\"discarded\":" << tot.discard << ",\"nontrivial\":" << tot.nontriv << ",\"distinct_nontrivial\":" << tot.hashes.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"nonreproducible\":" << nonrepro << ",\"wall_s\":" << now() - t0;
    j << ",\"per_prop\":{"; bool fst = true; for (auto& x : tot.per_prop) { if (!fst) j << ","; fst = false; j << js(x.first) << ":" << x.second; }
    j << "},\"labels\":{"; fst = true; for (auto& x : tot.labels) { if (!fst) j << ","; fst = false; j << js(x.first) << ":" << x.second; }
    j << "},\"samples\":["; fst = true; for (auto& s : tot.samples) { if (!fst) j << ","; fst = false; j << js(s); }
    j << "],\"notes\":["; fst = true; for (auto& s : notes) { if (!fst) j << ","; fst = false; j << js(s); }
    j << "],\"violation\":" << (vio.found ? "true" : "false") << ",\"violation_prop\":" << js(vio.prop) << ",\"violation_key\":" << js(vio.key) << ",\"violation_msg\":" << js(vio.msg) << "}";
    if (!o.out.empty()) std::ofstream(o.out) << j.str(); else std::cout << j.str() << "\n";
    if (vio.found && !o.replay_out.empty()) std::ofstream(o.replay_out) << vio.replay_text;
    if (vio.found) std::cout << "failure: " << vio.msg << "\n" << vio.replay_text.substr(0, 3000) << "\n";
    rmtree(o.scratch);
    return vio.found ? 1 : 0;
}
} // namespace pbt
#ifndef PBT_NO_MAIN
int main(int argc, char** argv) { return pbt::main_(argc, argv); }
#endif
