// Verification harness basics: PRNG, failure reporting, statistics, command line, fault injection
#pragma once
#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>
#include <unistd.h>
#include <sys/time.h>

#if defined(__has_feature)
#   if __has_feature(address_sanitizer) || __has_feature(thread_sanitizer)
#       define VP_HAS_SAN 1
#   endif
#endif
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__) || defined(VP_HAS_SAN)
extern "C" void __sanitizer_set_death_callback(void (*cb)(void));
#define VP_SAN 1
#endif

namespace vp {

struct rng {
    uint64_t s;
    explicit rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint32_t below(uint32_t n) { return n ? uint32_t(next() % n) : 0; }
    int range(int a, int b) { return a + int(below(uint32_t(b - a + 1))); }
    bool chance(int percent) { return int(below(100)) < percent; }
    template <typename C> auto& pick(C& c) { return c[below(uint32_t(c.size()))]; }
};

inline uint64_t hash_mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    return h ^ (h >> 33);
}
inline uint64_t hash_str(std::string_view s) {
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; }
    return h;
}

// options
struct options {
    uint64_t seed = 1;
    uint64_t from = 0, cases = 100;
    std::string profile = "all";
    bool verbose = false;
    int level = 0; // 0 quick, 1 thorough
    int cpu_limit = 60; // seconds for a case
};
inline options& opt() { static options o; return o; }

// state for reports
struct state {
    uint64_t cur_case = 0;
    uint64_t case_seed = 0;
    std::string log; // operations of the current case
    uint64_t evaluations = 0;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct;
    std::vector<std::string> samples;
    uint64_t sig = 0; // signature of current case
    bool nontrivial = false;
    bool reported = false;
};
inline state& st() { static state s; return s; }

inline void count(const char* name, uint64_t n = 1) { st().counters[name] += n; }
inline void sig(uint64_t v) { st().sig = hash_mix(st().sig, v); }
inline void sig(std::string_view s) { sig(hash_str(s)); }
inline void nontrivial() { st().nontrivial = true; }

__attribute__((format(printf, 1, 2)))
inline void log(const char* fmt, ...) {
    char buf[1024];
    va_list va;
    va_start(va, fmt);
    int n = vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    if (n > int(sizeof(buf)) - 1) n = sizeof(buf) - 1;
    auto& l = st().log;
    if (l.size() > 400000) l.erase(0, 200000);
    l.append(buf, size_t(n));
    l.push_back('\n');
    if (opt().verbose) { fwrite(buf, 1, size_t(n), stderr); fputc('\n', stderr); }
}

inline void dump_log() {
    if (st().reported) return;
    st().reported = true;
    fprintf(stderr, "VPCASE %llu\n", (unsigned long long)st().cur_case);
    auto& l = st().log;
    size_t from = l.size() > 12000 ? l.size() - 12000 : 0;
    fprintf(stderr, "--- operations of the case (last part)\n%s---\n", l.c_str() + from);
    fflush(stderr);
}

[[noreturn]] __attribute__((format(printf, 2, 3)))
inline void fail(const char* key, const char* fmt, ...) {
    char buf[2048];
    va_list va;
    va_start(va, fmt);
    vsnprintf(buf, sizeof(buf), fmt, va);
    va_end(va);
    fprintf(stderr, "VPFAIL key=%s case=%llu :: %s\n", key, (unsigned long long)st().cur_case, buf);
    dump_log();
    fflush(stdout);
    _exit(7);
}

#define VP_CHECK(key, cond, ...) do { if (!(cond)) ::vp::fail(key, __VA_ARGS__); } while (false)

inline void on_hang(int) {
    fprintf(stderr, "VPFAIL key=hang case=%llu :: the case has used more than its CPU time\n", (unsigned long long)st().cur_case);
    dump_log();
    _exit(7);
}
// CPU time of a case, so load of the machine doesn't matter
inline void set_cpu_limit(int seconds) {
    itimerval t = {};
    t.it_value.tv_sec = seconds;
    setitimer(ITIMER_PROF, &t, nullptr);
}
inline void on_abort(int sig) {
    signal(SIGALRM, SIG_DFL);
    alarm(10); // the log may be impossible to print
    dump_log();
    signal(sig, SIG_DFL);
    raise(sig);
}

inline void print_json_str(FILE* f, const std::string& s) {
    fputc('"', f);
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { fputc('\\', f); fputc(c, f); }
        else if (c == '\n') fputs("\\n", f);
        else if (c < 32 || c > 126) fprintf(f, "\\u%04x", c);
        else fputc(c, f);
    }
    fputc('"', f);
}

inline void end_case() {
    auto& s = st();
    ++s.evaluations;
    if (s.nontrivial) s.distinct.insert(s.sig);
    if (s.nontrivial && s.samples.size() < 2) {
        std::string l = s.log;
        if (l.size() > 2200) l = l.substr(0, 1100) + "\n[...]\n" + l.substr(l.size() - 1100);
        s.samples.push_back("case " + std::to_string(s.cur_case) + ":\n" + l);
    }
    s.sig = 0;
    s.nontrivial = false;
    s.log.clear();
}

inline void print_stats() {
    auto& s = st();
    printf("VPSTATS {\"evaluations\":%llu,\"counters\":{", (unsigned long long)s.evaluations);
    bool first = true;
    for (auto& c : s.counters) {
        if (!first) putchar(',');
        first = false;
        print_json_str(stdout, c.first);
        printf(":%llu", (unsigned long long)c.second);
    }
    printf("},\"samples\":[");
    first = true;
    for (auto& c : s.samples) {
        if (!first) putchar(',');
        first = false;
        print_json_str(stdout, c);
    }
    printf("],\"distinct\":[");
    first = true;
    for (auto d : s.distinct) {
        printf(first ? "\"%llx\"" : ",\"%llx\"", (unsigned long long)d);
        first = false;
    }
    printf("]}\n");
    fflush(stdout);
}

// main loop of harnesses
inline int run_main(int argc, char** argv, void (*run_case)(rng&)) {
    auto& o = opt();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") o.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--from") o.from = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--cases") o.cases = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--profile") o.profile = val();
        else if (a == "--level") o.level = atoi(val().c_str());
        else if (a == "-v") o.verbose = true;
    }
    signal(SIGABRT, on_abort);
    signal(SIGPROF, on_hang);
#if VP_SAN
    __sanitizer_set_death_callback(dump_log);
#else
    for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE}) signal(s, on_abort);
#endif
    for (uint64_t c = o.from; c < o.from + o.cases; ++c) {
        st().cur_case = c;
        rng r(hash_mix(hash_mix(o.seed, c), hash_str(o.profile)));
        set_cpu_limit(opt().cpu_limit);
        run_case(r);
        end_case();
    }
    set_cpu_limit(0);
    print_stats();
    return 0;
}

// fault injection
namespace fault {
enum kind : unsigned { alloc = 1, init = 2, copy = 4, rule = 8, user = 16, all = 31 };
struct injected : std::exception {
    const char* what() const noexcept override { return "vp injected fault"; }
};
struct control {
    bool armed = false;
    unsigned kinds = 0;
    int countdown = 0;
    bool fired = false;
    kind fired_kind = alloc;
    int sites = 0; // sites passed since arm
};
inline control& ctl() { static control c; return c; }
inline void arm(int k, unsigned kinds) { ctl() = {true, kinds, k, false, alloc, 0}; }
inline void disarm() { ctl().armed = false; }
// true if the site has to fail now
inline bool hit(kind k) {
    auto& c = ctl();
    if (!c.armed || !(c.kinds & k)) return false;
    ++c.sites;
    if (c.fired) return false; // one fault per arm
    if (--c.countdown > 0) return false;
    c.fired = true;
    c.fired_kind = k;
    return true;
}
struct pause {
    bool was;
    pause() : was(ctl().armed) { ctl().armed = false; }
    ~pause() { ctl().armed = was; }
};
}

}
