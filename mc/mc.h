// Core of the bounded exhaustive explorer: a harness enumerates *cases* (an input, a
// configuration or an operation history), runs each one on the real code of /repo and
// compares with a reference model. Enumeration order is deterministic, every case has a
// unique printable id, and `--replay <id>` runs that one case alone.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

#include <array>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <filesystem>
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace mc {

struct Failed {
    std::string key;
    std::string msg;
};

struct Violation {
    std::string key, case_id, msg;
};

constexpr size_t journal_bytes = 1 << 16;

struct Explorer {
    std::string property;
    std::string tier = "quick";
    std::string out, journal_path, scratch = "/tmp";
    std::string replay;
    bool replaying = false;
    size_t shard = 0, nshards = 1;
    double budget = 1e9;     // seconds for this process
    double case_limit = 120; // seconds for one case before it counts as a hang
    uint64_t seen = 0;       // cases enumerated (all shards)
    uint64_t cases = 0;      // cases executed here
    uint64_t transitions = 0, traces = 0, evaluations = 0, skipped = 0;
    bool capped = false;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
    std::vector<Violation> violations;
    std::map<std::string, uint64_t> counters;
    std::set<std::string> known;
    std::map<std::string, std::pair<uint64_t, std::string>> known_hits;
    char* journal = nullptr;
    volatile double case_start = 0;
    volatile bool in_case = false;
    std::chrono::steady_clock::time_point t0 = std::chrono::steady_clock::now();

    double now() const {
        return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
    }
};

inline Explorer& ex() {
    static Explorer e;
    return e;
}

inline bool thorough() { return ex().tier == "thorough"; }

// Hashing -----------------------------------------------------------------------------
inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
inline uint64_t hash_bytes(const void* p, size_t n, uint64_t h = 0x12345) {
    auto* c = static_cast<const unsigned char*>(p);
    size_t i = 0;
    for (; i + 8 <= n; i += 8) {
        uint64_t v;
        std::memcpy(&v, c + i, 8);
        h = mix(h, v);
    }
    uint64_t v = n;
    for (; i < n; ++i) {
        v = (v << 8) | c[i];
    }
    return mix(h, v);
}
inline uint64_t hash(const std::string& s) { return hash_bytes(s.data(), s.size()); }

// Coverage ----------------------------------------------------------------------------
constexpr size_t max_states = 4'000'000;
inline void state(uint64_t h) {
    if (ex().states.size() < max_states) {
        ex().states.insert(h);
    }
}
inline void state(const std::string& s) { state(hash(s)); }
inline void transition(uint64_t n = 1) { ex().transitions += n; }
inline void trace(uint64_t n = 1) { ex().traces += n; }
inline void evaluation(uint64_t n = 1) { ex().evaluations += n; }
inline void outcome(uint64_t h) {
    if (ex().outcomes.size() < max_states) {
        ex().outcomes.insert(h);
    }
}
inline void outcome(const std::string& s) { outcome(hash(s)); }
inline void count(const std::string& name, uint64_t n = 1) { ex().counters[name] += n; }
inline void note_max(const std::string& name, uint64_t n) {
    auto& x = ex().counters["max_" + name];
    if (n > x) {
        x = n;
    }
}
inline void sample(const std::string& s) {
    if (ex().samples.size() < 4) {
        ex().samples.push_back(s.substr(0, 400));
    }
}

// Failing -----------------------------------------------------------------------------
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
    throw Failed{key, msg};
}

inline std::string str() { return {}; }
template <typename T, typename... R> std::string str(const T& x, const R&... r) {
    std::ostringstream s;
    s.precision(9);
    s << x;
    ((s << r), ...);
    return s.str();
}
template <typename C> std::string list(const C& c) {
    std::ostringstream s;
    s.precision(9);
    s << "[";
    bool first = true;
    for (const auto& x : c) {
        s << (first ? "" : ",") << +x;
        first = false;
    }
    s << "]";
    return s.str();
}

#define MC_CHECK(cond, key, ...)                        \
    do {                                                \
        if (!(cond)) {                                  \
            ::mc::fail(key, ::mc::str(__VA_ARGS__));    \
        }                                               \
    } while (0)

// Does `f` throw something derived from std::exception?
template <typename F> bool throws(F&& f) {
    try {
        f();
    } catch (const Failed&) { throw; } catch (const std::exception&) {
        return true;
    }
    return false;
}

// Cases -------------------------------------------------------------------------------
inline void record(const std::string& key, const std::string& id, const std::string& msg) {
    auto& e = ex();
    if (e.known.count(key)) {
        auto& h = e.known_hits[key];
        if (h.first++ == 0) {
            h.second = id + ": " + msg;
        }
        return;
    }
    e.violations.push_back({key, id, msg});
}

inline bool enough() { return ex().violations.size() >= 3; }

template <typename Id, typename F> void run(Id&& make_id, F&& body) {
    auto& e = ex();
    uint64_t index = e.seen++;
    if (!e.replaying && (index % e.nshards) != e.shard) {
        return;
    }
    if (enough()) {
        e.skipped++;
        return;
    }
    std::string id = make_id();
    if (e.replaying && id != e.replay) {
        return;
    }
    if (e.now() > e.budget) {
        e.capped = true;
        e.skipped++;
        return;
    }
    if (e.journal) {
        size_t n = std::min(id.size(), journal_bytes - 1);
        std::memcpy(e.journal, id.data(), n);
        e.journal[n] = 0;
    }
    e.case_start = e.now();
    e.in_case = true;
    e.cases++;
    if (e.samples.size() < 2 || (index & (index - 1)) == 0) {
        sample(id);
    }
    try {
        body();
    } catch (const Failed& f) { record(f.key, id, f.msg); } catch (const std::exception& x) {
        record("unexpected-exception", id, std::string("unexpected exception: ") + x.what());
    } catch (...) { record("unexpected-exception", id, "unexpected exception of unknown type"); }
    e.in_case = false;
    if (e.journal) {
        e.journal[0] = 0;
    }
}

// Output ------------------------------------------------------------------------------
inline std::string json(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') {
            r += '\\';
            r += static_cast<char>(c);
        } else if (c < 0x20 || c >= 0x7f) {
            char b[8];
            std::snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        } else {
            r += static_cast<char>(c);
        }
    }
    return r + "\"";
}

inline void dump() {
    auto& e = ex();
    if (e.out.empty()) {
        return;
    }
    std::ofstream o(e.out + ".tmp");
    o << "{\"cases\":" << e.cases << ",\"enumerated\":" << e.seen
      << ",\"transitions\":" << e.transitions << ",\"traces\":" << e.traces
      << ",\"evaluations\":" << e.evaluations << ",\"states\":" << e.states.size()
      << ",\"outcomes\":" << e.outcomes.size() << ",\"skipped\":" << e.skipped
      << ",\"capped\":" << (e.capped ? "true" : "false") << ",\"samples\":[";
    for (size_t i = 0; i < e.samples.size(); ++i) {
        o << (i ? "," : "") << json(e.samples[i]);
    }
    o << "],\"counters\":{";
    bool first = true;
    for (auto& [k, v] : e.counters) {
        o << (first ? "" : ",") << json(k) << ":" << v;
        first = false;
    }
    o << "},\"known\":{";
    first = true;
    for (auto& [k, v] : e.known_hits) {
        o << (first ? "" : ",") << json(k) << ":" << json(v.second);
        first = false;
    }
    o << "},\"violations\":[";
    first = true;
    for (auto& v : e.violations) {
        o << (first ? "" : ",") << "{\"key\":" << json(v.key) << ",\"case\":" << json(v.case_id)
          << ",\"msg\":" << json(v.msg) << "}";
        first = false;
    }
    o << "]}\n";
    o.close();
    auto bin = [&](const std::string& path, const std::unordered_set<uint64_t>& s) {
        std::ofstream b(path, std::ios::binary);
        for (auto h : s) {
            b.write(reinterpret_cast<const char*>(&h), 8);
        }
    };
    bin(e.out + ".states", e.states);
    bin(e.out + ".outcomes", e.outcomes);
    std::rename((e.out + ".tmp").c_str(), e.out.c_str());
}

inline Explorer* alarm_target = nullptr;
inline double alarm_epoch = 0;
// Runs in signal context: touches nothing but these fields (and is not instrumented).
__attribute__((no_sanitize("thread"), noinline)) inline void on_alarm(int) {
    Explorer* e = alarm_target;
    if (e && e->in_case) {
        timespec ts;
        ::clock_gettime(CLOCK_MONOTONIC, &ts);
        double now = double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9 - alarm_epoch;
        if (now - e->case_start > e->case_limit) {
            // The runner reads the journal and reports the case as a hang.
            _exit(97);
        }
    }
}

inline void init(int argc, char** argv) {
    auto& e = ex();
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&]() -> std::string { return ++i < argc ? argv[i] : ""; };
        if (a == "--tier") {
            e.tier = next();
        } else if (a == "--out") {
            e.out = next();
        } else if (a == "--journal") {
            e.journal_path = next();
        } else if (a == "--scratch") {
            e.scratch = next();
        } else if (a == "--replay") {
            e.replaying = true;
            e.replay = next();
        } else if (a == "--replay-file") {
            e.replaying = true;
            std::ifstream f(next());
            std::stringstream s;
            s << f.rdbuf();
            e.replay = s.str();
        } else if (a == "--shard") {
            e.shard = std::stoul(next());
        } else if (a == "--nshards") {
            e.nshards = std::stoul(next());
        } else if (a == "--budget") {
            e.budget = std::stod(next());
        } else if (a == "--case-limit") {
            e.case_limit = std::stod(next());
        } else if (a == "--known") {
            e.known.insert(next());
        } else {
            std::fprintf(stderr, "unknown argument %s\n", a.c_str());
            std::exit(2);
        }
    }
    if (!e.journal_path.empty()) {
        int fd = ::open(e.journal_path.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0600);
        if (fd >= 0 && ::ftruncate(fd, journal_bytes) == 0) {
            void* p =
                ::mmap(nullptr, journal_bytes, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (p != MAP_FAILED) {
                e.journal = static_cast<char*>(p);
            }
            ::close(fd);
        }
    }
    {
        timespec ts;
        ::clock_gettime(CLOCK_MONOTONIC, &ts);
        alarm_epoch = double(ts.tv_sec) + double(ts.tv_nsec) * 1e-9 - e.now();
        alarm_target = &e;
    }
    struct sigaction sa {};
    sa.sa_handler = on_alarm;
    sa.sa_flags = SA_RESTART;
    ::sigaction(SIGALRM, &sa, nullptr);
    itimerval tv{{1, 0}, {1, 0}};
    ::setitimer(ITIMER_REAL, &tv, nullptr);
}

inline int finish() {
    auto& e = ex();
    dump();
    if (e.replaying) {
        std::printf("replayed %lu case(s), %zu violation(s)\n", e.cases, e.violations.size());
    }
    for (auto& v : e.violations) {
        std::printf("FAIL [%s] case=%s\n     %s\n", v.key.c_str(), v.case_id.c_str(), v.msg.c_str());
    }
    if (e.out.empty()) {
        std::printf(
            "%s: cases=%lu/%lu transitions=%lu traces=%lu evals=%lu states=%zu outcomes=%zu "
            "violations=%zu capped=%d t=%.1fs\n",
            e.property.c_str(), e.cases, e.seen, e.transitions, e.traces, e.evaluations,
            e.states.size(), e.outcomes.size(), e.violations.size(), int(e.capped), e.now()
        );
        for (auto& [k, v] : e.counters) {
            std::printf("  %s=%lu\n", k.c_str(), v);
        }
        for (auto& [k, v] : e.known_hits) {
            std::printf("  known %s x%lu %s\n", k.c_str(), v.first, v.second.c_str());
        }
    }
    std::fflush(stdout);
    // Skip static destructors: they are not under test.
    _exit(e.violations.empty() ? 0 : 1);
}

// Enumerate all vectors of length `n` over `0..k-1`.
template <typename F> void tuples(size_t n, size_t k, F&& f) {
    std::vector<size_t> v(n, 0);
    if (k == 0 && n > 0) {
        return;
    }
    for (;;) {
        f(static_cast<const std::vector<size_t>&>(v));
        size_t i = 0;
        while (i < n && ++v[i] == k) {
            v[i++] = 0;
        }
        if (i == n) {
            return;
        }
    }
}

// A private directory for the files of one case.
struct ScratchDir {
    std::filesystem::path path;
    ScratchDir() {
        auto t = (std::filesystem::path(ex().scratch) / "mc_XXXXXX").string();
        if (!::mkdtemp(t.data())) {
            std::perror("mkdtemp");
            std::exit(2);
        }
        path = t;
    }
    ~ScratchDir() {
        std::error_code ec;
        std::filesystem::remove_all(path, ec);
    }
    std::filesystem::path operator/(const std::string& s) const { return path / s; }
};

} // namespace mc

#define MC_MAIN(PROPERTY, BODY)              \
    int main(int argc, char** argv) {        \
        mc::ex().property = PROPERTY;        \
        mc::init(argc, argv);                \
        BODY();                              \
        return mc::finish();                 \
    }
