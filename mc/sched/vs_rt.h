// Controlled scheduler: runs the threads of the code under test as fibers of one OS thread,
// decides at every synchronisation operation who runs next, and enumerates those decisions
// exhaustively up to a bound on preemptions. Plain memory accesses are reported by the
// compiler's race instrumentation (the __tsan_* callbacks are implemented here) and checked
// for happens-before races in every explored schedule.
#pragma once

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <unordered_set>

namespace vs {

constexpr int max_threads = 24;

struct VC {
    uint32_t c[max_threads];
    void clear() {
        for (auto& x : c) x = 0;
    }
    void join(const VC& o) {
        for (int i = 0; i < max_threads; ++i)
            if (o.c[i] > c[i]) c[i] = o.c[i];
    }
};

// Bookkeeping attached to every synchronisation object.
struct Obj {
    uint64_t id;
    uint32_t gen;
    uint32_t version;
    VC vc;
    Obj();
    Obj(const Obj&) : Obj() {}
    Obj& operator=(const Obj&) { return *this; }
};

enum Order { Relaxed = 0, Acquire = 1, Release = 2, AcqRel = 3 };

bool active();  // inside a controlled execution?
// A scheduling point before a visible operation.
void point();
// Record the operation itself (for happens-before hashing and vector clocks).
void on_read(Obj&, int order);
void on_write(Obj&, int order);          // plain store: starts a new release sequence
void on_rmw(Obj&, int order);            // read-modify-write
void on_acquire(Obj&);                   // lock
void on_release(Obj&);                   // unlock
void fence(int order);
// While set, memory accesses of the current thread are not observed.
bool in_rt();
void set_in_rt(bool);
struct Quiet {
    bool old = in_rt();
    Quiet() { set_in_rt(true); }
    ~Quiet() { set_in_rt(old); }
};
// Block until pred() holds.
void wait_until(bool (*pred)(void*), void* arg, const char* what, bool spurious = false);
// As wait_until, but the scheduler may also let it return early (time-out, spurious wake-up).
bool wait_or_timeout(bool (*pred)(void*), void* arg, const char* what);
void yield();
inline void pause_() { yield(); }
int self();

// Threads
int spawn(std::function<void()> fn, Obj& o);
bool finished(int tid);
void join(int tid);
void at_exit(std::function<void()> fn);  // when the current thread ends
int live_threads();                      // threads that have not ended (main excluded)

// Report a violation and abandon this execution. Does not return.
[[noreturn]] void violation(const std::string& key, const std::string& msg);

struct Options {
    int bound = 2;            // preemptions
    bool free_at_block = true; // choices at blocking operations are free
    bool spurious = false;     // spurious wake-ups of condition variables as deviations
    uint64_t horizon = 20000;  // steps of one execution
    uint64_t max_executions = 50'000'000;
    bool races = true;
    bool cache = true;          // do not branch twice from the same partial order
};
struct Result {
    uint64_t executions = 0, steps = 0, points = 0, states = 0, max_steps = 0, spawned = 0;
    bool capped = false;
    bool failed = false;
    std::string key, msg, schedule;
    const std::unordered_set<uint64_t>* prefixes = nullptr; // distinct partial orders reached
};
// Enumerate the schedules of `body` (run as thread 0). `after` is evaluated when an execution
// has ended with all its threads; it may call violation().
Result explore(const Options&, const std::function<void()>& body, const std::function<void()>& after);

// Counts races seen on the harness' own request.
void ignore_range(const void* p, size_t n);

} // namespace vs
