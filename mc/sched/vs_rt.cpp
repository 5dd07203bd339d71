#include "vs_rt.h"

#include <cxxabi.h>
#include <execinfo.h>
#include <malloc.h>
#include <pthread.h>
#include <sys/mman.h>

#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <memory>
#include <new>
#include <unordered_map>
#include <unordered_set>
#include <vector>

extern "C" void vs_switch(void** from, void* to);
asm(R"(
.text
.globl vs_switch
.type vs_switch,@function
vs_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size vs_switch,.-vs_switch
)");

namespace vs {
namespace {

constexpr size_t stack_bytes = 1 << 18;

struct EhGlobals {
    void* caught;
    unsigned int uncaught;
};
EhGlobals* eh() { return reinterpret_cast<EhGlobals*>(__cxxabiv1::__cxa_get_globals()); }

struct Fiber {
    int tid;
    char* stack = nullptr;
    void* sp = nullptr;
    std::function<void()> fn;
    EhGlobals ehg{nullptr, 0};
    bool done = false;
    bool (*pred)(void*) = nullptr;
    void* pred_arg = nullptr;
    bool timed = false;       // may be resumed although pred does not hold
    bool timed_out = false;
    bool spurious = false;    // may be woken up spuriously
    int idle_reads = 0;       // consecutive operations that changed nothing
    VC acq_pending, rel_fence;
    const char* what = "";
    uint32_t waits_for = 0;   // fairness: threads that must run (or block) first
    uint64_t events = 0;      // visible operations so far
    uint64_t since = 0;       // scheduling points passed since the last operation
    uint64_t made = 0;        // objects created so far
    VC vc;
    std::vector<std::function<void()>> exits;
    std::unique_ptr<Obj> end_obj;
};

struct Choice {
    std::vector<int> alts; // tids, default first
    std::vector<int> cost;
    size_t pick = 0;
    bool closed = false; // an equivalent state was branched from before
};

struct State {
    bool active = false;
    Options opt;
    uint32_t gen = 0;
    std::vector<std::unique_ptr<Fiber>> fibers;
    int cur = -1;
    void* host_sp = nullptr;
    EhGlobals host_eh{nullptr, 0};
    int alive = 0;
    std::vector<Choice> choices; // the current execution path
    size_t depth = 0;            // next choice index
    int used = 0;                // deviations used so far
    bool no_branch = false;
    uint64_t steps = 0;
    uint64_t hb = 0;
    std::unordered_set<uint64_t> cache;
    std::unordered_set<uint64_t> prefixes;
    bool failed = false;
    std::string key, msg;
    uint64_t host_made = 0;
    std::vector<char*> stacks;
    uint64_t points = 0;
    bool in_rt = false;
    bool in_shadow = false;
    bool nondet = false;
    uint64_t spawned = 0;
    uint64_t last_progress = 0;
};
State S;

uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

// ---- shadow memory -------------------------------------------------------------------
struct Rec {
    uint16_t tid;
    uint8_t mask;
    uint8_t write;
    uint32_t clk;
};
struct Cell {
    uint64_t addr = ~0ull;
    uint32_t gen = 0;
    uint8_t n = 0;
    uint8_t next = 0;
    Rec r[6];
};
struct Shadow {
    std::vector<Cell> t = std::vector<Cell>(1 << 16);
    size_t used = 0;
    uint32_t gen = 1;
    void reset() {
        ++gen;
        used = 0;
    }
    Cell& get(uint64_t a) {
        if (used * 2 > t.size()) {
            std::vector<Cell> old(t.size() * 2);
            old.swap(t);
            used = 0;
            for (auto& c : old)
                if (c.gen == gen) get(c.addr) = c;
        }
        size_t m = t.size() - 1;
        size_t i = (a * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (t[i].gen == gen && t[i].addr != a) i = (i + 1) & m;
        if (t[i].gen != gen) {
            t[i].gen = gen;
            t[i].addr = a;
            t[i].n = 0;
            t[i].next = 0;
            ++used;
        }
        return t[i];
    }
    Cell* find(uint64_t a) {
        size_t m = t.size() - 1;
        size_t i = (a * 0x9e3779b97f4a7c15ull >> 20) & m;
        while (t[i].gen == gen) {
            if (t[i].addr == a) return &t[i];
            i = (i + 1) & m;
        }
        return nullptr;
    }
    void forget(uint64_t a, size_t n) {
        if (used == 0) return;
        uint64_t lo = a >> 3, hi = (a + n + 7) >> 3;
        if (hi - lo > 4 * t.size()) {
            for (auto& c : t)
                if (c.gen == gen && c.addr >= lo && c.addr < hi) c.n = 0;
            return;
        }
        for (uint64_t g = lo; g < hi; ++g)
            if (auto* c = find(g)) c->n = 0;
    }
};
Shadow* shadow = nullptr;
std::unordered_map<uint64_t, Obj>* raw_sync = nullptr; // for __tsan_atomic*

Fiber& me() { return *S.fibers[S.cur]; }

void sync_obj(Obj& o) {
    if (o.gen != S.gen) {
        o.gen = S.gen;
        o.version = 0;
        o.vc.clear();
    }
}

void event(Obj& o, bool write, int kind) {
    auto& f = me();
    uint64_t e = mix(mix(mix(mix(0x51, f.tid), f.events++), o.id), o.version * 8ull + kind);
    f.since = 0;
    if (write) {
        ++o.version;
        f.idle_reads = 0;
    }
    S.hb ^= mix(e, 0x77);
}

std::string backtrace_text() {
    void* a[24];
    int n = backtrace(a, 24);
    char** s = backtrace_symbols(a, n);
    std::string r;
    for (int i = 3; i < n && i < 12; ++i) {
        std::string line = s[i];
        auto b = line.find('(');
        auto e = line.find('+', b == std::string::npos ? 0 : b);
        std::string name = b != std::string::npos && e != std::string::npos && e > b + 1 ? line.substr(b + 1, e - b - 1) : "";
        int st = 0;
        char* d = name.empty() ? nullptr : abi::__cxa_demangle(name.c_str(), nullptr, nullptr, &st);
        std::string shown = d && st == 0 ? d : (name.empty() ? "?" : name);
        free(d);
        if (shown.size() > 110) shown = shown.substr(0, 110) + "...";
        r += " < " + shown;
    }
    free(s);
    return r;
}

void access(const void* p, size_t n, bool write) {
    if (!S.active || S.alive < 2 || !S.opt.races || S.in_rt || n == 0) return;
    S.in_rt = true;
    S.in_shadow = true;
    auto& f = me();
    uint64_t a = reinterpret_cast<uint64_t>(p);
    uint64_t end = a + n;
    while (a < end) {
        uint64_t g = a >> 3;
        unsigned lo = a & 7;
        unsigned hi = std::min<uint64_t>(8, end - (g << 3));
        uint8_t mask = uint8_t(((1u << hi) - 1) & ~((1u << lo) - 1));
        Cell& c = shadow->get(g);
        int slot = -1;
        for (int i = 0; i < c.n; ++i) {
            Rec& r = c.r[i];
            if (!(r.mask & mask)) continue;
            if (r.tid == f.tid) {
                if ((r.mask & ~mask) == 0 && (write || !r.write)) slot = i;
                continue;
            }
            if ((write || r.write) && r.clk > f.vc.c[r.tid]) {
                S.in_rt = false;
                S.in_shadow = false;
                violation(
                    "data-race",
                    std::string(write ? "write" : "read") + " by thread " + std::to_string(f.tid) +
                        " races with earlier " + (r.write ? "write" : "read") + " by thread " +
                        std::to_string(r.tid) + " to the same memory;" + backtrace_text()
                );
            }
        }
        if (slot < 0) {
            if (c.n < 6) {
                slot = c.n++;
            } else {
                slot = c.next;
                c.next = (c.next + 1) % 6;
            }
        }
        c.r[slot] = Rec{uint16_t(f.tid), mask, uint8_t(write), f.vc.c[f.tid]};
        a = (g + 1) << 3;
    }
    S.in_shadow = false;
    S.in_rt = false;
}

// ---- scheduling ----------------------------------------------------------------------
bool ready(Fiber& f) { return !f.done && (!f.pred || f.pred(f.pred_arg)); }

bool enabled(Fiber& f) {
    if (!ready(f)) return false;
    if (f.waits_for) {
        for (auto& g : S.fibers) {
            if ((f.waits_for >> g->tid) & 1) {
                if (ready(*g)) return false;
            }
        }
        f.waits_for = 0;
    }
    return true;
}

void switch_to(int tid) {
    if (tid == S.cur) return;
    auto& from = me();
    from.ehg = *eh();
    S.cur = tid;
    auto& to = me();
    *eh() = to.ehg;
    vs_switch(&from.sp, to.sp);
}

void to_host() {
    void* dummy;
    *eh() = S.host_eh;
    S.in_rt = false;
    vs_switch(&dummy, S.host_sp);
    __builtin_trap();
}

int decide(bool forced_yield);
// Decide who runs next. `current_can` tells whether the running thread may continue.
void schedule(bool forced_yield) {
    if (S.failed) to_host();
    int next = decide(forced_yield);
    S.in_rt = false;
    switch_to(next);
    if (S.failed) to_host();
}
int decide(bool forced_yield) {
    S.in_rt = true;
    auto& f = me();
    ++S.steps;
    ++f.since;
    if (S.steps > S.opt.horizon) {
        std::string st;
        for (auto& g : S.fibers) {
            if (!g->done) st += " thread " + std::to_string(g->tid) + ": " + (g->pred ? g->what : "running/spinning") + ";";
        }
        violation("no-progress", "an execution did not end within " + std::to_string(S.opt.horizon) + " steps:" + st);
    }
    Choice c;
    bool cur_enabled = !forced_yield && !f.done && enabled(f);
    if (cur_enabled) {
        c.alts.push_back(f.tid);
        c.cost.push_back(0);
    }
    int n = int(S.fibers.size());
    for (int k = 1; k <= n; ++k) {
        int t = (f.tid + k) % n;
        auto& g = *S.fibers[t];
        if (t == f.tid && cur_enabled) continue;
        if (enabled(g)) {
            c.alts.push_back(t);
            bool first = c.alts.size() == 1;
            c.cost.push_back(first ? 0 : (cur_enabled ? 1 : (S.opt.free_at_block && !forced_yield ? 0 : 1)));
        }
    }
    if (c.alts.empty()) {
        // A timed wait may expire when nothing else can run.
        for (int k = 1; k <= n; ++k) {
            int t = (f.tid + k) % n;
            auto& g = *S.fibers[t];
            if (!g.done && g.timed) {
                g.timed_out = true;
                g.pred = nullptr;
                c.alts.push_back(t);
                c.cost.push_back(0);
                break;
            }
        }
    } else if (S.opt.spurious) {
        for (int k = 1; k <= n; ++k) {
            int t = (f.tid + k) % n;
            auto& g = *S.fibers[t];
            if (!g.done && g.pred && (g.timed || g.spurious) && !g.pred(g.pred_arg)) {
                c.alts.push_back(t);
                c.cost.push_back(1);
            }
        }
    }
    if (c.alts.empty()) {
        bool any = false;
        std::string st;
        for (auto& g : S.fibers) {
            if (!g->done) {
                any = true;
                st += " thread " + std::to_string(g->tid) + ": " + g->what + ";";
            }
        }
        if (any) violation("deadlock", "no thread can run:" + st);
        to_host();
    }
    int next = c.alts[0];
    if (c.alts.size() > 1) {
        ++S.points;
        if (S.depth < S.choices.size()) {
            auto& old = S.choices[S.depth];
            if (old.alts != c.alts || old.cost != c.cost) {
                S.nondet = true;
                violation("nondeterminism", "replaying a schedule prefix met different choices");
            }
            next = old.alts[old.pick];
            S.used += old.cost[old.pick];
        } else {
            if (!S.no_branch && S.opt.cache) {
                uint64_t k = mix(mix(S.hb, f.tid * 64 + (cur_enabled ? 1 : 0) + (forced_yield ? 2 : 0)), 1);
                uint32_t done_mask = 0;
                for (auto& g : S.fibers) {
                    k = mix(k, g->waits_for * 4ull + g->done * 2 + (g->pred != nullptr) + (g->since << 40));
                    done_mask |= uint32_t(g->done) << g->tid;
                }
                // The same partial order reached with at least as much budget left?
                bool seen = false;
                for (int u = 0; u <= S.used && !seen; ++u) seen = S.cache.count(mix(k, u)) > 0;
                if (seen) {
                    S.no_branch = true;
                } else {
                    S.cache.insert(mix(k, S.used));
                }
            }
            S.choices.push_back(c);
            S.choices.back().closed = S.no_branch;
        }
        ++S.depth;
    }
    auto& g = *S.fibers[next];
    if (g.pred && !g.pred(g.pred_arg)) {
        g.timed_out = true; // spurious wake-up
    }
    g.pred = nullptr;
    // Fairness: everybody waiting for `next` to take a step is released.
    for (auto& h : S.fibers) h->waits_for &= ~(1u << next);
    S.prefixes.insert(S.hb);
    return next;
}

void fiber_main() {
    auto& f = me();
    try {
        f.fn();
    } catch (...) {
        std::string what = "unknown exception";
        try {
            throw;
        } catch (const std::exception& e) { what = e.what(); } catch (...) {
        }
        violation("uncaught-exception", "thread " + std::to_string(f.tid) + " ended with an uncaught exception: " + what);
    }
    for (auto& e : f.exits) e();
    {
        Quiet q;
        f.exits.clear();
        f.fn = nullptr;
    }
    point();
    S.in_rt = true;
    if (f.end_obj) {
        sync_obj(*f.end_obj);
        event(*f.end_obj, true, 5);
        f.end_obj->vc = f.vc;
    }
    f.done = true;
    --S.alive;
    schedule(false);
    __builtin_trap();
}

char* get_stack() {
    if (!S.stacks.empty()) {
        char* s = S.stacks.back();
        S.stacks.pop_back();
        return s;
    }
    void* p = ::mmap(nullptr, stack_bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) {
        perror("stack");
        exit(3);
    }
    return static_cast<char*>(p);
}

Fiber& make_fiber(std::function<void()> fn) {
    int tid = int(S.fibers.size());
    if (tid >= max_threads) {
        violation("too-many-threads", "an execution created more threads than the explorer supports");
    }
    auto f = std::make_unique<Fiber>();
    f->tid = tid;
    f->fn = std::move(fn);
    f->stack = get_stack();
    f->vc.clear();
    f->acq_pending.clear();
    f->rel_fence.clear();
    f->vc.c[tid] = 1;
    auto* top = reinterpret_cast<void**>(f->stack + stack_bytes - 64);
    // stack layout for vs_switch: six registers, return address; aligned as after a call
    *(--top) = nullptr;
    *(--top) = reinterpret_cast<void*>(&fiber_main);
    for (int i = 0; i < 6; ++i) *(--top) = nullptr;
    f->sp = top;
    S.fibers.push_back(std::move(f));
    ++S.alive;
    ++S.spawned;
    return *S.fibers.back();
}

} // namespace

Obj::Obj() : gen{0}, version{0} {
    vc.clear();
    if (S.active && S.cur >= 0) {
        auto& f = me();
        id = mix(mix(0xabc, f.tid), f.made++);
        gen = S.gen;
    } else {
        id = mix(0xdef, S.host_made++);
    }
}

bool active() { return S.active; }
int self() { return S.cur; }

void point() {
    if (!S.active || S.alive < 2) return;
    if (me().idle_reads >= 16) {
        // A loop that only reads and never yields: treat it as one that yields.
        me().idle_reads = 0;
        yield();
        return;
    }
    schedule(false);
}

void yield() {
    if (!S.active) return;
    if (S.alive < 2) {
        if (++S.steps > S.opt.horizon) violation("no-progress", "the only thread left spins for ever");
        return;
    }
    auto& f = me();
    uint32_t w = 0;
    {
        Quiet q;
        for (auto& g : S.fibers) {
            if (g->tid != f.tid && enabled(*g)) w |= 1u << g->tid;
        }
    }
    f.waits_for = w;
    if (w) {
        schedule(true);
    } else {
        schedule(false);
    }
}

void on_read(Obj& o, int order) {
    if (!S.active) return;
    sync_obj(o);
    event(o, false, 0);
    auto& f = me();
    ++f.idle_reads;
    if (order & Acquire) {
        f.vc.join(o.vc);
    } else {
        f.acq_pending.join(o.vc);
    }
}
void on_write(Obj& o, int order) {
    if (!S.active) return;
    sync_obj(o);
    event(o, true, 1);
    auto& f = me();
    if (order & Release) {
        o.vc = f.vc;
        ++f.vc.c[f.tid];
    } else {
        o.vc = f.rel_fence;
    }
}
void on_rmw(Obj& o, int order) {
    if (!S.active) return;
    sync_obj(o);
    event(o, true, 2);
    auto& f = me();
    VC before = o.vc;
    if (order & Release) {
        o.vc.join(f.vc);
    } else {
        o.vc.join(f.rel_fence);
    }
    if (order & Acquire) {
        f.vc.join(before);
    } else {
        f.acq_pending.join(before);
    }
    if (order & Release) ++f.vc.c[f.tid];
}
void fence(int order) {
    if (!S.active) return;
    auto& f = me();
    if (order & Acquire) f.vc.join(f.acq_pending);
    if (order & Release) {
        f.rel_fence = f.vc;
        ++f.vc.c[f.tid];
    }
}
void on_acquire(Obj& o) {
    if (!S.active) return;
    sync_obj(o);
    event(o, true, 3);
    me().vc.join(o.vc);
}
void on_release(Obj& o) {
    if (!S.active) return;
    sync_obj(o);
    event(o, true, 4);
    auto& f = me();
    o.vc.join(f.vc);
    ++f.vc.c[f.tid];
}

bool in_rt() { return S.in_rt; }
void set_in_rt(bool v) { S.in_rt = v; }

void wait_until(bool (*pred)(void*), void* arg, const char* what, bool spurious) {
    if (!S.active) {
        if (!pred(arg)) {
            std::fprintf(stderr, "blocking operation outside of an execution: %s\n", what);
            std::abort();
        }
        return;
    }
    point();
    {
        Quiet q;
        if (pred(arg)) return;
    }
    auto& f = me();
    f.pred = pred;
    f.pred_arg = arg;
    f.what = what;
    f.timed = false;
    f.spurious = spurious;
    schedule(false);
    f.spurious = false;
}

bool wait_or_timeout(bool (*pred)(void*), void* arg, const char* what) {
    if (!S.active) return pred(arg);
    point();
    {
        Quiet q;
        if (pred(arg)) return true;
    }
    auto& f = me();
    f.pred = pred;
    f.pred_arg = arg;
    f.what = what;
    f.timed = true;
    f.timed_out = false;
    schedule(false);
    f.timed = false;
    return !f.timed_out;
}

int spawn(std::function<void()> fn, Obj& o) {
    if (!S.active) {
        std::fprintf(stderr, "thread created outside of an execution\n");
        std::abort();
    }
    int tid;
    {
        Quiet q;
        auto& parent = me();
        auto& f = make_fiber(std::move(fn));
        f.vc = parent.vc;
        f.vc.c[f.tid] = 1;
        ++parent.vc.c[parent.tid];
        f.end_obj = std::make_unique<Obj>();
        tid = f.tid;
        sync_obj(o);
        event(o, true, 6);
    }
    point();
    return tid;
}

bool finished(int tid) { return S.fibers[tid]->done; }

void join(int tid) {
    wait_until([](void* a) { return finished(int(reinterpret_cast<intptr_t>(a))); }, reinterpret_cast<void*>(intptr_t(tid)), "join");
    Quiet q;
    auto& f = *S.fibers[tid];
    event(*f.end_obj, false, 7);
    me().vc.join(f.vc);
}

void at_exit(std::function<void()> fn) {
    Quiet q;
    if (S.active) me().exits.push_back(std::move(fn));
}

int live_threads() {
    int n = 0;
    for (auto& f : S.fibers) n += !f->done && f->tid != 0;
    return n;
}

void violation(const std::string& key, const std::string& msg) {
    if (!S.failed) {
        S.failed = true;
        S.key = key;
        S.msg = msg;
    }
    if (!S.active || S.cur < 0) throw S.msg;
    to_host();
    __builtin_trap();
}

void ignore_range(const void* p, size_t n) {
    if (shadow) shadow->forget(reinterpret_cast<uint64_t>(p), n);
}

Result explore(const Options& opt, const std::function<void()>& body, const std::function<void()>& after) {
    static bool once = [] {
        // Leave glibc's single-thread shortcuts: reference counts must be seen as atomics.
        pthread_t t;
        pthread_create(&t, nullptr, [](void*) -> void* { return nullptr; }, nullptr);
        pthread_join(t, nullptr);
        std::set_terminate([] {
            if (S.active && S.cur >= 0) {
                std::string what;
                if (auto e = std::current_exception()) {
                    try {
                        std::rethrow_exception(e);
                    } catch (const std::exception& x) { what = x.what(); } catch (...) { what = "unknown exception"; }
                }
                violation("terminate", "the program is terminated by thread " + std::to_string(S.cur) + " " + what);
            }
            std::abort();
        });
        return true;
    }();
    (void)once;
    if (!shadow) {
        shadow = new Shadow;
        raw_sync = new std::unordered_map<uint64_t, Obj>;
    }
    Result r;
    S.opt = opt;
    S.choices.clear();
    S.cache.clear();
    S.prefixes.clear();
    S.failed = false;
    S.nondet = false;
    S.points = 0;
    S.spawned = 0;
    for (;;) {
        S.gen++;
        S.fibers.clear();
        S.alive = 0;
        S.depth = 0;
        S.used = 0;
        S.no_branch = false;
        S.steps = 0;
        S.hb = 0x1234;
        S.cur = -1;
        shadow->reset();
        raw_sync->clear();
        S.host_made = 1u << 20;
        make_fiber(body);
        S.host_eh = *eh();
        S.active = true;
        S.cur = 0;
        vs_switch(&S.host_sp, S.fibers[0]->sp);
        S.active = false;
        S.cur = -1;
        ++r.executions;
        r.steps += S.steps;
        r.max_steps = std::max(r.max_steps, S.steps);
        if (!S.failed) {
            try {
                after();
            } catch (const std::string&) {}
        }
        if (S.failed) {
            r.failed = true;
            r.key = S.key;
            r.msg = S.msg;
            std::string s;
            for (auto& c : S.choices) {
                if (c.pick != 0) {
                    s += " @" + std::to_string(&c - S.choices.data()) + "->" + std::to_string(c.alts[c.pick]);
                }
            }
            r.schedule = s.empty() ? " (no deviation)" : s;
            break; // stacks of abandoned fibers are leaked on purpose
        }
        for (auto& f : S.fibers) S.stacks.push_back(f->stack);
        // Backtrack: deepest choice with an untried alternative inside the budget.
        S.choices.resize(S.depth);
        bool found = false;
        while (!S.choices.empty()) {
            auto& c = S.choices.back();
            if (!c.closed) {
                int used = 0;
                for (size_t i = 0; i + 1 < S.choices.size(); ++i) used += S.choices[i].cost[S.choices[i].pick];
                size_t p = c.pick + 1;
                while (p < c.alts.size() && used + c.cost[p] > opt.bound) ++p;
                if (p < c.alts.size()) {
                    c.pick = p;
                    found = true;
                    break;
                }
            }
            S.choices.pop_back();
        }
        if (!found) break;
        if (r.executions >= opt.max_executions) {
            r.capped = true;
            break;
        }
    }
    r.points = S.points;
    r.states = S.prefixes.size();
    r.spawned = S.spawned;
    r.prefixes = &S.prefixes;
    return r;
}

} // namespace vs

// ---- race instrumentation callbacks --------------------------------------------------
using vs::access;
#define ACC(n)                                                                  \
    extern "C" void __tsan_read##n(void* p) { access(p, n, false); }            \
    extern "C" void __tsan_write##n(void* p) { access(p, n, true); }            \
    extern "C" void __tsan_unaligned_read##n(void* p) { access(p, n, false); }  \
    extern "C" void __tsan_unaligned_write##n(void* p) { access(p, n, true); }  \
    extern "C" void __tsan_volatile_read##n(void* p) { access(p, n, false); }   \
    extern "C" void __tsan_volatile_write##n(void* p) { access(p, n, true); }
ACC(1) ACC(2) ACC(4) ACC(8) ACC(16)
extern "C" void __tsan_read_range(void* p, unsigned long n) { access(p, n, false); }
extern "C" void __tsan_write_range(void* p, unsigned long n) { access(p, n, true); }
extern "C" void __tsan_init() {}
extern "C" void __tsan_func_entry(void*) {}
extern "C" void __tsan_func_exit() {}
// Virtual-table pointer writes during construction/destruction are not data accesses.
extern "C" void __tsan_vptr_update(void**, void*) {}
extern "C" void __tsan_vptr_read(void**) {}

// Atomics of pre-compiled headers (reference counts and the like): no scheduling point, but
// they order memory.
static vs::Obj& raw(const volatile void* p) {
    return (*vs::raw_sync)[reinterpret_cast<uint64_t>(p)];
}
static void sync_rmw(const volatile void* p) {
    if (vs::S.active && vs::S.cur >= 0 && !vs::S.in_rt) {
        vs::Quiet q;
        auto& o = raw(p);
        auto& f = *vs::S.fibers[vs::S.cur];
        f.vc.join(o.vc);
        o.vc = f.vc;
        ++f.vc.c[f.tid];
    }
}
#define ATOMIC(bits, T)                                                                                        \
    extern "C" T __tsan_atomic##bits##_load(const volatile T* a, int) { sync_rmw(a); return *a; }              \
    extern "C" void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sync_rmw(a); *a = v; }              \
    extern "C" T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = o + v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = o - v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = o & v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = o | v; return o; } \
    extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sync_rmw(a); T o = *a; *a = o ^ v; return o; } \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) {         \
        sync_rmw(a);                                                                                           \
        if (*a == *c) { *a = v; return 1; }                                                                    \
        *c = *a;                                                                                               \
        return 0;                                                                                              \
    }                                                                                                          \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int m, int n) {       \
        return __tsan_atomic##bits##_compare_exchange_strong(a, c, v, m, n);                                   \
    }                                                                                                          \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) {               \
        sync_rmw(a);                                                                                           \
        T o = *a;                                                                                              \
        if (o == c) *a = v;                                                                                    \
        return o;                                                                                              \
    }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// Freed memory loses its access history.
extern "C" void __libc_free(void*);
extern "C" void free(void* p) {
    // Memory of the runtime itself is never in the shadow.
    if (p && vs::S.active && vs::shadow && !vs::S.in_shadow) {
        vs::S.in_shadow = true;
        vs::shadow->forget(reinterpret_cast<uint64_t>(p), malloc_usable_size(p));
        vs::S.in_shadow = false;
    }
    __libc_free(p);
}
extern "C" int __real_munmap(void* p, size_t n);
extern "C" int __wrap_munmap(void* p, size_t n) {
    if (vs::S.active && vs::shadow && !vs::S.in_shadow) {
        vs::shadow->forget(reinterpret_cast<uint64_t>(p), n);
    }
    return __real_munmap(p, n);
}
// Bulk copies of the instrumented unit are routed here (asm labels in vs.h).
extern "C" void* vs_memcpy(void* d, const void* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memcpy(d, s, n);
}
extern "C" void* vs_memmove(void* d, const void* s, size_t n) {
    access(s, n, false);
    access(d, n, true);
    return memmove(d, s, n);
}
extern "C" void* vs_memset(void* d, int c, size_t n) {
    access(d, n, true);
    return memset(d, c, n);
}
