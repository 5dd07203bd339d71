// Include first. Redirects the standard synchronisation primitives used by the code under
// test (and by the harness) to the controlled scheduler, without touching the code: every
// standard and third-party header is included first, then the names are replaced by macros.
#pragma once

#include <stddef.h>
extern "C" {
void* memcpy(void*, const void*, size_t) noexcept asm("vs_memcpy");
void* memmove(void*, const void*, size_t) noexcept asm("vs_memmove");
void* memset(void*, int, size_t) noexcept asm("vs_memset");
}

#include <bits/stdc++.h>
#include <fcntl.h>
#include <fmt/core.h>
#include <fmt/format.h>
#include <fmt/ostream.h>
#include <fmt/ranges.h>
#include <fmt/std.h>
#include <immintrin.h>
#include <signal.h>
#include <spdlog/common.h>
#include <spdlog/sinks/callback_sink.h>
#include <spdlog/sinks/null_sink.h>
#include <spdlog/sinks/stdout_sinks.h>
#include <spdlog/sinks/basic_file_sink.h>
#include <spdlog/spdlog.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <toml++/toml.h>
#include <unistd.h>
#include "mc.h"
#include "vs_rt.h"

namespace vs {
constexpr int map_order(std::memory_order o) {
    switch (o) {
        case std::memory_order_relaxed: return Relaxed;
        case std::memory_order_consume:
        case std::memory_order_acquire: return Acquire;
        case std::memory_order_release: return Release;
        default: return AcqRel;
    }
}
// Block until `f` holds; `f` must stay alive meanwhile (it lives on the waiter's stack).
template <typename F> void block(F& f, const char* what, bool spurious = false) {
    wait_until([](void* p) -> bool { return (*static_cast<F*>(p))(); }, &f, what, spurious);
}
template <typename F> bool block_timed(F& f, const char* what) {
    return wait_or_timeout([](void* p) -> bool { return (*static_cast<F*>(p))(); }, &f, what);
}
} // namespace vs

namespace std {

template <typename T> class verif_atomic {
    T v_;
    mutable vs::Obj o_{};

  public:
    using value_type = T;
    static constexpr bool is_always_lock_free = true;
    verif_atomic() noexcept : v_() {}
    verif_atomic(T v) noexcept : v_(v) {}
    verif_atomic(const verif_atomic&) = delete;
    verif_atomic& operator=(const verif_atomic&) = delete;
    bool is_lock_free() const noexcept { return true; }
    T load(memory_order m = memory_order_seq_cst) const {
        vs::point();
        vs::Quiet q;
        vs::on_read(o_, vs::map_order(m));
        return v_;
    }
    void store(T v, memory_order m = memory_order_seq_cst) {
        vs::point();
        vs::Quiet q;
        vs::on_write(o_, vs::map_order(m));
        v_ = v;
    }
    operator T() const { return load(); }
    T operator=(T v) {
        store(v);
        return v;
    }
    T exchange(T v, memory_order m = memory_order_seq_cst) {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o_, vs::map_order(m));
        T old = v_;
        v_ = v;
        return old;
    }
    bool compare_exchange_strong(T& e, T d, memory_order m, memory_order f) {
        vs::point();
        vs::Quiet q;
        if (v_ == e) {
            vs::on_rmw(o_, vs::map_order(m));
            v_ = d;
            return true;
        }
        vs::on_read(o_, vs::map_order(f));
        e = v_;
        return false;
    }
    bool compare_exchange_strong(T& e, T d, memory_order m = memory_order_seq_cst) {
        auto f = m == memory_order_acq_rel ? memory_order_acquire
                                           : (m == memory_order_release ? memory_order_relaxed : m);
        return compare_exchange_strong(e, d, m, f);
    }
    bool compare_exchange_weak(T& e, T d, memory_order m, memory_order f) {
        return compare_exchange_strong(e, d, m, f);
    }
    bool compare_exchange_weak(T& e, T d, memory_order m = memory_order_seq_cst) {
        return compare_exchange_strong(e, d, m);
    }
    template <typename F> T rmw(F&& f, memory_order m) {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o_, vs::map_order(m));
        T old = v_;
        v_ = f(old);
        return old;
    }
    template <typename U> T fetch_add(U x, memory_order m = memory_order_seq_cst) {
        return rmw([&](T a) { return T(a + x); }, m);
    }
    template <typename U> T fetch_sub(U x, memory_order m = memory_order_seq_cst) {
        return rmw([&](T a) { return T(a - x); }, m);
    }
    T fetch_and(T x, memory_order m = memory_order_seq_cst) {
        return rmw([&](T a) { return T(a & x); }, m);
    }
    T fetch_or(T x, memory_order m = memory_order_seq_cst) {
        return rmw([&](T a) { return T(a | x); }, m);
    }
    T fetch_xor(T x, memory_order m = memory_order_seq_cst) {
        return rmw([&](T a) { return T(a ^ x); }, m);
    }
    T operator++() { return T(fetch_add(1) + 1); }
    T operator++(int) { return fetch_add(1); }
    T operator--() { return T(fetch_sub(1) - 1); }
    T operator--(int) { return fetch_sub(1); }
    template <typename U> T operator+=(U x) { return T(fetch_add(x) + x); }
    template <typename U> T operator-=(U x) { return T(fetch_sub(x) - x); }
    T operator&=(T x) { return T(fetch_and(x) & x); }
    T operator|=(T x) { return T(fetch_or(x) | x); }
    T operator^=(T x) { return T(fetch_xor(x) ^ x); }
    void wait(T old, memory_order m = memory_order_seq_cst) const {
        auto f = [&] { return !(v_ == old); };
        vs::block(f, "atomic wait");
        vs::Quiet q;
        vs::on_read(o_, vs::map_order(m));
    }
    void notify_one() {}
    void notify_all() {}
};

class verif_atomic_flag {
    verif_atomic<bool> v_{false};

  public:
    bool test_and_set(memory_order m = memory_order_seq_cst) { return v_.exchange(true, m); }
    void clear(memory_order m = memory_order_seq_cst) { v_.store(false, m); }
    bool test(memory_order m = memory_order_seq_cst) const { return v_.load(m); }
};

inline void verif_atomic_thread_fence(memory_order m) {
    vs::point();
    vs::fence(vs::map_order(m));
}

class verif_shared_mutex {
    mutable vs::Obj o_{}, r_{}; // r_: what readers did, seen by writers only
    int writer_ = -1;
    int readers_ = 0;

  public:
    verif_shared_mutex() = default;
    verif_shared_mutex(const verif_shared_mutex&) = delete;
    verif_shared_mutex& operator=(const verif_shared_mutex&) = delete;
    void lock() {
        auto f = [this] { return writer_ < 0 && readers_ == 0; };
        vs::block(f, "lock");
        vs::Quiet q;
        vs::on_acquire(o_);
        vs::on_acquire(r_);
        writer_ = vs::self() < 0 ? 1000 : vs::self();
    }
    bool try_lock() {
        vs::point();
        vs::Quiet q;
        if (writer_ >= 0 || readers_ > 0) {
            vs::on_read(o_, vs::Relaxed);
            return false;
        }
        vs::on_acquire(o_);
        vs::on_acquire(r_);
        writer_ = vs::self() < 0 ? 1000 : vs::self();
        return true;
    }
    void unlock() {
        {
            vs::Quiet q;
            if (writer_ < 0 || (vs::active() && writer_ != vs::self())) {
                vs::violation("bad-unlock", "a mutex is unlocked by a thread that does not hold it");
            }
            vs::on_release(o_);
            writer_ = -1;
        }
    }
    void lock_shared() {
        auto f = [this] { return writer_ < 0; };
        vs::block(f, "shared lock");
        vs::Quiet q;
        vs::on_acquire(o_);
        ++readers_;
    }
    bool try_lock_shared() {
        vs::point();
        vs::Quiet q;
        if (writer_ >= 0) {
            vs::on_read(o_, vs::Relaxed);
            return false;
        }
        vs::on_acquire(o_);
        ++readers_;
        return true;
    }
    void unlock_shared() {
        vs::Quiet q;
        if (readers_ <= 0) {
            vs::violation("bad-unlock", "a shared mutex is unlocked more often than locked");
        }
        vs::on_release(r_);
        --readers_;
    }
    template <typename D> bool try_lock_for(const D&) {
        auto f = [this] { return writer_ < 0 && readers_ == 0; };
        if (!vs::block_timed(f, "timed lock")) return false;
        vs::Quiet q;
        vs::on_acquire(o_);
        vs::on_acquire(r_);
        writer_ = vs::self();
        return true;
    }
    template <typename D> bool try_lock_until(const D& d) { return try_lock_for(d); }
};

class verif_mutex {
    verif_shared_mutex m_;

  public:
    verif_mutex() = default;
    verif_mutex(const verif_mutex&) = delete;
    verif_mutex& operator=(const verif_mutex&) = delete;
    void lock() { m_.lock(); }
    bool try_lock() { return m_.try_lock(); }
    void unlock() { m_.unlock(); }
    template <typename D> bool try_lock_for(const D& d) { return m_.try_lock_for(d); }
    template <typename D> bool try_lock_until(const D& d) { return m_.try_lock_for(d); }
};

class verif_recursive_mutex {
    verif_mutex m_;
    int owner_ = -2, depth_ = 0;

  public:
    void lock() {
        if (owner_ == vs::self()) {
            ++depth_;
            return;
        }
        m_.lock();
        vs::Quiet q;
        owner_ = vs::self();
        depth_ = 1;
    }
    bool try_lock() {
        if (owner_ == vs::self()) {
            ++depth_;
            return true;
        }
        if (!m_.try_lock()) return false;
        vs::Quiet q;
        owner_ = vs::self();
        depth_ = 1;
        return true;
    }
    void unlock() {
        vs::Quiet q;
        if (--depth_ == 0) {
            owner_ = -2;
            m_.unlock();
        }
    }
};

class verif_condition_variable {
    struct Waiter {
        bool signaled = false;
    };
    vs::Obj o_{};
    std::deque<Waiter*> waiters_{};

    template <typename Lock> bool wait_impl(Lock& lock, bool timed) {
        Waiter w;
        vs::point();
        {
            vs::Quiet q;
            vs::on_rmw(o_, vs::Relaxed);
            waiters_.push_back(&w);
        }
        lock.unlock();
        auto f = [&w] { return w.signaled; };
        bool r = true;
        if (timed) {
            r = vs::block_timed(f, "condition variable (timed)");
        } else {
            vs::block(f, "condition variable", true);
        }
        {
            vs::Quiet q;
            vs::on_rmw(o_, vs::Relaxed);
            for (auto it = waiters_.begin(); it != waiters_.end(); ++it) {
                if (*it == &w) {
                    waiters_.erase(it);
                    break;
                }
            }
        }
        lock.lock();
        return r;
    }

  public:
    verif_condition_variable() = default;
    verif_condition_variable(const verif_condition_variable&) = delete;
    verif_condition_variable& operator=(const verif_condition_variable&) = delete;
    ~verif_condition_variable() {
        vs::Quiet q;
        if (!waiters_.empty() && vs::active()) {
            vs::violation("cv-destroyed", "a condition variable is destroyed while a thread waits on it");
        }
        std::deque<Waiter*>().swap(waiters_);
    }
    void notify_one() {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o_, vs::Relaxed);
        for (auto* w : waiters_) {
            if (!w->signaled) {
                w->signaled = true;
                break;
            }
        }
    }
    void notify_all() {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o_, vs::Relaxed);
        for (auto* w : waiters_) w->signaled = true;
    }
    template <typename Lock> void wait(Lock& lock) { wait_impl(lock, false); }
    template <typename Lock, typename P> void wait(Lock& lock, P pred) {
        while (!pred()) wait_impl(lock, false);
    }
    template <typename Lock, typename D> cv_status wait_for(Lock& lock, const D&) {
        return wait_impl(lock, true) ? cv_status::no_timeout : cv_status::timeout;
    }
    template <typename Lock, typename D, typename P> bool wait_for(Lock& lock, const D&, P pred) {
        while (!pred()) {
            if (!wait_impl(lock, true)) return pred();
        }
        return true;
    }
    template <typename Lock, typename D> cv_status wait_until(Lock& lock, const D& d) { return wait_for(lock, d); }
    template <typename Lock, typename D, typename P> bool wait_until(Lock& lock, const D& d, P pred) {
        return wait_for(lock, d, std::move(pred));
    }
};

struct verif_thread_id {
    int v = -1;
    friend bool operator==(verif_thread_id a, verif_thread_id b) = default;
    friend auto operator<=>(verif_thread_id a, verif_thread_id b) = default;
    template <typename S> friend S& operator<<(S& s, verif_thread_id i) {
        s << i.v;
        return s;
    }
};

class verif_thread {
    int tid_ = -1;
    vs::Obj o_{};

  public:
    using id = verif_thread_id;
    verif_thread() noexcept = default;
    template <typename F, typename... A>
        requires(!std::is_same_v<std::remove_cvref_t<F>, verif_thread>)
    explicit verif_thread(F&& f, A&&... a) {
        using Tuple = std::tuple<std::decay_t<F>, std::decay_t<A>...>;
        auto* p = new Tuple(std::forward<F>(f), std::forward<A>(a)...);
        tid_ = vs::spawn(
            [p] {
                std::unique_ptr<Tuple> own(p);
                std::apply(
                    [](auto& fn, auto&... args) { std::invoke(std::move(fn), std::move(args)...); }, *own
                );
            },
            o_
        );
    }
    verif_thread(const verif_thread&) = delete;
    verif_thread& operator=(const verif_thread&) = delete;
    verif_thread(verif_thread&& o) noexcept : tid_(std::exchange(o.tid_, -1)) {}
    verif_thread& operator=(verif_thread&& o) noexcept {
        if (joinable()) std::terminate();
        tid_ = std::exchange(o.tid_, -1);
        return *this;
    }
    ~verif_thread() {
        if (joinable()) std::terminate();
    }
    bool joinable() const noexcept { return tid_ >= 0; }
    void join() {
        if (!joinable() || tid_ == vs::self()) {
            throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        }
        vs::join(tid_);
        tid_ = -1;
    }
    void detach() {
        if (!joinable()) throw std::system_error(std::make_error_code(std::errc::invalid_argument));
        tid_ = -1;
    }
    id get_id() const noexcept { return {tid_}; }
    void swap(verif_thread& o) noexcept { std::swap(tid_, o.tid_); }
    static unsigned hardware_concurrency() noexcept { return 4; }
};
class verif_jthread : public verif_thread {
  public:
    using verif_thread::verif_thread;
    verif_jthread() = default;
    verif_jthread(verif_jthread&&) = default;
    verif_jthread& operator=(verif_jthread&& o) {
        if (joinable()) join();
        verif_thread::operator=(std::move(o));
        return *this;
    }
    ~verif_jthread() {
        if (joinable()) join();
    }
};

namespace this_thread {
inline void verif_yield() noexcept { vs::yield(); }
template <typename D> void verif_sleep_for(const D&) { vs::yield(); }
template <typename D> void verif_sleep_until(const D&) { vs::yield(); }
inline verif_thread_id verif_get_id() noexcept { return {vs::self()}; }
} // namespace this_thread

// Shared state of a promise / future pair.
template <typename R> struct verif_shared_state {
    using V = std::conditional_t<std::is_void_v<R>, char, R>;
    vs::Obj o{};
    bool stored = false, ready = false, retrieved = false;
    std::optional<V> value{};
    std::exception_ptr error{};
    void make_ready() {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o, vs::AcqRel);
        ready = true;
    }
};

template <typename R> class verif_future {
    std::shared_ptr<verif_shared_state<R>> s_{};
    using State = verif_shared_state<R>;

  public:
    verif_future() = default;
    explicit verif_future(std::shared_ptr<State> s) : s_(std::move(s)) {}
    verif_future(verif_future&& o) noexcept : s_(std::move(o.s_)) {}
    verif_future& operator=(verif_future&& o) noexcept {
        s_ = std::move(o.s_);
        return *this;
    }
    verif_future(const verif_future&) = delete;
    verif_future& operator=(const verif_future&) = delete;
    bool valid() const noexcept { return s_ != nullptr; }
    void wait() const {
        if (!s_) throw std::future_error(std::future_errc::no_state);
        auto* s = s_.get();
        auto f = [s] { return s->ready; };
        vs::block(f, "future");
        vs::Quiet q;
        vs::on_read(s->o, vs::Acquire);
    }
    template <typename D> std::future_status wait_for(const D&) const {
        auto* s = s_.get();
        auto f = [s] { return s->ready; };
        if (!vs::block_timed(f, "future (timed)")) return std::future_status::timeout;
        vs::Quiet q;
        vs::on_read(s->o, vs::Acquire);
        return std::future_status::ready;
    }
    template <typename D> std::future_status wait_until(const D& d) const { return wait_for(d); }
    R get() {
        wait();
        auto s = std::move(s_);
        s_.reset();
        if (s->error) std::rethrow_exception(s->error);
        if constexpr (!std::is_void_v<R>) return std::move(*s->value);
    }
};

template <typename R> class verif_promise {
    using State = verif_shared_state<R>;
    std::shared_ptr<State> s_ = std::make_shared<State>();

    void claim() {
        if (!s_) throw std::future_error(std::future_errc::no_state);
        vs::Quiet q;
        if (s_->stored) throw std::future_error(std::future_errc::promise_already_satisfied);
        s_->stored = true;
    }
    void finish(bool at_exit) {
        if (at_exit) {
            auto s = s_;
            vs::at_exit([s] { s->make_ready(); });
        } else {
            s_->make_ready();
        }
    }
    void abandon() {
        if (s_ && !s_->stored && s_.use_count() > 1 && s_->retrieved) {
            {
                vs::Quiet q;
                s_->stored = true;
                s_->error =
                    std::make_exception_ptr(std::future_error(std::future_errc::broken_promise));
            }
            s_->make_ready();
        }
    }
    void value(bool at_exit) {
        claim();
        finish(at_exit);
    }
    template <typename V> void value(V&& v, bool at_exit) {
        claim();
        {
            vs::Quiet q;
            s_->value.emplace(std::forward<V>(v));
        }
        finish(at_exit);
    }

  public:
    verif_promise() = default;
    verif_promise(verif_promise&& o) noexcept : s_(std::move(o.s_)) {}
    verif_promise& operator=(verif_promise&& o) noexcept {
        if (this != &o) {
            abandon();
            s_ = std::move(o.s_);
        }
        return *this;
    }
    verif_promise(const verif_promise&) = delete;
    verif_promise& operator=(const verif_promise&) = delete;
    ~verif_promise() { abandon(); }
    verif_future<R> get_future() {
        if (!s_) throw std::future_error(std::future_errc::no_state);
        vs::Quiet q;
        if (s_->retrieved) throw std::future_error(std::future_errc::future_already_retrieved);
        s_->retrieved = true;
        return verif_future<R>(s_);
    }
    template <typename... V> void set_value(V&&... v) { value(std::forward<V>(v)..., false); }
    template <typename... V> void set_value_at_thread_exit(V&&... v) {
        value(std::forward<V>(v)..., true);
    }
    void set_exception(std::exception_ptr e) {
        claim();
        s_->error = e;
        finish(false);
    }
    void set_exception_at_thread_exit(std::exception_ptr e) {
        claim();
        s_->error = e;
        finish(true);
    }
};

class verif_once_flag {
  public:
    verif_mutex m;
    bool done = false;
};
template <typename F, typename... A> void verif_call_once(verif_once_flag& f, F&& fn, A&&... a) {
    std::lock_guard<verif_mutex> l(f.m);
    if (!f.done) {
        std::invoke(std::forward<F>(fn), std::forward<A>(a)...);
        f.done = true;
    }
}

template <ptrdiff_t Max = 1 << 30> class verif_counting_semaphore {
    vs::Obj o_{};
    ptrdiff_t n_;

  public:
    explicit verif_counting_semaphore(ptrdiff_t n) : n_(n) {}
    void release(ptrdiff_t k = 1) {
        vs::point();
        vs::Quiet q;
        vs::on_release(o_);
        n_ += k;
    }
    void acquire() {
        auto f = [this] { return n_ > 0; };
        vs::block(f, "semaphore");
        vs::Quiet q;
        vs::on_acquire(o_);
        --n_;
    }
    bool try_acquire() {
        vs::point();
        vs::Quiet q;
        if (n_ <= 0) {
            vs::on_read(o_, vs::Relaxed);
            return false;
        }
        vs::on_acquire(o_);
        --n_;
        return true;
    }
};
using verif_binary_semaphore = verif_counting_semaphore<1>;

class verif_latch {
    vs::Obj o_{};
    ptrdiff_t n_;

  public:
    explicit verif_latch(ptrdiff_t n) : n_(n) {}
    void count_down(ptrdiff_t k = 1) {
        vs::point();
        vs::Quiet q;
        vs::on_rmw(o_, vs::AcqRel);
        n_ -= k;
    }
    void wait() {
        auto f = [this] { return n_ <= 0; };
        vs::block(f, "latch");
        vs::Quiet q;
        vs::on_read(o_, vs::Acquire);
    }
    bool try_wait() {
        vs::point();
        vs::Quiet q;
        vs::on_read(o_, vs::Acquire);
        return n_ <= 0;
    }
    void arrive_and_wait(ptrdiff_t k = 1) {
        count_down(k);
        wait();
    }
};

} // namespace std

#define atomic verif_atomic
#define atomic_flag verif_atomic_flag
#define atomic_thread_fence verif_atomic_thread_fence
#define atomic_bool verif_atomic<bool>
#define mutex verif_mutex
#define timed_mutex verif_mutex
#define recursive_mutex verif_recursive_mutex
#define shared_mutex verif_shared_mutex
#define shared_timed_mutex verif_shared_mutex
#define condition_variable verif_condition_variable
#define condition_variable_any verif_condition_variable
#define thread verif_thread
#define jthread verif_jthread
#define promise verif_promise
#define future verif_future
#define once_flag verif_once_flag
#define call_once verif_call_once
#define counting_semaphore verif_counting_semaphore
#define binary_semaphore verif_binary_semaphore
#define latch verif_latch
#define yield verif_yield
#define sleep_for verif_sleep_for
#define sleep_until verif_sleep_until
#define get_id verif_get_id
#define __builtin_ia32_pause() ::vs::pause_()
#define _mm_pause() ::vs::pause_()


// Violations found by the harness inside an execution.
#define VS_CHECK(cond, key, ...)                                  \
    do {                                                          \
        if (!(cond)) {                                            \
            ::vs::violation(key, ::mc::str(__VA_ARGS__));         \
        }                                                         \
    } while (0)

namespace vs {
// Explore one case and report its first violation as a violation of the case.
inline Result check(const Options& o, const std::function<void()>& body, const std::function<void()>& after) {
    auto r = explore(o, body, after);
    mc::transition(r.steps);
    mc::trace(r.executions);
    mc::evaluation(r.executions);
    mc::count("schedules", r.executions);
    mc::count("scheduling_points", r.points);
    mc::note_max("steps_of_one_execution", r.max_steps);
    static uint64_t salt = 0;
    ++salt;
    for (auto h : *r.prefixes) mc::state(mc::mix(h, salt * mc::ex().nshards + mc::ex().shard));
    if (r.capped) mc::count("capped_cases");
    if (r.failed) {
        if (r.key == "nondeterminism") {
            std::fprintf(stderr, "harness error: nondeterministic execution\n");
        }
        mc::fail(r.key, r.msg + " [execution " + std::to_string(r.executions) + ", switches:" + r.schedule + "]");
    }
    return r;
}
} // namespace vs
