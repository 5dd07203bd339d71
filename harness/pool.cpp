// C01: worker pools under every schedule within the preemption bound.
#include "sched/vs.h"

#include "svs/lib/threads.h"

namespace t = svs::threads;

static std::string g_case;
static constexpr size_t max_ids = 8;

struct Job {
    int hits[max_ids] = {};
    int out_of_range = 0;
    void operator()(size_t i) {
        if (i < max_ids) {
            ++hits[i];
        } else {
            ++out_of_range;
        }
    }
};

// One job handed to the pool: everybody exactly once, all finished on return.
template <typename Pool> void run_once(Pool& pool, size_t expected, bool wrapped) {
    Job job;
    if (wrapped) {
        t::run(pool, [&job](uint64_t i) { job(i); });
    } else {
        pool.run(t::FunctionRef(job));
    }
    VS_CHECK(job.out_of_range == 0, "worker-number", "a participant number out of range");
    for (size_t i = 0; i < max_ids; ++i) {
        int want = i < expected ? 1 : 0;
        VS_CHECK(
            job.hits[i] == want, "job-count", "participant ", i, " of ", expected,
            " ran the job ", job.hits[i], " times"
        );
    }
}

static void report(vs::Options o, const std::function<void()>& body) {


    vs::check(o, body, [] {
        VS_CHECK(vs::live_threads() == 0, "thread-leak", "threads outlive the pool");
    });
}

// Histories over a pool: r run, R wrapped run, 1..4 resize, m move-construct, a move-assign.
static void pool_history(size_t n, size_t spin, const std::string& ops, int bound) {
    vs::Options o;
    o.bound = bound;
    report(o, [&] {
        auto pool = std::make_unique<t::NativeThreadPool>(n, spin);
        size_t size = n;
        VS_CHECK(pool->size() == size, "pool-size", "new pool has size ", pool->size());
        for (char c : ops) {
            if (c == 'r' || c == 'R') {
                run_once(*pool, size, c == 'R');
            } else if (c == 'm') {
                auto next = std::make_unique<t::NativeThreadPool>(std::move(*pool));
                pool = std::move(next);
            } else if (c == 'a') {
                t::NativeThreadPool other(2, spin);
                other = std::move(*pool);
                pool = std::make_unique<t::NativeThreadPool>(std::move(other));
            } else {
                size_t k = c - '0';
                pool->resize(k);
                size = std::max<size_t>(k, 1);
            }
            VS_CHECK(pool->size() == size, "pool-size", "size ", pool->size(), " expected ", size);
        }
    });
}

// Histories over one worker: a assign, w wait, q request shutdown, s shutdown, m move.
static void worker_history(size_t spin, const std::string& ops, int bound) {
    vs::Options o;
    o.bound = bound;
    report(o, [&] {
        Job job;
        int assigned = 0;
        {
            auto w = std::make_unique<t::Thread>(spin);
            bool stopped = false;
            for (char c : ops) {
                if (c == 'a') {
                    if (stopped) {
                        continue;
                    }
                    w->assign(t::ThreadFunctionRef{t::FunctionRef(job), 3});
                    ++assigned;
                } else if (c == 'w') {
                    w->wait();
                    if (!stopped) {
                        VS_CHECK(
                            job.hits[3] == assigned, "job-count", "after wait the job ran ",
                            job.hits[3], " of ", assigned, " times"
                        );
                        VS_CHECK(w->is_running(), "worker-state", "an idle worker is not running");
                    }
                } else if (c == 'q') {
                    w->request_shutdown();
                    stopped = true;
                } else if (c == 's') {
                    w->shutdown();
                    stopped = true;
                    VS_CHECK(w->is_shutdown(), "worker-state", "shut down but not reported so");
                    VS_CHECK(
                        job.hits[3] == assigned, "job-count", "after shutdown the job ran ",
                        job.hits[3], " of ", assigned, " times"
                    );
                } else if (c == 'm') {
                    w = std::make_unique<t::Thread>(t::Thread(std::move(*w)));
                }
            }
        }
        VS_CHECK(
            job.hits[3] == assigned, "job-count", "the job ran ", job.hits[3], " of ", assigned,
            " times before the worker ended"
        );
    });
}

// Two callers share one pool.
static void shared_pool(size_t n, size_t spin, size_t runs, int bound, bool resize) {
    vs::Options o;
    o.bound = bound;
    report(o, [&] {
        t::NativeThreadPool pool(n, spin);
        std::thread other([&] {
            for (size_t i = 0; i < runs; ++i) {
                Job job;
                pool.run(t::FunctionRef(job));
                size_t total = 0;
                for (int h : job.hits) {
                    VS_CHECK(h <= 1, "job-count", "a participant ran the job twice");
                    total += h;
                }
                VS_CHECK(total >= 1 && (resize || total == n), "job-count", total, " participants ran the job of the second caller");
            }
        });
        if (resize) {
            pool.resize(1);
        } else {
            for (size_t i = 0; i < runs; ++i) {
                run_once(pool, n, false);
            }
        }
        other.join();
    });
}

// The worker's own phases: sleeping is reached and left.
static void wake_up(size_t spin, int bound) {
    vs::Options o;
    o.bound = bound;
    o.spurious = true;
    report(o, [&] {
        Job job;
        t::ThreadControlBlock<> block{};
        std::promise<void> p;
        auto f = p.get_future();
        std::thread w([&block, spin](std::promise<void>&& ch) { block.unsafe_run(std::move(ch), spin); }, std::move(p));
        block.wait_until_fully_asleep();
        block.assign(t::ThreadFunctionRef{t::FunctionRef(job), 0});
        block.wait_while_busy();
        VS_CHECK(job.hits[0] == 1, "job-count", "a woken worker ran the job ", job.hits[0], " times");
        block.wait_until_fully_asleep();
        block.shutdown();
        VS_CHECK(block.is_shutdown(), "worker-state", "not shut down");
        w.join();
        f.get();
    });
}

static void all_histories(const std::string& alphabet, size_t len, const std::function<void(const std::string&)>& f) {
    for (size_t n = 0; n <= len; ++n) {
        mc::tuples(n, alphabet.size(), [&](const std::vector<size_t>& v) {
            std::string s;
            for (auto i : v) {
                s += alphabet[i];
            }
            f(s);
        });
    }
}

static void body() {
    bool deep = mc::thorough();
    for (size_t spin : {1, 2}) {
        for (size_t n = 1; n <= (deep ? 4u : 3u); ++n) {
            size_t len = n >= 3 ? (deep ? 3 : 2) : (deep ? 4 : 3);
            int bound = n >= 3 ? (deep ? 3 : 2) : (deep ? 4 : 3);
            all_histories("rRm13a", len, [&](const std::string& ops) {
                // Histories with both kinds of run differ only by the wrapper: keep one.
                if (!deep && ops.find('R') != std::string::npos && ops.find('r') != std::string::npos) {
                    return;
                }
                int b = bound;
                if (ops.find('3') != std::string::npos || ops.find('a') != std::string::npos) {
                    b = std::min(b, deep ? 3 : 2);
                }
                mc::run(
                    [&] { return mc::str("pool n=", n, " spin=", spin, " bound=", b, " ops=", ops); },
                    [&] { pool_history(n, spin, ops, b); }
                );
            });
        }
        all_histories("awqsm", deep ? 5 : 4, [&](const std::string& ops) {
            int b = deep ? 5 : 3;
            mc::run(
                [&] { return mc::str("worker spin=", spin, " bound=", b, " ops=", ops); },
                [&] { worker_history(spin, ops, b); }
            );
        });
        for (size_t n = 1; n <= 3; ++n) {
            for (size_t runs = 1; runs <= 2; ++runs) {
                for (bool resize : {false, true}) {
                    int b = deep ? 3 : (n == 3 ? 1 : 2);
                    mc::run(
                        [&] { return mc::str("callers n=", n, " spin=", spin, " runs=", runs, " resize=", resize, " bound=", b); },
                        [&] { shared_pool(n, spin, runs, b, resize); }
                    );
                }
            }
        }
        mc::run([&] { return mc::str("wake spin=", spin); }, [&] { wake_up(spin, deep ? 6 : 4); });
    }
}

MC_MAIN("C01", body)
