// C02: jobs that fail, on every set of participants and every schedule within the bound.
#include "sched/vs.h"

#include "svs/lib/threads.h"

namespace t = svs::threads;

// What a participant does: '.' succeeds, 'e' std::exception, 'o' an exception with an empty
// text, 'i' an exception that is not a std::exception.
struct Job {
    std::string plan;
    int hits[8] = {};
    int running = 0;
    bool closed = false;
    void operator()(size_t i) {
        VS_CHECK(!closed, "late-job", "participant ", i, " started a job whose caller has left");
        VS_CHECK(i < plan.size(), "worker-number", "participant number ", i);
        ++hits[i];
        switch (plan[i]) {
            case 'e': throw std::runtime_error("reason-" + std::to_string(i) + ";");
            case 'o': throw std::runtime_error("");
            case 'i': throw int(7);
            default: break;
        }
    }
};

// Jobs stay readable until the execution ends so that a late start is caught.
static std::vector<std::unique_ptr<Job>> jobs;

static void run_plan(t::NativeThreadPool& pool, const std::string& plan, int how) {
    jobs.push_back(std::make_unique<Job>());
    Job* job = jobs.back().get();
    job->plan = plan;
    bool must = plan.find_first_not_of('.') != std::string::npos;
    bool thrown = false;
    std::string message;
    try {
        if (how == 0) {
            pool.run(t::FunctionRef(*job));
        } else if (how == 1) {
            t::run(pool, [&](uint64_t i) { (*job)(i); });
        } else {
            // one element per participant: a parallel loop
            std::vector<size_t> items(plan.size());
            t::run(pool, t::StaticPartition{items}, [&](const auto&, uint64_t i) { (*job)(i); });
        }
    } catch (const svs::threads::ThreadingException& e) {
        thrown = true;
        message = e.what();
    } catch (const std::exception& e) {
        VS_CHECK(false, "wrong-exception", "the pool failed with another exception: ", e.what());
    } catch (...) { VS_CHECK(false, "wrong-exception", "an exception of the job escaped"); }
    for (size_t i = 0; i < plan.size(); ++i) {
        VS_CHECK(job->hits[i] == 1, "job-count", "participant ", i, " ran the job ", job->hits[i], " times");
    }
    job->closed = true;
    VS_CHECK(thrown == must, "not-reported", "job failed: ", must, ", reported: ", thrown);
    for (size_t i = 0; i < plan.size() && must; ++i) {
        auto name = "Thread " + std::to_string(i) + ":";
        bool named = message.find(name) != std::string::npos;
        VS_CHECK(
            named == (plan[i] != '.'), "message", "participant ", i, (named ? " is" : " is not"),
            " named in: ", message
        );
        if (plan[i] == 'e') {
            VS_CHECK(
                message.find("reason-" + std::to_string(i) + ";") != std::string::npos, "message",
                "the text of participant ", i, " is missing in: ", message
            );
        }
    }
    VS_CHECK(pool.size() == plan.size(), "pool-size", "size changed to ", pool.size());
}

static void history(const std::vector<std::string>& plans, size_t spin, int how, int bound) {
    vs::Options o;
    o.bound = bound;
    vs::check(
        o,
        [&] {
            jobs.clear();
            t::NativeThreadPool pool(plans[0].size(), spin);
            for (auto& p : plans) {
                run_plan(pool, p, how);
            }
            std::string ok(plans[0].size(), '.');
            run_plan(pool, ok, how);
        },
        [] { VS_CHECK(vs::live_threads() == 0, "thread-leak", "threads outlive the pool"); }
    );
}

static void body() {
    bool deep = mc::thorough();
    const std::string kinds = ".eoi";
    for (size_t n = 1; n <= 4; ++n) {
        std::vector<std::string> plans;
        mc::tuples(n, kinds.size(), [&](const std::vector<size_t>& v) {
            std::string s;
            for (auto i : v) s += kinds[i];
            plans.push_back(s);
        });
        for (auto& p : plans) {
            bool fails = p.find_first_not_of('.') != std::string::npos;
            for (size_t spin : {1, 2}) {
                for (int how : {0, 1, 2}) {
                    // one failing job, then a good one
                    int b = n <= 2 ? (deep ? 4 : 3) : (n == 3 ? (deep ? 3 : 2) : (deep ? 2 : 1));
                    if (how && n >= 3 && !deep) b = 1;
                    if (fails) {
                        mc::run(
                            [&] { return mc::str("plan=", p, " spin=", spin, " how=", how, " bound=", b); },
                            [&] { history({p}, spin, how, b); }
                        );
                    }
                }
            }
            // two jobs in a row, the second may fail as well
            if (n > 3) continue;
            for (auto& q : plans) {
                if (n == 3 && (q.find_first_of("oi") != std::string::npos || p.find_first_of("oi") != std::string::npos)) continue;
                int b = n <= 2 ? (deep ? 3 : 2) : (deep ? 2 : 1);
                mc::run(
                    [&] { return mc::str("plans=", p, ",", q, " bound=", b); },
                    [&] { history({p, q}, 1, 0, b); }
                );
            }
        }
    }
}

MC_MAIN("C02", body)
