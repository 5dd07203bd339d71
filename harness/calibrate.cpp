// C29: calibration. Every monotone table of which (window, capacity) reaches the target, every
// option, behind a stand-in index and under a clock that advances as told, so that timing decisions
// are enumerated as well; then calibrations of real static, dynamic and type-erased indexes.
#include "dynworld.h"
#include "svs/core/logging.h"
#include "svs/core/recall.h"
#include "svs/index/vamana/calibrate.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/vamana.h"

namespace lib = svs::lib;
using std::string;
using SP = v::VamanaSearchParameters;
using CP = v::CalibrationParameters;
using Opt = CP::SearchBufferOptimization;

// A clock of our own while `ticking`.
static thread_local bool ticking = false;
static int64_t ticks = 0;
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    if (ticking) {
        return time_point(duration(ticks));
    }
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(int64_t(t.tv_sec) * 1000000000 + t.tv_nsec));
}
struct Ticking {
    Ticking() { ticking = true; }
    ~Ticking() { ticking = false; }
};

namespace fake {
struct Plain {};
struct Reranked {};
bool svs_invoke(const v::extensions::UsesReranking<Reranked>&) { return true; }

template <typename Data> struct Index {
    using data_type = Data;
    SP params;
    size_t degree;
    SP get_search_parameters() const { return params; }
    void set_search_parameters(const SP& p) { params = p; }
    size_t max_degree() const { return degree; }
};
} // namespace fake

static string show(const SP& p) {
    return mc::str("window ", p.buffer_config_.get_search_window_size(), " capacity ", p.buffer_config_.get_total_capacity(), p.search_buffer_visited_set_ ? " visited" : "", " lookahead ", p.prefetch_lookahead_, " step ", p.prefetch_step_);
}
static string show(const CP& c) {
    return mc::str("upper ", c.search_window_size_upper_, "/", c.search_window_capacity_upper_, " iterations ", c.timing_iterations_, " steps ", mc::list(c.prefetch_steps_), " ", fmt::format("{}", c.search_buffer_optimization_), c.train_prefetchers_ ? " prefetch" : "", c.use_existing_parameter_values_ ? " existing" : "");
}

// Which configurations reach the target: `need[w - 1]` is the least capacity for window w.
struct Table {
    std::vector<size_t> need;
    size_t nn;
    bool near = false; // whether the others miss it by a hair only
    bool reaches(size_t w, size_t c) const {
        if (c < nn) { // the indexes clamp like this
            w = c = nn;
        }
        return c >= need[std::min(w, need.size()) - 1];
    }
    double recall(size_t w, size_t c, double target) const {
        if (c < nn) {
            w = c = nn;
        }
        return reaches(w, c) ? target : near ? target - 1e-12 : target - 1.0 / (1 + w + c);
    }
};

template <typename Data> void one(Table t, const CP& cp, const SP& preset, size_t degree, int timing) {
    constexpr bool rerank = std::is_same_v<Data, fake::Reranked>;
    const double target = 0.7; // not a float
    t.near = timing % 2;
    fake::Index<Data> index{preset, degree};
    size_t calls = 0, recalls = 0;
    std::vector<std::pair<SP, int64_t>> timed;
    auto cost = [&](const SP& p) -> int64_t {
        size_t w = p.buffer_config_.get_search_window_size(), c = p.buffer_config_.get_total_capacity(), l = p.prefetch_lookahead_, s = p.prefetch_step_;
        switch (timing) {
            case 0: return 1000 * w + 10 * c + 5 * l + s;
            case 1: return 100000 - 1000 * w - 10 * c - 5 * l - s;
            case 2: return 1000 + mc::mix(mc::mix(w, c), mc::mix(l, s)) % 5;
            default: return 1000 + mc::mix(mc::mix(w, c * 3), mc::mix(l, s + 7)) % 100000;
        }
    };
    auto do_search = [&](const SP& p) {
        MC_CHECK(++calls < 20000, "endless", "20000 searches");
        // the first try of a configuration can be slower
        ticks += cost(p) + (calls % 3 == 0 ? 500 : 0);
        timed.emplace_back(p, cost(p) + (calls % 3 == 0 ? 500 : 0));
    };
    auto recall = [&](const SP& p) {
        MC_CHECK(++recalls < 5000, "endless", "5000 recall computations");
        return t.recall(p.buffer_config_.get_search_window_size(), p.buffer_config_.get_total_capacity(), target);
    };
    SP got;
    {
        Ticking on;
        got = v::calibrate(cp, index, t.nn, target, recall, do_search);
    }
    mc::transition(calls + recalls);
    auto where = [&] { return mc::str(show(cp), " preset ", show(preset), " least capacities ", mc::list(t.need), " neighbours ", t.nn, " degree ", degree, " timing ", timing, rerank ? " reranking" : "", " gave ", show(got)); };
    MC_CHECK(index.params == preset, "changed", where(), ": the index was changed to ", show(index.params));
    SP seed = cp.use_existing_parameter_values_ ? preset : SP();
    MC_CHECK(got.search_buffer_visited_set_ == seed.search_buffer_visited_set_, "kept", where());
    size_t w = got.buffer_config_.get_search_window_size(), c = got.buffer_config_.get_total_capacity();
    size_t seed_cap = seed.buffer_config_.get_total_capacity();
    // Search buffer
    size_t U = cp.search_window_size_upper_;
    bool converged = true;
    if (!cp.should_optimize_search_buffer()) {
        MC_CHECK(got.buffer_config_ == seed.buffer_config_, "kept", where());
    } else {
        bool tune_up = cp.search_buffer_optimization_ == Opt::ROITuneUp;
        auto cap = [&](size_t x) { return tune_up ? std::max(x, seed_cap) : x; };
        size_t lo = tune_up && seed_cap >= t.nn ? 1 : t.nn, best = lo;
        while (best < U && !t.reaches(best, cap(best))) {
            ++best;
        }
        converged = best < U;
        bool reachable = t.reaches(best, cap(best));
        MC_CHECK(!reachable || t.reaches(w, c), "recall", where(), ": misses the recall that window ", best, " reaches");
        MC_CHECK(c >= w && w >= 1, "range", where());
        if (cp.search_buffer_optimization_ != Opt::All || !converged || (!rerank && best != t.nn)) {
            MC_CHECK(w == best && c == cap(best), "smallest", where(), " instead of window ", best, " capacity ", cap(best));
        } else if (!rerank) {
            size_t s = 1;
            while (s < t.nn && !t.reaches(s, t.nn)) {
                ++s;
            }
            MC_CHECK(w == s && c == t.nn, "smallest", where(), " instead of window ", s, " capacity ", t.nn);
        } else {
            MC_CHECK(w <= best, "smallest", where(), ": window ", best, " suffices");
            MC_CHECK(c <= std::max(cp.search_window_capacity_upper_, best), "range", where());
            // Reranking: the fastest of the configurations that were timed for the buffer.
            int64_t mine = -1, base = -1;
            for (auto& [p, d] : timed) {
                if (p.prefetch_lookahead_ != seed.prefetch_lookahead_ || p.prefetch_step_ != seed.prefetch_step_) {
                    continue;
                }
                auto b = p.buffer_config_;
                if (b == got.buffer_config_ && (mine < 0 || d < mine)) {
                    mine = d;
                }
                if (b == v::SearchBufferConfig(best) && (base < 0 || d < base)) {
                    base = d;
                }
            }
            MC_CHECK(mine >= 0 && base >= 0 && mine <= base, "slower", where(), ": takes ", mine, " but window ", best, " takes ", base);
        }
    }
    // Prefetching
    if (!cp.train_prefetchers_ || !converged) {
        MC_CHECK(got.prefetch_lookahead_ == seed.prefetch_lookahead_ && got.prefetch_step_ == seed.prefetch_step_, "kept", where());
    } else {
        bool known = got.prefetch_lookahead_ == 0;
        for (auto s : cp.prefetch_steps_) {
            known = known || (s == got.prefetch_step_ && got.prefetch_lookahead_ <= degree);
        }
        MC_CHECK(known, "prefetch", where());
    }
    mc::outcome(mc::hash(show(got)));
    mc::evaluation();
    mc::trace();
}

// Every table of least capacities, nonincreasing in the window.
static void tables(size_t windows, size_t caps, const std::function<void(const std::vector<size_t>&)>& f) {
    std::vector<size_t> need(windows);
    std::function<void(size_t, size_t)> go = [&](size_t i, size_t top) {
        if (i == windows) {
            f(need);
            return;
        }
        for (size_t c = 1; c <= top; ++c) {
            need[i] = c;
            go(i + 1, c);
        }
    };
    go(0, caps);
}

static void buffers(size_t size) {
    tables(size, size + 2, [&](const std::vector<size_t>& need) {
        mc::run([&] { return mc::str("tables ", mc::list(need)); }, [&] {
            for (size_t nn = 1; nn <= size; ++nn) {
                for (auto opt : {Opt::Disable, Opt::All, Opt::ROIOnly, Opt::ROITuneUp}) {
                    for (size_t flags = 0; flags < 4; ++flags) {
                        for (auto [U, C] : std::vector<std::pair<size_t, size_t>>{{size, size + 1}, {size + 1, size + 3}, {2, 2}, {size, 2}}) {
                            for (auto [pw, pc] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 3}, {size, size}}) {
                                CP cp;
                                cp.search_window_size_upper_ = U;
                                cp.search_window_capacity_upper_ = C;
                                cp.timing_iterations_ = 1 + (nn + flags) % 3;
                                cp.search_timeout_ = (nn + U) % 2 ? 0.125 : 1e-6;
                                cp.search_buffer_optimization_ = opt;
                                cp.train_prefetchers_ = flags & 1;
                                cp.use_existing_parameter_values_ = flags & 2;
                                cp.prefetch_steps_ = nn % 2 ? std::vector<size_t>{1, 2, 4} : std::vector<size_t>{3};
                                SP preset{{pw, pc}, bool(nn & 1), 7 + nn, 5};
                                Table t{need, nn};
                                one<fake::Plain>(t, cp, preset, 1 + (nn * 5 + pw) % 9, int(nn % 4));
                                for (int timing = 0; timing < 4; ++timing) {
                                    one<fake::Reranked>(t, cp, preset, 1 + (nn * 3 + pc) % 9, timing);
                                }
                            }
                        }
                    }
                }
            }
            mc::state(mc::list(need));
        });
    });
}

// Every table of three run times per (lookahead, step): the choice is a fastest of what was tried.
static void prefetch(size_t degree, const std::vector<size_t>& steps) {
    size_t cells = 1 + degree * steps.size(), total = 1;
    for (size_t i = 0; i < cells; ++i) {
        total *= 3;
    }
    for (size_t base = 0; base < total; base += 729) {
        mc::run([&] { return mc::str("prefetch degree ", degree, " steps ", mc::list(steps), " #", base); }, [&] {
            for (size_t code = base; code < std::min(base + 729, total); ++code) {
                std::vector<int64_t> time(cells);
                for (size_t i = 0, x = code; i < cells; ++i, x /= 3) {
                    time[i] = 1000 * (1 + x % 3);
                }
                CP cp;
                cp.timing_iterations_ = 1 + code % 2;
                cp.prefetch_steps_ = steps;
                cp.search_buffer_optimization_ = Opt::Disable;
                SP preset{{5, 8}, true, 3, 2};
                fake::Index<fake::Plain> index{preset, degree};
                int64_t best = 1 << 30;
                size_t calls = 0;
                auto cell = [&](const SP& p) -> size_t {
                    if (p.prefetch_lookahead_ == 0) {
                        return 0;
                    }
                    size_t s = std::find(steps.begin(), steps.end(), p.prefetch_step_) - steps.begin();
                    MC_CHECK(s < steps.size() && p.prefetch_lookahead_ <= degree, "prefetch", "tried ", show(p), " for degree ", degree, " steps ", mc::list(steps));
                    return 1 + s * degree + (p.prefetch_lookahead_ - 1);
                };
                SP got;
                {
                    Ticking on;
                    got = v::calibrate(cp, index, 5, 0.9, [&](const SP&) -> double { mc::fail("recall", "asked for recall"); }, [&](const SP& p) {
                        MC_CHECK(++calls < 20000, "endless", "20000 searches");
                        MC_CHECK(p.buffer_config_ == preset.buffer_config_ && p.search_buffer_visited_set_, "kept", "searches with ", show(p));
                        int64_t d = time[cell(p)];
                        ticks += d;
                        best = std::min(best, d);
                    });
                }
                mc::transition(calls);
                MC_CHECK(got.buffer_config_ == preset.buffer_config_ && got.search_buffer_visited_set_, "kept", show(got));
                MC_CHECK(time[cell(got)] == best, "slower", "degree ", degree, " steps ", mc::list(steps), " times ", mc::list(time), ": chose ", show(got), " taking ", time[cell(got)], " but had tried one taking ", best);
                mc::outcome(mc::hash(show(got)));
                mc::evaluation();
                mc::trace();
            }
            mc::state(mc::str("prefetch", degree, mc::list(steps), base));
        });
    }
}

// Real indexes -------------------------------------------------------------------------------------
static Points cloud(size_t n, size_t d, uint64_t seed) {
    Points p(n, Point(d));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            p[i][j] = float(int64_t(mc::mix(seed * 1000 + i, j) % 2001) - 1000) / 10;
        }
    }
    return p;
}
template <typename Index> string answers(Index& index, const svs::data::SimpleData<float>& queries) {
    string s;
    for (size_t w : {1, 3, 8}) {
        for (bool visited : {false}) {
            auto r = svs::QueryResult<size_t>(queries.size(), 3);
            index.search(r.view(), queries.cview(), SP{{w, w + 1}, visited, 4, 1});
            for (size_t i = 0; i < queries.size(); ++i) {
                s += show(row(r, i));
            }
        }
    }
    return s;
}
// `search(params, result)` searches the index for the calibration queries.
template <typename Index, typename Calibrate, typename Search, typename Answers>
void calibrated(Index& index, const Points& pts, const Points& qs, size_t nn, double target, const CP& cp, Calibrate&& calibrate, Search&& search, Answers&& fixed, const string& what) {
    // ground truth
    auto truths = svs::data::SimpleData<uint32_t>(qs.size(), nn);
    for (size_t i = 0; i < qs.size(); ++i) {
        std::vector<std::pair<double, uint32_t>> d;
        for (size_t j = 0; j < pts.size(); ++j) {
            d.emplace_back(truth(svs::DistanceL2(), qs[i], pts[j]), uint32_t(j));
        }
        std::sort(d.begin(), d.end());
        for (size_t j = 0; j < nn; ++j) {
            truths.get_datum(i)[j] = d[j].second;
        }
    }
    auto recall = [&](const SP& p) {
        auto r = svs::QueryResult<size_t>(qs.size(), nn);
        search(p, r);
        size_t hits = 0;
        for (size_t i = 0; i < qs.size(); ++i) {
            for (size_t j = 0; j < nn; ++j) {
                for (size_t k = 0; k < nn; ++k) {
                    hits += r.index(i, j) == truths.get_datum(i)[k];
                }
            }
        }
        return double(hits) / (nn * qs.size());
    };
    SP before = index.get_search_parameters();
    SP seed = cp.use_existing_parameter_values_ ? before : SP();
    auto fixed_before = fixed();
    size_t size = index.size(), dims = index.dimensions(), threads = index.get_num_threads();
    SP got;
    {
        Ticking on;
        got = calibrate(truths, nn, target, cp);
    }
    auto where = [&] { return mc::str(what, " neighbours ", nn, " target ", target, " ", show(cp), " before ", show(before), " gave ", show(got)); };
    SP now = index.get_search_parameters();
    MC_CHECK(now == got, "not-set", where(), " but the index has ", show(now));
    MC_CHECK(index.size() == size && index.dimensions() == dims && index.get_num_threads() == threads, "changed", where());
    MC_CHECK(fixed() == fixed_before, "changed", where(), ": searches with fixed parameters answer differently");
    MC_CHECK(got.search_buffer_visited_set_ == seed.search_buffer_visited_set_, "kept", where());
    size_t w = got.buffer_config_.get_search_window_size(), U = cp.search_window_size_upper_;
    if (cp.should_optimize_search_buffer()) {
        double have = recall(got);
        bool tune_up = cp.search_buffer_optimization_ == Opt::ROITuneUp;
        size_t cap = seed.buffer_config_.get_total_capacity(), lo = tune_up && cap >= nn ? 1 : nn;
        bool monotone = true, any = false;
        double last = -1, at_end = 0;
        size_t best = U;
        for (size_t x = lo; x <= U; ++x) {
            SP p = seed;
            p.buffer_config_ = tune_up ? v::SearchBufferConfig(x, std::max(x, cap)) : v::SearchBufferConfig(x);
            double r = recall(p);
            monotone = monotone && r >= last;
            last = at_end = r;
            if (r >= target && !any) {
                any = true;
                best = x;
            }
        }
        if (monotone) {
            MC_CHECK(!any || have >= target, "recall", where(), " with recall ", have, " though window ", best, " reaches the target");
            MC_CHECK(any || have >= at_end, "recall", where(), " with recall ", have, " though ", at_end, " is possible");
            MC_CHECK(w <= best, "smallest", where(), ": window ", best, " suffices");
            if (cp.search_buffer_optimization_ != Opt::All) {
                MC_CHECK(w == best, "smallest", where(), ": window ", best, " suffices");
            }
            mc::count("monotone");
        }
        MC_CHECK(have >= target || w >= U || w >= at_end, "recall", where(), " with recall ", have);
    } else {
        MC_CHECK(got.buffer_config_ == seed.buffer_config_, "kept", where());
    }
    if (!cp.train_prefetchers_) {
        MC_CHECK(got.prefetch_lookahead_ == seed.prefetch_lookahead_ && got.prefetch_step_ == seed.prefetch_step_, "kept", where());
    }
    mc::outcome(mc::hash(show(got)));
    mc::evaluation();
    mc::trace();
}

static void real(size_t n, size_t degree) {
    for (auto opt : {Opt::Disable, Opt::All, Opt::ROIOnly, Opt::ROITuneUp}) {
        for (size_t nn : {1, 2, 4}) {
            mc::run([&] { return mc::str("real ", n, " points degree ", degree, " option ", int(opt), " neighbours ", nn); }, [&] {
                auto pts = cloud(n, 2, 3), qs = cloud(6, 2, 77);
                auto queries = dataset(qs);
                v::VamanaBuildParameters bp{1.0f, degree, 6, 12, degree, true};
                auto index = v::auto_build(bp, dataset(pts), svs::DistanceL2(), 1);
                std::vector<size_t> ids(n);
                std::iota(ids.begin(), ids.end(), size_t(0));
                using Dynamic = World<svs::DistanceL2>::Index;
                auto small = [&] {
                    svs::data::BlockingParameters block;
                    block.blocksize_bytes = svs::lib::prevpow2(64);
                    graph_block = 8;
                    using Alloc = World<svs::DistanceL2>::Alloc;
                    return fill(Dynamic::data_type(n, 2, Alloc(block)), pts);
                };
                auto dynamic = Dynamic(bp, small(), ids, svs::DistanceL2(), 1);
                auto erased = svs::Vamana::build<float>(bp, dataset(pts), svs::DistanceL2(), 2);
                auto erased_dynamic = svs::DynamicVamana(svs::DynamicVamana::AssembleTag(), svs::lib::Types<float>(), Dynamic(bp, small(), ids, svs::DistanceL2(), 1));
                for (double target : {0.2, 0.5, 0.8, 1.0, 1.1}) {
                    for (size_t flags = 0; flags < 4; ++flags) {
                        for (size_t U : {size_t(5), n + 3}) {
                            for (SP preset : {SP{{3, 3}, U == 5 && flags == 3, 9, 5}, SP{{2, 6}, false, 2, 2}}) {
                                CP cp;
                                cp.search_window_size_upper_ = U;
                                cp.search_window_capacity_upper_ = n;
                                cp.timing_iterations_ = 1;
                                cp.search_buffer_optimization_ = opt;
                                cp.train_prefetchers_ = flags & 1;
                                cp.use_existing_parameter_values_ = flags & 2;
                                auto go = [&](auto& x, auto&& calibrate, auto&& search, auto&& fixed, const char* what) {
                                    x.set_search_parameters(preset);
                                    calibrated(x, pts, qs, nn, target, cp, calibrate, search, fixed, what);
                                };
                                auto concrete = [&](auto& x, const char* what) {
                                    go(x, [&](const svs::data::SimpleData<uint32_t>& t, size_t k, double goal, const CP& c) { return x.calibrate(queries, t, k, goal, c); },
                                        [&](const SP& p, auto& r) { x.search(r.view(), queries.cview(), p); }, [&] { return answers(x, queries); }, what);
                                };
                                auto through = [&](auto& x, const char* what) {
                                    auto search = [&](const SP& p, auto& r) {
                                        x.search(r.view(), queries.cview(), p);
                                    };
                                    go(x, [&](const svs::data::SimpleData<uint32_t>& t, size_t k, double goal, const CP& c) { return x.experimental_calibrate(queries, t, k, goal, c); },
                                        search, [&] {
                                            auto r = svs::QueryResult<size_t>(qs.size(), 3);
                                            search(SP{{4, 5}, false, 4, 1}, r);
                                            string s;
                                            for (size_t i = 0; i < qs.size(); ++i) {
                                                s += show(row(r, i));
                                            }
                                            return s;
                                        }, what);
                                };
                                concrete(index, "static");
                                concrete(dynamic, "dynamic");
                                if (target == 0.8 && U == 5) {
                                    through(erased, "type-erased static");
                                    through(erased_dynamic, "type-erased dynamic");
                                }
                                mc::transition(4);
                            }
                        }
                    }
                }
                mc::state(mc::str("real", n, degree, int(opt), nn));
            });
        }
    }
}

static void body() {
    auto logger = svs::logging::get();
    svs::logging::set_level(svs::logging::Level::Off);
    bool deep = mc::thorough();
    for (size_t size = 2; size <= (deep ? 6 : 5); ++size) {
        buffers(size);
    }
    for (size_t degree = 1; degree <= (deep ? 9 : 8); ++degree) {
        prefetch(degree, {1});
    }
    for (size_t degree = 1; degree <= (deep ? 5 : 4); ++degree) {
        prefetch(degree, {1, 3});
    }
    prefetch(2, {1, 2, 4});
    prefetch(3, {4, 2, 1});
    prefetch(9, {});
    real(12, 3);
    real(30, 2);
    if (deep) {
        real(60, 4);
    }
}
MC_MAIN("C29", body)
