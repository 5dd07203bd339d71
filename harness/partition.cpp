// C03: parallel loops: all range lengths, team sizes, grain sizes and schedules in the bound.
#include "sched/vs.h"

#include "svs/lib/threads.h"

namespace t = svs::threads;

// Static scheduling, one participant after the other (the participants share nothing).
template <typename Space, typename Index>
static void static_case(size_t n, size_t team, const Space& space, Index&& index_of) {
    std::vector<int> seen(n, 0);
    size_t next = 0, smallest = ~size_t(0), largest = 0, called = 0;
    auto f = [&](const auto& range, uint64_t tid) {
        MC_CHECK(tid < team, "worker-number", "called with number ", tid);
        size_t k = 0;
        for (auto it = range.begin(); it != range.end(); ++it) {
            size_t i = index_of(*it);
            MC_CHECK(i < n, "outside", "index ", i, " is outside of the range of ", n);
            MC_CHECK(i == next, "order", "index ", i, " handed out where ", next, " was due");
            ++next;
            ++seen[i];
            ++k;
        }
        MC_CHECK(k == range.size(), "size", "chunk reports size ", range.size(), " but holds ", k);
        if (k > 0) {
            ++called;
            smallest = std::min(smallest, k);
            largest = std::max(largest, k);
        }
    };
    auto wrapped = t::thunks::wrap(t::ThreadCount{team}, f, space);
    for (size_t tid = 0; tid < team; ++tid) {
        wrapped(tid);
    }
    MC_CHECK(next == n, "missed", "only ", next, " of ", n, " indices visited");
    if (called > 0) {
        if (called < team) {
            smallest = 0;
        }
        MC_CHECK(largest - smallest <= 1, "balance", "chunk sizes from ", smallest, " to ", largest);
    }
    mc::transition(team);
    mc::evaluation();
    mc::trace();
    mc::state(mc::mix(n, team));
}

static void balance_case(uint64_t n, uint64_t team) {
    uint64_t next = 0, lo = ~uint64_t(0), hi = 0;
    for (uint64_t tid = 0; tid < team; ++tid) {
        auto r = t::balance(n, team, tid);
        if (r.empty()) {
            lo = 0;
            continue;
        }
        MC_CHECK(r.start() == next, "order", "part ", tid, " starts at ", r.start(), " not ", next);
        next = r.stop();
        lo = std::min<uint64_t>(lo, r.size());
        hi = std::max<uint64_t>(hi, r.size());
        mc::transition();
    }
    MC_CHECK(next == n, "missed", "parts end at ", next, " of ", n);
    MC_CHECK(n == 0 || hi - lo <= 1, "balance", "part sizes from ", lo, " to ", hi);
    mc::evaluation();
}

struct Chunk {
    uint64_t tid;
    std::vector<size_t> items;
};

enum Kind { Dynamic, Static };

// Under the scheduler: a pool or bare threads.
static void scheduled(Kind kind, size_t n, size_t team, size_t grain, bool pool, bool vec, int bound) {
    vs::Options o;
    o.bound = bound;
    std::vector<std::vector<Chunk>> chunks;
    std::vector<size_t> items(n);
    for (size_t i = 0; i < n; ++i) {
        items[i] = i;
    }
    vs::check(
        o,
        [&] {
            {
                vs::Quiet q;
                chunks.assign(team, {});
            }
            auto f = [&](const auto& range, uint64_t tid) {
                VS_CHECK(tid < team, "worker-number", "called with number ", tid);
                std::vector<size_t> v;
                for (auto x : range) {
                    v.push_back(x);
                }
                chunks[tid].push_back({tid, v});
            };
            auto go = [&](auto space) {
                if (pool) {
                    t::NativeThreadPool p(team, 1);
                    t::run(p, space, f);
                } else {
                    auto wrapped = t::thunks::wrap(t::ThreadCount{team}, f, space);
                    std::vector<std::thread> ts;
                    for (size_t tid = 1; tid < team; ++tid) {
                        ts.emplace_back([&wrapped, tid] { wrapped(tid); });
                    }
                    wrapped(0);
                    for (auto& th : ts) {
                        th.join();
                    }
                }
            };
            if (kind == Dynamic) {
                if (vec) {
                    go(t::DynamicPartition{items, grain});
                } else {
                    go(t::DynamicPartition{n, grain});
                }
            } else if (vec) {
                go(t::StaticPartition{items});
            } else {
                go(t::StaticPartition{n});
            }
        },
        [&] {
            std::vector<int> seen(n, 0);
            for (auto& per : chunks) {
                size_t last = 0;
                bool any = false;
                for (auto& c : per) {
                    VS_CHECK(kind == Static || c.items.size() <= grain, "grain", "a chunk of ", c.items.size(), " exceeds the grain size ", grain);
                    for (size_t i = 0; i < c.items.size(); ++i) {
                        VS_CHECK(c.items[i] < n, "outside", "index ", c.items[i], " outside of ", n);
                        VS_CHECK(i == 0 || c.items[i] == c.items[i - 1] + 1, "order", "a chunk is not contiguous");
                        VS_CHECK(!any || c.items[i] > last, "order", "a worker went backwards");
                        last = c.items[i];
                        any = true;
                        ++seen[c.items[i]];
                    }
                }
            }
            for (size_t i = 0; i < n; ++i) {
                VS_CHECK(seen[i] == 1, "visits", "index ", i, " of ", n, " visited ", seen[i], " times");
            }
        }
    );
}

static void body() {
    bool deep = mc::thorough();
    size_t max_n = deep ? 200 : 80, max_team = deep ? 70 : 34;
    for (size_t n = 0; n <= max_n; ++n) {
        for (size_t team = 1; team <= max_team; ++team) {
            mc::run([&] { return mc::str("static length n=", n, " team=", team); }, [&] {
                static_case(n, team, t::StaticPartition{n}, [](size_t i) { return i; });
            });
            mc::run([&] { return mc::str("static u32 n=", n, " team=", team); }, [&] {
                static_case(n, team, t::StaticPartition{uint32_t(n)}, [](size_t i) { return i; });
            });
            mc::run([&] { return mc::str("static start n=", n, " team=", team); }, [&] {
                static_case(n, team, t::StaticPartition{size_t(17), size_t(17 + n)}, [](size_t i) { return i - 17; });
            });
            mc::run([&] { return mc::str("static range n=", n, " team=", team); }, [&] {
                t::UnitRange<size_t> r{5, 5 + n};
                static_case(n, team, t::StaticPartition{r}, [](size_t i) { return i - 5; });
            });
            mc::run([&] { return mc::str("static vector n=", n, " team=", team); }, [&] {
                std::vector<size_t> v(n);
                for (size_t i = 0; i < n; ++i) {
                    v[i] = i * 3 + 1;
                }
                static_case(n, team, t::StaticPartition{v}, [](size_t i) { return (i - 1) / 3; });
            });
        }
    }
    for (uint64_t base : {uint64_t(1) << 31, uint64_t(1) << 32, uint64_t(1) << 33, uint64_t(1) << 53, uint64_t(1) << 62}) {
        for (int d = -9; d <= 9; ++d) {
            for (uint64_t team : {1, 2, 3, 7, 8, 64, 1000, 4099}) {
                mc::run([&] { return mc::str("balance n=", base + d, " team=", team); }, [&] { balance_case(base + d, team); });
            }
        }
    }
    // ranges
    for (size_t a = 0; a <= 4; ++a) {
        for (size_t b = 0; b <= 4; ++b) {
            mc::run([&] { return mc::str("unit range ", a, "..", b); }, [&] {
                t::UnitRange<size_t> r(a, b);
                size_t want = b > a ? b - a : 0;
                MC_CHECK(r.size() == want && r.empty() == (want == 0), "size", "size ", r.size(), " for ", a, "..", b);
                size_t k = 0;
                for (auto i : r) {
                    MC_CHECK(i == a + k && r[k] == i && r.at(k) == i && r.contains(i), "order", "element ", k, " is ", i);
                    ++k;
                }
                MC_CHECK(k == want, "size", "iteration yields ", k);
                MC_CHECK(mc::throws([&] { (void)r.at(want); }), "outside", "at(", want, ") is accepted");
                for (size_t i = 0; i <= 6; ++i) {
                    MC_CHECK(r.contains(i) == (i >= a && i < a + want), "outside", "contains(", i, ") is ", r.contains(i), " for ", a, "..", b);
                }
                auto pair = t::IteratorPair{r.begin(), r.end()};
                MC_CHECK(t::UnitRange<size_t>(pair) == r, "order", "range of iterators differs");
                auto e = r.eachindex();
                MC_CHECK(e.start() == 0 && e.size() == want, "size", "eachindex");
                mc::evaluation();
            });
        }
    }
    const size_t big = ~size_t(0);
    for (size_t team = 1; team <= 3; ++team) {
        for (size_t n = 0; n <= (deep ? 9u : 6u); ++n) {
            std::vector<size_t> grains;
            for (size_t g = 1; g <= n + 1; ++g) grains.push_back(g);
            for (size_t g : {big, big / 2 + 1, (big >> 2) + 1}) grains.push_back(g);
            for (size_t g : grains) {
                for (bool vec : {false, true}) {
                    int b = team <= 2 ? (deep ? 6 : 4) : (deep ? 4 : 3);
                    mc::run([&] { return mc::str("dynamic n=", n, " team=", team, " grain=", g, " vec=", vec, " bound=", b); },
                            [&] { scheduled(Dynamic, n, team, g, false, vec, b); });
                }
                int b = deep ? 2 : 1;
                mc::run([&] { return mc::str("dynamic pool n=", n, " team=", team, " grain=", g, " bound=", b); },
                        [&] { scheduled(Dynamic, n, team, g, true, false, b); });
            }
            int b = deep ? 2 : 1;
            mc::run([&] { return mc::str("static pool n=", n, " team=", team, " bound=", b); },
                    [&] { scheduled(Static, n, team, 1, true, false, b); });
        }
    }
    // Many chunks: one participant takes everything, the others come too late.
    for (size_t p : {8, 12, 15, 16, 17, deep ? 22 : 18}) {
        for (int d : {-1, 0, 1, 2, 77}) {
            for (size_t grain : {1, 2, 3, 64}) {
                for (size_t team : {1, 3}) {
                    mc::run([&] { return mc::str("dynamic long n=2^", p, "+", d, " grain=", grain, " team=", team); }, [&] {
                        size_t n = ((size_t(1) << p) + d) * (p <= 16 ? grain : 1);
                        size_t next = 0, chunks = 0;
                        auto f = [&](const auto& is, uint64_t) {
                            ++chunks;
                            MC_CHECK(!is.empty() && is.size() <= grain, "chunk", "a chunk of ", is.size(), " with grain ", grain);
                            for (auto i : is) {
                                MC_CHECK(size_t(i) == next, "order", "index ", size_t(i), " handed out after ", next, " indices in order");
                                ++next;
                            }
                        };
                        auto w = t::thunks::wrap(t::ThreadCount{team}, f, t::DynamicPartition(n, grain));
                        for (size_t tid = team; tid-- > 0;) {
                            w(tid);
                        }
                        MC_CHECK(next == n, "missing", next, " of ", n, " indices handed out");
                        mc::transition(chunks);
                        mc::trace();
                        mc::evaluation();
                    });
                }
            }
        }
    }
    // The enormous grain sizes overflow only with as many participants as it takes.
    for (size_t team : {4, 5, 6}) {
        for (size_t g : {big, big / 2 + 1, (big >> 2) + 1, (big >> 1) / 3 + 1}) {
            mc::run([&] { return mc::str("dynamic wide team=", team, " grain=", g); },
                    [&] { scheduled(Dynamic, 3, team, g, false, false, 1); });
        }
    }
}

MC_MAIN("C03", body)
