// C09: batches of queries on the static graph index.
#include "kit.h"
#include "svs/index/index.h"
#include "svs/index/vamana/index.h"

namespace v = svs::index::vamana;
using namespace kit;

struct World {
    Adj adj;
    Points points, queries;
    uint32_t ep;
    size_t degree;
    std::string str() const { return mc::str("graph ", show(adj), " points ", show(points), " from ", ep); }
};

struct Setting {
    size_t window, capacity;
    bool visited;
    size_t lookahead, step;
    v::VamanaSearchParameters params() const {
        return v::VamanaSearchParameters{v::SearchBufferConfig{window, capacity}, visited, lookahead, step};
    }
    std::string str() const { return mc::str("window ", window, "/", capacity, visited ? " filter" : "", " prefetch ", lookahead, "/", step); }
};

template <typename Dist, typename T = float, typename Q = float> struct Checker {
    using Data = svs::data::SimpleData<T>;
    using Graph = svs::graphs::SimpleGraph<uint32_t>;
    using Index = v::VamanaIndex<Graph, Data, Dist>;

    const World& w;
    size_t n;
    std::vector<char> reach;
    size_t nreach = 0;
    std::vector<std::vector<double>> d; // [query][point]
    std::vector<bool> ties;

    explicit Checker(const World& w_)
        : w{w_}
        , n{w_.points.size()}
        , reach{reachable(w_.adj, {w_.ep})} {
        for (auto r : reach) {
            nreach += r;
        }
        for (auto& q : w.queries) {
            d.emplace_back();
            for (auto& p : w.points) {
                d.back().push_back(truth(Dist(), q, p));
            }
            ties.push_back(has_ties(d.back()));
        }
    }

    Index index(size_t threads) const { return Index(graph(w.adj, w.degree), dataset<T>(w.points), w.ep, Dist(), threads); }

    template <typename I = size_t> std::vector<Row> search(Index& idx, const std::vector<size_t>& batch, size_t k, const Setting& s, int how) const {
        Points qs;
        for (auto q : batch) {
            qs.push_back(w.queries[q]);
        }
        auto queries = dataset<Q>(qs, w.points[0].size());
        auto result = svs::QueryResult<I>(batch.size(), k);
        poison(result, n > 1 ? 1 : 0);
        if (how == 0) {
            idx.search(result.view(), queries.cview(), s.params());
        } else if (how == 1) {
            idx.set_search_parameters(s.params());
            svs::index::search_batch_into(idx, result.view(), queries.cview());
        } else {
            // per-call parameters, while the index is set to something else
            idx.set_search_parameters(v::VamanaSearchParameters{v::SearchBufferConfig{n + 3}, true, 2, 2});
            svs::index::search_batch_into_with(idx, result.view(), queries.cview(), s.params());
        }
        std::vector<Row> r;
        for (size_t i = 0; i < batch.size(); ++i) {
            r.push_back(row(result, i));
            for (auto& x : r.back().ids) {
                if (x == none<I>) {
                    x = none<uint64_t>;
                }
            }
        }
        mc::transition(batch.size());
        return r;
    }

    // Everything that can be said about one answer.
    void oracle(const Row& r, size_t q, size_t k, const Setting& s) const {
        auto where = [&] { return mc::str(name(Dist()), " ", w.str(), " query ", mc::list(w.queries[q]), " ", s.str(), " k ", k); };
        size_t valid = check_row(
            r, Dist(), none<uint64_t>,
            [&](uint64_t id) -> std::optional<double> {
                return id < n && reach[id] ? std::optional<double>(d[q][id]) : std::nullopt;
            },
            where
        );
        // As in the documentation of search: the buffer grows to the requested number.
        size_t window = s.window, capacity = s.capacity;
        if (capacity < k) {
            window = capacity = k;
        }
        if (window >= nreach) {
            MC_CHECK(valid == std::min(k, nreach), "too-few", where(), " gave ", show(r), " with ", nreach, " reachable points");
            std::vector<std::pair<uint64_t, double>> m;
            for (size_t i = 0; i < n; ++i) {
                if (reach[i]) {
                    m.emplace_back(i, d[q][i]);
                }
            }
            check_exact(r, Dist(), k, m, where);
        }
        if (!ties[q]) {
            auto ref = best_first(w.adj, d[q], svs::distance::compare_t<Dist>(), {w.ep}, window, capacity);
            ref.resize(std::min(ref.size(), k));
            std::vector<uint64_t> ids(r.ids.begin(), r.ids.begin() + valid);
            MC_CHECK(
                std::equal(ids.begin(), ids.end(), ref.begin(), ref.end()), "best-first", where(), " gave ", show(r),
                " where a plain best-first search gives ", mc::list(ref)
            );
            mc::trace();
        }
        mc::evaluation();
        mc::state(mc::hash(where()));
        mc::outcome(mc::hash(show(r)));
    }

    void all(const std::vector<Setting>& settings, const std::vector<size_t>& ks, size_t batch_len, const std::vector<size_t>& threads) {
        size_t nq = w.queries.size();
        // Reference answers: one query at a time, on a fresh index, with one thread.
        std::map<std::tuple<size_t, size_t, size_t>, Row> base;
        for (size_t si = 0; si < settings.size(); ++si) {
            for (size_t k : ks) {
                for (size_t q = 0; q < nq; ++q) {
                    auto idx = index(1);
                    auto r = search(idx, {q}, k, settings[si], 0)[0];
                    oracle(r, q, k, settings[si]);
                    base[{si, k, q}] = r;
                }
            }
        }
        // The same for each setting of the tuning knobs that must not matter.
        for (size_t a = 0; a < settings.size(); ++a) {
            for (size_t b = 0; b < a; ++b) {
                if (settings[a].window == settings[b].window && settings[a].capacity == settings[b].capacity) {
                    for (size_t k : ks) {
                        for (size_t q = 0; q < nq; ++q) {
                            MC_CHECK((base[{a, k, q}] == base[{b, k, q}]), "depends-on-tuning", w.str(), " query ", q, " ", settings[a].str(), " gave ", show(base[{a, k, q}]), " but ", settings[b].str(), " gave ", show(base[{b, k, q}]));
                        }
                    }
                }
            }
        }
        for (size_t t : threads) {
            auto idx = index(t);
            int how = 0;
            for (size_t len = 0; len <= batch_len; ++len) {
                mc::tuples(len, nq, [&](const std::vector<size_t>& batch) {
                    for (size_t si = 0; si < settings.size(); ++si) {
                        for (size_t k : ks) {
                            if (t > 1 && (len < 2 || (si + k + len) % 3)) {
                                continue;
                            }
                            how = (how + 1) % 3;
                            auto r = how == 1 ? search<uint32_t>(idx, batch, k, settings[si], how) : search(idx, batch, k, settings[si], how);
                            for (size_t i = 0; i < batch.size(); ++i) {
                                MC_CHECK(
                                    (r[i] == base[{si, k, batch[i]}]), "depends-on-batch", name(Dist()), " ", w.str(), " query ",
                                    mc::list(w.queries[batch[i]]), " at place ", i, " of batch ", mc::list(batch), " with ", t, " threads, ",
                                    settings[si].str(), " k ", k, how == 1 ? " set on the index" : " per call", " gave ", show(r[i]), " instead of ",
                                    show(base[{si, k, batch[i]}])
                                );
                            }
                            mc::evaluation();
                        }
                    }
                });
            }
            // changing the thread count changes nothing, either
            if (t > 1) {
                idx.set_num_threads(1);
            } else {
                idx.set_num_threads(2);
            }
            std::vector<size_t> batch(nq);
            std::iota(batch.begin(), batch.end(), 0);
            for (size_t si = 0; si < settings.size(); ++si) {
                auto r = search(idx, batch, ks.back(), settings[si], 0);
                for (size_t i = 0; i < nq; ++i) {
                    MC_CHECK((r[i] == base[{si, ks.back(), i}]), "depends-on-threads", w.str(), " ", settings[si].str(), " gave ", show(r[i]), " instead of ", show(base[{si, ks.back(), i}]));
                }
            }
            // single searches with caller-provided scratch space, reused
            for (size_t si = 0; si < settings.size(); ++si) {
                auto scratch = idx.scratchspace(settings[si].params());
                for (size_t round = 0; round < 2; ++round) {
                    for (size_t q = 0; q < nq; ++q) {
                        std::vector<Q> query;
                        for (auto x : w.queries[q]) {
                            query.push_back(Q(x));
                        }
                        idx.search(std::span<const Q>(query), scratch);
                        size_t cap = settings[si].capacity;
                        for (size_t k : ks) {
                            if (k > cap) {
                                continue;
                            }
                            Row got, want = base[{si, k, q}];
                            for (size_t j = 0; j < k; ++j) {
                                bool in = j < scratch.buffer.size();
                                got.ids.push_back(in ? scratch.buffer[j].id() : none<uint64_t>);
                                got.dist.push_back(in ? scratch.buffer[j].distance() : want.dist[j]);
                            }
                            MC_CHECK(got == want, "scratch", w.str(), " single search of query ", q, " ", settings[si].str(), " gave ", show(got), " instead of ", show(want));
                        }
                    }
                }
            }
        }
    }
};

static std::vector<Setting> settings(size_t n) {
    std::vector<Setting> s;
    std::set<std::pair<size_t, size_t>> wc = {{1, 1}, {1, 3}, {2, 2}, {2, n}, {n, n}, {n + 1, n + 2}};
    int i = 0;
    for (auto [w, c] : wc) {
        if (w > c) {
            continue;
        }
        s.push_back({w, c, false, 0, 0});
        s.push_back({w, c, true, size_t(i % 3), size_t(1 + i % 2)});
        s.push_back({w, c, false, 4, 1});
        ++i;
    }
    return s;
}

static void body() {
    bool deep = mc::thorough();
    const Points distinct = {{0, 1}, {3, 2}, {-2, 4}, {7, -1}, {5, 6}, {-4, -3}};
    const Points tied = {{1, 0}, {0, 1}, {1, 0}, {-1, 0}, {2, 0}, {0, 2}};
    const Points queries = {{0.5f, 0.25f}, {6, 5}, {-3, 1}, {0, 1}};
    for (size_t n = 1; n <= 4; ++n) {
        size_t slots = n * (n - 1);
        for (uint64_t mask = 0; mask < (uint64_t(1) << slots); ++mask) {
            if (n == 4 && !deep && mask % 64 != (mask >> 6) % 64) {
                continue; // quick: one graph in 64, spread over all in- and out-degrees
            }
            World w;
            w.adj.resize(n);
            size_t b = 0;
            for (size_t i = 0; i < n; ++i) {
                for (size_t j = 0; j < n; ++j) {
                    if (i != j) {
                        if (mask >> b & 1) {
                            w.adj[i].push_back(j);
                        }
                        ++b;
                    }
                }
                if (mask & 1) {
                    std::reverse(w.adj[i].begin(), w.adj[i].end());
                }
            }
            w.degree = std::max<size_t>(1, n - 1);
            w.queries = queries;
            std::vector<size_t> ks = {1, 2, n, n + 2};
            std::sort(ks.begin(), ks.end());
            ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
            for (int tie = 0; tie < 2; ++tie) {
                auto& src = tie ? tied : distinct;
                w.points = Points(src.begin(), src.begin() + n);
                w.ep = mask % n;
                bool threads = mask % 8 == 5 || n < 3;
                auto id = [&](const char* what) { return mc::str(what, " n ", n, " graph ", mask, tie ? " ties" : ""); };
                auto ts = threads ? std::vector<size_t>{1, 2, 3} : std::vector<size_t>{1};
                size_t len = n < 4 ? 3 : 2;
                mc::run([&] { return id("L2"); }, [&] { Checker<svs::distance::DistanceL2>(w).all(settings(n), ks, len, ts); });
                mc::run([&] { return id("IP"); }, [&] { Checker<svs::distance::DistanceIP>(w).all(settings(n), ks, 2, ts); });
                mc::run([&] { return id("cosine"); }, [&] { Checker<svs::distance::DistanceCosineSimilarity>(w).all(settings(n), ks, 2, ts); });
            }
        }
    }
    // Other element types.
    for (uint64_t mask : {0ull, 7ull, 21ull, 42ull, 63ull}) {
        World w;
        w.adj = {{1, 2}, {2}, {0}};
        if (mask & 1) {
            w.adj[1] = {0, 2};
        }
        if (mask & 2) {
            w.adj[2] = {};
        }
        w.degree = 2;
        w.ep = mask % 3;
        w.points = {{0, 1, 3, 2, 9}, {3, 2, 1, 1, 0}, {2, 4, 8, 1, 1}};
        w.queries = {{1, 2, 3, 4, 5}, {0, 0, 9, 1, 1}, {3, 2, 1, 1, 1}};
        auto types = [&]<typename T, typename Q>(const char* what) {
            mc::run([&] { return mc::str("types ", what, " ", mask); }, [&] {
                Checker<svs::distance::DistanceL2, T, Q>(w).all(settings(3), {1, 3, 5}, 2, {1, 2});
                Checker<svs::distance::DistanceIP, T, Q>(w).all(settings(3), {1, 3, 5}, 2, {1, 2});
                Checker<svs::distance::DistanceCosineSimilarity, T, Q>(w).all(settings(3), {1, 3, 5}, 2, {1, 2});
            });
        };
        types.operator()<svs::Float16, float>("f16/f32");
        types.operator()<int8_t, int8_t>("i8/i8");
        types.operator()<uint8_t, uint8_t>("u8/u8");
        types.operator()<uint8_t, float>("u8/f32");
        types.operator()<float, svs::Float16>("f32/f16");
    }
    // Larger batches over a larger graph: every batch length and thread count in the range.
    for (size_t n : {40, 150}) {
        World w;
        for (size_t i = 0; i < n; ++i) {
            w.points.push_back({float(i % 13), float((i * 7) % 17), float((i * i) % 5)});
            std::vector<uint32_t> l = {uint32_t((i + 1) % n), uint32_t((i + 7) % n), uint32_t((i * 3 + 1) % n)};
            std::sort(l.begin(), l.end());
            l.erase(std::unique(l.begin(), l.end()), l.end());
            l.erase(std::remove(l.begin(), l.end(), uint32_t(i)), l.end());
            w.adj.push_back(l);
        }
        w.degree = 3;
        w.ep = 3;
        for (size_t i = 0; i < 30; ++i) {
            w.queries.push_back({float(i % 11) + 0.25f, float(i % 7) - 0.5f, float(i % 5)});
        }
        mc::run([&] { return mc::str("long batches n ", n); }, [&] {
            Checker<svs::distance::DistanceL2> c(w);
            for (auto s : {Setting{10, 10, false, 4, 1}, Setting{n, n, true, 1, 1}, Setting{5, 20, true, 0, 0}, Setting{300, 300, true, 2, 2}}) {
                std::vector<Row> base;
                for (size_t q = 0; q < w.queries.size(); ++q) {
                    auto idx = c.index(1);
                    base.push_back(c.search(idx, {q}, 10, s, 0)[0]);
                    c.oracle(base.back(), q, 10, s);
                }
                for (size_t t = 1; t <= 4; ++t) {
                    auto idx = c.index(t);
                    for (size_t len = 1; len <= 30; ++len) {
                        for (size_t rot : {size_t(0), len / 2}) {
                            std::vector<size_t> batch;
                            for (size_t i = 0; i < len; ++i) {
                                batch.push_back((i * 7 + rot) % 30);
                            }
                            auto r = c.search(idx, batch, 10, s, int(len % 3));
                            for (size_t i = 0; i < len; ++i) {
                                MC_CHECK(r[i] == base[batch[i]], "depends-on-batch", "n ", n, " batch of ", len, " with ", t, " threads: query ", batch[i], " at place ", i, " gave ", show(r[i]), " instead of ", show(base[batch[i]]));
                            }
                        }
                    }
                }
            }
        });
    }
}

MC_MAIN("C09", body)
