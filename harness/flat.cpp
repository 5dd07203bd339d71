// C15: exhaustive search and its top-k structures.
#include "kit.h"
#include "svs/index/flat/flat.h"
#include "svs/index/index.h"

namespace f = svs::index::flat;
using namespace kit;
using L2 = svs::distance::DistanceL2;
using IP = svs::distance::DistanceIP;
using Cos = svs::distance::DistanceCosineSimilarity;

// ---- top-k structures -----------------------------------------------------------------------

using Entry = svs::Neighbor<size_t>;

template <typename Cmp> std::vector<float> best(std::vector<float> d, size_t k) {
    std::stable_sort(d.begin(), d.end(), Cmp());
    d.resize(std::min(d.size(), k));
    return d;
}

// Whatever was kept: the best k distances, each with an identifier it was inserted with.
template <typename Cmp, typename Range>
void check_top(const Range& got, const std::vector<float>& seq, size_t k, const std::function<std::string()>& where) {
    auto want = best<Cmp>(seq, k);
    std::set<size_t> ids;
    for (size_t j = 0; j < k; ++j) {
        const auto& e = got[j];
        if (j < want.size()) {
            MC_CHECK(e.distance() == want[j], "top-k", where(), ": place ", j, " holds distance ", e.distance(), " instead of ", want[j]);
            MC_CHECK(e.id() < seq.size() && seq[e.id()] == e.distance(), "top-k", where(), ": place ", j, " pairs ", e.id(), " with ", e.distance());
            MC_CHECK(ids.insert(e.id()).second, "top-k", where(), ": ", e.id(), " kept twice");
        } else {
            MC_CHECK(e.id() == none<size_t>, "top-k", where(), ": place ", j, " holds ", e.id(), " though only ", want.size(), " were inserted");
        }
    }
    mc::evaluation();
    mc::outcome(mc::hash(mc::list(want)));
}

template <typename Cmp> void inserters(const std::vector<std::vector<float>>& seqs, size_t k) {
    auto where = [&](const char* what, size_t i) { return mc::str(what, std::is_same_v<Cmp, std::less<>> ? " ascending" : " descending", " k ", k, " after ", mc::list(seqs[i])); };
    std::vector<Entry> storage(k, Entry{3, 0.0f});
    for (int reuse = 0; reuse < 2; ++reuse) {
        auto lin = f::LinearInserter(storage.begin(), storage.end(), Cmp());
        lin.prepare();
        for (size_t i = 0; i < seqs[0].size(); ++i) {
            lin.insert({i, seqs[0][i]});
            mc::transition();
            std::vector<float> head(seqs[0].begin(), seqs[0].begin() + i + 1);
            check_top<Cmp>(storage, head, k, [&] { return where("linear", 0); });
        }
        lin.cleanup();
        check_top<Cmp>(storage, seqs[0], k, [&] { return where("linear", 0); });
        auto heap = f::HeapInserter(storage.begin(), storage.end(), Cmp());
        heap.prepare();
        for (size_t i = 0; i < seqs[0].size(); ++i) {
            heap.insert({i, seqs[0][i]});
            mc::transition();
        }
        heap.cleanup();
        check_top<Cmp>(storage, seqs[0], k, [&] { return where("heap", 0); });
    }
    // several lists at once, interleaved; used again, also with other sizes
    f::BulkInserter<Entry, Cmp> bulk(seqs.size(), k, Cmp());
    f::BulkInserter<Entry, Cmp> other(1, 2, Cmp());
    other.resize(seqs.size(), 1);
    other.resize_neighbors(k);
    for (int reuse = 0; reuse < 2; ++reuse) {
        for (auto* b : {&bulk, &other}) {
            MC_CHECK(b->batch_size() == seqs.size() && b->num_neighbors() == k, "size", "bulk structure of ", b->batch_size(), "x", b->num_neighbors());
            b->prepare();
            size_t longest = 0;
            for (auto& s : seqs) {
                longest = std::max(longest, s.size());
            }
            for (size_t i = 0; i < longest; ++i) {
                for (size_t r = 0; r < seqs.size(); ++r) {
                    if (i < seqs[r].size()) {
                        b->insert(r, {i, seqs[r][i]});
                        mc::transition();
                    }
                }
            }
            b->cleanup();
            for (size_t r = 0; r < seqs.size(); ++r) {
                check_top<Cmp>(b->result(r), seqs[r], k, [&] { return where("bulk", r); });
                for (size_t j = 0; j < k; ++j) {
                    MC_CHECK(b->view().at(r, j).id() == b->result(r)[j].id(), "view", where("bulk", r), ": view differs at ", j);
                }
            }
        }
    }
    mc::state(mc::hash(where("", 0)));
    mc::trace();
}

// ---- the index ------------------------------------------------------------------------------

template <typename Dist, typename T, typename Q, size_t E = svs::Dynamic> struct Checker {
    using Data = svs::data::SimpleData<T, E>;
    using Index = f::FlatIndex<Data, Dist>;
    const Points& pts;
    const Points& queries;
    size_t n;
    std::vector<std::vector<double>> d;

    Checker(const Points& p, const Points& q)
        : pts{p}
        , queries{q}
        , n{p.size()} {
        for (auto& x : q) {
            d.emplace_back();
            for (auto& y : p) {
                d.back().push_back(truth(Dist(), x, y));
            }
        }
    }

    std::string where(const std::vector<size_t>& batch, size_t i, size_t k, f::FlatParameters p, const std::string& extra) const {
        return mc::str(name(Dist()), n <= 12 ? " points " + show(pts) : mc::str(" ", n, " points"), " batch ", mc::list(batch), " query ", mc::list(queries[batch[i]]), " k ", k, " batch sizes ", p.data_batch_size_, "/", p.query_batch_size_, " ", extra);
    }

    template <typename R>
    void oracle(const R& result, const std::vector<size_t>& batch, size_t k, f::FlatParameters p, const std::function<bool(size_t)>& accept, const std::string& extra) {
        for (size_t i = 0; i < batch.size(); ++i) {
            auto w = [&] { return where(batch, i, k, p, extra); };
            auto r = row(result, i);
            std::vector<std::pair<uint64_t, double>> m;
            for (size_t j = 0; j < n; ++j) {
                if (accept(j)) {
                    m.emplace_back(j, d[batch[i]][j]);
                }
            }
            size_t valid = check_row(
                r, Dist(), none<uint64_t>,
                [&](uint64_t id) -> std::optional<double> { return id < n && accept(id) ? std::optional<double>(d[batch[i]][id]) : std::nullopt; }, w
            );
            MC_CHECK(valid == std::min(k, m.size()), "too-few", w(), " gave ", show(r), " of ", m.size(), " acceptable points");
            check_exact(r, Dist(), k, m, w);
            mc::evaluation();
            mc::outcome(mc::hash(show(r)));
        }
        mc::state(mc::hash(where(batch, 0, k, p, extra)));
        mc::transition(batch.size() * n);
    }

    svs::data::SimpleData<Q> pack(const std::vector<size_t>& batch) const {
        Points qs;
        for (auto q : batch) {
            qs.push_back(queries[q]);
        }
        return dataset<Q>(qs, pts[0].size());
    }

    template <typename I> void one(I& idx, const std::vector<size_t>& batch, size_t k, f::FlatParameters p, const std::string& extra, bool via_index) {
        auto q = pack(batch);
        svs::QueryResult<size_t> r(batch.size(), k);
        poison(r, 0);
        if (via_index) {
            idx.set_search_parameters(p);
            svs::index::search_batch_into(idx, r.view(), q.cview());
        } else {
            idx.set_search_parameters(f::FlatParameters{n + 1, 1});
            idx.search(r.view(), q.cview(), p);
            auto now = idx.get_search_parameters();
            MC_CHECK(now.data_batch_size_ == n + 1 && now.query_batch_size_ == 1, "parameters", "a search changed the parameters of the index");
        }
        if (!batch.empty()) {
            oracle(r, batch, k, p, [](size_t) { return true; }, extra);
        }
    }
    template <typename I> void filtered(I& idx, const std::vector<size_t>& batch, size_t k, f::FlatParameters p, uint64_t mask, const std::string& extra) {
        auto q = pack(batch);
        svs::QueryResult<size_t> r(batch.size(), k);
        poison(r, 0);
        auto accept = [mask](size_t i) { return bool(mask >> (i % 64) & 1); };
        idx.search(r.view(), q.cview(), p, accept);
        oracle(r, batch, k, p, accept, mc::str(extra, " accepting ", mask));
    }

    Data data() const { return dataset<T, E>(pts); }
    Index index(size_t threads) const { return Index(data(), Dist(), svs::threads::NativeThreadPool(threads)); }

    void small(size_t threads) {
        auto idx = index(1);
        if (threads > 1) {
            idx.set_num_threads(threads);
        }
        MC_CHECK(idx.size() == n && idx.dimensions() == pts[0].size() && idx.get_num_threads() == threads, "size", "index reports ", idx.size(), " vectors of ", idx.dimensions(), " dimensions with ", idx.get_num_threads(), " threads");
        auto ex = mc::str("threads ", threads);
        std::vector<size_t> ks = {1, 2, n, n + 1};
        std::sort(ks.begin(), ks.end());
        ks.erase(std::unique(ks.begin(), ks.end()), ks.end());
        const std::vector<std::vector<size_t>> batches = threads > 1 ? std::vector<std::vector<size_t>>{{0, 1, 2}, {2}, {1, 1, 0, 2, 0}}
                                                                     : std::vector<std::vector<size_t>>{{0}, {1, 2}, {2, 0, 2}, {1, 1, 0, 2, 0}, {}};
        size_t c = 0;
        for (auto& b : batches) {
            for (auto k : ks) {
                for (size_t db : {size_t(0), size_t(1), size_t(2), n, n + 7}) {
                    for (size_t qb : {0, 1, 2, 9}) {
                        if (threads > 1 && c++ % 3) {
                            continue;
                        }
                        one(idx, b, k, {db, qb}, ex, (db + qb) % 2);
                    }
                }
            }
        }
        for (uint64_t mask = 0; mask < (uint64_t(1) << n); ++mask) {
            filtered(idx, batches[mask % (threads > 1 ? 3 : 4)], ks[mask % ks.size()], {mask % 3, mask % 2}, mask, ex);
        }
        mc::trace();
    }
};

template <typename Dist, typename T = float, typename Q = float, size_t E = svs::Dynamic>
static void small(const Points& p, const Points& q, size_t threads = 1) {
    Checker<Dist, T, Q, E>(p, q).small(threads);
}

static void body() {
    bool deep = mc::thorough();
    const std::vector<float> values = {0.5f, 1.0f, 2.0f, -1.0f, 3.5f};
    for (size_t len = 0; len <= (deep ? 8 : 6); ++len) {
        mc::tuples(len, len <= 5 ? 5 : 4, [&](const std::vector<size_t>& t) {
            mc::run([&] { return mc::str("top-k of ", mc::list(t)); }, [&] {
                std::vector<std::vector<float>> s(3);
                for (auto i : t) {
                    s[0].push_back(values[i]);
                    s[1].insert(s[1].begin(), values[i]);
                }
                s[2] = {1, 1, 0};
                for (size_t k = 1; k <= 5; ++k) {
                    inserters<std::less<>>(s, k);
                    inserters<std::greater<>>(s, k);
                }
            });
        });
    }
    // Long sequences, orderly ones and permutations of few values.
    for (size_t len : {20, 33, 64, 200}) {
        for (size_t step : {1, 3, 7, 11, 19}) {
            mc::run([&] { return mc::str("top-k of ", len, " by ", step); }, [&] {
                std::vector<std::vector<float>> s(2);
                for (size_t i = 0; i < len; ++i) {
                    s[0].push_back(float(i * step % 23));
                    s[1].push_back(float(len - i));
                }
                for (size_t k : {1, 2, 3, 7, 10, 31, 32, 65}) {
                    inserters<std::less<>>(s, k);
                    inserters<std::greater<>>(s, k);
                }
            });
        }
    }
    // Every small dataset.
    const Points grid = {{0, 1}, {3, 2}, {-2, 4}, {7, -1}, {0, 0}};
    const Points queries = {{0.5f, 0.25f}, {6, 5}, {-3, 1}};
    for (size_t n = 1; n <= (deep ? 5 : 4); ++n) {
        mc::tuples(n, grid.size(), [&](const std::vector<size_t>& t) {
            Points p;
            for (auto i : t) {
                p.push_back(grid[i]);
            }
            auto id = [&](const char* d) { return mc::str(d, " tuple ", mc::list(t)); };
            mc::run([&] { return id("L2"); }, [&] { small<L2>(p, queries); });
            mc::run([&] { return id("IP"); }, [&] { small<IP>(p, queries); });
            if (std::count(t.begin(), t.end(), 4) == 0) {
                mc::run([&] { return id("cosine"); }, [&] { small<Cos>(p, queries); });
            }
        });
    }
    // Several workers.
    for (size_t n : {1, 3, 4}) {
        Points p(grid.begin(), grid.begin() + n);
        for (size_t threads : {2, 3, 8}) {
            mc::run([&] { return mc::str("threads ", threads, " n ", n); }, [&] {
                small<L2>(p, queries, threads);
                small<IP>(p, queries, threads);
                small<Cos>(p, queries, threads);
            });
        }
    }
    // Element types and compile-time dimensionality.
    const Points bytes = {{0, 1, 3, 2, 9}, {3, 2, 1, 1, 0}, {2, 4, 8, 1, 1}, {100, 2, 0, 1, 5}};
    const Points bq = {{1, 2, 3, 4, 5}, {0, 0, 9, 1, 1}, {3, 2, 1, 1, 1}};
    auto types = [&]<typename T, typename Q, size_t E>(const char* what) {
        mc::run([&] { return mc::str("types ", what); }, [&] {
            small<L2, T, Q, E>(bytes, bq);
            small<IP, T, Q, E>(bytes, bq);
            small<Cos, T, Q, E>(bytes, bq);
        });
    };
    constexpr size_t D = svs::Dynamic;
    types.operator()<svs::Float16, float, D>("f16/f32");
    types.operator()<int8_t, int8_t, D>("i8/i8");
    types.operator()<uint8_t, uint8_t, D>("u8/u8");
    types.operator()<uint8_t, float, D>("u8/f32");
    types.operator()<int8_t, float, D>("i8/f32");
    types.operator()<float, svs::Float16, D>("f32/f16");
    types.operator()<float, float, 5>("f32/f32/5");
    types.operator()<uint8_t, float, 5>("u8/f32/5");
    types.operator()<int8_t, int8_t, 5>("i8/i8/5");
    // Every data batch size over a longer dataset, and many queries.
    for (size_t n : {37, 100, 257}) {
        Points p, q;
        for (size_t i = 0; i < n; ++i) {
            p.push_back({float(i * 37 % n), float(i * i % 11), 1 + float(i % 3)});
        }
        for (size_t i = 0; i < 23; ++i) {
            q.push_back({float(i * 5 % 17) + 0.25f, float(i % 4), -1 + float(i % 7)});
        }
        for (size_t part = 0; part < 8; ++part) {
            mc::run([&] { return mc::str("long n ", n, " part ", part); }, [&] {
                Checker<L2, float, float> c(p, q);
                Checker<IP, float, float> c2(p, q);
                auto idx = c.index(1);
                auto idx2 = c2.index(1);
                for (size_t db = part; db <= n + 1; db += 8) {
                    size_t len = 1 + db % 23;
                    std::vector<size_t> b;
                    for (size_t i = 0; i < len; ++i) {
                        b.push_back((i * 3 + db) % 23);
                    }
                    for (size_t k : {size_t(1), size_t(10), n}) {
                        for (size_t qb : {size_t(0), size_t(1), size_t(4), len}) {
                            c.one(idx, b, k, {db, qb}, "", false);
                            c2.one(idx2, b, k, {db, qb}, "", true);
                        }
                    }
                    c.filtered(idx, b, 5, {db, 3}, 0x5a5a0f0f3311aa71ull * (db + 1), "");
                    c2.filtered(idx2, b, 12, {db, 0}, 0x1111000100010003ull << (db % 7), "");
                }
            });
        }
        mc::run([&] { return mc::str("long threads n ", n); }, [&] {
            Checker<L2, float, float> c(p, q);
            auto idx = c.index(3);
            std::vector<size_t> b;
            for (size_t i = 0; i < 23; ++i) {
                b.push_back(i);
            }
            for (size_t db : {0, 1, 5, 64}) {
                for (size_t qb : {0, 1, 2, 5, 22, 23, 24}) {
                    c.one(idx, b, 7, {db, qb}, "threads 3", false);
                }
            }
            for (size_t t : {1, 2, 5, 0}) {
                idx.set_num_threads(t);
                MC_CHECK(idx.get_num_threads() == std::max<size_t>(t, 1), "threads", "asked for ", t, " threads, got ", idx.get_num_threads());
                c.one(idx, b, 7, {}, mc::str("threads ", t), true);
            }
        });
    }
    // More than the default batch of data.
    for (size_t n : {99999, 100000, 100001, 200003}) {
        mc::run([&] { return mc::str("default batch n ", n); }, [&] {
            Points p, q = {{17.25f}, {123456.5f}, {-1}};
            for (size_t i = 0; i < n; ++i) {
                p.push_back({float(i * 7919 % n)});
            }
            Checker<L2, float, float> c(p, q);
            auto idx = c.index(1);
            c.one(idx, {0, 1, 2}, 4, {}, "", true);
            c.filtered(idx, {2, 0}, 3, {}, 0xff00ff00ull, "");
        });
    }
    // An index that only refers to its data and pool; assembly from data.
    mc::run([&] { return std::string("temporary"); }, [&] {
        Points p(grid.begin(), grid.begin() + 4);
        Checker<L2, float, float> c(p, queries);
        auto data = c.data();
        svs::threads::NativeThreadPool pool(1);
        for (size_t db : {0, 1, 3}) {
            auto tmp = f::temporary_flat_index(data, L2(), pool);
            c.one(tmp, {0, 1, 2}, 3, {db, 1}, "temporary", false);
            for (uint64_t mask = 0; mask < 16; ++mask) {
                c.filtered(tmp, {0, 2}, 4, {db, 2}, mask, "temporary");
            }
        }
        auto owned = f::auto_assemble(c.data(), L2(), size_t(1));
        c.one(owned, {0, 1, 2}, 3, {}, "assembled", true);
        auto moved = std::move(owned);
        c.one(moved, {0, 1, 2}, 3, {2, 2}, "moved", true);
    });
}

MC_MAIN("C15", body)
