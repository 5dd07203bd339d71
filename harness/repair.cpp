// C12: maintenance at every internal batch size. The consolidation of a graph is run over every small
// graph, every set of deleted nodes and every batch size it can be given; the dynamic index is taken
// through histories of bulk operations on datasets that cross its built-in block and batch sizes.
#include "kit.h"
#include "svs/core/logging.h"
#include "svs/index/index.h"
#include "svs/index/vamana/consolidate.h"
#include "svs/index/vamana/dynamic_index.h"

namespace v = svs::index::vamana;
using namespace kit;

///// Consolidation of a graph.
static Point place(size_t i) {
    static const Points p = {{0, 1}, {3, 2.5f}, {-2, 4}, {7, -1}, {1.5f, -6}, {-5, -2.25f}};
    return p[i];
}

template <typename Dist>
void consolidations(size_t n, const std::vector<Adj>& graphs, size_t threads) {
    Points pts;
    for (size_t i = 0; i < n; ++i) {
        pts.push_back(place(i));
    }
    auto data = dataset(pts);
    svs::threads::NativeThreadPool pool(threads);
    Dist dist;
    svs::distance::compare_t<Dist> cmp;
    for (auto& adj : graphs) {
        for (size_t mask = 0; mask < (size_t(1) << n); ++mask) {
            auto deleted = [&](size_t i) { return bool((mask >> i) & 1); };
            for (size_t prune_to : {size_t(1), size_t(2), n}) {
                for (float alpha : {1.0f, 1.5f}) {
                    float a = std::is_same_v<Dist, svs::distance::DistanceL2> ? alpha : 1 / alpha;
                    Adj first;
                    for (size_t batch = 1; batch <= n + 1; ++batch) {
                        auto g = graph(adj, n);
                        v::ConsolidationParameters params{batch, prune_to, 50, a};
                        auto c = v::GraphConsolidator{g, data, pool, dist, params};
                        c(deleted);
                        Adj out;
                        for (size_t i = 0; i < n; ++i) {
                            auto l = g.get_node(i);
                            out.emplace_back(l.begin(), l.end());
                        }
                        mc::transition();
                        auto where = [&] {
                            return mc::str(name(dist), " graph ", kit::show(adj), " deleted mask ", mask, " prune to ", prune_to, " alpha ", a, " batch ", batch, ": ", kit::show(out));
                        };
                        for (size_t i = 0; i < n; ++i) {
                            bool dangling = std::any_of(adj[i].begin(), adj[i].end(), deleted);
                            if (deleted(i)) {
                                continue;
                            }
                            if (!dangling) {
                                MC_CHECK(out[i] == adj[i], "repair-untouched", where(), ": node ", i, " has no deleted neighbour");
                                continue;
                            }
                            std::set<uint32_t> cand;
                            for (auto j : adj[i]) {
                                if (!deleted(j)) {
                                    cand.insert(j);
                                    continue;
                                }
                                for (auto k : adj[j]) {
                                    if (!deleted(k) && k != i) {
                                        cand.insert(k);
                                    }
                                }
                            }
                            std::set<uint32_t> seen;
                            for (auto j : out[i]) {
                                MC_CHECK(seen.insert(j).second && cand.count(j), "repair-neighbour", where(), ": node ", i, " has neighbours ", mc::list(out[i]), " out of ", mc::list(cand));
                            }
                            MC_CHECK(out[i].size() <= prune_to, "repair-degree", where(), ": node ", i);
                            MC_CHECK(out[i].empty() == cand.empty(), "repair-lost", where(), ": node ", i, " could keep one of ", mc::list(cand));
                            for (auto j : cand) {
                                MC_CHECK(
                                    !cmp(truth(dist, pts[i], pts[j]), truth(dist, pts[i], pts[out[i][0]])),
                                    "repair-nearest", where(), ": node ", i, " is nearest to ", j
                                );
                            }
                        }
                        if (batch == 1) {
                            first = out;
                        }
                        // Deleted nodes keep stale lists nobody reads.
                        for (size_t i = 0; i < n; ++i) {
                            MC_CHECK(deleted(i) || out[i] == first[i], "repair-batch", where(), ": node ", i, " has neighbours ", mc::list(first[i]), " with batches of 1");
                        }
                        mc::evaluation();
                    }
                    mc::outcome(mc::hash(kit::show(first)));
                }
            }
        }
    }
}

// All graphs on `n` nodes (each list in ascending order), by the list of the first node.
static std::vector<Adj> all_graphs(size_t n, size_t first) {
    std::vector<Adj> r;
    size_t lists = size_t(1) << (n - 1);
    size_t total = 1;
    for (size_t i = 1; i < n; ++i) {
        total *= lists;
    }
    auto list = [&](size_t i, size_t m) {
        std::vector<uint32_t> l;
        for (size_t j = 0, b = 0; j < n; ++j) {
            if (j != i && ((m >> b++) & 1)) {
                l.push_back(j);
            }
        }
        return l;
    };
    for (size_t x = 0; x < total; ++x) {
        Adj a{list(0, first)};
        size_t y = x;
        for (size_t i = 1; i < n; ++i) {
            a.push_back(list(i, y % lists));
            y /= lists;
        }
        r.push_back(std::move(a));
    }
    return r;
}

///// Bulk histories.
struct Big {
    using Alloc = svs::data::Blocked<svs::lib::Allocator<float>>;
    using Data = svs::data::SimpleData<float, svs::Dynamic, Alloc>;
    using GraphAlloc = svs::data::Blocked<svs::lib::Allocator<uint32_t>>;
    using GraphData = svs::data::SimpleData<uint32_t, svs::Dynamic, GraphAlloc>;
    struct Graph : svs::graphs::SimpleGraphBase<uint32_t, GraphData> {
        using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GraphData>;
        static GraphAlloc alloc() {
            svs::data::BlockingParameters bp;
            bp.blocksize_bytes = svs::lib::PowerOfTwo(13);
            return GraphAlloc(bp);
        }
        Graph(size_t max_degree, size_t num_nodes)
            : parent_type{num_nodes, max_degree, alloc()} {}
        void unsafe_resize(size_t new_size) { (parent_type::data_).resize(new_size); }
        void add_node() { unsafe_resize(parent_type::n_nodes() + 1); }
    };
    using Dist = svs::distance::DistanceL2;
    using Index = v::MutableVamanaIndex<Graph, Data, Dist>;

    size_t n;
    std::unique_ptr<Index> idx{};
    std::map<size_t, size_t> live{}; // number -> version
    std::map<size_t, size_t> versions{};
    size_t soft = 0;
    bool first_round = true; // nothing removed for good yet

    static size_t id(size_t i) { return 3 * i + 1; }
    static Point vec(size_t i, size_t version) {
        return {float((i * 7919) % 1409) + 0.25f * version, float((i * 104729) % 1511) - 0.5f * version, float(version)};
    }

    Big(size_t n_, size_t threads)
        : n{n_} {
        Points pts;
        std::vector<size_t> ids;
        for (size_t i = 0; i < n; ++i) {
            pts.push_back(vec(i, 0));
            ids.push_back(id(i));
            live[i] = 0;
            versions[i] = 1;
        }
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::PowerOfTwo(12);
        auto data = fill(Data(n, 3, Alloc(bp)), pts);
        v::VamanaBuildParameters p{1.2f, 6, 8, 30, 5, true};
        idx = std::make_unique<Index>(p, std::move(data), ids, Dist(), threads);
    }

    void apply(size_t op) {
        mc::transition();
        auto del = [&](auto&& pred) {
            std::vector<size_t> ids;
            for (auto it = live.begin(); it != live.end();) {
                if (pred(it->first)) {
                    ids.push_back(id(it->first));
                    it = live.erase(it);
                } else {
                    ++it;
                }
            }
            soft += ids.size();
            idx->delete_entries(ids);
        };
        switch (op) {
            case 0: del([](size_t i) { return i % 3 == 1; }); break;
            case 1: del([&](size_t i) { return i >= n / 3 && i < n / 2 + 40; }); break;
            case 2: {
                Points pts;
                std::vector<size_t> ids;
                for (size_t i = 0; i < n + 37; ++i) {
                    if (!live.count(i) && (i >= n || i % 2)) {
                        live[i] = versions[i]++;
                        pts.push_back(vec(i, live[i]));
                        ids.push_back(id(i));
                    }
                }
                idx->add_points(dataset(pts, 3), ids);
                break;
            }
            case 3:
                idx->consolidate();
                soft = 0;
                break;
            case 4: idx->compact(); break;
            case 5: idx->compact(7); break;
            case 6: idx->compact(501); break;
        }
    }

    Row search(size_t j, size_t k, size_t window) {
        auto r = svs::QueryResult<size_t>(1, k);
        poison(r, 99);
        v::VamanaSearchParameters sp{v::SearchBufferConfig{window, window}, false, 4, 1};
        Point q = vec(j, 0);
        idx->search(r.view(), dataset({q}).cview(), sp);
        return row(r, 0);
    }

    std::string answers() {
        std::string s;
        for (size_t j : {size_t(0), n / 2, n - 1}) {
            s += kit::show(search(j, 12, 20));
        }
        return s;
    }

    void check(const std::function<std::string()>& where) {
        MC_CHECK(idx->size() == live.size(), "size", where(), ": size ", idx->size(), " with ", live.size(), " live points");
        size_t total = idx->view_data().size();
        MC_CHECK(idx->view_graph().n_nodes() == total, "storage", where());
        std::vector<size_t> owner(total, size_t(-1));
        for (auto [i, version] : live) {
            MC_CHECK(idx->has_id(id(i)), "has-id", where(), ": id ", id(i));
            auto slot = idx->translate_external_id(id(i));
            MC_CHECK(slot < total && owner[slot] == size_t(-1), "slot", where(), ": id ", id(i), " is in slot ", slot);
            owner[slot] = i;
            MC_CHECK(idx->translate_internal_id(slot) == id(i), "translation", where(), ": slot ", slot, " of ", id(i), " translates to ", idx->translate_internal_id(slot));
            MC_CHECK(!idx->is_deleted(slot), "deleted", where(), ": the slot of ", id(i), " is marked deleted");
            auto d = idx->get_datum(id(i));
            Point p(d.begin(), d.end());
            MC_CHECK(p == vec(i, version), "vector", where(), ": id ", id(i), " has vector ", mc::list(p), " instead of ", mc::list(vec(i, version)));
        }
        for (auto [i, _] : versions) {
            MC_CHECK(live.count(i) || !idx->has_id(id(i)), "has-id", where(), ": removed id ", id(i));
        }
        for (size_t s = 0; s < total; ++s) {
            MC_CHECK(idx->is_deleted(s) == (owner[s] == size_t(-1)), "deleted", where(), ": slot ", s);
        }
        try {
            idx->debug_check_invariants(soft > 0);
        } catch (const std::exception& e) { mc::fail("self-check", where() + ": " + e.what()); }
        Adj adj(total);
        for (size_t s = 0; s < total; ++s) {
            if (owner[s] == size_t(-1) && soft == 0) {
                continue;
            }
            auto l = idx->view_graph().get_node(s);
            adj[s].assign(l.begin(), l.end());
            std::set<uint32_t> seen;
            MC_CHECK(adj[s].size() <= idx->max_degree(), "degree", where(), ": node ", s);
            for (auto j : adj[s]) {
                MC_CHECK(j < total && j != s && seen.insert(j).second, "graph", where(), ": node ", s, " has neighbours ", mc::list(adj[s]));
                MC_CHECK(soft > 0 || owner[j] != size_t(-1), "dangling", where(), ": node ", s, " points to free slot ", j);
            }
        }
        mc::evaluation();
        if (live.empty()) {
            return;
        }
        auto reach = reachable(adj, {idx->entry_point()});
        size_t reached = 0;
        for (size_t s = 0; s < total; ++s) {
            reached += reach[s] && owner[s] != size_t(-1);
        }
        mc::count("live_points", live.size());
        mc::count("live_points_in_reach", reached);
        std::map<uint64_t, size_t> number;
        for (auto [i, _] : live) {
            number[id(i)] = i;
        }
        for (size_t j : {size_t(0), n / 2, n - 1}) {
            Point q = vec(j, 0);
            auto truth_of = [&](uint64_t x) -> std::optional<double> {
                auto it = number.find(x);
                if (it == number.end()) {
                    return std::nullopt;
                }
                return truth(Dist(), q, vec(it->second, live.at(it->second)));
            };
            auto w = [&] { return mc::str(where(), ": query ", j); };
            check_row(search(j, 12, 20), Dist(), none<uint64_t>, truth_of, w);
            // a window over everything finds all that can be reached
            size_t k = total;
            auto r = search(j, k, total + 1);
            size_t valid = check_row(r, Dist(), none<uint64_t>, truth_of, w);
            MC_CHECK(valid == reached, "missing-live", w(), ": found ", valid, " of ", reached, " live points in reach");
            auto result = svs::QueryResult<size_t>(1, 25);
            poison(result, 7);
            auto rv = result.view();
            auto qs = dataset({q});
            idx->exhaustive_search(qs.cview(), 25, rv);
            auto er = row(result, 0);
            valid = check_row(er, Dist(), none<uint64_t>, truth_of, w);
            MC_CHECK(valid == std::min<size_t>(25, live.size()), "exhaustive", w(), " gave ", kit::show(er));
            std::vector<std::pair<uint64_t, double>> all;
            for (auto [i, version] : live) {
                all.emplace_back(id(i), truth(Dist(), q, vec(i, version)));
            }
            check_exact(er, Dist(), 25, all, w);
            mc::evaluation(3);
        }
    }
};

static void bulk(size_t n, size_t threads, size_t depth) {
    static const char* names[] = {"thin", "gap", "add", "consolidate", "compact", "compact(7)", "compact(501)"};
    std::vector<size_t> h(depth, 0);
    for (;;) {
        // maintenance with nothing to do right after maintenance is covered elsewhere
        bool dull = h[0] >= 3 && h[0] != 5;
        for (size_t i = 1; i < depth; ++i) {
            dull = dull || h[i] == h[i - 1] || (h[i] >= 4 && h[i - 1] >= 4) || (h[i] == 1 && h[i - 1] == 0);
        }
        if (!dull) {
            auto show = [&] {
                std::string s = mc::str(n, " points, ", threads, " workers:");
                for (auto o : h) {
                    s += std::string(" ") + names[o];
                }
                return s;
            };
            mc::run(show, [&] {
                Big b(n, threads);
                for (size_t i = 0; i < depth; ++i) {
                    auto where = [&] { return mc::str(show(), " after ", i + 1); };
                    auto before = h[i] >= 4 ? b.answers() : std::string();
                    b.apply(h[i]);
                    if (h[i] >= 4) {
                        auto after = b.answers();
                        MC_CHECK(before == after, "compact-changes", where(), ": answers before ", before, " and after ", after);
                    }
                    if (i + 1 == depth || h[i] >= 3) {
                        b.check(where);
                    }
                }
                mc::trace();
            });
        }
        size_t i = 0;
        while (i < depth && ++h[i] == 7) {
            h[i++] = 0;
        }
        if (i == depth) {
            break;
        }
    }
}

static void body() {
    auto logger = svs::logging::get();
    svs::logging::set_level(svs::logging::Level::Off);
    bool deep = mc::thorough();
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
    for (size_t n : {3, 4}) {
        for (size_t first = 0; first < (size_t(1) << (n - 1)); ++first) {
            for (size_t part = 0; part < 8; ++part) {
                mc::run([&] { return mc::str("consolidation of all graphs on ", n, " nodes, first list ", first, " part ", part); }, [&] {
                    auto gs = all_graphs(n, first);
                    std::vector<Adj> mine;
                    for (size_t i = part; i < gs.size(); i += 8) {
                        mine.push_back(gs[i]);
                    }
                    consolidations<L2>(n, mine, 1);
                    if (n == 3 || deep) {
                        consolidations<IP>(n, mine, 1);
                        consolidations<L2>(n, mine, 2);
                    }
                });
            }
        }
    }
    // crossing 500 (consolidation), 1000 (compaction, backward edges) and the blocks of the storage
    bulk(1203, 1, deep ? 4 : 3);
    bulk(1203, 3, deep ? 3 : 2);
    bulk(2001, 2, 2);
}

MC_MAIN("C12", body)
