// C16 / C17: clustering and inverted-index search. Every small clustering built by hand under every
// limit; every set of centroids of small datasets under a grid of parameters, against a reference
// assignment; searches of every inverted index so obtained against the best of the probed clusters.
#include "kit.h"
#include "svs/core/logging.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/lib/saveload.h"

namespace fs = std::filesystem;
namespace lib = svs::lib;
namespace v = svs::index::vamana;
namespace inv = svs::index::inverted;
using namespace kit;
using std::string;
using L2 = svs::distance::DistanceL2;
using IP = svs::distance::DistanceIP;
using Ids = std::vector<uint32_t, lib::Allocator<uint32_t>>;
using Clustering = inv::Clustering<uint32_t>;
using Leaf = std::pair<uint32_t, float>;
using Model = std::map<uint32_t, std::vector<Leaf>>; // centroid -> leaves in order

static string scratch;
struct Dir {
    string path;
    Dir() {
        static size_t n = 0;
        path = scratch + "/d" + std::to_string(n++);
    }
    Dir(const Dir&) = delete;
    ~Dir() {
        std::error_code e;
        fs::remove_all(path, e);
    }
};

static Model model(const Clustering& c) {
    Model m;
    for (auto& [id, cluster] : c) {
        MC_CHECK(id == cluster.centroid(), "key", "the cluster of ", id, " says it belongs to ", cluster.centroid());
        auto& l = m[id];
        for (auto& n : cluster) {
            l.emplace_back(n.id(), n.distance());
        }
    }
    return m;
}
static string show(const Model& m) {
    string s;
    for (auto& [c, l] : m) {
        s += mc::str(" ", c, ":{");
        for (auto [id, d] : l) {
            s += mc::str(" ", id, "@", d);
        }
        s += " }";
    }
    return s;
}
template <typename Dist> void sort(Model& m, Dist) {
    svs::distance::compare_t<Dist> cmp;
    for (auto& [_, l] : m) {
        std::stable_sort(l.begin(), l.end(), [&](auto& a, auto& b) { return cmp(a.second, b.second); });
    }
}
static bool equal_as_sets(Model a, Model b) {
    for (auto* m : {&a, &b}) {
        for (auto& [_, l] : *m) {
            std::sort(l.begin(), l.end());
        }
    }
    return a == b;
}

#if PROP == 16
// Everything a clustering reports about itself.
static void self_consistent(const Clustering& c, size_t universe) {
    auto m = model(c);
    size_t leaves = 0, lo = ~size_t(0), hi = 0, empty = 0;
    std::map<uint32_t, uint32_t> histogram;
    for (auto& [id, l] : m) {
        leaves += l.size();
        lo = std::min(lo, l.size());
        hi = std::max(hi, l.size());
        empty += l.empty();
        for (auto [x, _] : l) {
            ++histogram[x];
        }
        MC_CHECK(c.contains(id) && c.at(id).size() == l.size() && c.at(id).centroid() == id, "lookup", "cluster ", id);
    }
    MC_CHECK(c.size() == m.size(), "count", c.size(), " clusters instead of ", m.size());
    MC_CHECK(c.total_size() == m.size() + leaves, "count", "total size ", c.total_size(), " with ", m.size(), " centroids and ", leaves, " leaves");
    if (!m.empty()) {
        auto s = c.statistics();
        double mean = double(leaves) / m.size(), var = 0;
        for (auto& [_, l] : m) {
            var += (l.size() - mean) * (l.size() - mean) / m.size();
        }
        MC_CHECK(s.num_clusters_ == m.size() && s.num_leaves_ == leaves && s.min_size_ == lo && s.max_size_ == hi && s.empty_clusters_ == empty && close(s.mean_size_, mean) && close(s.std_size_, std::sqrt(var)),
            "statistics", s.report(), " for", show(m));
    }
    auto h = c.leaf_histogram();
    MC_CHECK(h.size() == histogram.size(), "histogram", h.size(), " entries for", show(m));
    for (auto [x, n] : histogram) {
        MC_CHECK(h.contains(x) && h.at(x) == n, "histogram", x, " occurs ", n, " times in", show(m));
    }
    auto sorted = c.sorted_centroids();
    std::vector<uint32_t> keys, order;
    for (auto& [id, _] : m) {
        keys.push_back(id);
    }
    MC_CHECK(std::equal(sorted.begin(), sorted.end(), keys.begin(), keys.end()), "centroids", mc::list(sorted), " for", show(m));
    c.for_each_cluster([&](auto& x) { order.push_back(x.centroid()); });
    MC_CHECK(order == keys, "centroids", "visited as ", mc::list(order), " instead of ", mc::list(keys));
    auto packed = c.packed_leaf_translation();
    std::set<uint32_t> used;
    for (auto [leaf, local] : packed) {
        MC_CHECK(histogram.count(leaf) && local < histogram.size() && used.insert(local).second, "packing", leaf, " is packed to ", local, " of ", histogram.size());
    }
    MC_CHECK(used.size() == histogram.size(), "packing", used.size(), " of ", histogram.size(), " leaves are packed");
    std::vector<uint32_t> all, rest;
    for (uint32_t i = 0; i < universe; ++i) {
        all.push_back(i);
        if (!m.count(i)) {
            rest.push_back(i);
        }
        MC_CHECK(c.contains(i) == (m.count(i) > 0), "lookup", "contains(", i, ")");
    }
    MC_CHECK(c.complement(all.begin(), all.end()) == rest && c.complement_range(all) == rest, "complement", mc::list(c.complement_range(all)), " instead of ", mc::list(rest));
    if (universe > 0) {
        MC_CHECK(c.complement_range(svs::threads::UnitRange<size_t>(0, universe)) == rest, "complement", "of a range");
    }
    mc::evaluation();
}
static void saved_and_loaded(const Clustering& c) {
    Dir dir;
    lib::save_to_disk(c, dir.path);
    auto back = lib::load_from_disk<Clustering>(dir.path);
    MC_CHECK(model(back) == model(c) && back == c, "reload", "saved", show(model(c)), " but loaded", show(model(back)));
    MC_CHECK(mc::throws([&] { lib::load_from_disk<inv::Clustering<uint64_t>>(dir.path); }), "reload", "loaded with another identifier type");
    lib::save_to_disk(back, dir.path);
    MC_CHECK(lib::load_from_disk<Clustering>(dir.path) == c, "reload", "a second save differs");
}

// Every limit on a clustering.
template <typename Dist> void limits(const Clustering& c, Dist) {
    svs::distance::compare_t<Dist> cmp;
    auto before = model(c);
    sort(before, Dist());
    size_t biggest = 0;
    std::map<uint32_t, size_t> copies;
    for (auto& [_, l] : before) {
        biggest = std::max(biggest, l.size());
        for (auto [x, d] : l) {
            ++copies[x];
        }
    }
    for (size_t limit = 0; limit <= biggest + 1; ++limit) {
        auto tried = c;
        bool possible = tried.reduce_maxsize(limit, cmp, true);
        MC_CHECK(model(tried) == before, "dry-run", "trying limit ", limit, " changed", show(before), " to", show(model(tried)));
        auto x = c;
        bool ok = true;
        try {
            MC_CHECK(x.reduce_maxsize(limit, cmp), "result", "reducing reported failure without an error");
        } catch (const svs::ANNException&) { ok = false; }
        mc::transition();
        auto where = [&] { return mc::str("limit ", limit, " on", show(before), " gave", show(model(x))); };
        MC_CHECK(ok == possible, "dry-run", where(), ": the trial said ", possible, " but the reduction ", ok ? "succeeded" : "failed");
        auto after = model(x);
        std::map<uint32_t, size_t> left;
        size_t oversize = 0;
        uint32_t big = 0;
        for (auto& [id, l] : before) {
            MC_CHECK(after.count(id), "lost-cluster", where());
            auto& a = after[id];
            // what is left is a subsequence of what was there
            size_t k = 0;
            for (auto& e : l) {
                if (k < a.size() && a[k] == e) {
                    ++k;
                }
            }
            MC_CHECK(k == a.size(), "not-a-subset", where());
            if (ok) {
                MC_CHECK(a.size() == std::min(limit, l.size()), "limit", where(), ": cluster ", id, " has ", a.size());
            } else {
                MC_CHECK(a.size() == l.size() || a.size() == limit, "limit", where(), ": cluster ", id, " has ", a.size());
            }
            for (auto [y, d] : a) {
                ++left[y];
            }
            if (l.size() > limit) {
                ++oversize;
                big = id;
            }
        }
        MC_CHECK(after.size() == before.size(), "lost-cluster", where());
        for (auto [y, n] : copies) {
            MC_CHECK(left[y] > 0, "lost-point", where(), ": ", y, " is assigned nowhere");
        }
        // One oversized cluster: the farthest assignments that have a copy elsewhere go, and it succeeds if there are enough.
        if (oversize == 1) {
            auto& l = before[big];
            std::vector<Leaf> want = l;
            size_t excess = l.size() - limit;
            for (size_t i = l.size(); i-- > 0 && excess > 0;) {
                if (copies[l[i].first] > 1) {
                    want.erase(want.begin() + i);
                    --excess;
                }
            }
            MC_CHECK(ok == (excess == 0), "possible", where(), ": ", excess == 0 ? "could have been reduced" : "cannot be reduced");
            if (ok) {
                MC_CHECK(after[big] == want, "farthest", where(), ": not the farthest were dropped");
            }
        }
        MC_CHECK(oversize > 0 || ok, "possible", where(), ": nothing had to be done");
        mc::evaluation();
        mc::outcome(mc::hash(show(after)));
    }
}

// Clusterings by hand: `k` centroids, each of `n` leaves in any nonempty subset of the clusters.
template <typename Dist> void by_hand(size_t k, size_t n, Dist) {
    size_t total = 1, sub = (size_t(1) << k) - 1;
    for (size_t i = 0; i < n; ++i) {
        total *= sub;
    }
    for (size_t base = 0; base < total; base += 64) {
        mc::run([&] { return mc::str("by hand ", name(Dist()), " ", k, " clusters ", n, " leaves #", base); }, [&] {
            for (size_t code = base; code < std::min(base + 64, total); ++code) {
                std::vector<uint32_t> centroids;
                for (size_t i = 0; i < k; ++i) {
                    centroids.push_back(uint32_t((i * 37 + 3) % 11 + (i == 1 ? 1000 : 0)));
                }
                Clustering c(centroids.begin(), centroids.end());
                Model want;
                for (auto id : centroids) {
                    want[id];
                }
                size_t x = code;
                for (size_t i = 0; i < n; ++i, x /= sub) {
                    size_t where = x % sub + 1;
                    for (size_t j = 0; j < k; ++j) {
                        if (where >> j & 1) {
                            float d = float((i * 5 + j * 3 + code) % 7) + 0.25f * i;
                            c.insert(centroids[j], {uint32_t(20 + i), d});
                            want[centroids[j]].emplace_back(uint32_t(20 + i), d);
                        }
                    }
                }
                MC_CHECK(model(c) == want, "content", "built", show(model(c)), " instead of", show(want));
                self_consistent(c, 30);
                auto sorted = c;
                sorted.sort_clusters(svs::distance::compare_t<Dist>());
                sort(want, Dist());
                MC_CHECK(model(sorted) == want, "sorted", show(model(sorted)), " instead of", show(want));
                if (code % 8 == 0 || total < 100) {
                    saved_and_loaded(c);
                }
                if (k > 0) {
                    MC_CHECK(mc::throws([&] { c.insert(inv::Cluster<uint32_t>(centroids[0])); }), "twice", "a second cluster of the same centroid was accepted");
                    MC_CHECK(model(c).size() == k, "twice", "a refused cluster changed the clustering");
                }
                limits(c, Dist());
                mc::state(mc::hash(show(want)));
                mc::trace();
            }
        });
    }
}
#endif

// Datasets -----------------------------------------------------------------------------------------
struct Set {
    const char* name;
    Points pts;
};
static std::vector<Set> sets(bool deep) {
    std::vector<Set> r = {
        {"plane", {{1, 0}, {4, 1}, {-2, 3}, {0, -5}, {6, 7}}},
        {"positive", {{1, 2}, {3, 1}, {2, 5}, {7, 3}, {4, 9}, {8, 8}}},
        {"negative", {{-1, -2}, {3, 1}, {-2, -5}, {-7, 3}, {5, -1}}},
        {"repeated", {{1, 1}, {2, 3}, {1, 1}, {5, 5}, {2, 3}}},
        {"line", {{0}, {1}, {3}, {7}, {12}, {20}}},
        {"opposed", {{5, 5}, {4, 6}, {-3, -4}, {-6, -1}, {6, -7}}},
    };
    if (deep) {
        r.push_back({"eight", {{1, 0}, {4, 1}, {-2, 3}, {0, -5}, {6, 7}, {2, 2}, {-3, -3}, {5, -4}}});
        r.push_back({"spread", {{1, 2, 3}, {9, 1, 1}, {2, 8, 4}, {7, 7, 7}, {3, 3, 9}, {5, 1, 6}, {8, 2, 5}}});
    }
    return r;
}
struct Params {
    double epsilon, alpha;
    size_t replicas, limit, batch, intermediate, window;
    string str() const { return mc::str("epsilon ", epsilon, " alpha ", alpha, " replicas ", replicas, " limit ", limit, " batch ", batch, " intermediate ", intermediate, " window ", window); }
    inv::ClusteringParameters get() const {
        return inv::ClusteringParameters().epsilon(epsilon).max_replicas(replicas).max_cluster_size(limit).batchsize(batch).num_intermediate_results(intermediate).search_window_size(window).refinement_alpha(alpha);
    }
};
static v::VamanaBuildParameters primary() { return {1.0f, 16, 30, 30, 16, true}; }

template <typename Dist> double bound(double nearest, double epsilon) {
    if constexpr (std::is_same_v<Dist, L2>) {
        return nearest * (1 + epsilon);
    } else {
        return nearest > 0 ? nearest / (1 + epsilon) : nearest * (1 + epsilon);
    }
}

// The assignments of point `i` when the centroids are searched exhaustively; nothing if ties or
// rounding leave more than one possibility.
template <typename Dist> std::optional<std::vector<Leaf>> assignment(const Points& pts, const std::vector<uint32_t>& centroids, size_t i, const Params& p) {
    svs::distance::compare_t<Dist> cmp;
    std::vector<Leaf> cand;
    for (auto c : centroids) {
        cand.emplace_back(c, float(truth(Dist(), pts[i], pts[c])));
    }
    std::stable_sort(cand.begin(), cand.end(), [&](auto& a, auto& b) { return cmp(a.second, b.second); });
    for (size_t j = 1; j < cand.size(); ++j) {
        if (close(cand[j].second, cand[j - 1].second)) {
            return std::nullopt;
        }
    }
    cand.resize(std::min(cand.size(), p.intermediate));
    double limit = bound<Dist>(cand[0].second, p.epsilon);
    for (size_t j = 1; j < cand.size(); ++j) {
        if (close(cand[j].second, limit)) {
            return std::nullopt;
        }
        if (cmp(limit, double(cand[j].second))) {
            cand.resize(j);
        }
    }
    std::vector<Leaf> kept;
    for (auto& c : cand) {
        if (kept.size() == p.replicas + 1) {
            break;
        }
        bool out = false;
        for (auto& k : kept) {
            double d = p.alpha * truth(Dist(), pts[k.first], pts[c.first]);
            if (close(d, c.second)) {
                return std::nullopt;
            }
            out = out || cmp(d, double(c.second));
        }
        if (!out) {
            kept.push_back(c);
        }
    }
    return kept;
}

#if PROP == 16
template <typename Dist> void clustering_case(const Set& set, const std::vector<uint32_t>& centroids, const std::vector<Params>& grid, size_t threads) {
    mc::run([&] { return mc::str("cluster ", name(Dist()), " ", set.name, " centroids ", mc::list(centroids), " threads ", threads); }, [&] {
        svs::distance::compare_t<Dist> cmp;
        auto& pts = set.pts;
        auto data = dataset(pts);
        Ids ids(centroids.begin(), centroids.end());
        for (auto& p : grid) {
            auto index = inv::build_primary_index(data, lib::as_const_span(ids), primary(), Dist(), svs::threads::as_threadpool(threads));
            MC_CHECK(index.size() == ids.size() && index.dimensions() == data.dimensions(), "primary", "the primary index has ", index.size(), " entries for ", ids.size(), " centroids");
            Model got;
            auto where = [&] { return mc::str(p.str(), " gave", show(got)); };
            auto free = p;
            free.limit = 0;
            auto unlimited = inv::cluster_with(data, lib::as_const_span(ids), free.get(), index);
            mc::transition();
            got = model(unlimited);
            std::map<uint32_t, std::vector<Leaf>> of; // point -> (centroid, distance)
            MC_CHECK(got.size() == centroids.size(), "clusters", where());
            for (auto c : centroids) {
                MC_CHECK(got.count(c), "clusters", where(), ": no cluster for ", c);
            }
            for (auto& [c, l] : got) {
                std::set<uint32_t> seen;
                for (size_t j = 0; j < l.size(); ++j) {
                    auto [x, d] = l[j];
                    MC_CHECK(x < pts.size(), "identifier", where(), ": ", x, " is no point");
                    MC_CHECK(!got.count(x), "centroid-as-leaf", where(), ": ", x, " is a centroid");
                    MC_CHECK(seen.insert(x).second, "duplicate", where(), ": ", x, " twice in the cluster of ", c);
                    MC_CHECK(close(d, truth(Dist(), pts[x], pts[c])), "distance", where(), ": ", x, " is at ", truth(Dist(), pts[x], pts[c]), " from ", c);
                    MC_CHECK(j == 0 || !cmp(d, l[j - 1].second), "sorted", where(), ": cluster ", c, " is not in order");
                    of[x].emplace_back(c, d);
                }
            }
            bool all = p.window >= centroids.size() || p.intermediate >= centroids.size();
            for (uint32_t i = 0; i < pts.size(); ++i) {
                if (got.count(i)) {
                    continue;
                }
                auto& a = of[i];
                MC_CHECK(!a.empty(), "unassigned", where(), ": ", i, " is in no cluster");
                MC_CHECK(a.size() <= p.replicas + 1, "replicas", where(), ": ", i, " is in ", a.size(), " clusters");
                std::sort(a.begin(), a.end(), [&](auto& x, auto& y) { return cmp(x.second, y.second); });
                double limit = bound<Dist>(a[0].second, p.epsilon);
                for (auto [c, d] : a) {
                    MC_CHECK(!nearer(Dist(), limit, d), "bound", where(), ": ", i, " at ", d, " is beyond the bound ", limit);
                }
                if (all) {
                    for (auto c : centroids) {
                        MC_CHECK(!nearer(Dist(), truth(Dist(), pts[i], pts[c]), a[0].second), "nearest", where(), ": ", i, " is not assigned to its nearest centroid ", c);
                    }
                    if (auto want = assignment<Dist>(pts, centroids, i, p)) {
                        bool same = want->size() == a.size();
                        for (size_t j = 0; same && j < a.size(); ++j) {
                            same = (*want)[j].first == a[j].first;
                        }
                        MC_CHECK(same, "assignment", where(), ": ", i, " is in ", a.size(), " clusters, expected ", want->size(), " of", show({{i, *want}}));
                        mc::count("exact_assignments");
                    }
                }
            }
            self_consistent(unlimited, pts.size());
            if (p.limit == 0) {
                limits(unlimited, Dist());
            }
            // The limit acts on the same clustering.
            if (p.limit > 0) {
                auto expected = unlimited;
                bool ok = true;
                try {
                    expected.reduce_maxsize(p.limit, cmp);
                } catch (const svs::ANNException&) { ok = false; }
                try {
                    auto limited = inv::cluster_with(data, lib::as_const_span(ids), p.get(), index);
                    got = model(limited);
                    MC_CHECK(ok, "limited", where(), ": succeeded where reducing fails");
                    MC_CHECK(equal_as_sets(got, model(expected)), "limited", where(), " instead of", show(model(expected)));
                } catch (const svs::ANNException&) { MC_CHECK(!ok, "limited", where(), ": failed where reducing succeeds"); }
                mc::transition();
            }
            // Neither batches nor workers matter.
            if (all) {
                auto other = free;
                other.batch = p.batch == 1 ? 3 : 1;
                auto again = inv::build_primary_index(data, lib::as_const_span(ids), primary(), Dist(), svs::threads::as_threadpool(size_t(threads == 1 && p.limit == 0 && p.replicas == 1 && p.alpha > 1 ? 2 : 1)));
                auto c = inv::cluster_with(data, lib::as_const_span(ids), other.get(), again);
                got = model(unlimited);
                bool ties = false;
                for (uint32_t i = 0; i < pts.size(); ++i) {
                    ties = ties || (!got.count(i) && !assignment<Dist>(pts, centroids, i, p));
                }
                MC_CHECK(ties || equal_as_sets(model(c), got), "batches", where(), " but with other batches and workers", show(model(c)));
            }
            saved_and_loaded(unlimited);
            mc::trace();
            mc::evaluation();
            mc::outcome(mc::hash(show(model(unlimited))));
        }
        mc::state(mc::str(name(Dist()), set.name, mc::list(centroids), threads));
    });
}
#else

// Search -------------------------------------------------------------------------------------------
struct Search {
    size_t window, capacity;
    bool visited;
    double epsilon;
    string str() const { return mc::str("window ", window, "/", capacity, visited ? " visited" : "", " epsilon ", epsilon); }
    inv::InvertedSearchParameters get() const { return {{v::SearchBufferConfig{window, capacity}, visited, 2, 1}, epsilon}; }
};

template <typename Dist, typename Strategy> void search_case(const Set& set, const std::vector<uint32_t>& picked, const Params& p, const Points& queries, const char* kind) {
    mc::run([&] { return mc::str("search ", kind, " ", name(Dist()), " ", set.name, " centroids ", mc::list(picked), " ", p.str()); }, [&] {
        svs::distance::compare_t<Dist> cmp;
        auto& pts = set.pts;
        inv::InvertedBuildParameters bp{p.get(), primary()};
        Model clusters;
        auto picker = [&](auto&&...) { return Ids(picked.begin(), picked.end()); };
        auto index = inv::auto_build(bp, dataset(pts), Dist(), 1, Strategy(), picker, [&](const Clustering& c) { clusters = model(c); });
        MC_CHECK(index.dimensions() == pts[0].size(), "shape", "dimensions ", index.dimensions());
        MC_CHECK(index.size() == pts.size(), "shape", "size ", index.size(), " for ", pts.size(), " points");
        // A primary index of the same parts tells which clusters are candidates.
        std::vector<uint32_t> centroids(picked);
        std::sort(centroids.begin(), centroids.end());
        Ids ids(centroids.begin(), centroids.end());
        auto primary_index = inv::build_primary_index(dataset(pts), lib::as_const_span(ids), primary(), Dist(), svs::threads::as_threadpool(size_t(1)));
        auto qs = dataset(queries);
        std::vector<Search> settings;
        for (auto [w, c] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 2}, {2, 4}, {10, 10}}) {
            for (double e : {0.0, 0.4, 5.0, 1e9}) {
                settings.push_back({w, c, w == 10 && e == 0.4, e});
            }
        }
        auto run = [&](auto& x, const Points& q, size_t k, const Search& s, bool as_default) {
            auto data = dataset(q);
            auto result = svs::QueryResult<size_t>(q.size(), k);
            poison(result, 3);
            if (as_default) {
                x.set_search_parameters(s.get());
                x.search(result.view(), data.cview(), x.get_search_parameters());
            } else {
                x.search(result.view(), data.cview(), s.get());
            }
            mc::transition();
            return result;
        };
        for (auto& s : settings) {
            std::vector<std::vector<std::vector<Leaf>>> possible(queries.size()); // per query, the sets that may have been probed
            std::vector<bool> everything(queries.size());
            for (size_t i = 0; i < queries.size(); ++i) {
                auto scratch = primary_index.scratchspace(s.get().primary_parameters_);
                primary_index.search(qs.cview().get_datum(i), scratch);
                std::vector<Leaf> order;
                for (size_t j = 0; j < scratch.buffer.size(); ++j) {
                    order.emplace_back(centroids[scratch.buffer[j].id()], scratch.buffer[j].distance());
                }
                MC_CHECK(!order.empty() && (s.window < centroids.size() || order.size() == centroids.size()), "harness", "the primary index found ", order.size(), " of ", centroids.size());
                double limit = bound<Dist>(order[0].second, s.epsilon);
                size_t lo = 1, hi = 1;
                // (as near as the nearest is within any slack, without rounding)
                while (lo < order.size() && (order[lo].second == order[0].second || nearer(Dist(), order[lo].second, limit))) {
                    ++lo;
                }
                while (hi < order.size() && !nearer(Dist(), limit, order[hi].second)) {
                    ++hi;
                }
                everything[i] = lo == order.size() && order.size() == centroids.size();
                for (size_t n = lo; n <= hi; ++n) {
                    std::map<uint32_t, double> members;
                    for (size_t j = 0; j < n; ++j) {
                        members[order[j].first] = truth(Dist(), queries[i], pts[order[j].first]);
                        for (auto [x, _] : clusters[order[j].first]) {
                            members[x] = truth(Dist(), queries[i], pts[x]);
                        }
                    }
                    possible[i].emplace_back(members.begin(), members.end());
                }
            }
            for (size_t k : {size_t(1), size_t(3), pts.size() + 2}) {
                index.set_num_threads(1);
                auto result = run(index, queries, k, s, true);
                for (size_t i = 0; i < queries.size(); ++i) {
                    auto r = row(result, i);
                    auto where = [&] { return mc::str(s.str(), " k ", k, " query ", mc::list(queries[i]), " clusters", show(clusters)); };
                    size_t n = check_row(r, Dist(), none<uint64_t>, [&](uint64_t id) -> std::optional<double> {
                        return id < pts.size() ? std::optional<double>(truth(Dist(), queries[i], pts[id])) : std::nullopt;
                    }, where);
                    bool fits = false;
                    for (auto& members : possible[i]) {
                        std::vector<double> d;
                        std::set<uint64_t> in;
                        for (auto [x, y] : members) {
                            in.insert(x);
                            d.push_back(y);
                        }
                        std::sort(d.begin(), d.end(), [&](double a, double b) { return cmp(a, b); });
                        bool ok = n == std::min(k, members.size());
                        for (size_t j = 0; ok && j < n; ++j) {
                            ok = close(d[j], r.dist[j]) && in.count(r.ids[j]);
                        }
                        fits = fits || ok;
                    }
                    MC_CHECK(fits, "best-of-probed", where(), " gave ", kit::show(r), ", not the best of what is probed, e.g.", show({{0, possible[i].back()}}));
                    if (everything[i]) {
                        std::vector<std::pair<uint64_t, double>> all;
                        for (size_t x = 0; x < pts.size(); ++x) {
                            all.emplace_back(x, truth(Dist(), queries[i], pts[x]));
                        }
                        MC_CHECK(n == std::min(k, pts.size()), "exact", where(), " gave ", kit::show(r));
                        check_exact(r, Dist(), k, all, where);
                        mc::count("exact_searches");
                    }
                    mc::outcome(mc::hash(kit::show(r)));
                    mc::evaluation();
                }
                // Per call instead of as the default, other threads, other batches, after other queries.
                auto same = [&](const auto& other, size_t from, size_t n, const char* how) {
                    for (size_t i = 0; i < n; ++i) {
                        MC_CHECK(row(other, i) == row(result, from + i), "depends", s.str(), " k ", k, " query ", mc::list(queries[from + i]), " ", how, ": ", kit::show(row(other, i)), " instead of ", kit::show(row(result, from + i)));
                    }
                };
                index.set_search_parameters(Search{3, 5, false, 2.5}.get());
                same(run(index, queries, k, s, false), 0, queries.size(), "with parameters of the call");
                if (k == 3 && s.epsilon == 5.0 && s.window == 2 && picked.size() != 1) {
                    index.set_num_threads(3);
                    same(run(index, queries, k, s, false), 0, queries.size(), "with three threads");
                    index.set_num_threads(1);
                }
                for (size_t i = 0; i < queries.size(); ++i) {
                    same(run(index, {queries[i]}, k, s, true), i, 1, "alone");
                }
                mc::trace(3);
            }
        }
        mc::state(mc::str(kind, name(Dist()), set.name, mc::list(picked), p.str()));
    });
}
#endif

static void each_subset(size_t n, const std::function<void(const std::vector<uint32_t>&)>& f) {
    for (uint32_t bits = 1; bits < 1u << n; ++bits) {
        std::vector<uint32_t> c;
        for (uint32_t i = 0; i < n; ++i) {
            if (bits >> i & 1) {
                c.push_back(i);
            }
        }
        f(c);
    }
}

static void body() {
    mc::ScratchDir s;
    scratch = s.path;
    auto logger = svs::logging::get();
    svs::logging::set_level(svs::logging::Level::Off);
    bool deep = mc::thorough();
#if PROP == 16
    for (size_t k = 0; k <= 3; ++k) {
        for (size_t n = 0; n <= (k == 0 ? 0 : k == 1 ? 5 : k == 2 ? 6 : deep ? 5 : 4); ++n) {
            by_hand(k, n, L2());
            by_hand(k, n, IP());
        }
    }
    by_hand(4, deep ? 4 : 3, L2());
    std::vector<Params> grid;
    for (double e : {0.0, 0.05, 0.8, 10.0}) {
        for (double a : {1.0, 1.25}) {
            for (size_t r : {0, 1, 2, 8}) {
                size_t i = grid.size();
                grid.push_back({e, a, r, 0, size_t(i % 3 == 0 ? 1 : i % 3 == 1 ? 2 : 100), size_t(i % 5 == 0 ? 2 : 20), 50});
                grid.push_back({e, a, r, size_t(1 + i % 3), size_t(i % 2 ? 100 : 3), 20, size_t(i % 7 == 0 ? 1 : 50)});
            }
        }
    }
    grid.push_back({10, 1, 8, 0, 2, 1, 1});
    grid.push_back({10, 1, 8, 2, 100, 2, 2});
    for (auto& set : sets(deep)) {
        each_subset(set.pts.size(), [&](const std::vector<uint32_t>& c) {
            clustering_case<L2>(set, c, grid, 1);
            clustering_case<IP>(set, c, grid, 1);
            // two workers spin against each other: a selection
            clustering_case<L2>(set, c, {grid[5], grid[30], grid[44]}, 2);
            clustering_case<IP>(set, c, {grid[14], grid[35], grid[62]}, 2);
            // in another order than that of the identifiers
            if (c.size() > 1) {
                auto r = c;
                std::reverse(r.begin(), r.end());
                clustering_case<L2>(set, r, {grid[3], grid[12], grid.back()}, 1);
            }
        });
    }
#else
    std::vector<Params> grid = {{0.8, 1.0, 8, 0, 100, 20, 50}, {0.0, 1.0, 0, 0, 2, 2, 50}, {10, 1.25, 2, 0, 100, 20, 50}};
    for (auto& set : sets(deep)) {
        Points queries;
        if (set.pts[0].size() == 1) {
            queries = {{0.5f}, {11}, {3}, {-4}};
        } else if (set.pts[0].size() == 2) {
            queries = {{0.5f, 0.25f}, {5, 6}, {-3, 2}, {1, 1}, {-6, -1}};
        } else {
            queries = {{0.5f, 0.25f, 1}, {5, 6, 7}, {9, 1, 1}};
        }
        each_subset(set.pts.size(), [&](const std::vector<uint32_t>& c) {
            for (auto& p : grid) {
                search_case<L2, inv::SparseStrategy>(set, c, p, queries, "sparse");
                search_case<L2, inv::DenseStrategy>(set, c, p, queries, "dense");
                search_case<IP, inv::SparseStrategy>(set, c, p, queries, "sparse");
                search_case<IP, inv::DenseStrategy>(set, c, p, queries, "dense");
            }
            if (c.size() > 1) {
                auto r = c;
                std::reverse(r.begin(), r.end());
                search_case<L2, inv::SparseStrategy>(set, r, grid[1], queries, "sparse");
                search_case<L2, inv::DenseStrategy>(set, r, grid[1], queries, "dense");
                std::swap(r[0], r[r.size() / 2]);
                search_case<IP, inv::SparseStrategy>(set, r, grid[0], queries, "sparse");
            }
        });
    }
#endif
}
MC_MAIN(PROP == 16 ? "C16" : "C17", body)
