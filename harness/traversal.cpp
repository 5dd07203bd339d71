// C08: greedy graph traversal on every small directed graph (adjacency lists, entry points, data
// with and without ties, windows, metrics), against reachability and a plain best-first search.
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/graph.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/dynamic_search_buffer.h"
#include "svs/index/vamana/greedy_search.h"
#include "svs/index/vamana/search_buffer.h"

#include <algorithm>

namespace v = svs::index::vamana;
using Graph = svs::graphs::SimpleGraph<uint32_t>;
using Data = svs::data::SimpleData<float>;
using Adj = std::vector<std::vector<uint32_t>>;

struct Log {
    std::vector<uint32_t> visits{}; // every report of the traversal, entry points first
    std::vector<float> dist{};
    template <typename N> void visited(N n, size_t) {
        visits.push_back(n.id());
        dist.push_back(n.distance());
    }
};

struct Result {
    std::vector<uint32_t> ids{};
    std::vector<float> dist{};
    std::vector<uint32_t> expanded{};
    bool operator==(const Result&) const = default;
};

static std::string show(const Result& r) {
    return mc::str("ids ", mc::list(r.ids), " distances ", mc::list(r.dist), " expanded ", mc::list(r.expanded));
}

struct Setup {
    Adj adj;
    std::vector<std::vector<float>> points;
    std::vector<float> query;
    std::vector<uint32_t> eps;
    size_t window, capacity;
    std::string str() const {
        std::string s = "graph";
        for (auto& l : adj) {
            s += " " + mc::list(l);
        }
        s += " points";
        for (auto& p : points) {
            s += " " + mc::list(p);
        }
        return s + mc::str(" query ", mc::list(query), " from ", mc::list(eps), " window ", window, " of ", capacity);
    }
};

static float truth(svs::distance::DistanceL2, const std::vector<float>& a, const std::vector<float>& b) {
    float s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += (a[i] - b[i]) * (a[i] - b[i]);
    }
    return s;
}
static float truth(svs::distance::DistanceIP, const std::vector<float>& a, const std::vector<float>& b) {
    float s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += a[i] * b[i];
    }
    return s;
}
static float truth(svs::distance::DistanceCosineSimilarity, const std::vector<float>& a, const std::vector<float>& b) {
    double s = 0, x = 0, y = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += double(a[i]) * b[i];
        x += double(a[i]) * a[i];
        y += double(b[i]) * b[i];
    }
    return float(s / (std::sqrt(x) * std::sqrt(y)));
}

// A real graph and dataset for one adjacency and one point set.
struct World {
    Graph graph;
    Data data;
    World(const Adj& adj, const std::vector<std::vector<float>>& points, size_t degree)
        : graph(adj.size(), degree)
        , data(points.size(), points[0].size()) {
        for (size_t i = 0; i < adj.size(); ++i) {
            graph.replace_node(i, adj[i]);
            data.set_datum(i, std::span<const float>(points[i]));
        }
    }
};

template <typename Dist, typename Buffer, typename Builder>
Result run(const World& w, const Setup& s, Dist dist, Buffer& buffer, const Builder& builder, v::GreedySearchPrefetchParameters p) {
    Log log;
    svs::data::GetDatumAccessor acc;
    std::span<const float> q(s.query);
    v::greedy_search(w.graph, w.data, acc, q, dist, buffer, s.eps, builder, log, p);
    Result r;
    for (size_t i = 0; i < buffer.size(); ++i) {
        r.ids.push_back(buffer[i].id());
        r.dist.push_back(buffer[i].distance());
    }
    r.expanded.assign(log.visits.begin() + s.eps.size(), log.visits.end());
    return r;
}

template <typename Dist> struct Case {
    const World& w;
    const Setup& s;
    std::vector<float> d{};       // true distances
    std::vector<char> reach{};
    size_t nreach = 0;
    bool ties = false;
    svs::distance::compare_t<Dist> cmp{};

    Case(const World& w_, const Setup& s_)
        : w{w_}
        , s{s_} {
        size_t n = s.adj.size();
        for (auto& p : s.points) {
            d.push_back(truth(Dist(), s.query, p));
        }
        reach.assign(n, 0);
        std::vector<uint32_t> st = s.eps;
        for (auto e : s.eps) {
            reach[e] = 1;
        }
        while (!st.empty()) {
            auto x = st.back();
            st.pop_back();
            for (auto y : s.adj[x]) {
                if (!reach[y]) {
                    reach[y] = 1;
                    st.push_back(y);
                }
            }
        }
        for (size_t i = 0; i < n; ++i) {
            nreach += reach[i];
            for (size_t j = 0; j < i; ++j) {
                ties = ties || (d[i] == d[j]);
            }
        }
    }
    bool close(float a, float b) const { return a == b || std::fabs(a - b) <= 1e-5f * std::max(std::fabs(a), std::fabs(b)) + 1e-30f; }

    void oracle(const Result& r, const char* what) const {
        auto where = [&] { return mc::str(what, ": ", s.str(), " gave ", show(r)); };
        std::set<uint32_t> seen;
        for (size_t i = 0; i < r.ids.size(); ++i) {
            MC_CHECK(r.ids[i] < s.adj.size() && reach[r.ids[i]], "unreachable", where());
            MC_CHECK(seen.insert(r.ids[i]).second, "duplicate", where());
            MC_CHECK(close(r.dist[i], d[r.ids[i]]), "distance", where());
            MC_CHECK(i == 0 || !cmp(r.dist[i], r.dist[i - 1]), "order", where());
        }
        std::set<uint32_t> ex;
        for (auto e : r.expanded) {
            MC_CHECK(ex.insert(e).second, "expanded-twice", where());
            MC_CHECK(e < s.adj.size() && reach[e], "unreachable", where());
        }
        // every entry point was considered, so the best one bounds the best result
        MC_CHECK(!r.ids.empty(), "empty", where());
        for (auto e : s.eps) {
            MC_CHECK(!cmp(d[e], r.dist[0]) || close(d[e], r.dist[0]), "worse-than-entry", where());
        }
        if (s.window >= nreach) {
            MC_CHECK(r.ids.size() == nreach, "incomplete", where());
            MC_CHECK(r.expanded.size() == nreach, "incomplete", where());
        }
        mc::evaluation();
    }

    // A boring best-first search (only used where no two distances tie).
    Result reference() const {
        struct E {
            uint32_t id;
            bool done;
        };
        std::vector<E> list;
        Result r;
        auto insert = [&](uint32_t id) {
            for (auto& e : list) {
                if (e.id == id) {
                    return;
                }
            }
            auto it = list.begin();
            while (it != list.end() && !cmp(d[id], d[it->id])) {
                ++it;
            }
            list.insert(it, E{id, false});
            if (list.size() > s.capacity) {
                list.resize(s.capacity);
            }
        };
        for (auto e : s.eps) {
            insert(e);
        }
        for (;;) {
            size_t i = 0, lim = std::min(s.window, list.size());
            while (i < lim && list[i].done) {
                ++i;
            }
            if (i == lim) {
                break;
            }
            list[i].done = true;
            uint32_t id = list[i].id;
            r.expanded.push_back(id);
            for (auto y : s.adj[id]) {
                insert(y);
            }
        }
        for (auto& e : list) {
            r.ids.push_back(e.id);
            r.dist.push_back(d[e.id]);
        }
        return r;
    }
};

struct AnyResult {
    std::vector<uint32_t> ids;
    std::vector<uint32_t> expanded;
};

template <typename Dist> void check_static(const World& w, const Setup& s, std::vector<v::SearchBuffer<uint32_t, svs::distance::compare_t<Dist>>>& warm, bool deep) {
    using Cmp = svs::distance::compare_t<Dist>;
    using Buffer = v::SearchBuffer<uint32_t, Cmp>;
    if (s.eps.size() > s.window) {
        return;
    }
    Case<Dist> c{w, s};
    v::SearchBufferConfig config{s.window, s.capacity};
    Buffer fresh{config, Cmp{}};
    Result base = run(w, s, Dist(), fresh, v::NeighborBuilder(), {0, 0});
    mc::transition(base.expanded.size());
    mc::state(mc::hash(s.str()));
    mc::outcome(mc::hash(show(base)));
    c.oracle(base, "fresh buffer");
    if (!c.ties) {
        Result ref = c.reference();
        MC_CHECK(
            ref.ids == base.ids && ref.expanded == base.expanded, "best-first", s.str(), " gave ",
            show(base), " but a plain best-first search gives ", show(ref)
        );
        mc::trace();
    }
    // The same answer whatever the prefetching, the filter, and the history of the buffer.
    static const v::GreedySearchPrefetchParameters prefetch[] = {{0, 0}, {1, 1}, {4, 2}, {2, 0}, {16, 1}, {3, 7}};
    for (int filter = 0; filter < 2; ++filter) {
        for (size_t k = 0; k < (deep ? 6 : 3); ++k) {
            auto p = prefetch[k];
            Buffer b{config, Cmp{}, filter == 1};
            Result r = run(w, s, Dist(), b, v::NeighborBuilder(), p);
            MC_CHECK(
                r == base, "depends-on-tuning", s.str(), " with prefetch ", p.lookahead, "/", p.step,
                " filter ", filter, " gave ", show(r), " instead of ", show(base)
            );
            // ... and once more with whatever is left in it.
            Result again = run(w, s, Dist(), b, v::NeighborBuilder(), p);
            MC_CHECK(again == base, "depends-on-history", s.str(), " second run gave ", show(again), " instead of ", show(base));
        }
        auto& b = warm[filter];
        b.change_maxsize(config);
        Result r = run(w, s, Dist(), b, v::NeighborBuilder(), {4, 2});
        MC_CHECK(
            r == base, "depends-on-history", s.str(), " after earlier queries (filter ", filter,
            ") gave ", show(r), " instead of ", show(base)
        );
    }
}

// The traversal over soft-deleted entries: they are walked through but not returned.
template <typename Dist> void check_dynamic(const World& w, const Setup& s, std::vector<v::MutableBuffer<uint32_t, svs::distance::compare_t<Dist>>>& warm) {
    using Cmp = svs::distance::compare_t<Dist>;
    using Buffer = v::MutableBuffer<uint32_t, Cmp>;
    if (s.eps.size() > s.window) {
        return;
    }
    Case<Dist> c{w, s};
    size_t n = s.adj.size();
    v::SearchBufferConfig config{s.window, s.capacity};
    for (unsigned mask = 0; mask < (1u << n); ++mask) {
        std::vector<v::SlotMetadata> status(n, v::SlotMetadata::Valid);
        size_t live = 0;
        for (size_t i = 0; i < n; ++i) {
            if (!(mask >> i & 1)) {
                status[i] = v::SlotMetadata::Deleted;
            } else {
                live += c.reach[i];
            }
        }
        v::ValidBuilder builder{status};
        std::optional<Result> base;
        for (int filter = 0; filter < 2; ++filter) {
            for (auto p : {v::GreedySearchPrefetchParameters{0, 0}, {4, 2}}) {
                Buffer fresh{config, Cmp{}, filter == 1};
                Buffer& b = p.step ? warm[filter] : fresh;
                if (p.step) {
                    b.change_maxsize(config);
                }
                Result r = run(w, s, Dist(), b, builder, p);
                if (!base) {
                    base = r;
                    // before clean-up the list holds deleted entries, too
                    std::set<uint32_t> ex;
                    for (auto e : r.expanded) {
                        MC_CHECK(ex.insert(e).second && c.reach[e], "expanded-twice", s.str(), " live ", mask, " gave ", show(r));
                    }
                } else {
                    MC_CHECK(
                        r == *base, "depends-on-tuning", s.str(), " live ", mask, " filter ", filter, " gave ",
                        show(r), " instead of ", show(*base)
                    );
                }
                b.cleanup();
                std::vector<uint32_t> got;
                for (size_t i = 0; i < b.size(); ++i) {
                    got.push_back(b[i].id());
                    auto where = [&] { return mc::str(s.str(), " live ", mask, " gave ", show(r)); };
                    MC_CHECK(b[i].id() < n && c.reach[b[i].id()], "unreachable", where());
                    MC_CHECK(mask >> b[i].id() & 1, "deleted", where());
                    MC_CHECK(c.close(b[i].distance(), c.d[b[i].id()]), "distance", where());
                    MC_CHECK(i == 0 || !c.cmp(b[i].distance(), b[i - 1].distance()), "order", where());
                    for (size_t j = 0; j < i; ++j) {
                        MC_CHECK(got[j] != got[i], "duplicate", where());
                    }
                }
                if (s.window >= c.nreach || s.window > live) {
                    // nothing limits the walk: with fewer live ones than the window all are expanded
                    MC_CHECK(
                        got.size() == std::min(live, s.capacity), "incomplete", s.str(), " live ", mask,
                        " gave ", show(r), " of ", live, " reachable live nodes"
                    );
                }
                mc::evaluation();
            }
        }
        mc::outcome(mc::hash(show(*base)));
        mc::transition(base->expanded.size());
    }
}

static const std::vector<std::vector<float>> positions = {
    {0, 1, 3, 6, 10, 15}, {4, 1, 1, 0, 4, 1}, {2, -3, 7, 5, -1, 0.5f}};

template <typename Dist> struct Worker {
    using Cmp = svs::distance::compare_t<Dist>;
    std::vector<v::SearchBuffer<uint32_t, Cmp>> warm;
    std::vector<v::MutableBuffer<uint32_t, Cmp>> warmd;
    Worker() {
        v::SearchBufferConfig c{3, 3};
        for (int f = 0; f < 2; ++f) {
            warm.emplace_back(c, Cmp{}, f == 1);
            warmd.emplace_back(c, Cmp{}, f == 1);
        }
    }
    void graph(const Adj& adj, bool dynamic, bool deep) {
        size_t n = adj.size();
        for (size_t pt = 0; pt < positions.size(); ++pt) {
            std::vector<std::vector<float>> points;
            for (size_t i = 0; i < n; ++i) {
                points.push_back({positions[pt][i], 1.0f});
            }
            World w{adj, points, n};
            for (float q : {0.25f, 5.0f}) {
                for (int ep = 0; ep < 3; ++ep) {
                    Setup s{adj, points, {q, 1.0f}, {}, 0, 0};
                    if (ep == 0) {
                        s.eps = {0};
                    } else if (ep == 1) {
                        s.eps = {uint32_t(n - 1)};
                    } else if (n > 1) {
                        s.eps = {uint32_t(n - 1), 0};
                    } else {
                        continue;
                    }
                    for (size_t win = 1; win <= n + 1; ++win) {
                        for (size_t cap = win; cap <= win + (win < n ? 1 : 0); ++cap) {
                            s.window = win;
                            s.capacity = cap;
                            if (dynamic) {
                                check_dynamic<Dist>(w, s, warmd);
                            } else {
                                check_static<Dist>(w, s, warm, deep);
                            }
                        }
                    }
                }
            }
        }
    }
};

// All adjacency structures of n nodes: per node an ordered (or ascending) list of distinct others.
template <typename F> void adjacencies(size_t n, bool ordered, F&& f) {
    std::vector<std::vector<std::vector<uint32_t>>> options(n);
    for (size_t i = 0; i < n; ++i) {
        for (unsigned m = 0; m < (1u << n); ++m) {
            if (m >> i & 1) {
                continue;
            }
            std::vector<uint32_t> l;
            for (size_t j = 0; j < n; ++j) {
                if (m >> j & 1) {
                    l.push_back(j);
                }
            }
            do {
                options[i].push_back(l);
            } while (ordered && std::next_permutation(l.begin(), l.end()));
        }
    }
    mc::tuples(n, options[0].size(), [&](const std::vector<size_t>& t) {
        Adj a;
        for (size_t i = 0; i < n; ++i) {
            a.push_back(options[i][t[i]]);
        }
        f(a);
    });
}

static std::string name(const Adj& a) {
    std::string s;
    for (auto& l : a) {
        s += mc::list(l);
    }
    return s;
}

// Larger shapes: nodes with many neighbours, so that prefetching and the filter see long lists
// (and identifiers that share a filter bucket).
template <typename Dist> void wide(size_t n, size_t shape, size_t dims) {
    Adj adj(n);
    auto link = [&](size_t a, size_t b) {
        if (a != b && std::find(adj[a].begin(), adj[a].end(), b) == adj[a].end()) {
            adj[a].push_back(b);
        }
    };
    for (size_t i = 0; i < n; ++i) {
        if (shape == 0) { // complete
            for (size_t j = 0; j < n; ++j) {
                link(i, j);
            }
        } else if (shape == 1) { // star with a return ring
            link(0, i);
            link(i, (i + 1) % n);
        } else if (shape == 2) { // long line
            if (i + 1 < n) {
                link(i, i + 1);
            }
            if (i) {
                link(i, i - 1);
            }
        } else { // stride graph
            for (size_t k : {1, 5, 17, 40}) {
                link(i, (i + k) % n);
            }
        }
    }
    std::vector<std::vector<float>> pts;
    for (size_t i = 0; i < n; ++i) {
        std::vector<float> p(dims);
        for (size_t j = 0; j < dims; ++j) {
            p[j] = float((i * 37 + j * 11) % 101) - 50 + 0.25f * float((i * i) % 7);
        }
        p[0] = float(i);
        pts.push_back(p);
    }
    World w{adj, pts, n};
    using Cmp = svs::distance::compare_t<Dist>;
    std::vector<v::SearchBuffer<uint32_t, Cmp>> warm;
    for (int f = 0; f < 2; ++f) {
        warm.emplace_back(v::SearchBufferConfig{3, 3}, Cmp{}, f == 1);
    }
    for (size_t win : {1ul, 2ul, 10ul, n / 2, n, n + 7}) {
        if (win == 0) {
            continue;
        }
        for (uint32_t ep : {uint32_t(0), uint32_t(n / 2), uint32_t(n - 1)}) {
            Setup s{adj, pts, pts[n / 3], {ep}, win, win};
            s.query[0] += 0.375f;
            check_static<Dist>(w, s, warm, true);
        }
    }
}

static void body() {
    bool deep = mc::thorough();
    Worker<svs::distance::DistanceL2> l2;
    Worker<svs::distance::DistanceIP> ip;
    Worker<svs::distance::DistanceCosineSimilarity> cs;
    auto all = [&](size_t n, bool ordered, bool dynamic, bool metrics) {
        // group graphs into cases to keep the journal cheap
        std::vector<Adj> block;
        auto flush = [&] {
            if (block.empty()) {
                return;
            }
            mc::run(
                [&] { return mc::str(dynamic ? "dynamic " : "static ", "graphs ", name(block.front()), " .. ", name(block.back()), ordered ? " ordered" : "", metrics ? " metrics" : ""); },
                [&] {
                    for (auto& a : block) {
                        l2.graph(a, dynamic, deep);
                        if (metrics) {
                            ip.graph(a, dynamic, deep);
                            cs.graph(a, dynamic, deep);
                        }
                        mc::count("graphs");
                    }
                }
            );
            block.clear();
        };
        adjacencies(n, ordered, [&](const Adj& a) {
            block.push_back(a);
            if (block.size() == 16) {
                flush();
            }
        });
        flush();
    };
    all(1, true, false, true);
    all(2, true, false, true);
    all(3, true, false, true);
    all(4, deep, false, true);
    all(1, true, true, true);
    all(2, true, true, true);
    all(3, true, true, true);
    if (deep) {
        all(4, false, true, true);
    }
    for (size_t n : {5, 17, 33, 65, 130, deep ? 600 : 260}) {
        for (size_t shape = 0; shape < 4; ++shape) {
            for (size_t dims : {1, 3, 19}) {
                mc::run([&] { return mc::str("wide n=", n, " shape=", shape, " dims=", dims); }, [&] {
                    wide<svs::distance::DistanceL2>(n, shape, dims);
                    wide<svs::distance::DistanceIP>(n, shape, dims);
                });
            }
        }
    }
    // Identifiers beyond 16 bits (the filter keeps a part of each): a path that comes back to
    // aliases of earlier nodes.
    for (size_t shape : {2, 3}) {
        mc::run([&] { return mc::str("aliases shape=", shape); }, [&] {
            size_t n = (1u << 16) * 2 + 5;
            Adj adj(n);
            std::vector<uint32_t> path;
            for (uint32_t k = 0; k < 5; ++k) {
                for (uint32_t b = 0; b < 3 && (b << 16 | k) < n; ++b) {
                    path.push_back(b << 16 | k);
                }
            }
            for (size_t i = 0; i + 1 < path.size(); ++i) {
                adj[path[i]].push_back(path[i + 1]);
                if (shape == 3) {
                    adj[path[i + 1]].push_back(path[i]);
                    adj[path[i]].push_back(path[(i + 4) % path.size()]);
                }
            }
            for (auto& l : adj) {
                std::sort(l.begin(), l.end());
                l.erase(std::unique(l.begin(), l.end()), l.end());
            }
            Graph g(n, 8);
            Data d(n, 1);
            for (auto p : path) {
                g.replace_node(p, adj[p]);
            }
            for (size_t i = 0; i < n; ++i) {
                float x = float(i);
                d.set_datum(i, std::span<const float>(&x, 1));
            }
            for (int filter = 0; filter < 2; ++filter) {
                v::SearchBuffer<uint32_t, std::less<>> b{v::SearchBufferConfig{64, 64}, {}, filter == 1};
                svs::distance::DistanceL2 dist;
                svs::data::GetDatumAccessor acc;
                float qv = 3.5f;
                std::span<const float> q(&qv, 1);
                Log log;
                v::greedy_search(g, d, acc, q, dist, b, std::vector<uint32_t>{path[0]}, v::NeighborBuilder(), log, {4, 2});
                std::set<uint32_t> got;
                for (size_t i = 0; i < b.size(); ++i) {
                    got.insert(b[i].id());
                }
                MC_CHECK(got == std::set<uint32_t>(path.begin(), path.end()), "incomplete", "found ", got.size(), " of ", path.size(), " with filter ", filter);
                mc::evaluation();
            }
        });
    }
}
MC_MAIN("C08", body)
