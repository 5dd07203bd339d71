// C05: graph construction and search by several workers, every schedule within the bound.
#include <cstddef>
#include <type_traits>
extern "C" void __tsan_write_range(void*, unsigned long);
// The visited filter clears 128 kB for every query: report only both ends of long runs to
// the race detector (accesses to single entries of a shared filter would still be seen). Seen by the standard library because it is declared before it.
namespace std {
__attribute__((no_sanitize("thread"))) constexpr void __fill_a1(unsigned short* first, unsigned short* last, const unsigned short& value) {
    const unsigned short v = value;
    if (!__builtin_is_constant_evaluated()) {
        if (last - first < 1024) {
            __tsan_write_range(first, (last - first) * sizeof(unsigned short));
        } else {
            __tsan_write_range(first, 64);
            __tsan_write_range(last - 32, 64);
        }
    }
    for (; first != last; ++first) {
        *first = v;
    }
}
} // namespace std
#include "sched/vs.h"

#include "kit.h"
#include "svs/core/logging.h"
#include "svs/index/index.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"

namespace v = svs::index::vamana;
namespace t = svs::threads;
using namespace kit;
using L2 = svs::distance::DistanceL2;
using SGraph = svs::graphs::SimpleGraph<uint32_t, svs::lib::Allocator<uint32_t>>; // no huge pages

// A team that works once and goes: the pool itself is the business of C01.
struct Team {
    size_t n;
    size_t size() const { return n; }
    void run(t::FunctionRef f) {
        std::vector<std::thread> ts;
        for (size_t i = 1; i < n; ++i) {
            ts.emplace_back([f, i] { f(i); });
        }
        f(0);
        for (auto& x : ts) {
            x.join();
        }
    }
};
static_assert(t::ThreadPool<Team>);

static Points line(size_t n, int shape) {
    Points p;
    for (size_t i = 0; i < n; ++i) {
        switch (shape) {
        case 0:
            p.push_back({float(i * i), float(i % 2)});
            break;
        case 1: // the first is nearest to all others
            p.push_back({i ? float(10 + i) * (i % 2 ? 1.f : -1.f) : 0.f, i ? float(10 + 3 * i) * (i % 3 ? 1.f : -1.f) : 0.f});
            break;
        case 2:
            p.push_back({1, 1});
            break;
        default:
            p.push_back({float((i * 7) % 5), float((i * 3) % 4)});
        }
    }
    return p;
}

template <typename Graph> Adj adjacency(const Graph& g, size_t n) {
    Adj a;
    for (size_t i = 0; i < n; ++i) {
        auto l = g.get_node(i);
        a.emplace_back(l.begin(), l.end());
    }
    return a;
}

static void structure(const Adj& a, size_t degree, const char* when) {
    for (size_t i = 0; i < a.size(); ++i) {
        VS_CHECK(a[i].size() <= degree, "degree", when, ": node ", i, " has ", mc::list(a[i]), ", degree bound ", degree);
        std::set<uint32_t> s;
        for (auto j : a[i]) {
            VS_CHECK(j < a.size(), "range", when, ": node ", i, " has ", mc::list(a[i]));
            VS_CHECK(j != i, "self", when, ": node ", i, " has ", mc::list(a[i]));
            VS_CHECK(s.insert(j).second, "duplicate", when, ": node ", i, " has ", mc::list(a[i]));
        }
    }
}
static void connected(const Adj& a, uint32_t ep, const char* when) {
    auto r = reachable(a, {ep});
    for (size_t i = 0; i < a.size(); ++i) {
        VS_CHECK(r[i], "lost", when, ": node ", i, " cannot be reached from ", ep, " in ", show(a));
    }
}

static void report(const vs::Options& o, const std::function<void()>& body) {
    vs::check(o, body, [] {});
}
// One-time initialisation of function-local statics, outside of the scheduler: the compiler's
// guards are no scheduling points.
static void warm_up() {
    tsl::robin_set<uint32_t> s;
    s.insert(1u);
    for (bool history : {false, true}) {
        Team pool{1};
        auto data = dataset(line(4, 0));
        SGraph g(4, 2);
        v::VamanaBuildParameters p{1.2f, 2, 4, 4, 2, history};
        v::VamanaBuilder(g, data, L2(), p, pool).construct(1.0f, 0);
    }
    v::BackedgeBuffer<uint32_t> b(4, 4);
    b.add_edge(1, 2);
    (void)svs::logging::get();
    (void)t::default_spintime();
}

// All nodes in one batch, `passes` times.
static void one_batch(size_t team, size_t n, int shape, size_t degree, size_t prune_to, bool history, size_t passes, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    auto pts = line(n, shape);
    report(o, [&] {
        Team pool{team};
        auto data = dataset(pts);
        SGraph g(n, degree);
        v::VamanaBuildParameters p{1.2f, degree, n + 1, 3 * n, prune_to, history};
        auto b = v::VamanaBuilder(g, data, L2(), p, pool);
        svs::lib::Timer timer;
        std::vector<size_t> all(n);
        std::iota(all.begin(), all.end(), 0);
        std::vector<uint32_t> ep{0};
        for (size_t i = 0; i < passes; ++i) {
            b.generate_neighbors(all, 1.2f, ep, timer);
            structure(adjacency(g, n), degree, "forward edges");
            b.add_reverse_edges(all, 1.2f, timer);
            auto a = adjacency(g, n);
            structure(a, degree, "reverse edges");
            if (degree + 1 >= n && prune_to + 1 >= n) {
                connected(a, 0, "reverse edges");
            }
        }
    });
}

// Every edge of a given graph is reversed: nothing overflows, so nothing may be missing.
static void reverse_all(size_t team, const Adj& adj, size_t degree, size_t prune_to, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    size_t n = adj.size();
    auto pts = line(n, 0);
    report(o, [&] {
        Team pool{team};
        auto data = dataset(pts);
        auto g = graph<SGraph>(adj, degree);
        v::VamanaBuildParameters p{1.0f, degree, n, 3 * n, prune_to, true};
        auto b = v::VamanaBuilder(g, data, L2(), p, pool);
        svs::lib::Timer timer;
        b.add_reverse_edges(t::UnitRange<size_t>(0, n), 1.0f, timer);
        auto a = adjacency(g, n);
        structure(a, degree, "reversal");
        size_t most = 0;
        for (size_t i = 0; i < n; ++i) {
            std::set<uint32_t> full(adj[i].begin(), adj[i].end());
            for (size_t j = 0; j < n; ++j) {
                if (std::find(adj[j].begin(), adj[j].end(), i) != adj[j].end()) {
                    full.insert(j);
                }
            }
            most = std::max(most, full.size());
        }
        for (size_t i = 0; i < n; ++i) {
            std::set<uint32_t> full(adj[i].begin(), adj[i].end());
            for (size_t j = 0; j < n; ++j) {
                if (std::find(adj[j].begin(), adj[j].end(), i) != adj[j].end()) {
                    full.insert(j);
                }
            }
            std::set<uint32_t> got(a[i].begin(), a[i].end());
            VS_CHECK(std::includes(full.begin(), full.end(), got.begin(), got.end()), "invented", "node ", i, " has ", mc::list(a[i]), " of ", mc::list(full));
            if (most < degree) { // no list is ever full
                VS_CHECK(got == full, "missing", "node ", i, " has ", mc::list(a[i]), " where all of ", mc::list(full), " fit");
            } else {
                if (full.empty()) {
                    continue;
                }
                VS_CHECK(!got.empty(), "missing", "node ", i, " lost all of ", mc::list(full));
                // the nearest of all candidates comes first in a pruned list
                auto near = *std::min_element(full.begin(), full.end(), [&](auto x, auto y) {
                    return truth(L2(), pts[i], pts[x]) < truth(L2(), pts[i], pts[y]);
                });
                VS_CHECK(got.count(near), "missing", "node ", i, " lost its nearest candidate ", near, ": ", mc::list(a[i]));
            }
        }
    });
}

// Lists that overflow in two buckets, which are pruned by different workers.
static void two_buckets(size_t team, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    size_t n = 1003;
    Points pts;
    for (size_t i = 0; i < n; ++i) {
        pts.push_back({float(i % 500), float(i < 500 ? 0 : 3)});
    }
    report(o, [&] {
        Team pool{team};
        auto data = dataset(pts);
        SGraph g(n, 2);
        auto set = [&](uint32_t i, std::vector<uint32_t> l) { g.replace_node(i, l); };
        set(1, {4, 5});
        set(1001, {1, 4});
        set(4, {1, 1001});
        set(5, {1, 1001});
        set(6, {1001, 1});
        v::VamanaBuildParameters p{1.0f, 2, 4, 30, 2, true};
        auto b = v::VamanaBuilder(g, data, L2(), p, pool);
        svs::lib::Timer timer;
        b.add_reverse_edges(std::vector<size_t>{1, 1001, 4, 5, 6}, 1.0f, timer);
        Adj a = adjacency(g, n);
        structure(a, 2, "two buckets");
        VS_CHECK(!a[1].empty() && !a[1001].empty(), "missing", "a list was emptied");
    });
}

static void backedges(size_t team, size_t buckets, int bound) {
    vs::Options o;
    o.bound = bound;
    report(o, [&] {
        v::BackedgeBuffer<uint32_t> b(4 * buckets, 4);
        Team pool{team};
        auto f = [&](uint64_t tid) {
            for (uint32_t i = 0; i < 2; ++i) {
                b.add_edge((i + tid) % (4 * buckets), 10 * tid + i);
                b.add_edge(uint32_t(4 * (i % buckets)), 7);
            }
        };
        for (size_t round = 0; round < 2; ++round) {
            pool.run(t::FunctionRef(f));
            std::map<uint32_t, std::set<uint32_t>> want, got;
            for (uint32_t tid = 0; tid < team; ++tid) {
                for (uint32_t i = 0; i < 2; ++i) {
                    want[(i + tid) % (4 * buckets)].insert(10 * tid + i);
                    want[4 * (i % buckets)].insert(7);
                }
            }
            size_t k = 0;
            for (auto& m : b.buckets()) {
                for (auto& kv : m) {
                    VS_CHECK(kv.first / 4 == k, "bucket", "node ", kv.first, " in bucket ", k);
                    got[kv.first].insert(kv.second.begin(), kv.second.end());
                }
                ++k;
            }
            VS_CHECK(got == want, "missing", "collected edges differ from those added");
            b.reset();
            for (auto& m : b.buckets()) {
                VS_CHECK(m.empty(), "reset", "edges left after a reset");
            }
        }
    });
}

// The whole construction: several batches with several nodes each.
static void construct(size_t team, size_t n, size_t degree, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 2000000;
    auto pts = line(n, 3);
    report(o, [&] {
        t::NativeThreadPool pool(team, 1);
        auto data = dataset(pts);
        SGraph g(n, degree);
        v::VamanaBuildParameters p{1.2f, degree, degree + 2, 3 * n, degree, true};
        auto b = v::VamanaBuilder(g, data, L2(), p, pool);
        b.construct(1.0f, 0, svs::logging::Level::Trace);
        structure(adjacency(g, n), degree, "construction");
    });
}

static std::vector<Row> answers(const svs::QueryResult<size_t>& r) {
    std::vector<Row> a;
    for (size_t i = 0; i < r.n_queries(); ++i) {
        a.push_back(row(r, i));
    }
    return a;
}
static std::string show(const std::vector<Row>& a) {
    std::string s;
    for (auto& r : a) {
        s += kit::show(r) + "; ";
    }
    return s;
}
static v::VamanaSearchParameters sp(size_t window, bool visited = false) {
    return v::VamanaSearchParameters{v::SearchBufferConfig{window}, visited, 2, 1};
}
using Static = v::VamanaIndex<SGraph, svs::data::SimpleData<float>, L2>;
static Adj ring(size_t n) {
    Adj a(n);
    for (uint32_t i = 0; i < n; ++i) {
        a[i] = {uint32_t((i + 1) % n), uint32_t((i + 2) % n)};
    }
    return a;
}
static Points some_queries(size_t n) {
    Points q;
    for (size_t i = 0; i < n; ++i) {
        q.push_back({float(i) + 0.25f, float(i % 3) - 0.5f});
    }
    return q;
}
static std::vector<Row> sequential(const Points& pts, const Points& qs, size_t k, size_t window) {
    Static idx(graph<SGraph>(ring(pts.size()), 2), dataset(pts), 0, L2(), 1);
    svs::QueryResult<size_t> r(qs.size(), k);
    idx.search(r.view(), dataset(qs).cview(), sp(window));
    return answers(r);
}

// A batch by a pool of workers.
static void batch(size_t team, size_t nq, bool visited, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    auto pts = line(5, 0);
    auto qs = some_queries(nq);
    auto want = sequential(pts, qs, 3, 3);
    report(o, [&] {
        Static idx(graph<SGraph>(ring(5), 2), dataset(pts), 0, L2(), t::NativeThreadPool(team, 1));
        svs::QueryResult<size_t> r(nq, 3);
        poison(r);
        idx.search(r.view(), dataset(qs).cview(), sp(3, visited));
        auto got = answers(r);
        VS_CHECK(got == want, "answers", "with ", team, " workers ", show(got), " alone ", show(want));
    });
}

// Callers that share one index: `scratch` with their own scratch space, else with the pool.
static void callers(size_t n, size_t team, bool scratch, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    auto pts = line(5, 0);
    auto qs = some_queries(2);
    auto want = sequential(pts, qs, 2, 2);
    report(o, [&] {
        Static idx(graph<SGraph>(ring(5), 2), dataset(pts), 0, L2(), t::NativeThreadPool(team, 1));
        auto work = [&](uint64_t me) {
            if (scratch) {
                auto s = idx.scratchspace(sp(2, me % 2));
                for (size_t q = 0; q < qs.size(); ++q) {
                    idx.search(std::span<const float>(qs[(q + me) % 2]), s);
                    for (size_t j = 0; j < 2; ++j) {
                        auto& w = want[(q + me) % 2];
                        VS_CHECK(s.buffer[j].id() == w.ids[j] && s.buffer[j].distance() == w.dist[j], "answers", "query ", (q + me) % 2, " place ", j, " is ", s.buffer[j].id());
                    }
                }
            } else {
                svs::QueryResult<size_t> r(qs.size(), 2);
                poison(r);
                idx.search(r.view(), dataset(qs).cview(), sp(2, me % 2));
                auto got = answers(r);
                VS_CHECK(got == want, "answers", "caller ", me, " got ", show(got), " alone ", show(want));
            }
        };
        Team c{n};
        c.run(t::FunctionRef(work));
    });
}

// Parameters change while batches use them: each batch is answered with one setting.
static void change_parameters(size_t changes, bool use_scratch, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 200000;
    auto pts = line(6, 0);
    auto qs = some_queries(2);
    std::vector<std::vector<Row>> want;
    for (size_t w : {1, 4, 6}) {
        want.push_back(sequential(pts, qs, 1, w));
    }
    report(o, [&] {
        Static idx(graph<SGraph>(ring(6), 2), dataset(pts), 0, L2(), t::NativeThreadPool(1, 1));
        idx.set_search_parameters(sp(1));
        std::thread other([&] {
            const size_t w[] = {4, 6, 1};
            for (size_t i = 0; i < changes; ++i) {
                idx.set_search_parameters(sp(w[i]));
            }
        });
        if (use_scratch) {
            auto s = idx.scratchspace();
            VS_CHECK(s.buffer.config() == v::SearchBufferConfig(1) || s.buffer.config() == v::SearchBufferConfig(4) || s.buffer.config() == v::SearchBufferConfig(6), "mixture", "scratch space with window ", s.buffer.config().get_search_window_size(), " capacity ", s.buffer.config().get_total_capacity());
        } else {
            svs::QueryResult<size_t> r(qs.size(), 1);
            poison(r);
            svs::index::search_batch_into(idx, r.view(), dataset(qs).cview());
            auto got = answers(r);
            bool ok = false;
            for (size_t i = 0; i <= changes; ++i) {
                ok = ok || got == want[i % 3];
            }
            VS_CHECK(ok, "mixture", "the batch got ", show(got), ", which no setting gives");
        }
        auto now = idx.get_search_parameters();
        VS_CHECK(now == sp(1) || now == sp(4) || now == sp(6), "mixture", "parameters that were never set");
        other.join();
    });
}

// The dynamic index.
static size_t graph_block = 4;
using GraphData = svs::data::SimpleData<uint32_t, svs::Dynamic, svs::data::Blocked<svs::lib::Allocator<uint32_t>>>;
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GraphData> {
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GraphData>;
    static GraphData::allocator_type alloc(size_t row) {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(2 * graph_block * row * 4);
        return GraphData::allocator_type(bp);
    }
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, alloc(max_degree + 1)} {}
    void unsafe_resize(size_t new_size) { (parent_type::data_).resize(new_size); }
    void add_node() { unsafe_resize(parent_type::n_nodes() + 1); }
};
using Alloc = svs::data::Blocked<svs::lib::Allocator<float>>;
using DynData = svs::data::SimpleData<float, svs::Dynamic, Alloc>;
using Mutable = v::MutableVamanaIndex<SmallGraph, DynData, L2>;

// ops: a add two points, d delete one, c consolidate, k compact, s search
static void dynamic(size_t team, size_t n, size_t degree, const std::string& ops, int bound) {
    vs::Options o;
    o.bound = bound;
    o.horizon = 500000;
    auto pts = line(n + 2 * ops.size(), 3);
    for (size_t i = 0; i < pts.size(); ++i) {
        pts[i][0] += float(i) * 0.125f; // no ties
        pts[i][1] -= float(i * i) * 0.0625f;
    }
    report(o, [&] {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(32);
        SmallGraph g(degree, n);
        for (uint32_t i = 0; i < n; ++i) {
            std::vector<uint32_t> l;
            for (uint32_t d = 1; d < n && l.size() < degree; ++d) {
                l.push_back((i + d) % n);
            }
            g.replace_node(i, l);
        }
        std::vector<size_t> ids(n);
        std::iota(ids.begin(), ids.end(), 0);
        Mutable idx(std::move(g), fill(DynData(n, 2, Alloc(bp)), Points(pts.begin(), pts.begin() + n)), 0, L2(), ids, t::NativeThreadPool(team, 1));
        idx.set_alpha(1.2f);
        idx.set_construction_window_size(n + 6);
        idx.set_max_candidates(30);
        idx.set_full_search_history(true);
        std::set<size_t> live(ids.begin(), ids.end()), gone;
        size_t next = n;
        for (char c : ops) {
            if (c == 'a') {
                std::vector<size_t> add{next, next + 1};
                idx.add_points(dataset(Points{pts[next], pts[next + 1]}), add);
                live.insert(add.begin(), add.end());
                next += 2;
            } else if (c == 'd') {
                size_t id = *live.begin();
                idx.delete_entries(std::vector<size_t>{id});
                live.erase(id);
            } else if (c == 'c') {
                idx.consolidate();
            } else if (c == 'k') {
                idx.compact(2);
            } else if (c == 's') {
                auto qs = some_queries(3);
                svs::QueryResult<size_t> r(3, 2);
                poison(r);
                idx.search(r.view(), dataset(qs).cview(), sp(20));
                for (size_t q = 0; q < 3; ++q) {
                    auto x = row(r, q);
                    std::vector<std::pair<double, size_t>> d;
                    for (auto id : live) {
                        d.emplace_back(truth(L2(), qs[q], pts[id]), id);
                    }
                    std::sort(d.begin(), d.end());
                    for (size_t j = 0; j < 2 && degree > 8; ++j) {
                        VS_CHECK(x.ids[j] == d[j].second && close(x.dist[j], d[j].first), "answers", "query ", q, " got ", kit::show(x));
                    }
                    for (size_t j = 0; j < 2; ++j) {
                        VS_CHECK(x.ids[j] == none<uint64_t> || live.count(x.ids[j]), "answers", "query ", q, " got ", kit::show(x));
                    }
                }
            }
            VS_CHECK(idx.size() == live.size(), "size", "after ", ops, ": ", idx.size(), " of ", live.size());
            auto a = adjacency(idx.view_graph(), idx.view_graph().n_nodes());
            structure(a, degree, "dynamic index");
        }
        for (auto id : live) {
            auto x = idx.get_datum(id);
            VS_CHECK(x[0] == pts[id][0] && x[1] == pts[id][1], "vector", "identifier ", id, " has another vector");
        }
    });
}

static void body() {
    bool deep = mc::thorough();
    svs::logging::set_level(svs::logging::Level::Off);
    warm_up();
    for (size_t team : {2, 3}) {
        for (size_t n : {3, 4, 5}) {
            for (int shape = 0; shape < 4; ++shape) {
                for (auto [degree, to] : {std::pair{n - 1, n - 1}, std::pair{size_t(1), size_t(1)}, std::pair{size_t(2), size_t(1)}}) {
                    int b = std::max(1, (team == 2 ? 3 : 2) - int(n - 3)) + deep;
                    for (bool history : {false, true}) {
                        if (history && shape > 1) {
                            continue;
                        }
                        mc::run(
                            [&] { return mc::str("one batch team=", team, " n=", n, " shape=", shape, " degree=", degree, "/", to, history ? " history" : "", " bound=", b); },
                            [&] { one_batch(team, n, shape, degree, to, history, 2, b); }
                        );
                    }
                }
            }
        }
        // every graph on three nodes, and a star
        for (size_t mask = 0; mask < 64; ++mask) {
            Adj a(3);
            size_t k = 0;
            for (uint32_t i = 0; i < 3; ++i) {
                for (uint32_t j = 0; j < 3; ++j) {
                    if (i != j && (mask >> k++ & 1)) {
                        a[i].push_back(j);
                    }
                }
            }
            size_t most = std::max({a[0].size(), a[1].size(), a[2].size(), size_t(1)});
            int b = (team == 2 ? 3 : 2) + deep;
            for (size_t degree = most; degree <= 3; ++degree) {
                mc::run(
                    [&] { return mc::str("reverse team=", team, " graph ", show(a), " degree=", degree, " bound=", b); },
                    [&] { reverse_all(team, a, degree, degree, b); }
                );
            }
        }
        for (size_t n : {4, 5, 6}) {
            Adj star(n), back(n);
            for (uint32_t i = 1; i < n; ++i) {
                star[i] = {0};
                back[0].push_back(i);
                back[i] = {0};
            }
            int b = (team == 2 ? 3 : 2) - (n == 6) + deep;
            for (size_t degree : {size_t(1), size_t(2), n - 1, n}) {
                mc::run([&] { return mc::str("reverse team=", team, " star of ", n, " degree=", degree, " bound=", b); }, [&] { reverse_all(team, star, degree, degree, b); });
            }
            mc::run([&] { return mc::str("reverse team=", team, " double star of ", n, " bound=", b); }, [&] { reverse_all(team, back, n - 1, 1, b); });
        }
        int b = (team == 2 ? 2 : 1) + deep;
        mc::run([&] { return mc::str("two buckets team=", team, " bound=", b); }, [&] { two_buckets(team, b); });
        for (size_t buckets : {1, 2}) {
            mc::run([&] { return mc::str("backedges team=", team, " buckets=", buckets, " bound=", b + 1); }, [&] { backedges(team, buckets, b + 1); });
        }
        for (size_t n : {42, 81}) {
            for (size_t degree : {1, 3}) {
                int b2 = deep && n == 42 && team == 2 ? 1 : 0;
                mc::run([&] { return mc::str("construct team=", team, " n=", n, " degree=", degree, " bound=", b2); }, [&] { construct(team, n, degree, b2); });
            }
        }
        for (size_t nq : {1, 2, 3}) {
            for (bool visited : {false, true}) {
                int b3 = (team == 2 ? 2 : 1) + deep;
                mc::run([&] { return mc::str("search team=", team, " queries=", nq, visited ? " filter" : "", " bound=", b3); }, [&] { batch(team, nq, visited, b3); });
            }
        }
    }
    for (size_t n : {2, 3}) {
        mc::run([&] { return mc::str("callers with scratch ", n); }, [&] { callers(n, 1, true, 3); });
    }
    for (size_t team : {1, 2}) {
        int b = (team == 1 ? 3 : 1) + deep;
        mc::run([&] { return mc::str("callers of a pool of ", team, " bound=", b); }, [&] { callers(2, team, false, b); });
    }
    for (size_t c : {1, 2, 3}) {
        for (bool s : {false, true}) {
            mc::run([&] { return mc::str("change parameters ", c, s ? " scratch" : ""); }, [&] { change_parameters(c, s, 3 + deep); });
        }
    }
    for (std::string ops : {"a", "dc", "dac", "dk", "dck", "ks", "s", "as", "das", "dcas", "aadc"}) {
        for (size_t degree : {1, 2, 12}) {
            int b = deep ? 2 : (ops.size() > 2 ? 0 : 1);
            mc::run([&] { return mc::str("dynamic ", ops, " degree=", degree, " bound=", b); }, [&] { dynamic(2, 4, degree, ops, b); });
            mc::run([&] { return mc::str("dynamic ", ops, " degree=", degree, " team=3"); }, [&] { dynamic(3, 4, degree, ops, deep); });
        }
    }
}

MC_MAIN("C05", body)
