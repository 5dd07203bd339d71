// C11: graph construction on every small dataset.
#include "kit.h"
#include "svs/core/logging.h"
#include "svs/index/index.h"
#include "svs/index/vamana/index.h"

namespace v = svs::index::vamana;
using namespace kit;

struct Params {
    float alpha;
    size_t degree, window, candidates, prune_to;
    bool history;
    v::VamanaBuildParameters get() const { return {alpha, degree, window, candidates, prune_to, history}; }
    std::string str() const { return mc::str("alpha ", alpha, " degree ", degree, "/", prune_to, " window ", window, " candidates ", candidates, history ? " history" : ""); }
};

static Adj adjacency(const svs::graphs::SimpleGraph<uint32_t>& g) {
    Adj a;
    for (size_t i = 0; i < g.n_nodes(); ++i) {
        auto l = g.get_node(i);
        a.emplace_back(l.begin(), l.end());
    }
    return a;
}

static void structure(const Adj& a, size_t n, size_t degree, const std::function<std::string()>& where) {
    MC_CHECK(a.size() == n, "nodes", where(), ": ", a.size(), " nodes for ", n, " vectors");
    for (size_t i = 0; i < n; ++i) {
        MC_CHECK(a[i].size() <= degree, "degree", where(), ": node ", i, " has ", mc::list(a[i]), ", degree bound ", degree);
        std::set<uint32_t> s;
        for (auto j : a[i]) {
            MC_CHECK(j < n, "range", where(), ": node ", i, " has ", mc::list(a[i]));
            MC_CHECK(j != i, "self", where(), ": node ", i, " has ", mc::list(a[i]));
            MC_CHECK(s.insert(j).second, "duplicate", where(), ": node ", i, " has ", mc::list(a[i]));
        }
    }
    mc::evaluation(n);
}

// Every place that may be called nearest to the centre of `pts`.
static std::vector<double> centre_distances(const Points& pts) {
    std::vector<double> c(pts[0].size(), 0), d;
    for (auto& p : pts) {
        for (size_t j = 0; j < c.size(); ++j) {
            c[j] += p[j];
        }
    }
    for (auto& x : c) {
        x /= pts.size();
    }
    for (auto& p : pts) {
        double s = 0;
        for (size_t j = 0; j < c.size(); ++j) {
            s += (p[j] - c[j]) * (p[j] - c[j]);
        }
        d.push_back(s);
    }
    return d;
}

template <typename Dist, typename T = float> struct Checker {
    using Data = svs::data::SimpleData<T>;
    using Graph = svs::graphs::SimpleGraph<uint32_t>;
    const Points& pts;
    size_t n;
    Data data;
    std::vector<double> centre;
    explicit Checker(const Points& p)
        : pts{p}
        , n{p.size()}
        , data{dataset<T>(p)}
        , centre{centre_distances(p)} {}

    size_t entry_point() {
        svs::threads::SequentialThreadPool pool;
        auto ep = v::extensions::compute_entry_point(data, pool);
        check_entry_point(ep, "compute_entry_point");
        return ep;
    }
    void check_entry_point(size_t ep, const char* how) {
        MC_CHECK(ep < n, "entry-point", how, " of ", show(pts), " gave ", ep);
        double best = *std::min_element(centre.begin(), centre.end());
        MC_CHECK(centre[ep] <= best * (1 + 1e-6) + 1e-9, "entry-point", how, " of ", show(pts), " gave ", ep, " at ", centre[ep], " from the centre, nearest ", best);
    }

    std::string where(const Params& p, size_t ep) const { return mc::str(name(Dist()), " ", p.str(), " points ", show(pts), " from ", ep); }

    bool unbounded(const Params& p) const { return p.degree + 1 >= n && p.prune_to + 1 >= n && p.window >= n && p.candidates >= n; }

    Adj construct(const Params& p, size_t ep, v::GreedySearchPrefetchParameters prefetch = {}) {
        Graph g(n, p.degree);
        svs::threads::SequentialThreadPool pool;
        auto params = p.get();
        auto b = v::VamanaBuilder(g, data, Dist(), params, pool, prefetch);
        b.construct(1.0f, ep, svs::logging::Level::Trace);
        structure(adjacency(g), n, p.degree, [&] { return where(p, ep) + " after the first pass"; });
        b.construct(p.alpha, ep, svs::logging::Level::Trace);
        mc::transition(2 * n);
        return adjacency(g);
    }

    void check(const Params& p, size_t ep) {
        auto text = [&] { return where(p, ep); };
        auto a = construct(p, ep);
        structure(a, n, p.degree, text);
        if (unbounded(p)) {
            auto r = reachable(a, {uint32_t(ep)});
            for (size_t i = 0; i < n; ++i) {
                MC_CHECK(r[i], "lost", text(), ": node ", i, " cannot be reached in ", show(a));
            }
            mc::count("reachability");
        }
        auto b = construct(p, ep, {n % 3, 1 + n % 2});
        MC_CHECK(a == b, "determinism", text(), ": once ", show(a), " and once ", show(b));
        mc::state(mc::hash(text()));
        mc::outcome(mc::hash(show(a)));
        mc::trace();
    }

    // In two pieces, as the dynamic index adds points to an existing graph.
    void pieces(const Params& p, size_t ep) {
        for (size_t split = 1; split < n; ++split) {
            Graph g(n, p.degree);
            svs::threads::SequentialThreadPool pool;
            auto params = p.get();
            auto b = v::VamanaBuilder(g, data, Dist(), params, pool);
            std::vector<size_t> head, tail;
            for (size_t i = 0; i < n; ++i) {
                (i < split || i == ep ? head : tail).push_back(i);
            }
            std::reverse(tail.begin(), tail.end());
            auto text = [&] { return where(p, ep) + mc::str(" in pieces of ", head.size(), " and ", tail.size()); };
            b.construct(1.0f, ep, head, svs::logging::Level::Trace);
            b.construct(p.alpha, ep, head, svs::logging::Level::Trace);
            auto a = adjacency(g);
            structure(a, n, p.degree, text);
            for (auto i : tail) {
                MC_CHECK(a[i].empty(), "pieces", text(), ": node ", i, " not in the range got ", mc::list(a[i]));
            }
            b.construct(p.alpha, ep, tail, svs::logging::Level::Trace);
            a = adjacency(g);
            structure(a, n, p.degree, text);
            if (unbounded(p)) {
                auto r = reachable(a, {uint32_t(ep)});
                for (size_t i = 0; i < n; ++i) {
                    MC_CHECK(r[i], "lost", text(), ": node ", i, " cannot be reached in ", show(a));
                }
            }
            mc::state(mc::hash(text()));
            mc::transition(n);
        }
    }

    // The public entry points, by way of what they save.
    void end_to_end(const Params& p) {
        mc::ScratchDir dir;
        auto idx = v::auto_build(p.get(), data, Dist(), svs::threads::NativeThreadPool(1));
        MC_CHECK(idx.size() == n && idx.dimensions() == pts[0].size(), "size", where(p, 0), ": built index of ", idx.size());
        MC_CHECK(idx.max_degree() == p.degree, "size", where(p, 0), ": maximum degree ", idx.max_degree());
        idx.save(dir / "config", dir / "graph", dir / "data");
        auto cfg = svs::lib::load_from_disk<v::VamanaIndexParameters>(dir / "config");
        check_entry_point(cfg.entry_point, "auto_build");
        auto g = svs::lib::load_from_disk<Graph>(dir / "graph");
        auto a = adjacency(g);
        auto b = construct(p, cfg.entry_point);
        MC_CHECK(a == b, "determinism", where(p, cfg.entry_point), ": auto_build gave ", show(a), " and the builder ", show(b));
        structure(a, n, p.degree, [&] { return where(p, cfg.entry_point) + " auto_build"; });
        mc::trace();
    }
};

static std::vector<Params> params(size_t n, float alpha) {
    std::vector<Params> r;
    size_t full = std::max<size_t>(n - 1, 1);
    auto add = [&](size_t deg, size_t win, size_t cand, size_t to, bool h) {
        r.push_back({alpha, deg, win, cand, to, h});
    };
    add(full, n, n, full, true);
    add(full, n, n + 3, full, false);
    add(full + 2, n + 2, 2 * n, full + 1, true);
    add(1, n, n, 1, true);
    add(1, 1, 1, 1, false);
    add(2, 2, 3, 1, true);
    add(2, n, n, 2, false);
    add(full, 1, 2, 1, false);
    return r;
}

template <typename Dist> static float alpha_of() {
    return std::is_same_v<Dist, svs::distance::DistanceL2> ? 1.2f : 0.95f;
}

template <typename Dist, typename T = float> static void whole(const Points& pts, const std::vector<Params>& ps, bool all_eps, bool pieces, bool files) {
    Checker<Dist, T> c(pts);
    auto ep = c.entry_point();
    for (auto& p : ps) {
        for (size_t e = 0; e < pts.size(); ++e) {
            if (all_eps || e == ep) {
                c.check(p, e);
                if (pieces) {
                    c.pieces(p, e);
                }
            }
        }
        if (files) {
            c.end_to_end(p);
        }
    }
}

static void body() {
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
    using Cos = svs::distance::DistanceCosineSimilarity;
    bool deep = mc::thorough();
    svs::logging::set_level(svs::logging::Level::Off);
    const Points grid = {{0, 0}, {1, 0}, {3, 1}, {-2, 2}, {0, -5}, {4, 4}};
    const Points circle = {{1, 0}, {0.8f, 0.6f}, {0, 1}, {-0.6f, 0.8f}, {0, -1}, {0.6f, -0.8f}};
    // Every tuple of points, repetitions included.
    for (size_t n = 1; n <= (deep ? 6 : 5); ++n) {
        size_t k = n <= 4 ? 6 : 5;
        mc::tuples(n, k, [&](const std::vector<size_t>& t) {
            Points g, c;
            size_t code = 0;
            for (auto i : t) {
                g.push_back(grid[i]);
                c.push_back(circle[i]);
                code = code * k + i;
            }
            bool few = n == 5 && !deep;
            bool files = code % (n < 3 ? 5 : 199) == 0;
            auto id = [&](const char* d) { return mc::str(d, " tuple ", mc::list(t)); };
            auto sel = [&](float a) {
                auto p = params(n, a);
                if (few && code % 3) {
                    p = {p[0], p[code % 8], p[(code / 3) % 8]};
                }
                return p;
            };
            mc::run([&] { return id("L2"); }, [&] { whole<L2>(g, sel(1.2f), n <= 4, n <= 4, files); });
            if (!few || code % 3 == 1) {
                mc::run([&] { return id("L2 alpha 1"); }, [&] { whole<L2>(g, sel(1.0f), n <= 3, n <= 3, false); });
                mc::run([&] { return id("IP"); }, [&] { whole<IP>(g, sel(0.95f), n <= 3, n <= 3, files); });
                mc::run([&] { return id("cosine"); }, [&] { whole<Cos>(c, sel(0.95f), n <= 3, n <= 3, files); });
            }
        });
    }
    // Larger sets: several nodes per batch, overflowing lists, other element types.
    for (size_t n : {7, 12, 20, 39, 40, 41, 60, 80, 81, 100, 121, 150}) {
        for (int shape = 0; shape < 6; ++shape) {
            Points pts;
            for (size_t i = 0; i < n; ++i) {
                switch (shape) {
                case 0: // a line
                    pts.push_back({float(i), 0, 1});
                    break;
                case 1: // scattered
                    pts.push_back({float((i * 37) % 101), float((i * i * 11) % 97), float((i * 53) % 89)});
                    break;
                case 2: // all alike
                    pts.push_back({1, 2, 3});
                    break;
                case 3: // few places, many repetitions
                    pts.push_back({float(i % 3), float(i % 2), 1});
                    break;
                case 4: // two far clusters
                    pts.push_back({float(i % 2 ? 100 : 0) + float(i % 7), float((i * 5) % 11), 1});
                    break;
                default: // a star: everything nearest to one point
                    pts.push_back({i ? float(20 + 3 * ((i * 7) % n)) * (i % 2 ? 1 : -1) : 0, i ? float((i * 13) % n) * (i % 3 ? 1 : -1) : 0, 1});
                }
            }
            std::vector<Params> ps = {
                {1.2f, n, n, n, n, true},          {1.2f, n - 1, n + 5, 2 * n, n - 1, false}, {1.2f, 3, 8, 20, 2, true}, {1.0f, 4, 4, 4, 4, false},
                {1.2f, 8, 5, 750, 6, true},        {1.2f, 1, 10, 10, 1, false},                {1.0f, n, n, n, n, false},
            };
            auto id = [&](const char* d) { return mc::str(d, " n ", n, " shape ", shape); };
            mc::run([&] { return id("L2"); }, [&] { whole<L2>(pts, ps, false, false, n % 20 == 0); });
            for (auto& p : ps) {
                p.alpha = 0.95f;
            }
            mc::run([&] { return id("IP"); }, [&] { whole<IP>(pts, ps, false, false, n == 20); });
            mc::run([&] { return id("cosine"); }, [&] { whole<Cos>(pts, ps, false, false, n == 20); });
            if (shape != 5 && n <= 60) {
                for (auto& p : ps) {
                    p.alpha = 1.2f;
                }
                mc::run([&] { return id("f16"); }, [&] { whole<L2, svs::Float16>(pts, ps, false, false, n == 12); });
                mc::run([&] { return id("u8"); }, [&] { whole<L2, uint8_t>(pts, ps, false, false, n == 12); });
            }
        }
    }
}

MC_MAIN("C11", body)
