// C10: neighbour pruning on every small point set, pool size, slack and metric.
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/index/vamana/prune.h"

#include <algorithm>

namespace v = svs::index::vamana;
using Data = svs::data::SimpleData<float>;
using N = svs::Neighbor<uint32_t>;
using Point = std::vector<float>;

static float dist(svs::distance::DistanceL2, const Point& a, const Point& b) {
    float s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += (a[i] - b[i]) * (a[i] - b[i]);
    }
    return s;
}
static float dist(svs::distance::DistanceIP, const Point& a, const Point& b) {
    float s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += a[i] * b[i];
    }
    return s;
}
// Evaluated by the library itself (the value is C20's business): rounding would otherwise make
// comparisons at exact equality ambiguous.
static float dist(svs::distance::DistanceCosineSimilarity, const Point& a, const Point& b) {
    svs::distance::DistanceCosineSimilarity d;
    std::span<const float> x(a), y(b);
    svs::distance::maybe_fix_argument(d, x);
    return svs::distance::compute(d, x, y);
}

template <typename Dist> struct Checker {
    using Cmp = svs::distance::compare_t<Dist>;
    Cmp cmp{};
    const std::vector<Point>& pts;
    Data data;
    std::vector<std::vector<float>> d; // d[a][b]: a fixed as the left-hand side

    explicit Checker(const std::vector<Point>& p)
        : pts{p}
        , data(p.size(), p[0].size()) {
        for (size_t i = 0; i < p.size(); ++i) {
            data.set_datum(i, std::span<const float>(p[i]));
            d.emplace_back();
            for (size_t j = 0; j < p.size(); ++j) {
                d[i].push_back(dist(Dist(), p[i], p[j]));
            }
        }
    }

    bool occludes(float slack, uint32_t kept, uint32_t cand, float cand_dist) const {
        return cmp(slack * d[kept][cand], cand_dist);
    }

    template <typename Strategy> void check(Strategy, const char* name, size_t node, const std::vector<N>& pool, size_t max, float alpha, bool one_pass) {
        auto text = [&] {
            std::vector<uint32_t> ids;
            for (auto& n : pool) {
                ids.push_back(n.id());
            }
            std::string s = mc::str(name, " points");
            for (auto& p : pts) {
                s += " " + mc::list(p);
            }
            return s + mc::str(" node ", node, " pool ", mc::list(ids), " max ", max, " alpha ", alpha);
        };
        Dist df;
        svs::data::GetDatumAccessor acc;
        std::vector<uint32_t> result;
        v::heuristic_prune_neighbors(Strategy{}, max, alpha, data, acc, df, node, svs::lib::as_const_span(pool), result);
        mc::transition();
        // Not a function of what the output held.
        for (size_t junk : {1ul, 7ul}) {
            std::vector<uint32_t> other(junk, uint32_t(junk == 1 ? node : 2));
            v::heuristic_prune_neighbors(Strategy{}, max, alpha, data, acc, df, node, svs::lib::as_const_span(pool), other);
            MC_CHECK(other == result, "stale-output", text(), ": with an output holding ", junk, " entries got ", mc::list(other), " instead of ", mc::list(result));
        }
        {
            std::vector<N> full(3, N{77, 0.5f});
            v::heuristic_prune_neighbors(Strategy{}, max, alpha, data, acc, df, node, svs::lib::as_const_span(pool), full);
            bool same = full.size() == result.size();
            for (size_t i = 0; same && i < full.size(); ++i) {
                same = full[i].id() == result[i];
                for (auto& n : pool) {
                    same = same && (n.id() != full[i].id() || n.distance() == full[i].distance());
                }
            }
            MC_CHECK(same, "neighbor-output", text(), ": pruning into neighbours differs from pruning into identifiers");
        }
        std::vector<N> cands;
        for (auto& n : pool) {
            if (n.id() != node) {
                cands.push_back(n);
            }
        }
        auto pos = [&](uint32_t id) {
            for (size_t i = 0; i < cands.size(); ++i) {
                if (cands[i].id() == id) {
                    return i;
                }
            }
            return cands.size();
        };
        auto where = [&] { return mc::str(text(), " kept ", mc::list(result)); };
        mc::evaluation();
        mc::trace();
        MC_CHECK(result.size() <= max, "too-many", where());
        std::set<uint32_t> seen;
        for (auto id : result) {
            MC_CHECK(id != node, "self", where());
            MC_CHECK(pos(id) < cands.size(), "not-a-candidate", where());
            MC_CHECK(seen.insert(id).second, "duplicate", where());
        }
        if (cands.empty() || max == 0) {
            MC_CHECK(result.empty(), "not-a-candidate", where());
            return;
        }
        MC_CHECK(!result.empty() && result[0] == cands[0].id(), "nearest-first", where());
        // The strict pass: scan by distance, keep what no kept one occludes.
        float strict = one_pass ? alpha : 1.0f;
        std::vector<uint32_t> greedy;
        for (auto& c : cands) {
            if (greedy.size() == max) {
                break;
            }
            bool out = false;
            for (auto k : greedy) {
                out = out || occludes(strict, k, c.id(), c.distance());
            }
            if (!out) {
                greedy.push_back(c.id());
            }
        }
        MC_CHECK(
            result.size() >= greedy.size() && std::equal(greedy.begin(), greedy.end(), result.begin()), "diverse",
            where(), " but the candidates no nearer kept one occludes are ", mc::list(greedy)
        );
        if (one_pass || alpha == 1) {
            MC_CHECK(result.size() == greedy.size(), "diverse", where(), " expected ", mc::list(greedy));
        }
        // What came in within the slack.
        for (size_t i = greedy.size(); i < result.size(); ++i) {
            float di = cands[pos(result[i])].distance();
            if (i > greedy.size()) {
                MC_CHECK(pos(result[i - 1]) < pos(result[i]), "order", where());
            }
            for (size_t j = greedy.size(); j < i; ++j) {
                MC_CHECK(!occludes(alpha, result[j], result[i], di), "occluded", where(), ": ", result[j], " occludes ", result[i]);
            }
        }
        // What stayed out.
        if (result.size() < max) {
            for (auto& c : cands) {
                if (seen.count(c.id())) {
                    continue;
                }
                bool out = false;
                for (auto k : result) {
                    out = out || occludes(alpha, k, c.id(), c.distance());
                }
                MC_CHECK(out, "dropped", where(), ": ", c.id(), " is dropped though nothing occludes it");
            }
        }
        mc::outcome(mc::hash(mc::list(result)));
    }

    template <typename Strategy> void all(Strategy s, const char* name, const std::vector<float>& alphas, bool one_pass, bool every_max) {
        size_t n = pts.size();
        // node 0 is pruned against all the others, once with itself in the pool
        for (int self = 0; self < 2; ++self) {
            std::vector<N> pool;
            for (size_t i = self ? 0 : 1; i < n; ++i) {
                pool.push_back(N(i, d[0][i]));
            }
            std::sort(pool.begin(), pool.end(), svs::TotalOrder(cmp));
            for (float a : alphas) {
                for (size_t max = 0; max <= n; ++max) {
                    if (max != 0 && max + 2 < n && !every_max) {
                        continue;
                    }
                    check(s, name, 0, pool, max, a, one_pass);
                }
            }
        }
        std::vector<N> none;
        check(s, name, 0, none, 3, alphas.back(), one_pass);
    }
};

template <typename Dist> void metric(const std::vector<Point>& pts, const std::vector<float>& alphas, const char* name) {
    Checker<Dist> c{pts};
    std::string n = name;
    c.all(v::IterativePruneStrategy{}, (n + " iterative").c_str(), alphas, false, true);
    c.all(v::LegacyPruneStrategy{}, (n + " legacy").c_str(), alphas, true, true);
    if constexpr (std::is_same_v<Dist, svs::distance::DistanceL2>) {
        c.all(v::ProgressivePruneStrategy{}, (n + " progressive").c_str(), alphas, false, true);
    }
    // what the index builder uses
    c.all(v::prune_strategy(Dist()), (n + " default").c_str(), alphas, false, true);
}

static void body() {
    bool deep = mc::thorough();
    const std::vector<Point> grid = {{0, 1}, {1, 0}, {3, 1}, {1, 2}, {-2, 1}, {4, -3}, {2, 2}, {-1, -1}};
    for (size_t n = 1; n <= (deep ? 7 : 6); ++n) {
        size_t k = n <= 5 ? 8 : n == 6 ? 6 : 5;
        std::vector<std::vector<size_t>> block;
        auto flush = [&] {
            if (block.empty()) {
                return;
            }
            mc::run([&] { return mc::str("points n=", n, " ", mc::list(block.front()), " .. ", mc::list(block.back())); }, [&] {
                for (auto& t : block) {
                    std::vector<Point> pts;
                    for (auto i : t) {
                        pts.push_back(grid[i]);
                    }
                    mc::state(mc::hash(mc::list(t)));
                    metric<svs::distance::DistanceL2>(pts, {1.0f, 1.25f, 2.0f}, "L2");
                    metric<svs::distance::DistanceIP>(pts, {1.0f, 0.75f, 0.5f}, "IP");
                    metric<svs::distance::DistanceCosineSimilarity>(pts, {1.0f, 0.75f}, "cosine");
                }
            });
            block.clear();
        };
        mc::tuples(n, k, [&](const std::vector<size_t>& t) {
            block.push_back(t);
            if (block.size() == 64) {
                flush();
            }
        });
        flush();
    }
    // one-dimensional sets with many points: long pools, every maximum
    for (size_t n : {8, 20, 64}) {
        for (size_t seed = 0; seed < (deep ? 200 : 40); ++seed) {
            mc::run([&] { return mc::str("line n=", n, " pattern=", seed); }, [&] {
                std::vector<Point> pts;
                for (size_t i = 0; i < n; ++i) {
                    float a = float((i * (seed * 2 + 3) + seed * seed) % 47) - 20;
                    float b = float((i * i * (seed + 1)) % 13) - 6;
                    pts.push_back({a, b, 1});
                }
                mc::state(mc::hash(mc::str("line", n, seed)));
                metric<svs::distance::DistanceL2>(pts, {1.0f, 1.25f, 2.0f}, "L2");
                metric<svs::distance::DistanceIP>(pts, {1.0f, 0.75f, 0.5f}, "IP");
                metric<svs::distance::DistanceCosineSimilarity>(pts, {1.0f, 0.75f}, "cosine");
            });
        }
    }
}
MC_MAIN("C10", body)
