// Plain reference pieces shared by the index-level harnesses.
#pragma once
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/concepts/distance.h"
#include "svs/core/graph.h"
#include "svs/lib/float16.h"
#include "svs/lib/threads.h"

#include <algorithm>
#include <numeric>
#include <optional>

namespace kit {

using Point = std::vector<float>;
using Points = std::vector<Point>;
using Adj = std::vector<std::vector<uint32_t>>;

inline double truth(svs::distance::DistanceL2, const Point& a, const Point& b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += (double(a[i]) - b[i]) * (double(a[i]) - b[i]);
    }
    return s;
}
inline double truth(svs::distance::DistanceIP, const Point& a, const Point& b) {
    double s = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += double(a[i]) * b[i];
    }
    return s;
}
inline double truth(svs::distance::DistanceCosineSimilarity, const Point& a, const Point& b) {
    double s = 0, x = 0, y = 0;
    for (size_t i = 0; i < a.size(); ++i) {
        s += double(a[i]) * b[i];
        x += double(a[i]) * a[i];
        y += double(b[i]) * b[i];
    }
    return s / (std::sqrt(x) * std::sqrt(y));
}
inline const char* name(svs::distance::DistanceL2) { return "L2"; }
inline const char* name(svs::distance::DistanceIP) { return "IP"; }
inline const char* name(svs::distance::DistanceCosineSimilarity) { return "cosine"; }

inline bool close(double a, double b) {
    return a == b || std::fabs(a - b) <= 2e-5 * std::max(std::fabs(a), std::fabs(b)) + 1e-6;
}

// Is `a` nearer than `b` by more than rounding?
template <typename Dist> bool nearer(Dist, double a, double b) {
    return svs::distance::compare_t<Dist>()(a, b) && !close(a, b);
}

inline std::string show(const Points& p) {
    std::string s;
    for (auto& x : p) {
        s += mc::list(x);
    }
    return s;
}
inline std::string show(const Adj& p) {
    std::string s;
    for (auto& x : p) {
        s += mc::list(x);
    }
    return s;
}

template <typename Data> Data fill(Data data, const Points& pts) {
    using T = typename Data::element_type;
    for (size_t i = 0; i < pts.size(); ++i) {
        std::vector<T> v(pts[i].size());
        for (size_t j = 0; j < v.size(); ++j) {
            v[j] = T(pts[i][j]);
        }
        data.set_datum(i, std::span<const T>(v));
    }
    return data;
}
// A dataset holding `pts`.
template <typename T = float, size_t E = svs::Dynamic> svs::data::SimpleData<T, E> dataset(const Points& pts, size_t dims = 0) {
    return fill(svs::data::SimpleData<T, E>(pts.size(), pts.empty() ? dims : pts[0].size()), pts);
}
template <typename T = float> svs::data::BlockedData<T> blocked(const Points& pts, size_t dims = 0) {
    return fill(svs::data::BlockedData<T>(pts.size(), pts.empty() ? dims : pts[0].size()), pts);
}
template <typename Graph = svs::graphs::SimpleGraph<uint32_t>> Graph graph(const Adj& adj, size_t degree) {
    Graph g(adj.size(), degree);
    for (size_t i = 0; i < adj.size(); ++i) {
        g.replace_node(i, adj[i]);
    }
    return g;
}

inline std::vector<char> reachable(const Adj& adj, std::vector<uint32_t> st) {
    std::vector<char> r(adj.size(), 0);
    for (auto e : st) {
        r[e] = 1;
    }
    while (!st.empty()) {
        auto x = st.back();
        st.pop_back();
        for (auto y : adj[x]) {
            if (!r[y]) {
                r[y] = 1;
                st.push_back(y);
            }
        }
    }
    return r;
}

// A boring best-first search; exact only where no two distances tie.
template <typename Cmp>
std::vector<uint32_t> best_first(const Adj& adj, const std::vector<double>& d, Cmp cmp, const std::vector<uint32_t>& eps, size_t window, size_t capacity) {
    struct E {
        uint32_t id;
        bool done;
    };
    std::vector<E> list;
    auto insert = [&](uint32_t id) {
        for (auto& e : list) {
            if (e.id == id) {
                return;
            }
        }
        auto it = list.begin();
        while (it != list.end() && !cmp(d[id], d[it->id])) {
            ++it;
        }
        list.insert(it, E{id, false});
        if (list.size() > capacity) {
            list.resize(capacity);
        }
    };
    for (auto e : eps) {
        insert(e);
    }
    for (;;) {
        size_t i = 0, lim = std::min(window, list.size());
        while (i < lim && list[i].done) {
            ++i;
        }
        if (i == lim) {
            break;
        }
        list[i].done = true;
        for (auto y : adj[list[i].id]) {
            insert(y);
        }
    }
    std::vector<uint32_t> r;
    for (auto& e : list) {
        r.push_back(e.id);
    }
    return r;
}

inline bool has_ties(const std::vector<double>& d) {
    for (size_t i = 0; i < d.size(); ++i) {
        for (size_t j = 0; j < i; ++j) {
            if (close(d[i], d[j])) {
                return true;
            }
        }
    }
    return false;
}

template <typename I> constexpr I none = std::numeric_limits<I>::max();

// One row of results: pairs up to the first invalid entry.
struct Row {
    std::vector<uint64_t> ids;
    std::vector<float> dist;
    bool operator==(const Row&) const = default;
};
inline std::string show(const Row& r) { return mc::str("ids ", mc::list(r.ids), " distances ", mc::list(r.dist)); }

template <typename Q> Row row(const Q& result, size_t i) {
    Row r;
    for (size_t j = 0; j < result.n_neighbors(); ++j) {
        r.ids.push_back(result.index(i, j));
        r.dist.push_back(result.distance(i, j));
    }
    return r;
}

// Rows that hold whatever an earlier use could have left.
template <typename Q> void poison(Q& result, uint64_t id = 1, float d = -12345.5f) {
    for (size_t i = 0; i < result.n_queries(); ++i) {
        for (size_t j = 0; j < result.n_neighbors(); ++j) {
            result.index(i, j) = id;
            result.distance(i, j) = d;
        }
    }
}

// Valid prefix, then nothing but invalid identifiers; true distances, in order, distinct.
// `truth_of(id)` gives the true distance or fails for an unknown id. Returns the valid count.
template <typename Dist, typename Truth>
size_t check_row(const Row& r, Dist, uint64_t invalid, Truth&& truth_of, const std::function<std::string()>& where) {
    svs::distance::compare_t<Dist> cmp;
    std::set<uint64_t> seen;
    size_t n = 0;
    while (n < r.ids.size() && r.ids[n] != invalid) {
        MC_CHECK(seen.insert(r.ids[n]).second, "duplicate", where(), " gave ", show(r), " (", r.ids[n], " twice)");
        std::optional<double> d = truth_of(r.ids[n]);
        MC_CHECK(d.has_value(), "unknown-id", where(), " gave ", show(r), " (", r.ids[n], " is no valid answer)");
        MC_CHECK(close(*d, r.dist[n]), "distance", where(), " gave ", show(r), ": the distance of ", r.ids[n], " is ", *d);
        MC_CHECK(n == 0 || !cmp(r.dist[n], r.dist[n - 1]), "order", where(), " gave ", show(r));
        ++n;
    }
    for (size_t j = n; j < r.ids.size(); ++j) {
        MC_CHECK(r.ids[j] == invalid, "surplus", where(), " gave ", show(r), ": place ", j, " is not marked invalid");
    }
    return n;
}

// The first `k` of the exact answer, by distance. `members` gives (id, distance).
template <typename Dist>
void check_exact(const Row& r, Dist, size_t k, std::vector<std::pair<uint64_t, double>> members, const std::function<std::string()>& where) {
    svs::distance::compare_t<Dist> cmp;
    std::stable_sort(members.begin(), members.end(), [&](auto& a, auto& b) { return cmp(a.second, b.second); });
    size_t n = std::min(k, members.size());
    for (size_t j = 0; j < n; ++j) {
        MC_CHECK(
            close(r.dist[j], members[j].second), "not-nearest", where(), " gave ", show(r), ": place ", j,
            " should be at distance ", members[j].second, " (", members[j].first, ")"
        );
    }
}

} // namespace kit
