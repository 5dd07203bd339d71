// C06: all operation histories of the static candidate list (and its duplicate filter)
// against a boring sorted-list model.
#include "mc.h"
#include "svs/index/vamana/filter.h"
#include "svs/index/vamana/search_buffer.h"

#include <algorithm>

namespace v = svs::index::vamana;
using N = svs::SearchNeighbor<uint32_t>;

struct Entry {
    uint32_t id;
    float dist;
    bool visited;
};

// Reference: stable sorted list, first inserted first among ties.
template <typename Cmp> struct Model {
    size_t window, capacity;
    std::vector<Entry> list{};
    Cmp cmp{};

    void insert(uint32_t id, float d) {
        for (auto& e : list) {
            if (e.id == id) {
                return;
            }
        }
        auto it = list.begin();
        while (it != list.end() && !cmp(d, it->dist)) {
            ++it;
        }
        list.insert(it, Entry{id, d, false});
        if (list.size() > capacity) {
            list.resize(capacity);
        }
    }
    size_t first_unvisited() const {
        size_t n = std::min(window, list.size());
        for (size_t i = 0; i < n; ++i) {
            if (!list[i].visited) {
                return i;
            }
        }
        return n;
    }
    bool done() const { return first_unvisited() == std::min(window, list.size()); }
    void resize(size_t w, size_t c) {
        window = w;
        capacity = c;
        if (list.size() > c) {
            list.resize(c);
        }
    }
};

// id -> distance. Ties between different ids at two levels; negative and equal extremes.
static const std::vector<std::vector<float>> tables = {
    {3, 1, 2, 2, 1, 4},
    {-1, -1, -1, 0, 0.5f, -2},
};

template <typename Cmp> struct Runner {
    using Buffer = v::SearchBuffer<uint32_t, Cmp>;
    const std::vector<float>& dist;
    size_t window, capacity;
    std::string config;
    bool with_resize;
    std::vector<std::string> names{};

    std::string history(const std::vector<int>& ops) const {
        std::string s;
        for (int o : ops) {
            s += (s.empty() ? "" : " ") + op_name(o);
        }
        return s;
    }
    // 0..5 insert id, 6 next, 7 clear, 8.. resize
    static constexpr size_t resizes[5][2] = {{1, 1}, {2, 2}, {3, 3}, {1, 2}, {2, 3}};
    std::string op_name(int o) const {
        if (o < 6) {
            return mc::str("insert(", o, ")");
        }
        if (o == 6) {
            return "next";
        }
        if (o == 7) {
            return "clear";
        }
        auto* r = resizes[o - 8];
        return r[0] == r[1] ? mc::str("resize(", r[0], ")") : mc::str("resize({", r[0], ",", r[1], "})");
    }

    void compare(const Buffer& b, const Model<Cmp>& m, const std::vector<int>& ops, bool order) {
        MC_CHECK(
            b.size() == m.list.size(), "content", config, " after ", history(ops), ": size ",
            b.size(), " but ", m.list.size(), " expected"
        );
        MC_CHECK(b.capacity() == m.capacity, "content", config, " capacity ", b.capacity());
        MC_CHECK(b.full() == (m.list.size() == m.capacity), "content", config, " full()");
        auto view = b.view();
        MC_CHECK(view.size() == m.list.size(), "content", config, " view size");
        for (size_t i = 0; i < m.list.size(); ++i) {
            bool same = b[i].id() == m.list[i].id && b[i].distance() == m.list[i].dist &&
                        view[i].id() == m.list[i].id;
            if (order) {
                same = same && b[i].visited() == m.list[i].visited;
            }
            MC_CHECK(
                same, "content", config, " after ", history(ops), ": entry ", i, " is (",
                b[i].id(), ",", b[i].distance(), ",", b[i].visited(), ") but (", m.list[i].id, ",",
                m.list[i].dist, ",", m.list[i].visited, ") expected"
            );
        }
        if (order) {
            MC_CHECK(
                b.done() == m.done(), "completion", config, " after ", history(ops), ": done() is ",
                b.done()
            );
            MC_CHECK(
                b.best_unvisited() == m.first_unvisited(), "completion", config, " after ",
                history(ops), ": cursor ", b.best_unvisited(), " but ", m.first_unvisited(),
                " expected"
            );
        }
        uint64_t h = mc::mix(mc::hash(config), order);
        for (auto& e : m.list) {
            h = mc::mix(h, e.id * 2 + e.visited);
        }
        mc::state(h);
        mc::evaluation();
    }

    bool apply(Buffer& b, Model<Cmp>& m, int op, bool& order, std::vector<int>& ops) {
        if (op < 6) {
            // The list is only inserted into once it has an entry point (as in a search).
            if (m.list.empty()) {
                b.push_back(N{static_cast<uint32_t>(op), dist[op]});
                b.sort();
            } else {
                b.insert(N{static_cast<uint32_t>(op), dist[op]});
            }
            m.insert(op, dist[op]);
        } else if (op == 6) {
            if (!order || m.done()) {
                return false;
            }
            const auto& n = b.next();
            size_t i = m.first_unvisited();
            MC_CHECK(
                n.id() == m.list[i].id && n.distance() == m.list[i].dist, "expansion-order",
                config, " after ", history(ops), ": next() gave ", n.id(), " but ", m.list[i].id,
                " expected"
            );
            m.list[i].visited = true;
        } else if (op == 7) {
            b.clear();
            m.list.clear();
            order = true;
        } else {
            if (!with_resize) {
                return false;
            }
            auto* r = resizes[op - 8];
            if (r[0] == r[1]) {
                b.change_maxsize(r[0]);
            } else {
                b.change_maxsize(v::SearchBufferConfig{r[0], r[1]});
            }
            m.resize(r[0], r[1]);
            // Expansion after a resize starts with a cleared list, as every search does.
            order = m.list.empty();
        }
        ops.push_back(op);
        mc::transition();
        compare(b, m, ops, order);
        return true;
    }

    void dfs(const Buffer& b, const Model<Cmp>& m, bool order, std::vector<int>& ops, size_t depth) {
        if (ops.size() == depth) {
            mc::trace();
            uint64_t h = 7;
            for (auto& e : m.list) {
                h = mc::mix(h, e.id * 2 + e.visited);
            }
            mc::outcome(h);
            return;
        }
        int nops = with_resize ? 13 : 8;
        for (int op = 0; op < nops; ++op) {
            Buffer b2 = b;
            Model<Cmp> m2 = m;
            bool order2 = order;
            if (apply(b2, m2, op, order2, ops)) {
                dfs(b2, m2, order2, ops, depth);
                ops.pop_back();
            }
        }
    }

    void all(size_t depth) {
        int nops = with_resize ? 13 : 8;
        for (int first = 0; first < nops; ++first) {
            for (int second = 0; second < nops; ++second) {
                mc::run(
                    [&] {
                        return config + " depth<=" + std::to_string(depth) + " prefix " +
                               op_name(first) + " " + op_name(second);
                    },
                    [&] {
                        Buffer b{v::SearchBufferConfig{window, capacity}};
                        Model<Cmp> m{window, capacity};
                        bool order = true;
                        std::vector<int> ops;
                        if (!apply(b, m, first, order, ops) || !apply(b, m, second, order, ops)) {
                            return;
                        }
                        dfs(b, m, order, ops, depth);
                    }
                );
            }
        }
    }
};

// Many entry points at once: push_back up to capacity, then sort, then a search-like run.
template <typename Cmp> void entry_points() {
    for (size_t cap = 1; cap <= 4; ++cap) {
        for (size_t n = 1; n <= 4; ++n) {
            mc::run(
                [&] { return mc::str("push_back+sort cap=", cap, " n=", n, " greater=", std::is_same_v<Cmp, std::greater<>>); },
                [&] {
                    mc::tuples(n, 3, [&](const std::vector<size_t>& d) {
                        v::SearchBuffer<uint32_t, Cmp> b{cap};
                        Cmp cmp{};
                        std::vector<float> kept;
                        for (size_t i = 0; i < n; ++i) {
                            b.push_back(N{uint32_t(i), float(d[i])});
                            if (kept.size() < cap) {
                                kept.push_back(float(d[i]));
                            }
                        }
                        b.sort();
                        std::sort(kept.begin(), kept.end(), cmp);
                        MC_CHECK(b.size() == kept.size(), "content", "push_back size");
                        std::set<uint32_t> ids;
                        for (size_t i = 0; i < kept.size(); ++i) {
                            MC_CHECK(b[i].distance() == kept[i], "content", "sort order ", mc::list(d));
                            MC_CHECK(b[i].distance() == float(d[b[i].id()]), "content", "id/distance pair torn");
                            ids.insert(b[i].id());
                        }
                        MC_CHECK(ids.size() == kept.size(), "content", "duplicate id");
                        std::set<uint32_t> expanded;
                        while (!b.done()) {
                            expanded.insert(b.next().id());
                            MC_CHECK(expanded.size() <= kept.size(), "completion", "never done");
                        }
                        MC_CHECK(expanded == ids, "completion", "not all expanded");
                        auto c = b.shallow_copy();
                        MC_CHECK(c.size() == 0 && c.capacity() == cap && c.config() == b.config(), "content", "shallow copy");
                        mc::transition(2 * n + 1);
                        mc::trace();
                        mc::evaluation();
                    });
                }
            );
        }
    }
}

// The duplicate filter: every history of emplace/contains/reset over colliding keys.
template <size_t Bits> void filter(size_t depth) {
    using F = v::VisitedFilter<uint32_t, Bits>;
    const uint32_t m = uint32_t(1) << Bits;
    std::vector<uint32_t> keys = {0, 1, m - 1, m, m + 1, 3 * m, 0xFFFEFFFFu, 0xFFFF0000u, 0xFFFFFFFFu, 0x7FFFFFFFu & ~(m - 1)};
    int nops = int(keys.size()) * 2 + 1;
    for (int first = 0; first < nops; ++first) {
        mc::run(
            [&] { return mc::str("filter<", Bits, "> first op ", first, " depth ", depth); },
            [&] {
                F f{};
                // Undo log instead of copies: the filter is large. Only the slots of `keys` are touched,
                // so a reset restores the initial state.
                std::vector<int> ops(depth, 0);
                std::vector<size_t> idx;
                auto run_ops = [&](const std::vector<int>& seq) {
                    f.reset();
                    std::set<uint32_t> present;
                    for (size_t i = 0; i < seq.size(); ++i) {
                        int o = seq[i];
                        bool r;
                        if (o == nops - 1) {
                            f.reset();
                            present.clear();
                            continue;
                        }
                        uint32_t k = keys[o / 2];
                        if (o % 2 == 0) {
                            r = f.emplace(k);
                        } else {
                            r = f.contains(k);
                        }
                        MC_CHECK(
                            !r || present.count(k), "filter-false-positive", "filter<", Bits, "> ops ",
                            mc::list(seq), " at ", i, ": key ", k, " reported as seen"
                        );
                        if (o % 2 == 0) {
                            present.insert(k);
                        }
                        mc::transition();
                        mc::evaluation();
                        uint64_t h = 99 + Bits;
                        for (auto p : present) {
                            h = mc::mix(h, p);
                        }
                        mc::state(mc::mix(h, r));
                    }
                    mc::trace();
                };
                mc::tuples(depth - 1, nops, [&](const std::vector<size_t>& t) {
                    std::vector<int> seq{first};
                    seq.insert(seq.end(), t.begin(), t.end());
                    run_ops(seq);
                });
            }
        );
    }
}

template <typename Cmp> void lists() {
    const char* cname = std::is_same_v<Cmp, std::less<>> ? "less" : "greater";
    size_t depth = mc::thorough() ? 9 : 7;
    for (size_t t = 0; t < tables.size(); ++t) {
        for (size_t cap = 1; cap <= 4; ++cap) {
            for (size_t win = 1; win <= cap; ++win) {
                Runner<Cmp> r{tables[t], win, cap, mc::str("list<", cname, "> table=", t, " window=", win, " capacity=", cap), false};
                r.all(t == 0 ? depth : depth - 1);
            }
        }
        Runner<Cmp> r{tables[t], 2, 3, mc::str("list<", cname, "> resizing table=", t), true};
        r.all(mc::thorough() ? 7 : 6);
    }
}

// Long lists: runs of equal distances of every length up to a bound, every entry inserted again
// after every insertion.
template <typename Cmp> void long_lists() {
    const char* cname = std::is_same_v<Cmp, std::less<>> ? "less" : "greater";
    size_t max = mc::thorough() ? 72 : 40;
    for (size_t n = 2; n <= max; ++n) {
        for (size_t cap : {n - 1, n, n + 3}) {
            mc::run([&] { return mc::str("long<", cname, "> n ", n, " capacity ", cap); }, [&] {
                for (size_t group : {n, (n + 1) / 2, size_t(7), size_t(1)}) {
                    for (int order = 0; order < 3; ++order) {
                        for (size_t win : {cap, (cap + 1) / 2}) {
                            auto where = [&] { return mc::str(n, " entries in groups of ", group, " order ", order, " window ", win, " capacity ", cap); };
                            // made with its size, or given it later
                            v::SearchBuffer<uint32_t, Cmp> b;
                            if (order == 0) {
                                b = v::SearchBuffer<uint32_t, Cmp>{v::SearchBufferConfig{win, cap}};
                            } else if (order == 1 && win == cap) {
                                b.change_maxsize(cap);
                            } else {
                                b.change_maxsize(v::SearchBufferConfig{win, cap});
                            }
                            Model<Cmp> m{win, cap};
                            auto same = [&](size_t at) {
                                MC_CHECK(b.size() == m.list.size(), "content", where(), ": size ", b.size(), " instead of ", m.list.size(), " after ", at);
                                for (size_t i = 0; i < m.list.size(); ++i) {
                                    MC_CHECK(b[i].id() == m.list[i].id && b[i].distance() == m.list[i].dist, "content", where(), ": entry ", i, " is ", b[i].id(), " instead of ", m.list[i].id, " after ", at);
                                }
                                mc::evaluation();
                            };
                            for (size_t j = 0; j < n; ++j) {
                                uint32_t id = order == 0 ? j : order == 1 ? n - 1 - j : (j % 2 ? n - 1 - j / 2 : j / 2);
                                for (size_t again = 0; again <= j; ++again) {
                                    uint32_t x = again == j ? id : (order == 0 ? again : order == 1 ? n - 1 - again : (again % 2 ? n - 1 - again / 2 : again / 2));
                                    float d = float(x / group) * 0.5f - 1;
                                    if (m.list.empty()) {
                                        b.push_back(N{x, d});
                                        b.sort();
                                    } else {
                                        b.insert(N{x, d});
                                    }
                                    m.insert(x, d);
                                    mc::transition();
                                }
                                same(j);
                            }
                            for (size_t k = 0; !m.done(); ++k) {
                                MC_CHECK(!b.done(), "completion", where(), ": done after ", k);
                                auto id = b.next().id();
                                auto& e = m.list[m.first_unvisited()];
                                MC_CHECK(id == e.id, "expansion-order", where(), ": expanded ", id, " instead of ", e.id);
                                e.visited = true;
                            }
                            MC_CHECK(b.done(), "completion", where(), ": not done");
                            mc::trace();
                        }
                    }
                }
            });
        }
    }
}

void body() {
    entry_points<std::less<>>();
    long_lists<std::less<>>();
    long_lists<std::greater<>>();
    entry_points<std::greater<>>();
    filter<16>(mc::thorough() ? 4 : 3);
    filter<8>(mc::thorough() ? 4 : 3);
    lists<std::less<>>();
    lists<std::greater<>>();
}
MC_MAIN("C06", body)
