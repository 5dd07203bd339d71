// C07: all operation histories of the candidate list with soft-deleted entries.
#include "mc.h"
#include "svs/index/vamana/dynamic_search_buffer.h"

#include <algorithm>

namespace v = svs::index::vamana;
using N = svs::PredicatedSearchNeighbor<uint32_t>;

struct Entry {
    uint32_t id;
    float dist;
    bool valid, visited;
};

// Reference: stable sorted list of everything inserted; once `capacity` live entries are
// present everything behind the capacity-th live entry is dropped.
template <typename Cmp> struct Model {
    size_t target, capacity;
    std::vector<Entry> list{};
    Cmp cmp{};

    size_t live() const {
        return std::count_if(list.begin(), list.end(), [](auto& e) { return e.valid; });
    }
    void trim() {
        size_t n = 0;
        for (size_t i = 0; i < list.size(); ++i) {
            n += list[i].valid;
            if (n == capacity) {
                list.resize(i + 1);
                return;
            }
        }
    }
    void insert(uint32_t id, float d, bool valid) {
        for (auto& e : list) {
            if (e.id == id) {
                return;
            }
        }
        auto it = list.begin();
        while (it != list.end() && !cmp(d, it->dist)) {
            ++it;
        }
        list.insert(it, Entry{id, d, valid, false});
        trim();
    }
    // One past the part of the list whose entries must be expanded before completion.
    size_t region() const {
        size_t n = 0;
        for (size_t i = 0; i < list.size(); ++i) {
            n += list[i].valid;
            if (n == target) {
                return i + 1;
            }
        }
        return list.size();
    }
    size_t first_unvisited() const {
        size_t r = region();
        for (size_t i = 0; i < r; ++i) {
            if (!list[i].visited) {
                return i;
            }
        }
        return r;
    }
    bool done() const { return first_unvisited() == region(); }
};

static const std::vector<std::vector<float>> tables = {
    {3, 1, 2, 2, 1, 4},
    {-1, -1, -1, 0, 0.5f, -2},
    {1, 2, 3, 4, 5, 6},
};

template <typename Cmp> struct Runner {
    using Buffer = v::MutableBuffer<uint32_t, Cmp>;
    const std::vector<float>& dist;
    unsigned live_mask;
    size_t target, capacity;
    std::string config;

    static constexpr int NEXT = 6, CLEAR = 7, RESIZE = 8, NOPS = 9;

    std::string op_name(int o) const {
        if (o < 6) {
            return mc::str((live_mask >> o) & 1 ? "live(" : "deleted(", o, ")");
        }
        return o == NEXT ? "next" : o == CLEAR ? "clear" : "resize+clear";
    }
    std::string history(const std::vector<int>& ops) const {
        std::string s;
        for (int o : ops) {
            s += (s.empty() ? "" : " ") + op_name(o);
        }
        return s;
    }

    void compare(const Buffer& b, const Model<Cmp>& m, const std::vector<int>& ops) {
        MC_CHECK(
            b.size() == m.list.size() && b.valid() == m.live(), "content", config, " after ",
            history(ops), ": size ", b.size(), " live ", b.valid(), " but ", m.list.size(), " and ",
            m.live(), " expected"
        );
        for (size_t i = 0; i < m.list.size(); ++i) {
            auto& e = m.list[i];
            MC_CHECK(
                b[i].id() == e.id && b[i].distance() == e.dist && b[i].valid() == e.valid &&
                    b[i].visited() == e.visited,
                "content", config, " after ", history(ops), ": entry ", i, " is (", b[i].id(), ",",
                b[i].distance(), ",live=", b[i].valid(), ",expanded=", b[i].visited(), ") but (",
                e.id, ",", e.dist, ",", e.valid, ",", e.visited, ") expected"
            );
        }
        MC_CHECK(b.full() == (m.live() == m.capacity), "content", config, " after ", history(ops), ": full()");
        MC_CHECK(
            b.done() == m.done(), "completion", config, " after ", history(ops), ": done() is ",
            b.done()
        );
        // Clean-up keeps exactly the live entries, in order.
        Buffer c = b;
        c.cleanup();
        size_t j = 0;
        for (auto& e : m.list) {
            if (e.valid) {
                MC_CHECK(
                    j < c.size() && c[j].id() == e.id && c[j].distance() == e.dist, "cleanup", config,
                    " after ", history(ops), ": clean-up lost or moved ", e.id
                );
                ++j;
            }
        }
        MC_CHECK(j == c.size() && c.valid() == j, "cleanup", config, " after ", history(ops), ": ", c.size(), " left");
        uint64_t h = mc::hash(config);
        for (auto& e : m.list) {
            h = mc::mix(h, e.id * 4 + e.visited * 2 + e.valid);
        }
        mc::state(h);
        mc::evaluation(2);
    }

    bool apply(Buffer& b, Model<Cmp>& m, int op, std::vector<int>& ops) {
        if (op < 6) {
            bool live = (live_mask >> op) & 1;
            if (m.list.empty()) {
                b.push_back(N{uint32_t(op), dist[op], live});
                b.sort();
            } else {
                b.insert(N{uint32_t(op), dist[op], live});
            }
            m.insert(op, dist[op], live);
        } else if (op == NEXT) {
            if (m.done()) {
                return false;
            }
            N n = b.next();
            auto& e = m.list[m.first_unvisited()];
            MC_CHECK(
                n.id() == e.id && n.distance() == e.dist && n.valid() == e.valid, "expansion-order",
                config, " after ", history(ops), ": next() gave ", n.id(), " but ", e.id, " expected"
            );
            e.visited = true;
        } else if (op == CLEAR) {
            b.clear();
            m.list.clear();
        } else {
            // What a search with per-call parameters does: reconfigure, then clear.
            size_t t = m.target == 1 ? 2 : 1, c = m.capacity == 2 ? 3 : 2;
            b.change_maxsize(v::SearchBufferConfig{t, c});
            b.clear();
            m.target = t;
            m.capacity = c;
            m.list.clear();
            MC_CHECK(b.config() == (v::SearchBufferConfig{t, c}), "content", config, " config after resize");
        }
        ops.push_back(op);
        mc::transition();
        compare(b, m, ops);
        return true;
    }

    void dfs(const Buffer& b, const Model<Cmp>& m, std::vector<int>& ops, size_t depth) {
        if (ops.size() == depth) {
            mc::trace();
            uint64_t h = 7;
            for (auto& e : m.list) {
                h = mc::mix(h, e.id * 4 + e.visited * 2 + e.valid);
            }
            mc::outcome(h);
            return;
        }
        for (int op = 0; op < NOPS; ++op) {
            // Clearing is interesting only in the middle of a history.
            if (op >= CLEAR && ops.size() + 2 > depth) {
                continue;
            }
            Buffer b2 = b;
            Model<Cmp> m2 = m;
            if (apply(b2, m2, op, ops)) {
                dfs(b2, m2, ops, depth);
                ops.pop_back();
            }
        }
    }

    void all(size_t depth) {
        for (int first = 0; first < 6; ++first) {
            mc::run(
                [&] { return mc::str(config, " depth<=", depth, " first ", op_name(first)); },
                [&] {
                    Buffer b{v::SearchBufferConfig{target, capacity}};
                    Model<Cmp> m{target, capacity};
                    std::vector<int> ops;
                    apply(b, m, first, ops);
                    dfs(b, m, ops, depth);
                }
            );
        }
    }
};

template <typename Cmp> void lists() {
    const char* cname = std::is_same_v<Cmp, std::less<>> ? "less" : "greater";
    size_t depth = mc::thorough() ? 8 : 6;
    for (size_t t = 0; t < tables.size(); ++t) {
        for (unsigned mask : {0x3fu, 0x2au, 0x15u, 0x0fu, 0x31u, 0x00u, 0x08u}) {
            for (size_t cap = 1; cap <= 3; ++cap) {
                for (size_t tgt = 1; tgt <= cap; ++tgt) {
                    Runner<Cmp> r{tables[t], mask, tgt, cap, mc::str("list<", cname, "> table=", t, " live=", mask, " target=", tgt, " capacity=", cap)};
                    r.all(depth - (t == 2 ? 1 : 0));
                }
            }
        }
    }
}

// Several entry points appended and then sorted.
template <typename Cmp> void entry_points() {
    for (size_t cap = 1; cap <= 3; ++cap) {
        for (size_t tgt = 1; tgt <= cap; ++tgt) {
            for (size_t n = 1; n <= 4; ++n) {
                mc::run(
                    [&] { return mc::str("push_back+sort target=", tgt, " capacity=", cap, " n=", n, " greater=", std::is_same_v<Cmp, std::greater<>>); },
                    [&] {
                        for (unsigned mask = 0; mask < (1u << n); ++mask) {
                            mc::tuples(n, 3, [&](const std::vector<size_t>& d) {
                                v::MutableBuffer<uint32_t, Cmp> b{v::SearchBufferConfig{tgt, cap}};
                                std::set<uint32_t> kept;
                                size_t live = 0;
                                for (size_t i = 0; i < n; ++i) {
                                    bool l = (mask >> i) & 1;
                                    b.push_back(N{uint32_t(i), float(d[i]), l});
                                    if (!l || live < cap) {
                                        kept.insert(i);
                                        live += l;
                                    }
                                }
                                b.sort();
                                // If the list is full of live entries, the deleted tail is dropped.
                                MC_CHECK(b.valid() == live, "content", "live count");
                                Cmp cmp{};
                                std::set<uint32_t> ids;
                                for (size_t i = 0; i < b.size(); ++i) {
                                    MC_CHECK(i == 0 || !cmp(b[i].distance(), b[i - 1].distance()), "content", "not sorted");
                                    MC_CHECK(kept.count(b[i].id()) && ids.insert(b[i].id()).second, "content", "unexpected or repeated id");
                                    MC_CHECK(b[i].distance() == float(d[b[i].id()]) && b[i].valid() == bool((mask >> b[i].id()) & 1), "content", "torn entry");
                                }
                                size_t missing_live = 0;
                                for (auto k : kept) {
                                    if (!ids.count(k) && ((mask >> k) & 1)) {
                                        missing_live++;
                                    }
                                }
                                MC_CHECK(missing_live == 0, "content", "live entry lost by sort");
                                if (live < cap) {
                                    MC_CHECK(ids.size() == kept.size(), "content", "entry lost by sort");
                                }
                                // Expansion visits, best first, everything up to the target-th live entry.
                                size_t region = b.size(), seen = 0;
                                for (size_t i = 0; i < b.size(); ++i) {
                                    seen += b[i].valid();
                                    if (seen == tgt) {
                                        region = i + 1;
                                        break;
                                    }
                                }
                                std::vector<uint32_t> order;
                                for (size_t i = 0; i < region; ++i) {
                                    order.push_back(b[i].id());
                                }
                                size_t k = 0;
                                while (!b.done()) {
                                    MC_CHECK(k < order.size(), "completion", "never done");
                                    MC_CHECK(b.next().id() == order[k], "expansion-order", "wrong expansion");
                                    ++k;
                                }
                                MC_CHECK(k == order.size(), "completion", "done too early");
                                mc::transition(n + 1 + k);
                                mc::trace();
                                mc::evaluation();
                            });
                        }
                    }
                );
            }
        }
    }
}

// Large windows: the bookkeeping must work up to sizes the configuration accepts.
void large() {
    for (size_t cap : {255, 256, 257, 1000, 65534, 65535}) {
        for (bool all_live : {true, false}) {
            mc::run(
                [&] { return mc::str("large capacity=", cap, " all_live=", all_live); },
                [&] {
                    v::MutableBuffer<uint32_t> b{cap};
                    size_t n = std::min<size_t>(cap + 3, all_live ? 65600 : cap);
                    b.push_back(N{0, 0.0f, true});
                    b.sort();
                    size_t live = 1;
                    for (size_t i = 1; i < n; ++i) {
                        bool l = all_live || i % 2 == 0;
                        live += l;
                        b.insert(N{uint32_t(i), float(i), l});
                    }
                    MC_CHECK(b.valid() == std::min(live, cap), "content", "large list holds ", b.valid());
                    size_t k = 0;
                    while (!b.done()) {
                        MC_CHECK(b.next().id() == k, "expansion-order", "large list order at ", k);
                        ++k;
                    }
                    MC_CHECK(k == std::min(n, cap), "completion", "expanded ", k, " of ", n);
                    b.cleanup();
                    MC_CHECK(b.size() == std::min(live, cap), "cleanup", "large clean-up");
                    mc::transition(n + k);
                    mc::trace();
                    mc::evaluation();
                }
            );
        }
    }
    // More soft-deleted entries ahead of the live ones than any capacity, nearest or farthest first.
    for (size_t deleted : {254, 255, 256, 65533, 65534, 65535, 65536, 66000}) {
        for (size_t cap : {1, 3}) {
            mc::run(
                [&] { return mc::str("flood deleted=", deleted, " capacity=", cap); },
                [&] {
                    v::MutableBuffer<uint32_t> b{cap};
                    b.push_back(N{0, 0.0f, false});
                    b.sort();
                    for (size_t i = 1; i < deleted; ++i) {
                        b.insert(N{uint32_t(i), float(i), false});
                    }
                    // live entries behind all the deleted ones
                    for (size_t i = 0; i < cap + 2; ++i) {
                        b.insert(N{uint32_t(deleted + i), float(deleted + i), true});
                    }
                    MC_CHECK(b.valid() == cap && b.size() == deleted + cap, "content", "flood: live ", b.valid(), " size ", b.size());
                    size_t k = 0;
                    while (!b.done()) {
                        MC_CHECK(k < deleted + cap && b.next().id() == k, "expansion-order", "flood: order at ", k);
                        ++k;
                    }
                    MC_CHECK(k == deleted + cap, "completion", "flood: expanded ", k);
                    // a better live entry displaces the worst live one
                    b.insert(N{uint32_t(deleted + 10), -1.0f, true});
                    MC_CHECK(b.valid() == cap && b[0].id() == deleted + 10, "content", "flood: better entry");
                    MC_CHECK(!b.done() && b.next().id() == deleted + 10, "expansion-order", "flood: better entry not expanded");
                    b.cleanup();
                    MC_CHECK(b.size() == cap && b[0].id() == deleted + 10, "cleanup", "flood clean-up");
                    mc::transition(deleted + k + cap + 3);
                    mc::trace();
                    mc::evaluation();
                }
            );
        }
    }
    for (size_t cap : {65534, 65535}) {
        mc::run(
            [&] { return mc::str("descending capacity=", cap); },
            [&] {
                // Nearest last at the very end: the list is full and the last ones displace the worst.
                v::MutableBuffer<uint32_t> b{cap};
                b.push_back(N{0, 0.0f, true});
                b.sort();
                for (size_t i = 1; i < cap; ++i) {
                    b.insert(N{uint32_t(i), float(i), true});
                }
                for (size_t i = 0; i < 3; ++i) {
                    b.insert(N{uint32_t(cap + i), -1.0f - float(i), true});
                    MC_CHECK(b.valid() == cap && b.size() == cap, "content", "descending: live ", b.valid(), " size ", b.size());
                    MC_CHECK(!b.done() && b.next().id() == cap + i, "expansion-order", "descending");
                }
                mc::transition(cap + 6);
                mc::trace();
                mc::evaluation();
            }
        );
    }
    for (size_t cap : {65536, 70000}) {
        mc::run(
            [&] { return mc::str("refused capacity=", cap); },
            [&] {
                MC_CHECK(mc::throws([&] { v::MutableBuffer<uint32_t> b{cap}; }), "content", "oversized capacity accepted");
                v::MutableBuffer<uint32_t> b{3};
                MC_CHECK(mc::throws([&] { b.change_maxsize(cap); }), "content", "oversized capacity accepted");
                MC_CHECK(b.target() == 3 && b.size() == 0, "content", "refused resize changed the list");
                mc::transition(2);
                mc::trace();
                mc::evaluation();
            }
        );
    }
}

void body() {
    entry_points<std::less<>>();
    entry_points<std::greater<>>();
    large();
    lists<std::less<>>();
    lists<std::greater<>>();
}
MC_MAIN("C07", body)
