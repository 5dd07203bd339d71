// C19: adjacency structures against plain lists of lists.
#include "mc.h"
#include "kit.h"
#include "svs/core/graph.h"

#include <deque>

namespace graphs = svs::graphs;
template <typename I> using Lists = std::vector<std::vector<I>>;

template <typename I> std::string show(const Lists<I>& g) {
    std::string s;
    for (auto& l : g) {
        s += mc::list(l);
    }
    return s.empty() ? "nothing" : s;
}

template <typename I> using Plain = graphs::SimpleGraph<I, svs::lib::Allocator<I>>;
template <typename I> using Huge = graphs::SimpleGraph<I>;
template <typename I> using BlockedRows = svs::data::BlockedData<I, svs::Dynamic>;
// The growing graph of the dynamic index, with a block size that small cases can cross.
template <typename I> struct Growing : graphs::SimpleGraphBase<I, BlockedRows<I>> {
    using parent_type = graphs::SimpleGraphBase<I, BlockedRows<I>>;
    static auto alloc(size_t row) {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(4 * row * sizeof(I));
        return typename BlockedRows<I>::allocator_type(bp);
    }
    Growing(size_t n, size_t degree)
        : parent_type(n, degree, alloc(degree + 1)) {}
    void unsafe_resize(size_t n) { (parent_type::data_).resize(n); }
};

template <typename G, typename I> void compare(const G& g, const Lists<I>& m, size_t degree, const std::function<std::string()>& where) {
    MC_CHECK(g.n_nodes() == m.size() && g.max_degree() == degree, "shape", where(), ": ", g.n_nodes(), " nodes of degree ", g.max_degree());
    for (size_t i = 0; i < m.size(); ++i) {
        auto l = g.get_node(I(i));
        MC_CHECK(std::equal(l.begin(), l.end(), m[i].begin(), m[i].end()), "list", where(), ": node ", i, " has ", mc::list(l), " instead of ", mc::list(m[i]));
        MC_CHECK(g.get_node_degree(I(i)) == m[i].size(), "degree", where(), ": degree of node ", i);
        g.prefetch_node(I(i));
        for (size_t j = 0; j < m.size(); ++j) {
            bool in = std::find(m[i].begin(), m[i].end(), I(j)) != m[i].end();
            MC_CHECK(g.has_edge(I(i), I(j)) == in, "edge", where(), ": has_edge(", i, ",", j, ")");
        }
    }
    mc::evaluation();
}

template <typename I> struct Op {
    enum Kind { Add, Replace, ReplaceSpan, Clear, Reset, Resize } kind;
    I a = 0, b = 0;
    std::vector<I> list{};
    std::string show() const {
        switch (kind) {
        case Add:
            return mc::str("add ", +a, "->", +b);
        case Replace:
            return mc::str("replace ", +a, mc::list(list));
        case ReplaceSpan:
            return mc::str("replace* ", +a, mc::list(list));
        case Clear:
            return mc::str("clear ", +a);
        case Reset:
            return "reset";
        default:
            return mc::str("resize ", +a);
        }
    }
};

template <typename I, typename G> void apply(G& g, Lists<I>& m, size_t degree, const Op<I>& op, const std::function<std::string()>& where) {
    switch (op.kind) {
    case Op<I>::Add: {
        if (size_t(op.b) >= m.size() && op.a != op.b) {
            MC_CHECK(mc::throws([&] { g.add_edge(op.a, op.b); }), "range", where(), ": an edge to a node that does not exist was accepted");
            return;
        }
        auto& l = m[op.a];
        if (op.a != op.b && l.size() < degree && std::find(l.begin(), l.end(), op.b) == l.end()) {
            l.push_back(op.b);
        }
        size_t got = g.add_edge(op.a, op.b);
        MC_CHECK(got == l.size(), "result", where(), ": add_edge returned ", got, " but the node has ", l.size(), " neighbours");
        return;
    }
    case Op<I>::Replace:
    case Op<I>::ReplaceSpan: {
        auto l = op.list;
        if (l.size() > degree) {
            l.resize(degree);
        }
        m[op.a] = l;
        if (op.kind == Op<I>::Replace) {
            g.replace_node(op.a, op.list);
        } else {
            std::vector<I> longer(op.list);
            longer.push_back(I(0));
            g.replace_node(op.a, std::span<const I>(longer.data(), op.list.size()));
        }
        return;
    }
    case Op<I>::Clear:
        m[op.a].clear();
        g.clear_node(op.a);
        return;
    case Op<I>::Reset:
        for (auto& l : m) {
            l.clear();
        }
        g.reset();
        return;
    case Op<I>::Resize:
        if constexpr (requires { g.unsafe_resize(1); }) {
            size_t old = m.size();
            m.resize(op.a);
            g.unsafe_resize(op.a);
            for (size_t i = old; i < m.size(); ++i) {
                g.clear_node(I(i)); // the lists of new nodes are not defined before
            }
        }
        return;
    }
}

template <typename I, typename G> std::vector<Op<I>> alphabet(size_t n, size_t degree, bool all_lists, size_t top) {
    std::vector<Op<I>> ops;
    for (size_t a = 0; a < n; ++a) {
        for (size_t b = 0; b <= n; ++b) {
            ops.push_back({Op<I>::Add, I(a), I(b)});
        }
        ops.push_back({Op<I>::Clear, I(a)});
        std::vector<I> l;
        std::function<void()> grow = [&] {
            ops.push_back({l.size() % 2 ? Op<I>::Replace : Op<I>::ReplaceSpan, I(a), 0, l});
            if (l.size() > degree) {
                return;
            }
            for (size_t x = 0; x < n; ++x) {
                if (std::find(l.begin(), l.end(), I(x)) == l.end()) {
                    l.push_back(I(x));
                    grow();
                    l.pop_back();
                }
            }
        };
        if (all_lists) {
            grow();
        } else {
            for (size_t len : {size_t(0), size_t(1), degree, degree + 1}) {
                l.clear();
                for (size_t x = 0; x < len && x < n; ++x) {
                    l.push_back(I((a + 1 + x) % n));
                }
                ops.push_back({len % 2 ? Op<I>::Replace : Op<I>::ReplaceSpan, I(a), 0, l});
            }
        }
    }
    ops.push_back({Op<I>::Reset});
    if constexpr (requires(G & g) { g.unsafe_resize(1); }) {
        for (size_t s = 0; s <= top; ++s) {
            if (s != n) {
                ops.push_back({Op<I>::Resize, I(s)});
            }
        }
    }
    return ops;
}

// Every reachable content of a small graph, and every operation on it.
template <typename I, template <typename> typename GG> void reachable(const char* label, size_t n0, size_t degree) {
    using G = GG<I>;
    mc::run([&] { return mc::str(label, sizeof(I) * 8, " every content: ", n0, " nodes, degree ", degree); }, [&] {
        std::map<Lists<I>, std::vector<Op<I>>> seen;
        std::deque<Lists<I>> todo;
        Lists<I> start(n0);
        seen[start] = {};
        todo.push_back(start);
        size_t limit = mc::thorough() ? 40000 : 6000;
        while (!todo.empty()) {
            auto m = todo.front();
            todo.pop_front();
            auto path = seen[m];
            for (auto& op : alphabet<I, G>(m.size(), degree, true, n0 + 1)) {
                G g(n0, degree);
                Lists<I> x(n0);
                auto where = [&] {
                    std::string s = mc::str(label, sizeof(I) * 8, " graph of ", n0, " nodes and degree ", degree, ":");
                    for (auto& p : path) {
                        s += " " + p.show() + ";";
                    }
                    return s + " " + op.show();
                };
                for (auto& p : path) {
                    apply(g, x, degree, p, where);
                }
                apply(g, x, degree, op, where);
                compare(g, x, degree, where);
                mc::transition();
                if (!seen.count(x)) {
                    MC_CHECK(seen.size() < limit * 4, "internal", "too many contents");
                    auto longer = path;
                    longer.push_back(op);
                    seen[x] = longer;
                    todo.push_back(x);
                    mc::state(mc::hash(mc::str(label, sizeof(I), n0, degree, show(x))));
                }
            }
        }
        mc::note_max("contents", seen.size());
        mc::trace();
    });
}

// Every history, so that rows with earlier content are reused in every way.
template <typename I, template <typename> typename GG> void histories(const char* label, size_t n0, size_t degree, size_t depth) {
    using G = GG<I>;
    std::vector<Op<I>> h;
    std::function<void(size_t)> grow = [&](size_t n) {
        for (auto& op : alphabet<I, G>(n, degree, false, n0 + 3)) {
            h.push_back(op);
            size_t m = op.kind == Op<I>::Resize ? size_t(op.a) : n;
            if (h.size() == depth) {
                mc::run(
                    [&] {
                        std::string s = mc::str(label, sizeof(I) * 8, " ", n0, "/", degree, ":");
                        for (auto& o : h) {
                            s += " " + o.show() + ";";
                        }
                        return s;
                    },
                    [&] {
                        G g(n0, degree);
                        Lists<I> x(n0);
                        size_t at = 0;
                        auto where = [&] {
                            std::string s = mc::str(label, sizeof(I) * 8, " graph of ", n0, " nodes and degree ", degree, ":");
                            for (size_t i = 0; i <= at && i < h.size(); ++i) {
                                s += " " + h[i].show() + ";";
                            }
                            return s;
                        };
                        compare(g, x, degree, where);
                        for (at = 0; at < h.size(); ++at) {
                            apply(g, x, degree, h[at], where);
                            compare(g, x, degree, where);
                            mc::transition();
                        }
                        mc::state(mc::hash(mc::str(label, sizeof(I), n0, degree, show(x))));
                        mc::trace();
                    }
                );
            } else {
                grow(m);
            }
            h.pop_back();
        }
    };
    grow(n0);
}

// Long lists: up to and beyond the degree limit.
template <typename I, template <typename> typename GG> void long_lists(const char* label) {
    for (size_t degree : {0, 1, 2, 15, 16, 17, 31, 63, 64, 65, 127}) {
        mc::run([&] { return mc::str(label, sizeof(I) * 8, " long lists, degree ", degree); }, [&] {
            size_t n = degree + 3;
            GG<I> g(n, degree);
            Lists<I> m(n);
            std::string last;
            auto where = [&] { return mc::str(label, sizeof(I) * 8, " graph of degree ", degree, " after ", last); };
            for (size_t len = 0; len <= degree + 2; ++len) {
                std::vector<I> l;
                for (size_t i = 0; i < len; ++i) {
                    l.push_back(I((i * 5 + 1) % n));
                }
                if (std::set<I>(l.begin(), l.end()).size() != l.size()) {
                    l.clear();
                    for (size_t i = 0; i < len; ++i) {
                        l.push_back(I(n - 1 - i));
                    }
                }
                for (size_t node : {size_t(0), n / 2, n - 1}) {
                    Op<I> op{Op<I>::Replace, I(node), 0, l};
                    last = op.show();
                    apply(g, m, degree, op, where);
                    compare(g, m, degree, where);
                    for (size_t b = 0; b < n; ++b) {
                        Op<I> add{Op<I>::Add, I(node), I(b)};
                        auto keep = m;
                        last = op.show() + ", " + add.show();
                        apply(g, m, degree, add, where);
                        MC_CHECK(std::ranges::equal(g.get_node(I(node)), m[node]), "list", where(), ": ", mc::list(g.get_node(I(node))), " instead of ", mc::list(m[node]));
                        g.replace_node(I(node), keep[node]);
                        m = keep;
                        mc::transition();
                    }
                    compare(g, m, degree, where);
                }
            }
            mc::trace();
        });
    }
}

// Comparison of every pair of contents.
static void equality() {
    std::vector<std::vector<uint32_t>> options{{}, {0}, {1}, {0, 1}, {1, 0}, {2}, {0, 1, 2}};
    for (size_t n = 1; n <= 3; ++n) {
        mc::run([&] { return mc::str("equality of graphs with ", n, " nodes"); }, [&] {
            size_t total = 1;
            for (size_t i = 0; i < n; ++i) {
                total *= options.size();
            }
            auto make = [&](size_t k, auto& g, size_t noise) {
                for (size_t i = 0; i < n; ++i, k /= options.size()) {
                    if (noise) {
                        g.replace_node(i, std::vector<uint32_t>{2, 1, 0}); // stale entries do not count
                    }
                    g.replace_node(i, options[k % options.size()]);
                }
            };
            for (size_t a = 0; a < total; ++a) {
                Plain<uint32_t> x(n, 3);
                make(a, x, 0);
                for (size_t b = 0; b < total; ++b) {
                    Plain<uint32_t> y(n, 3 + b % 2);
                    make(b, y, 1);
                    MC_CHECK((x == y) == (a == b), "equality", "graphs ", a, " and ", b, " of ", n, " nodes compare ", x == y);
                    MC_CHECK(graphs::graphs_equal(y, x) == (a == b), "equality", "graphs ", b, " and ", a, " of ", n, " nodes");
                    mc::transition();
                }
            }
            Plain<uint32_t> x(n, 3), y(n + 1, 3);
            MC_CHECK(!(x == y) && !(y == x), "equality", "graphs of different sizes compare equal");
            Huge<uint32_t> h(n, 2);
            MC_CHECK(h == x && x == h, "equality", "empty graphs with other memory differ");
            mc::trace();
        });
    }
}

static void body() {
    bool deep = mc::thorough();
    for (size_t n = 0; n <= 3; ++n) {
        for (size_t degree = 0; degree <= 3; ++degree) {
            reachable<uint32_t, Plain>("plain", n, degree);
            reachable<uint64_t, Plain>("plain", std::min<size_t>(n, 2), degree);
            if (n < 3 || degree < 2 || deep) {
                reachable<uint32_t, Growing>("growing", std::min<size_t>(n, 2), std::min<size_t>(degree, 2));
            }
        }
    }
    for (size_t degree = 0; degree <= 3; ++degree) {
        histories<uint32_t, Plain>("plain", 2, degree, deep ? 5 : 4);
        histories<uint32_t, Plain>("plain", 3, degree, deep ? 4 : 3);
        histories<uint32_t, Growing>("growing", 3, degree, deep ? 4 : 3);
        histories<uint8_t, Plain>("plain", 2, degree, 3);
        histories<uint16_t, Plain>("plain", 2, degree, 3);
        histories<uint64_t, Growing>("growing", 4, degree, 3);
    }
    histories<uint32_t, Huge>("huge pages", 2, 2, 3);
    long_lists<uint8_t, Plain>("plain");
    long_lists<uint32_t, Plain>("plain");
    long_lists<uint64_t, Growing>("growing");
    equality();
}

MC_MAIN("C19", body)
