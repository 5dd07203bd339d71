// The dynamic index next to a plain model of what it has to hold; operations, enabled operations and
// the whole invariant. Shared by the harnesses of the dynamic index.
#pragma once
#include "kit.h"
#include "svs/core/logging.h"
#include "svs/index/index.h"
#include "svs/index/vamana/dynamic_index.h"

namespace v = svs::index::vamana;
using namespace kit;

static const std::vector<size_t> universe = {5, 1, 70000000000ull, 2, 9, 0};

struct Config {
    size_t initial, degree, prune_to, window, candidates;
    float alpha;
    bool history;
    size_t threads, block; // block: vectors per storage block
    std::string str() const {
        return mc::str("initial ", initial, " degree ", degree, "/", prune_to, " window ", window, " candidates ", candidates, " alpha ", alpha, history ? " history" : "", " threads ", threads, " block ", block);
    }
};

enum Kind { Add, Delete, Consolidate, Compact };
struct Op {
    Kind kind;
    std::vector<size_t> ids{}; // positions in `universe`
    size_t arg = 0;
    std::string str() const {
        static const char* names[] = {"add", "delete", "consolidate", "compact"};
        std::vector<size_t> v;
        for (auto i : ids) {
            v.push_back(universe[i]);
        }
        return std::string(names[kind]) + (kind == Compact ? mc::str("(", arg, ")") : kind == Consolidate ? "" : mc::list(v));
    }
};
using History = std::vector<Op>;
static std::string show(const History& h) {
    std::string s;
    for (auto& o : h) {
        s += " " + o.str();
    }
    return s;
}

// The vector of identifier `u` when added for the `version`th time.
static Point vec(size_t u, size_t version) {
    static const Points p = {{0, 1}, {3, 2}, {-2, 4}, {7, -1}, {3, 2}, {-4, -3}};
    Point x = p[u];
    if (version % 2) {
        x[0] += 1.5f;
        x[1] = -x[1];
    }
    return x;
}

struct Model {
    std::map<size_t, size_t> live{};    // position in universe -> version
    std::map<size_t, size_t> versions{}; // times added so far
    std::vector<v::SlotMetadata> slots{};
    bool pruned = false; // a consolidation has rewired the graph
};

// The library's growable graph on blocks of a few nodes (the default block has a gigabyte).
static size_t graph_block = 4;
using GraphData = svs::data::SimpleData<uint32_t, svs::Dynamic, svs::data::Blocked<svs::lib::Allocator<uint32_t>>>;
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GraphData> {
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GraphData>;
    static GraphData::allocator_type alloc(size_t row) {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(2 * graph_block * row * 4);
        return GraphData::allocator_type(bp);
    }
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, alloc(max_degree + 1)} {}
    void unsafe_resize(size_t new_size) { (parent_type::data_).resize(new_size); }
    void add_node() { unsafe_resize(parent_type::n_nodes() + 1); }
};

template <typename Dist> struct World {
    using Alloc = svs::data::Blocked<svs::lib::Allocator<float>>;
    using Data = svs::data::SimpleData<float, svs::Dynamic, Alloc>;
    using Graph = SmallGraph;
    using Index = v::MutableVamanaIndex<Graph, Data, Dist>;

    Config c;
    std::unique_ptr<Index> idx{};
    Model m{};

    World(const Config& c_)
        : c{c_} {
        Points pts;
        std::vector<size_t> ids;
        for (size_t i = 0; i < c.initial; ++i) {
            pts.push_back(vec(i, 0));
            ids.push_back(universe[i]);
            m.live[i] = 0;
            m.versions[i] = 1;
        }
        m.slots.assign(c.initial, v::SlotMetadata::Valid);
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(c.block * 8);
        graph_block = c.block;
        auto data = fill(Data(pts.size(), 2, Alloc(bp)), pts);
        v::VamanaBuildParameters p{c.alpha, c.degree, c.window, c.candidates, c.prune_to, c.history};
        idx = std::make_unique<Index>(p, std::move(data), ids, Dist(), c.threads);
    }

    size_t nlive() const { return m.live.size(); }
    size_t nsoft() const { return std::count(m.slots.begin(), m.slots.end(), v::SlotMetadata::Deleted); }
    size_t nempty() const { return std::count(m.slots.begin(), m.slots.end(), v::SlotMetadata::Empty); }

    void apply(const Op& op) {
        mc::transition();
        switch (op.kind) {
            case Add: {
                Points pts;
                std::vector<size_t> ids;
                for (auto u : op.ids) {
                    m.live[u] = m.versions[u]++;
                    pts.push_back(vec(u, m.live[u]));
                    ids.push_back(universe[u]);
                }
                size_t empty = nempty();
                auto slots = idx->add_points(dataset(pts, 2), ids);
                MC_CHECK(slots.size() == ids.size(), "slots", "add_points returned ", slots.size(), " slots for ", ids.size(), " points");
                size_t total = idx->view_data().size();
                // reuse before growth
                size_t expect = m.slots.size() + (ids.size() > empty ? ids.size() - empty : 0);
                MC_CHECK(total == expect, "slot-reuse", "the storage holds ", total, " slots after adding ", ids.size(), " points to ", m.slots.size(), " slots of which ", empty, " were free");
                m.slots.resize(total, v::SlotMetadata::Empty);
                for (size_t i = 0; i < slots.size(); ++i) {
                    MC_CHECK(slots[i] < total, "slots", "slot ", slots[i], " of ", total);
                    MC_CHECK(m.slots[slots[i]] == v::SlotMetadata::Empty, "slot-taken", "slot ", slots[i], " was in use");
                    MC_CHECK(idx->translate_external_id(ids[i]) == slots[i], "slots", "id ", ids[i], " is not in the slot reported");
                    m.slots[slots[i]] = v::SlotMetadata::Valid;
                }
                break;
            }
            case Delete: {
                std::vector<size_t> ids;
                for (auto u : op.ids) {
                    ids.push_back(universe[u]);
                    m.slots.at(idx->translate_external_id(universe[u])) = v::SlotMetadata::Deleted;
                    m.live.erase(u);
                }
                idx->delete_entries(ids);
                break;
            }
            case Consolidate:
                m.pruned = m.pruned || nsoft() > 0;
                idx->consolidate();
                for (auto& s : m.slots) {
                    if (s == v::SlotMetadata::Deleted) {
                        s = v::SlotMetadata::Empty;
                    }
                }
                break;
            case Compact: {
                size_t keep = nlive() + nsoft();
                idx->compact(op.arg);
                MC_CHECK(idx->view_data().size() == keep, "compact-size", "compaction left ", idx->view_data().size(), " slots for ", keep, " entries");
                m.slots.assign(keep, v::SlotMetadata::Deleted);
                for (auto [u, _] : m.live) {
                    m.slots.at(idx->translate_external_id(universe[u])) = v::SlotMetadata::Valid;
                }
                break;
            }
        }
    }

    std::vector<std::vector<uint32_t>> adjacency() const {
        Adj a;
        for (size_t i = 0; i < idx->view_graph().n_nodes(); ++i) {
            if (i < m.slots.size() && m.slots[i] == v::SlotMetadata::Empty) {
                a.emplace_back();
                continue;
            }
            auto l = idx->view_graph().get_node(i);
            a.emplace_back(l.begin(), l.end());
        }
        return a;
    }

    Row search(const Point& q, size_t k, size_t window, size_t capacity = 0) {
        auto result = svs::QueryResult<size_t>(1, k);
        poison(result, 123456789);
        v::VamanaSearchParameters sp{v::SearchBufferConfig{window, std::max(window, capacity)}, false, 4, 1};
        idx->search(result.view(), dataset({q}).cview(), sp);
        return row(result, 0);
    }

    static const Points& queries() {
        static const Points q = {{0.25f, 0.5f}, {6, 3}, {-3, 2}};
        return q;
    }

    std::optional<double> truth_of(size_t id, const Point& q) const {
        for (auto [u, version] : m.live) {
            if (universe[u] == id) {
                return truth(Dist(), q, vec(u, version));
            }
        }
        return std::nullopt;
    }

    // The whole invariant.
    void check(const std::function<std::string()>& where) {
        size_t n = nlive(), total = m.slots.size();
        MC_CHECK(idx->size() == n, "size", where(), ": size ", idx->size(), " with ", n, " live points");
        auto ids = idx->external_ids();
        std::set<size_t> got(ids.begin(), ids.end()), want;
        for (auto [u, _] : m.live) {
            want.insert(universe[u]);
        }
        MC_CHECK(got == want && ids.size() == n, "members", where(), ": the index lists ", mc::list(got), " instead of ", mc::list(want));
        MC_CHECK(idx->view_data().size() == total && idx->view_graph().n_nodes() == total, "storage", where(), ": ", idx->view_data().size(), " vectors and ", idx->view_graph().n_nodes(), " nodes, expected ", total);
        for (size_t u = 0; u < universe.size(); ++u) {
            bool in = m.live.count(u);
            MC_CHECK(idx->has_id(universe[u]) == in, "has-id", where(), ": id ", universe[u]);
            if (in) {
                auto slot = idx->translate_external_id(universe[u]);
                MC_CHECK(slot < total && m.slots[slot] == v::SlotMetadata::Valid, "slot", where(), ": id ", universe[u], " is in slot ", slot);
                MC_CHECK(idx->translate_internal_id(slot) == universe[u], "translation", where(), ": slot ", slot, " of ", universe[u], " translates to ", idx->translate_internal_id(slot));
                MC_CHECK(!idx->is_deleted(slot), "deleted", where(), ": the slot of ", universe[u], " is marked deleted");
                auto d = idx->get_datum(universe[u]);
                Point p(d.begin(), d.end());
                MC_CHECK(p == vec(u, m.live[u]), "vector", where(), ": id ", universe[u], " has vector ", mc::list(p), " instead of ", mc::list(vec(u, m.live[u])));
            }
        }
        for (size_t i = 0; i < total; ++i) {
            MC_CHECK(idx->is_deleted(i) == (m.slots[i] != v::SlotMetadata::Valid), "deleted", where(), ": slot ", i);
        }
        bool soft = nsoft() > 0;
        try {
            idx->debug_check_invariants(soft);
        } catch (const std::exception& e) { mc::fail("self-check", where() + ": " + e.what()); }
        auto adj = adjacency();
        for (size_t i = 0; i < total; ++i) {
            std::set<uint32_t> s;
            MC_CHECK(adj[i].size() <= idx->max_degree(), "degree", where(), ": node ", i, " has ", adj[i].size(), " neighbours");
            for (auto j : adj[i]) {
                MC_CHECK(j < total && j != i && s.insert(j).second, "graph", where(), ": node ", i, " has neighbours ", mc::list(adj[i]));
                MC_CHECK(m.slots[j] != v::SlotMetadata::Empty, "dangling", where(), ": node ", i, " points to free slot ", j);
            }
        }
        mc::evaluation();
        // Searches.
        std::vector<char> reach(total, 0);
        if (n + nsoft() > 0) {
            auto ep = idx->entry_point();
            MC_CHECK(ep < total && m.slots[ep] != v::SlotMetadata::Empty, "entry-point", where(), ": entry point ", ep);
            reach = reachable(adj, {ep});
        }
        size_t reach_live = 0;
        for (size_t i = 0; i < total; ++i) {
            reach_live += reach[i] && m.slots[i] == v::SlotMetadata::Valid;
        }
        mc::count("states_checked");
        if (reach_live < n) {
            mc::count("states_with_unreachable_points");
            MC_CHECK(m.pruned || c.degree + 1 < total || c.window < total || c.candidates < total, "unreachable", where(), ": ", n - reach_live, " live points cannot be reached: ", kit::show(adj));
        }
        for (auto& q : queries()) {
            std::vector<std::pair<uint64_t, double>> all, found;
            for (auto [u, version] : m.live) {
                double d = truth(Dist(), q, vec(u, version));
                all.emplace_back(universe[u], d);
                if (reach[idx->translate_external_id(universe[u])]) {
                    found.emplace_back(universe[u], d);
                }
            }
            for (size_t k : {size_t(1), n, n + 2}) {
                if (k == 0) {
                    continue;
                }
                for (size_t window : {size_t(1), size_t(2), total + 1}) {
                    size_t capacity = std::max<size_t>(window, window == 2 ? 4 : 0);
                    auto r = search(q, k, window, capacity);
                    auto w = [&] { return mc::str(where(), ": query ", mc::list(q), " k ", k, " window ", window); };
                    size_t valid = check_row(r, Dist(), none<uint64_t>, [&](uint64_t id) { return truth_of(id, q); }, w);
                    MC_CHECK(valid <= found.size(), "unreachable-result", w(), " gave ", kit::show(r));
                    if (window >= total || (k >= total && k > capacity)) {
                        MC_CHECK(valid == std::min(k, found.size()), "missing-live", w(), " gave ", kit::show(r), " with ", found.size(), " live points in reach");
                        check_exact(r, Dist(), k, found, w);
                    } else {
                        // at least as many live points as the window (or k) asks for, if the walk can get there
                        MC_CHECK(valid >= std::min<size_t>(1, found.size()) || soft || window < total, "nothing", w(), " gave nothing");
                    }
                    mc::outcome(mc::hash(kit::show(r)));
                }
                auto result = svs::QueryResult<size_t>(1, k);
                poison(result, 7);
                auto qs = dataset({q});
                auto rv = result.view();
                idx->exhaustive_search(qs.cview(), k, rv);
                auto r = row(result, 0);
                auto w = [&] { return mc::str(where(), ": exhaustive search for ", mc::list(q), " k ", k); };
                size_t valid = check_row(r, Dist(), none<uint64_t>, [&](uint64_t id) { return truth_of(id, q); }, w);
                MC_CHECK(valid == std::min(k, n), "exhaustive", w(), " gave ", kit::show(r));
                check_exact(r, Dist(), k, all, w);
                mc::evaluation(4);
            }
        }
        if (n > 0) {
            std::vector<uint64_t> want_ids(want.begin(), want.end());
            auto dst = svs::data::SimpleData<float>(n, 2);
            idx->reconstruct_at(svs::data::SimpleDataView<float>(dst.data(), n, 2), std::span<const uint64_t>(want_ids));
            for (size_t i = 0; i < n; ++i) {
                auto x = dst.get_datum(i);
                auto y = idx->get_datum(want_ids[i]);
                MC_CHECK(std::equal(x.begin(), x.end(), y.begin(), y.end()), "reconstruct", where(), ": vector of ", want_ids[i]);
            }
        }
    }

    // Results of searches, whatever they are (for comparisons between two states).
    std::string observe(bool graph) {
        std::string s;
        auto ids = idx->external_ids();
        std::sort(ids.begin(), ids.end());
        s += mc::list(ids) + mc::str("|", idx->size(), "|");
        for (auto id : ids) {
            auto d = idx->get_datum(id);
            s += mc::list(std::vector<float>(d.begin(), d.end()));
        }
        for (auto& q : queries()) {
            for (size_t window : {1, 2, 3, 20}) {
                s += "|" + kit::show(search(q, window == 20 ? 7 : window, window));
            }
        }
        if (graph) {
            s += "|" + kit::show(adjacency());
        }
        return s;
    }

    uint64_t hash() {
        std::string s = kit::show(adjacency());
        for (size_t i = 0; i < m.slots.size(); ++i) {
            s += mc::str("/", int(m.slots[i]));
            if (m.slots[i] == v::SlotMetadata::Valid) {
                s += mc::str(":", idx->translate_internal_id(i));
            }
            if (m.slots[i] != v::SlotMetadata::Empty) {
                auto d = idx->view_data().get_datum(i);
                s += mc::list(std::vector<float>(d.begin(), d.end()));
            }
        }
        s += mc::str("@", nlive() + nsoft() ? idx->entry_point() : 0, "p", m.pruned);
        for (auto [u, n] : m.versions) {
            s += mc::str(",", u, "v", n % 2);
        }
        return mc::hash(s);
    }

    std::vector<Op> enabled() const {
        std::vector<Op> ops;
        std::vector<size_t> present, absent;
        for (size_t u = 0; u < universe.size(); ++u) {
            (m.live.count(u) ? present : absent).push_back(u);
        }
        for (size_t i = 0; i < absent.size() && i < 2; ++i) {
            ops.push_back({Add, {absent[i]}});
        }
        if (absent.size() >= 2) {
            ops.push_back({Add, {absent[1], absent[0]}});
        }
        if (absent.size() >= 4) {
            ops.push_back({Add, {absent[0], absent[3], absent[2]}});
        }
        for (auto u : present) {
            ops.push_back({Delete, {u}});
        }
        if (present.size() >= 2) {
            ops.push_back({Delete, {present[1], present[0]}});
        }
        if (present.size() >= 3) {
            ops.push_back({Delete, present});
        }
        ops.push_back({Consolidate});
        ops.push_back({Compact, {}, 1});
        ops.push_back({Compact, {}, 1000});
        return ops;
    }
};

template <typename Dist> World<Dist> replay(const Config& c, const History& h) {
    World<Dist> w(c);
    for (auto& op : h) {
        w.apply(op);
    }
    return w;
}

template <typename Dist> std::string describe(const Config& c, const History& h) { return mc::str(name(Dist()), " ", c.str(), ":", show(h)); }
