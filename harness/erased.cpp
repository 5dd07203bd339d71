// C33: type-erased indexes. A concrete index and a type-erased one holding an identical twin are driven
// in lockstep through every operation of the interface and must be indistinguishable.
#include "dynworld.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/orchestrators/dynamic_vamana.h"
#include "svs/orchestrators/exhaustive.h"
#include "svs/orchestrators/inverted.h"
#include "svs/orchestrators/vamana.h"

using std::string;
namespace lib = svs::lib;
namespace inv = svs::index::inverted;
namespace fs = std::filesystem;

static string scratch;
struct Dir {
    fs::path path;
    Dir() {
        static size_t n = 0;
        path = scratch + "/e" + std::to_string(n++);
        fs::create_directories(path);
    }
    ~Dir() { fs::remove_all(path); }
    fs::path operator/(const char* s) const { return path / s; }
};

using Few = lib::Types<float>;
using All = lib::Types<float, svs::Float16, int8_t, uint8_t>;
using Bytes = lib::Types<uint8_t, int8_t>;
template <typename L> const char* list_name();
template <> const char* list_name<Few>() { return "float"; }
template <> const char* list_name<All>() { return "all"; }
template <> const char* list_name<Bytes>() { return "bytes"; }

// Small integral coordinates, nonnegative where `positive`: the same values in every element type.
static Points cloud(size_t n, size_t d, int seed) {
    Points p(n, Point(d));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            p[i][j] = float(mc::mix(i * 17 + seed, j + 3) % 23 + (j == 0));
        }
    }
    return p;
}

static string bits(const svs::QueryResult<size_t>& r) {
    string s;
    for (size_t i = 0; i < r.n_queries(); ++i) {
        for (size_t j = 0; j < r.n_neighbors(); ++j) {
            uint32_t u;
            float x = r.distance(i, j);
            std::memcpy(&u, &x, 4);
            s += mc::str(r.index(i, j), ":", std::hex, u, " ");
        }
        s += "| ";
    }
    return s;
}
static std::vector<float> distances(const svs::QueryResult<size_t>& r) {
    std::vector<float> v;
    for (size_t i = 0; i < r.n_queries(); ++i) {
        for (size_t j = 0; j < r.n_neighbors(); ++j) {
            v.push_back(r.distance(i, j));
        }
    }
    return v;
}
static string text(const v::VamanaSearchParameters& p) {
    return mc::str(p.buffer_config_.get_search_window_size(), "/", p.buffer_config_.get_total_capacity(), p.search_buffer_visited_set_ ? " set " : " ", p.prefetch_lookahead_, "/", p.prefetch_step_);
}
static string text(const svs::index::flat::FlatParameters& p) { return mc::str(p.data_batch_size_, "/", p.query_batch_size_); }
static string text(const inv::InvertedSearchParameters& p) { return mc::str(text(p.primary_parameters_), " ", p.refinement_epsilon_); }

static std::vector<v::VamanaSearchParameters> settings(const v::VamanaSearchParameters*) {
    std::vector<v::VamanaSearchParameters> r;
    for (size_t w : {1, 3, 12}) {
        for (size_t extra : {0, 4}) {
            for (bool set : {false, true}) {
                if (set && w == 3) {
                    continue;
                }
                r.push_back({v::SearchBufferConfig{w, w + extra}, set, size_t(set ? 0 : 4), size_t(extra ? 2 : 1)});
            }
        }
    }
    return r;
}
static std::vector<svs::index::flat::FlatParameters> settings(const svs::index::flat::FlatParameters*) { return {{0, 0}, {1, 1}, {3, 0}, {0, 2}, {1000, 7}}; }
static std::vector<inv::InvertedSearchParameters> settings(const inv::InvertedSearchParameters*) {
    std::vector<inv::InvertedSearchParameters> r;
    for (auto& p : settings(static_cast<v::VamanaSearchParameters*>(nullptr))) {
        for (double e : {1.0, 10.0}) {
            r.push_back({p, e});
        }
    }
    return r;
}

// Search with one query type; `supported` says what has to happen.
template <typename Q, typename Concrete, typename Erased, typename P>
void search_as(Concrete& c, Erased& e, const Points& queries, size_t k, const P& p, bool supported, const svs::QueryResult<size_t>* reference, const string& where) {
    auto q = dataset<Q>(queries);
    svs::QueryResult<size_t> got(queries.size(), k);
    for (size_t i = 0; i < queries.size(); ++i) {
        for (size_t j = 0; j < k; ++j) {
            got.set(svs::Neighbor<size_t>(987654321, -12345.0f), i, j);
        }
    }
    auto before = bits(got);
    auto stored = text(e.get_search_parameters());
    auto name = mc::str(where, ": ", svs::name(svs::datatype_v<Q>), " queries, k ", k, " ", text(p));
    bool threw = false;
    try {
        e.search(got.view(), q.cview(), p);
    } catch (const std::exception&) { threw = true; }
    MC_CHECK(threw == !supported, "query-type", name, threw ? " were refused" : " were accepted");
    MC_CHECK(text(e.get_search_parameters()) == stored, "parameters", name, ": the search changed the parameters to ", text(e.get_search_parameters()));
    if (!supported) {
        MC_CHECK(bits(got) == before, "query-type", name, ": a refused search wrote results");
        mc::evaluation();
        return;
    }
    if constexpr (requires { svs::index::search_batch_with(c, q.cview(), k, p); }) {
        auto want = svs::index::search_batch_with(c, q.cview(), k, p);
        MC_CHECK(bits(got) == bits(want), "results", name, ": concrete ", bits(want), " type-erased ", bits(got));
        auto again = svs::index::search_batch_with(e, q.cview(), k, p);
        MC_CHECK(bits(again) == bits(want), "results", name, ": through the generic entry point ", bits(again), " instead of ", bits(want));
        if (reference) {
            auto x = distances(*reference), y = distances(got);
            for (size_t i = 0; i < x.size(); ++i) {
                MC_CHECK(x[i] == y[i] || close(x[i], y[i]), "conversion", name, ": as float ", bits(*reference), " but ", bits(got));
            }
        }
        mc::outcome(bits(want));
    }
    mc::evaluation();
}
template <typename L, typename Concrete, typename Erased>
void same(Concrete& c, Erased& e, const Points& queries, const string& where) {
    using P = std::remove_cvref_t<decltype(e.get_search_parameters())>;
    MC_CHECK(c.size() == e.size() && c.dimensions() == e.dimensions(), "shape", where, ": ", c.size(), "x", c.dimensions(), " but type-erased ", e.size(), "x", e.dimensions());
    MC_CHECK(text(c.get_search_parameters()) == text(e.get_search_parameters()), "parameters", where, ": ", text(c.get_search_parameters()), " but type-erased ", text(e.get_search_parameters()));
    auto types = e.query_types();
    auto expect = lib::make_vec<svs::DataType>(L{}, std::identity{});
    MC_CHECK(types == expect, "query-type", where, ": ", types.size(), " query types are announced");
    MC_CHECK(e.can_change_threads() == c.can_change_threads() && e.get_num_threads() == c.get_num_threads(), "threads", where, ": ", c.get_num_threads(), " threads but type-erased ", e.get_num_threads());
    if constexpr (requires { c.get_alpha(); e.get_alpha(); }) {
        MC_CHECK(c.get_alpha() == e.get_alpha() && c.get_construction_window_size() == e.get_construction_window_size(), "parameters", where, ": alpha ", c.get_alpha(), " window ", c.get_construction_window_size(), " but type-erased ", e.get_alpha(), " ", e.get_construction_window_size());
    }
    if constexpr (requires { c.get_max_candidates(); e.get_max_candidates(); }) {
        MC_CHECK(c.get_max_candidates() == e.get_max_candidates(), "parameters", where, ": ", c.get_max_candidates(), " candidates but type-erased ", e.get_max_candidates());
    }
    mc::state(mc::hash(where));
    auto all = settings(static_cast<P*>(nullptr));
    for (size_t i = 0; i < all.size(); ++i) {
        auto& p = all[i];
        for (size_t k : {size_t(1), size_t(4), c.size() + 2}) {
            if (k == c.size() + 2 && i % 3 != 0) {
                continue;
            }
            std::optional<svs::QueryResult<size_t>> reference;
            if constexpr (lib::in<float>(L{})) {
                reference.emplace(svs::index::search_batch_with(c, dataset(queries).cview(), k, p));
            }
            auto* r = reference ? &*reference : nullptr;
            search_as<float>(c, e, queries, k, p, lib::in<float>(L{}), r, where);
            search_as<svs::Float16>(c, e, queries, k, p, lib::in<svs::Float16>(L{}), r, where);
            search_as<int8_t>(c, e, queries, k, p, lib::in<int8_t>(L{}), r, where);
            search_as<uint8_t>(c, e, queries, k, p, lib::in<uint8_t>(L{}), r, where);
            if (i == 0) {
                search_as<double>(c, e, queries, k, p, false, nullptr, where);
                search_as<int16_t>(c, e, queries, k, p, false, nullptr, where);
                search_as<uint16_t>(c, e, queries, k, p, false, nullptr, where);
                search_as<int32_t>(c, e, queries, k, p, false, nullptr, where);
                search_as<uint32_t>(c, e, queries, k, p, false, nullptr, where);
                search_as<int64_t>(c, e, queries, k, p, false, nullptr, where);
                search_as<uint64_t>(c, e, queries, k, p, false, nullptr, where);
            }
        }
    }
    // No queries at all, and the stored parameters.
    using Q = typename std::conditional_t<lib::in<float>(L{}), std::type_identity<float>, std::type_identity<uint8_t>>::type;
    for (auto& p : all) {
        c.set_search_parameters(p);
        e.set_search_parameters(p);
        MC_CHECK(text(e.get_search_parameters()) == text(p) && text(c.get_search_parameters()) == text(p), "parameters", where, ": set to ", text(p), " but ", text(e.get_search_parameters()));
        auto q = dataset<Q>(queries);
        auto got = e.search(q, 3);
        auto want = svs::index::search_batch(c, q.cview(), 3);
        MC_CHECK(bits(got) == bits(want), "results", where, " with stored parameters ", text(p), ": ", bits(want), " but type-erased ", bits(got));
        mc::evaluation();
    }
    mc::transition(all.size());
}
// Threads, and moving.
template <typename L, typename Concrete, typename Erased> void threads_and_moves(Concrete& c, std::optional<Erased>& e, const Points& queries, const string& where) {
    for (size_t n : {3, 0, 2, 1}) {
        e->set_num_threads(n);
        c.set_num_threads(std::max<size_t>(n, 1));
        MC_CHECK(e->get_num_threads() == std::max<size_t>(n, 1), "threads", where, ": ", n, " requested, ", e->get_num_threads(), " in use");
        using P = std::remove_cvref_t<decltype(e->get_search_parameters())>;
        auto all = settings(static_cast<P*>(nullptr));
        using Q = typename std::conditional_t<lib::in<float>(L{}), std::type_identity<float>, std::type_identity<uint8_t>>::type;
        search_as<Q>(c, *e, queries, 3, all[1], true, nullptr, where);
    }
    Erased moved(std::move(*e));
    e.reset();
    same<L>(c, moved, queries, where + " moved");
    std::optional<Erased> other(std::move(moved));
    moved = std::move(*other);
    other.reset();
    same<L>(c, moved, queries, where + " assigned");
    e.emplace(std::move(moved));
}

// Static and dynamic graphs ---------------------------------------------------------------------------
template <typename Concrete, typename Erased> void graph_parameters(Concrete& c, Erased& e, const string& where) {
    auto alpha = c.get_alpha();
    auto window = c.get_construction_window_size();
    for (float a : {1.25f, 0.95f, 1.0f, 1.5f, 2.0f, 1.0625f, 0.5f}) {
        e.set_alpha(a);
        MC_CHECK(e.get_alpha() == a, "parameters", where, ": alpha set to ", a, " is ", e.get_alpha());
    }
    for (size_t w : {1, 2, 77, 1000000}) {
        e.set_construction_window_size(w);
        MC_CHECK(e.get_construction_window_size() == w && e.get_alpha() == 0.5f, "parameters", where, ": construction window set to ", w, " is ", e.get_construction_window_size());
    }
    if constexpr (requires { e.set_max_candidates(1); }) {
        auto m = c.get_max_candidates();
        for (size_t w : {1, 3, 90000}) {
            e.set_max_candidates(w);
            MC_CHECK(e.get_max_candidates() == w && e.get_construction_window_size() == 1000000, "parameters", where, ": candidates set to ", w, " are ", e.get_max_candidates());
        }
        e.set_max_candidates(m);
    }
    e.set_alpha(alpha);
    e.set_construction_window_size(window);
    // The search window, and the set of visited nodes.
    auto start = c.get_search_parameters();
    for (auto& p : settings(&start)) {
        e.set_search_parameters(p);
        for (size_t w : {2, 9}) {
            auto& self = e.set_search_window_size(w);
            auto q = p;
            q.buffer_config_ = v::SearchBufferConfig(w);
            MC_CHECK(&self == &e && text(e.get_search_parameters()) == text(q) && e.get_search_window_size() == w, "parameters", where, ": ", text(p), " with window ", w, " became ", text(e.get_search_parameters()));
        }
        if constexpr (requires { e.enable_visited_set(); }) {
            e.set_search_parameters(p);
            auto q = p;
            for (bool on : {true, false, true, p.search_buffer_visited_set_}) {
                on ? e.enable_visited_set() : e.disable_visited_set();
                q.search_buffer_visited_set_ = on;
                MC_CHECK(e.visited_set_enabled() == on && text(e.get_search_parameters()) == text(q), "parameters", where, ": visited set ", on, " gave ", text(e.get_search_parameters()));
            }
        }
        mc::evaluation();
    }
    e.set_search_parameters(start);
    MC_CHECK(!e.experimental_backend_string().empty(), "name", where, ": no name");
}
template <typename Concrete, typename Erased> void reconstruct(Concrete& c, Erased& e, const std::vector<uint64_t>& ids, const string& where) {
    size_t d = c.dimensions();
    for (size_t rows : {ids.size(), ids.size() + 1}) {
        for (size_t cols : {d, d + 1}) {
            svs::data::SimpleData<float> a(rows, cols), b(rows, cols);
            for (size_t i = 0; i < rows; ++i) {
                std::vector<float> x(cols, -5);
                a.set_datum(i, x);
                b.set_datum(i, x);
            }
            auto view = [](auto& x) { return svs::data::SimpleDataView<float>(x.data(), x.size(), x.dimensions()); };
            bool ta = mc::throws([&] { c.reconstruct_at(view(a), std::span<const uint64_t>(ids)); });
            bool tb = mc::throws([&] { e.reconstruct_at(view(b), std::span<const uint64_t>(ids)); });
            MC_CHECK(ta == tb && std::memcmp(a.data(), b.data(), rows * cols * 4) == 0, "reconstruct", where, " of ", mc::list(ids), " into ", rows, "x", cols);
            MC_CHECK(tb || (rows == ids.size() && cols == d), "reconstruct", where, ": a destination of ", rows, "x", cols, " was accepted");
            mc::evaluation();
        }
    }
}
// Calibration with types that are not supported is refused.
template <typename Q, typename Erased> void no_calibration(Erased& e, size_t d, const string& where) {
    auto q = dataset<Q>(cloud(3, d, 4));
    auto gt = dataset<uint32_t>(Points{{0}, {0}, {1}});
    auto before = text(e.get_search_parameters());
    MC_CHECK(mc::throws([&] { e.experimental_calibrate(q, gt, 1, 0.5); }), "query-type", where, ": calibration with ", svs::name(svs::datatype_v<Q>), " was accepted");
    MC_CHECK(text(e.get_search_parameters()) == before, "parameters", where, ": a refused calibration changed the parameters");
    mc::evaluation();
}

static svs::DistanceType type_of(svs::DistanceL2) { return svs::L2; }
static svs::DistanceType type_of(svs::DistanceIP) { return svs::MIP; }
static svs::DistanceType type_of(svs::DistanceCosineSimilarity) { return svs::Cosine; }

template <typename T, typename L, typename Dist> void statics(size_t n, size_t d) {
    mc::run([&] { return mc::str("static ", svs::name(svs::datatype_v<T>), " ", list_name<L>(), " ", name(Dist()), " ", n, "x", d); }, [&] {
        auto pts = cloud(n, d, 1), queries = cloud(3, d, 50);
        v::VamanaBuildParameters bp{std::is_same_v<Dist, svs::DistanceL2> ? 1.2f : 0.95f, 4, 10, 10, 4, true};
        auto c = v::auto_build(bp, dataset<T>(pts), Dist(), 1);
        std::optional<svs::Vamana> e(svs::Vamana::build<L>(bp, dataset<T>(pts), Dist(), 1));
        svs::Vamana by_name = svs::Vamana::build<L>(bp, dataset<T>(pts), type_of(Dist()), 1);
        same<L>(c, *e, queries, "built");
        c.set_search_parameters(by_name.get_search_parameters());
        same<L>(c, by_name, queries, "built by name of the distance");
        c.set_search_parameters(e->get_search_parameters());
        graph_parameters(c, *e, "static");
        same<L>(c, *e, queries, "after changing parameters back");
        threads_and_moves<L>(c, e, queries, "static");
        reconstruct(c, *e, {}, "static");
        reconstruct(c, *e, {n - 1, 0, 0}, "static");
        reconstruct(c, *e, {0, n}, "static");
        reconstruct(c, *e, {uint64_t(1) << 40}, "static");
        no_calibration<double>(*e, d, "static");
        no_calibration<int32_t>(*e, d, "static");
        if (!lib::in<svs::Float16>(L{})) {
            no_calibration<svs::Float16>(*e, d, "static");
        }
        // Saving.
        Dir dir;
        e->set_search_window_size(5);
        c.set_search_parameters(e->get_search_parameters());
        e->save(dir / "config", dir / "graph", dir / "data");
        auto c2 = v::auto_assemble(dir / "config", svs::GraphLoader(dir / "graph"), svs::VectorDataLoader<T>(dir / "data"), Dist(), 1);
        auto e2 = svs::Vamana::assemble<L>(dir / "config", svs::GraphLoader(dir / "graph"), svs::VectorDataLoader<T>(dir / "data"), Dist(), 1);
        auto e3 = svs::Vamana::assemble<L>(dir / "config", svs::GraphLoader(dir / "graph"), svs::VectorDataLoader<T>(dir / "data"), type_of(Dist()));
        MC_CHECK(e2.get_search_window_size() == 5 && e3.get_search_window_size() == 5, "saving", "the search window became ", e2.get_search_window_size());
        same<L>(c2, e2, queries, "assembled");
        c2.set_search_parameters(c.get_search_parameters());
        same<L>(c2, e3, queries, "assembled by name of the distance");
        c.set_search_parameters(e3.get_search_parameters());
        same<L>(c, e3, queries, "assembled, next to the original");
        mc::trace();
    });
}

template <typename L, typename Dist> void dynamics(const Config& config, const History& h) {
    World<Dist> w(config), twin(config);
    std::optional<svs::DynamicVamana> e;
    e.emplace(svs::DynamicVamana::AssembleTag(), L{}, std::move(*twin.idx));
    const Points queries = {{0, 1}, {6, 3}, {2, 2}};
    auto& c = *w.idx;
    auto where = show(h);
    auto look = [&](size_t step) {
        auto ids = e->all_ids();
        MC_CHECK(ids == c.external_ids(), "members", where, " step ", step, ": ", mc::list(c.external_ids()), " but type-erased ", mc::list(ids));
        for (auto u : universe) {
            MC_CHECK(e->has_id(u) == c.has_id(u), "members", where, " step ", step, ": identifier ", u);
        }
        std::vector<uint64_t> v(ids.begin(), ids.end());
        reconstruct(c, *e, v, where);
        v.push_back(424242);
        reconstruct(c, *e, v, where);
    };
    look(0);
    size_t step = 0;
    for (auto& op : h) {
        ++step;
        // Enabled operations as they are, others must be refused by both.
        bool enabled = true;
        std::vector<size_t> ids;
        for (auto u : op.ids) {
            ids.push_back(universe[u]);
            enabled = enabled && (w.m.live.count(u) != 0) == (op.kind == Delete);
        }
        Points pts;
        for (auto u : op.ids) {
            pts.push_back(vec(u, w.m.versions[u]));
        }
        bool threw = false;
        try {
            svs::DynamicVamana* self = nullptr;
            switch (op.kind) {
                case Add: {
                    auto data = dataset(pts, 2);
                    self = &e->add_points(data.cview(), ids);
                    break;
                }
                case Delete: self = &e->delete_points(ids); break;
                case Consolidate: self = &e->consolidate(); break;
                case Compact: self = &e->compact(op.arg); break;
            }
            MC_CHECK(self == &*e, "chaining", where, ": another object was returned");
        } catch (const std::exception&) { threw = true; }
        MC_CHECK(threw == !enabled, "refused", where, " step ", step, threw ? " was refused" : " was accepted");
        if (enabled) {
            w.apply(op);
        }
        look(step);
    }
    if (c.size() > 0) {
        same<L>(c, *e, queries, where);
        mc::trace();
    }
}
template <typename L, typename Dist> void dynamic_histories(size_t depth) {
    std::vector<Op> alphabet = {{Add, {3}}, {Add, {4, 5}}, {Add, {0, 3}}, {Delete, {0}}, {Delete, {1, 2}}, {Delete, {3}}, {Consolidate}, {Compact, {}, 2}, {Compact, {}, 1000000}, {Add, {}}};
    std::vector<size_t> at(depth, 0);
    for (bool history : {true, false}) {
        Config config{3, 3, 3, 8, 8, std::is_same_v<Dist, svs::DistanceL2> ? 1.2f : 0.95f, history, 1, 4};
        while (true) {
            History h;
            for (auto a : at) {
                h.push_back(alphabet[a]);
            }
            mc::run([&] { return mc::str("dynamic ", list_name<L>(), " ", name(Dist()), history ? " history" : "", show(h)); }, [&] { dynamics<L, Dist>(config, h); });
            size_t i = 0;
            while (i < depth && ++at[i] == alphabet.size()) {
                at[i++] = 0;
            }
            if (i == depth) {
                break;
            }
        }
        if (!mc::thorough()) {
            break;
        }
    }
}
template <typename L, typename Dist> void dynamic_rest() {
    mc::run([&] { return mc::str("dynamic parameters ", list_name<L>(), " ", name(Dist())); }, [&] {
        Config config{5, 3, 3, 8, 8, std::is_same_v<Dist, svs::DistanceL2> ? 1.2f : 0.95f, true, 1, 4};
        World<Dist> w(config), twin(config);
        std::optional<svs::DynamicVamana> e;
        e.emplace(svs::DynamicVamana::AssembleTag(), L{}, std::move(*twin.idx));
        const Points queries = {{0, 1}, {6, 3}, {2, 2}};
        same<L>(*w.idx, *e, queries, "dynamic");
        graph_parameters(*w.idx, *e, "dynamic");
        same<L>(*w.idx, *e, queries, "dynamic, after changing parameters back");
        threads_and_moves<L>(*w.idx, e, queries, "dynamic");
        no_calibration<double>(*e, 2, "dynamic");
        no_calibration<uint32_t>(*e, 2, "dynamic");
        // A changed alpha takes effect: the same operations on the concrete index give the same graph.
        e->set_alpha(1.75f);
        w.idx->set_alpha(1.75f);
        e->set_construction_window_size(3);
        w.idx->set_construction_window_size(3);
        w.apply({Delete, {1}});
        w.apply({Consolidate});
        w.apply({Add, {5}});
        e->delete_points(std::vector<size_t>{universe[1]}).consolidate();
        e->add_points(dataset({vec(5, 0)}).cview(), std::vector<size_t>{universe[5]});
        same<L>(*w.idx, *e, queries, "dynamic, with another alpha");
        mc::trace();
    });
}
// Through files, and through the building entry point: the graph's blocks have a gigabyte each.
template <typename L, typename Dist> void dynamic_files() {
    mc::run([&] { return mc::str("dynamic files ", list_name<L>(), " ", name(Dist())); }, [&] {
        auto pts = cloud(6, 2, 3);
        std::vector<size_t> ids = {4, 9, 1, 70000000000ull, 0, 33};
        v::VamanaBuildParameters bp{std::is_same_v<Dist, svs::DistanceL2> ? 1.2f : 0.95f, 4, 10, 10, 4, true};
        const Points queries = {{0, 1}, {6, 3}, {2, 2}};
        using Small = svs::data::BlockedData<float>;
        auto small = [&] {
            svs::data::BlockingParameters b;
            b.blocksize_bytes = lib::PowerOfTwo(6);
            return fill(Small(pts.size(), 2, typename Small::allocator_type(b)), pts);
        };
        auto c = v::MutableVamanaIndex(bp, small(), ids, Dist(), 1);
        auto e = svs::DynamicVamana::build<L>(bp, small(), ids, Dist(), 1);
        same<L>(c, e, queries, "built");
        e.set_search_window_size(6);
        c.set_search_parameters(e.get_search_parameters());
        e.delete_points(std::vector<size_t>{9});
        c.delete_entries(std::vector<size_t>{9});
        Dir dir;
        e.save(dir / "config", dir / "graph", dir / "data");
        c.consolidate();
        c.compact();
        auto e2 = svs::DynamicVamana::assemble<L>(
            dir / "config", lib::Lazy([&] { return svs::graphs::SimpleBlockedGraph<uint32_t>::load(dir / "graph"); }),
            lib::Lazy([&] { return svs::data::BlockedData<float>::load(dir / "data"); }), Dist(), 1);
        MC_CHECK(e2.get_search_window_size() == 6, "saving", "the search window became ", e2.get_search_window_size());
        auto got = e2.all_ids(), want = c.external_ids();
        std::sort(got.begin(), got.end());
        std::sort(want.begin(), want.end());
        MC_CHECK(got == want, "saving", "identifiers ", mc::list(got), " instead of ", mc::list(want));
        same<L>(c, e2, queries, "assembled");
        mc::trace();
    });
}

// Exhaustive ----------------------------------------------------------------------------------------------
template <typename T, typename L, typename Dist> void flats(size_t n, size_t d) {
    mc::run([&] { return mc::str("flat ", svs::name(svs::datatype_v<T>), " ", list_name<L>(), " ", name(Dist()), " ", n, "x", d); }, [&] {
        auto pts = cloud(n, d, 7), queries = cloud(5, d, 90);
        svs::index::flat::FlatIndex c(dataset<T>(pts), Dist(), 1);
        std::optional<svs::Flat> e(svs::Flat::assemble<L>(dataset<T>(pts), Dist(), 1));
        auto by_name = svs::Flat::assemble<L>(dataset<T>(pts), type_of(Dist()), 1);
        same<L>(c, *e, queries, "flat");
        c.set_search_parameters({});
        same<L>(c, by_name, queries, "flat by name of the distance");
        threads_and_moves<L>(c, e, queries, "flat");
        Dir dir;
        lib::save_to_disk(dataset<T>(pts), dir / "data");
        auto loaded = svs::Flat::assemble<L>(svs::VectorDataLoader<T>(dir / "data"), Dist(), 1);
        c.set_search_parameters({});
        same<L>(c, loaded, queries, "flat from a file");
        mc::trace();
    });
}
// Clustered -----------------------------------------------------------------------------------------------
template <typename L, typename Dist, typename Strategy> void inverteds(size_t n, const char* kind) {
    mc::run([&] { return mc::str("inverted ", list_name<L>(), " ", name(Dist()), " ", n, " ", kind); }, [&] {
        auto pts = cloud(n, 3, 5), queries = cloud(4, 3, 60);
        inv::InvertedBuildParameters bp;
        bp.clustering_parameters_.percent_centroids(lib::Percent(0.3)).batchsize(5);
        bp.primary_parameters_ = {1.0f, 8, 20, 20, 8, true};
        Dir dir;
        auto keep = [&](const inv::Clustering<uint32_t>& c) { lib::save_to_disk(c, dir / "clustering"); };
        auto c = inv::auto_build(bp, dataset(pts), Dist(), 1, Strategy(), inv::pick_centroids_randomly, keep);
        std::optional<svs::Inverted> e(svs::Inverted::build<L>(bp, dataset(pts), Dist(), 1, Strategy()));
        same<L>(c, *e, queries, "inverted");
        threads_and_moves<L>(c, e, queries, "inverted");
        MC_CHECK(!e->experimental_backend_string().empty(), "name", "no name");
        auto saved = e->get_search_parameters();
        // The order of the whole library (and of the only caller): configuration, graph, data.
        e->save_primary_index(dir / "config", dir / "graph", dir / "data");
        c.save_primary_index(dir / "config2", dir / "graph2", dir / "data2");
        for (string suffix : {"", "2"}) {
            auto path = [&](const char* s) { return dir / (s + suffix).c_str(); };
            if (!fs::exists(path("config"))) {
                mc::fail("saving", "no configuration was saved");
            }
            auto x = v::auto_assemble(path("config"), svs::GraphLoader(path("graph")), svs::VectorDataLoader<float>(path("data")), Dist(), 1);
            MC_CHECK(text(x.get_search_parameters()) == text(saved.primary_parameters_), "saving", "the primary index has ", text(x.get_search_parameters()), " instead of ", text(saved.primary_parameters_));
            MC_CHECK(fs::is_directory(path("data")) && fs::is_directory(path("graph")), "saving", "a part was not saved in its place");
        }
        auto e2 = svs::Inverted::assemble_from_clustering<L>(dir / "clustering", dataset(pts), Dist(), dir / "config", dir / "graph", 1, Strategy());
        MC_CHECK(text(e2.get_search_parameters().primary_parameters_) == text(saved.primary_parameters_), "saving", "the reassembled index has ", text(e2.get_search_parameters()));
        e2.set_search_parameters(c.get_search_parameters());
        same<L>(c, e2, queries, "inverted, reassembled");
        mc::trace();
    });
}

// Pointers that carry their type ----------------------------------------------------------------------------
template <typename T> void pointer() {
    mc::run([&] { return mc::str("pointer to ", svs::name(svs::datatype_v<T>)); }, [&] {
        std::vector<T> x(6);
        svs::ConstErasedPointer p(x.data());
        svs::AnonymousArray<2> a(x.data(), size_t(2), size_t(3));
        svs::AnonymousArray<1> one(svs::AssertCorrectType(), x.data(), svs::datatype_v<T>, size_t(6));
        MC_CHECK(a.type() == svs::datatype_v<T> && p.type() == a.type() && one.type() == a.type(), "pointer", "type ", svs::name(a.type()));
        MC_CHECK(a.size(0) == 2 && a.size(1) == 3 && one.size() == 6 && a.dims()[1] == 3, "pointer", "dimensions");
        MC_CHECK(svs::element_size(svs::datatype_v<T>) == sizeof(T), "pointer", "element size ", svs::element_size(svs::datatype_v<T>));
        lib::for_each_type(lib::Types<float, svs::Float16, double, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, std::byte>(), [&]<typename U>(lib::Type<U>) {
            auto through = [&](auto&& f, const char* what) {
                const U* got = nullptr;
                bool threw = false;
                try {
                    got = f();
                } catch (const std::exception&) { threw = true; }
                bool fits = std::is_same_v<T, U>;
                MC_CHECK(threw == !fits && (!fits || static_cast<const void*>(got) == x.data()), "pointer", what, " of ", svs::name(svs::datatype_v<T>), " as ", svs::name(svs::datatype_v<U>), threw ? " was refused" : " was accepted");
            };
            through([&] { return svs::get<U>(p); }, "get of a pointer");
            through([&] { return svs::get<U>(a); }, "get of an array");
            through([&] { return svs::get<U>(one); }, "get of a one-dimensional array");
            mc::evaluation(3);
        });
        mc::state(mc::str("pointer", int(svs::datatype_v<T>)));
        mc::transition();
        mc::trace();
    });
}

template <typename L, typename Dist> void part_static(const std::vector<size_t>& sizes) {
    for (size_t n : sizes) {
        statics<float, L, Dist>(n, 3);
        if constexpr (std::is_same_v<L, All>) {
            statics<svs::Float16, L, Dist>(n, 2);
            statics<int8_t, L, Dist>(n, 4);
            statics<uint8_t, L, Dist>(n, 1);
        }
    }
}

static void body() {
    struct Scratch {
        string path = mc::ex().scratch + "/erased." + std::to_string(getpid());
        Scratch() { fs::create_directories(path); }
        ~Scratch() { fs::remove_all(path); }
    } s;
    scratch = s.path;
    auto logger = svs::logging::get();
    svs::logging::set_level(logger, svs::logging::Level::Off);
    bool deep = mc::thorough();
    using svs::DistanceCosineSimilarity;
    using svs::DistanceIP;
    using svs::DistanceL2;
#if PART == 0
    std::vector<size_t> sizes = {1, 2, 7};
    if (deep) {
        sizes = {1, 2, 3, 4, 5, 7, 12, 30};
    }
    part_static<All, DistanceL2>(sizes);
    part_static<All, DistanceIP>(sizes);
    part_static<All, DistanceCosineSimilarity>(sizes);
    part_static<Few, DistanceL2>(sizes);
    part_static<Bytes, DistanceIP>(sizes);
#elif PART == 1
    dynamic_histories<All, DistanceL2>(deep ? 4 : 3);
    dynamic_histories<Bytes, DistanceIP>(deep ? 3 : 2);
    dynamic_rest<All, DistanceL2>();
    dynamic_rest<Few, DistanceIP>();
    dynamic_files<All, DistanceL2>();
    dynamic_files<Few, DistanceIP>();
#else
    std::vector<size_t> sizes = {1, 2, 7};
    if (deep) {
        sizes = {1, 2, 3, 4, 5, 7, 12, 30, 100};
    }
    for (auto n : sizes) {
        flats<float, All, DistanceL2>(n, 3);
        flats<float, All, DistanceCosineSimilarity>(n, 2);
        flats<svs::Float16, All, DistanceIP>(n, 4);
        flats<uint8_t, Bytes, DistanceL2>(n, 5);
        flats<int8_t, Few, DistanceIP>(n, 1);
    }
    for (size_t n : {12, 20}) {
        inverteds<All, DistanceL2, inv::SparseStrategy>(n, "sparse");
        inverteds<Few, DistanceIP, inv::DenseStrategy>(n, "dense");
    }
    lib::for_each_type(lib::Types<float, svs::Float16, double, int8_t, uint8_t, int16_t, uint16_t, int32_t, uint32_t, int64_t, uint64_t, std::byte>(), []<typename T>(lib::Type<T>) { pointer<T>(); });
#endif
}
MC_MAIN("C33", body)
