// C23: a saved index assembles into an equivalent one. Dynamic: after every operation history up to
// the depth the index is saved, reloaded and both are compared completely and driven through every
// following operation side by side. Static and inverted: every combination of data, parameters,
// metric and element type of the grid.
#include "dynworld.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

namespace fs = std::filesystem;
namespace lib = svs::lib;
namespace inverted = svs::index::inverted;
using std::string;
using svs::Float16;

static string scratch;
struct Dir {
    string path;
    Dir() {
        static size_t n = 0;
        path = scratch + "/d" + std::to_string(n++);
        fs::create_directories(path);
    }
    Dir(const Dir&) = delete;
    ~Dir() {
        std::error_code e;
        fs::remove_all(path, e);
    }
    string operator/(const char* s) const { return path + "/" + s; }
};
static string describe(const v::VamanaSearchParameters& p) {
    return mc::str("window ", p.buffer_config_.get_search_window_size(), " capacity ", p.buffer_config_.get_total_capacity(), " visited ", p.search_buffer_visited_set_, " lookahead ", p.prefetch_lookahead_,
        " step ", p.prefetch_step_);
}
template <typename T> string bytes(std::span<const T> x) { return mc::list(x); }

// Dynamic ------------------------------------------------------------------------------------------
// Settings an index can have when it is saved.
struct Settings {
    v::VamanaSearchParameters search;
    float alpha;
    size_t window, candidates;
    bool history;
};
static Settings settings(size_t k) {
    if (k == 0) {
        return {{v::SearchBufferConfig{10, 10}, false, 4, 1}, 1.2f, 16, 30, true};
    }
    return {{v::SearchBufferConfig{7, 11}, true, 0, 3}, 1.0f, 9, 23, false};
}
template <typename Dist> using Metric = Dist;
static float alpha_for(svs::distance::DistanceL2, float a) { return a; }
template <typename D> float alpha_for(D, float a) { return 2.0f - a > 1.0f ? 1.0f : 2.0f - a; }

template <typename Dist> struct Pair {
    using W = World<Dist>;
    using Index = typename W::Index;
    W a;          // the index that is saved
    W b;          // the one assembled from it
    Dir dir;

    void load() {
        auto graph = [&] {
            auto g = lib::load_from_disk<svs::graphs::SimpleGraph<uint32_t>>(dir / "graph");
            SmallGraph s(g.max_degree(), g.n_nodes());
            for (size_t i = 0; i < g.n_nodes(); ++i) {
                s.replace_node(i, g.get_node(i));
            }
            return s;
        };
        auto data = [&] {
            svs::data::BlockingParameters bp;
            bp.blocksize_bytes = lib::prevpow2(b.c.block * 8);
            return lib::load_from_disk<typename W::Data>(dir / "data", typename W::Alloc(bp));
        };
        b.idx = std::make_unique<Index>(v::auto_dynamic_assemble(dir / "config", lib::Lazy(graph), lib::Lazy(data), Dist(), b.c.threads));
    }
    void save(W& w) { w.idx->save(dir / "config", dir / "graph", dir / "data"); }
};

template <typename W> string parameters(const W& w) {
    auto& x = *w.idx;
    return mc::str(describe(x.get_search_parameters()), " alpha ", x.get_alpha(), " construction ", x.get_construction_window_size(), " candidates ", x.get_max_candidates(), " history ", x.get_full_search_history(),
        " degree ", x.max_degree(), " dimensions ", x.dimensions(), " size ", x.size(), " entry ", x.size() ? long(x.entry_point()) : -1L, " name ", x.name());
}
// Answers that the pending deletions cannot influence.
template <typename W> string exhaustive(W& w) {
    string s;
    for (auto& q : W::queries()) {
        auto result = svs::QueryResult<size_t>(1, 6);
        poison(result, 7);
        auto qs = dataset({q});
        auto rv = result.view();
        w.idx->exhaustive_search(qs.cview(), 6, rv);
        s += kit::show(row(result, 0));
    }
    return s;
}

template <typename Dist> void configure(World<Dist>& w, size_t k) {
    auto s = settings(k);
    w.idx->set_search_parameters(s.search);
    w.idx->set_alpha(alpha_for(Dist(), s.alpha));
    w.idx->set_construction_window_size(std::max(s.window, w.c.window));
    w.idx->set_max_candidates(std::max(s.candidates, w.c.candidates));
    w.idx->set_full_search_history(s.history);
}

template <typename Dist> void reload_state(const Config& c, const History& h, size_t k) {
    auto where = [&] { return mc::str(describe<Dist>(c, h), " settings ", k); };
    auto make = [&](bool first) {
        auto w = replay<Dist>(c, h);
        configure<Dist>(w, k);
        auto p = std::unique_ptr<Pair<Dist>>(new Pair<Dist>{std::move(w), World<Dist>(c), {}});
        auto before = first ? p->a.observe(false) : "";
        auto exact = first ? exhaustive(p->a) : "";
        auto params = parameters(p->a);
        size_t pending = p->a.nsoft();
        auto entry = params.find(" entry");
        p->save(p->a);
        // Saving does the pending maintenance; it leaves compact storage and changes no answer.
        p->a.m.pruned = p->a.m.pruned || pending > 0;
        p->a.m.slots.assign(p->a.nlive(), v::SlotMetadata::Valid);
        MC_CHECK(parameters(p->a).substr(0, entry) == params.substr(0, entry), "save-changes", where(), ": settings before saving ", params, " and after ", parameters(p->a));
        if (first) {
            MC_CHECK(exhaustive(p->a) == exact, "save-changes", where(), ": exhaustive search gave ", exact, " before saving and ", exhaustive(p->a), " after");
            if (pending == 0) {
                MC_CHECK(p->a.observe(false) == before, "save-changes", where(), ": answers before saving ", before, " and after ", p->a.observe(false));
            }
            p->a.check([&] { return where() + ", saved"; });
        }
        p->b.m = p->a.m;
        p->load();
        mc::transition(2);
        return p;
    };
    auto p = make(true);
    auto& [a, b, dir] = *p;
    MC_CHECK(parameters(a) == parameters(b), "parameters", where(), ": saved ", parameters(a), " but reloaded ", parameters(b));
    b.check([&] { return where() + ", reloaded"; });
    auto x = a.observe(true), y = b.observe(true);
    MC_CHECK(x == y, "answers", where(), ": saved ", x, " but reloaded ", y);
    MC_CHECK(exhaustive(a) == exhaustive(b), "answers", where(), ": exhaustive search differs after reloading");
    mc::outcome(mc::hash(x));
    // A reloaded index can be saved as well, also over the first.
    p->save(b);
    p->load();
    MC_CHECK(b.observe(true) == y && parameters(a) == parameters(b), "second-generation", where(), ": the index differs after a second save and reload");
    mc::trace();
    auto next = a.enabled();
    for (auto& op : next) {
        auto q = make(false);
        q->a.apply(op);
        q->b.apply(op);
        auto w = [&] { return mc::str(where(), ", reloaded, then ", op.str()); };
        auto x = q->a.observe(true), y = q->b.observe(true);
        MC_CHECK(x == y, "later-updates", w(), ": the original gives ", x, " but the reloaded index ", y);
        q->b.check(w);
        // and its state can be saved again
        if (op.kind != Compact) {
            q->save(q->b);
            q->save(q->a);
            q->b.m.slots.assign(q->b.nlive(), v::SlotMetadata::Valid);
            q->b.m.pruned = true;
            q->load();
            MC_CHECK(q->a.observe(true) == q->b.observe(true), "later-save", w(), ": saving again gives another index");
        }
        mc::trace();
    }
    mc::evaluation();
}

template <typename Dist> void visit_states(const Config& c, History& h, size_t depth, std::map<uint64_t, size_t>& seen, const std::function<void(const History&)>& visit) {
    World<Dist> w = replay<Dist>(c, h);
    auto key = w.hash();
    auto [it, fresh] = seen.try_emplace(key, depth);
    if (!fresh) {
        if (it->second >= depth) {
            return;
        }
        it->second = depth;
    } else {
        mc::state(mc::mix(key, mc::hash(c.str())));
        visit(h);
    }
    if (depth > 0) {
        for (auto& op : w.enabled()) {
            h.push_back(op);
            visit_states<Dist>(c, h, depth - 1, seen, visit);
            h.pop_back();
        }
    }
}
template <typename Dist> void dynamics(const Config& c, size_t depth) {
    for (size_t k = 0; k < 2; ++k) {
        auto visit = [&](const History& h) { reload_state<Dist>(c, h, k); };
        World<Dist> w(c);
        mc::run([&] { return mc::str(describe<Dist>(c, {}), " start ", k); }, [&] { visit({}); });
        for (auto& a : w.enabled()) {
            World<Dist> x = replay<Dist>(c, {a});
            for (auto& b : x.enabled()) {
                mc::run([&] { return describe<Dist>(c, {a, b}) + mc::str(" +", depth - 2, " settings ", k); }, [&] {
                    std::map<uint64_t, size_t> seen;
                    if (b.kind == Consolidate) {
                        visit({a});
                    }
                    History h{a, b};
                    visit_states<Dist>(c, h, depth - 2, seen, visit);
                });
            }
        }
    }
}

// Static -------------------------------------------------------------------------------------------
static Points cloud(size_t n, size_t d, int seed) {
    Points p;
    for (size_t i = 0; i < n; ++i) {
        Point x;
        for (size_t j = 0; j < d; ++j) {
            x.push_back(float((i * 13 + j * 7 + i * j * 5 + seed * 3) % 17) + 1);
        }
        p.push_back(x);
    }
    return p;
}
static std::vector<v::VamanaSearchParameters> search_settings() {
    std::vector<v::VamanaSearchParameters> r;
    for (size_t w : {1, 2, 5, 20}) {
        for (size_t extra : {0, 3}) {
            for (bool visited : {false, true}) {
                r.push_back({v::SearchBufferConfig{w, w + extra}, visited, w, extra});
            }
        }
    }
    return r;
}
template <typename Index, typename Q> string answers(Index& index, const Q& queries) {
    string s;
    for (size_t k : {1, 3, 7}) {
        auto result = svs::QueryResult<size_t>(queries.size(), k);
        poison(result, 99);
        index.search(result.view(), queries.cview(), index.get_search_parameters());
        for (size_t i = 0; i < queries.size(); ++i) {
            s += kit::show(row(result, i)) + ";";
        }
    }
    return s;
}
template <typename X> string static_parameters(const X& x) {
    return mc::str(describe(x.get_search_parameters()), " alpha ", x.get_alpha(), " construction ", x.get_construction_window_size(), " candidates ", x.get_max_candidates(), " history ", x.get_full_search_history(), " degree ",
        x.max_degree(), " dimensions ", x.dimensions(), " size ", x.size(), " name ", x.name());
}
template <typename T, size_t D, typename Dist> void static_case(size_t n, size_t d, const v::VamanaBuildParameters& bp, int seed) {
    mc::run([&] { return mc::str("static ", svs::name(svs::datatype_v<T>), " ", name(Dist()), " ", n, "x", d, " extent ", D == svs::Dynamic ? 0 : D, " alpha ", bp.alpha, " degree ", bp.graph_max_degree, "/", bp.prune_to, " window ", bp.window_size, " #", seed); }, [&] {
        auto pts = cloud(n, d, seed);
        auto queries = dataset(cloud(3, d, seed + 5));
        auto index = v::auto_build(bp, dataset<T, D>(pts), Dist(), 1);
        for (auto& sp : search_settings()) {
            index.set_search_parameters(sp);
            auto params = static_parameters(index), want = answers(index, queries);
            Dir dir;
            index.save(dir / "config", dir / "graph", dir / "data");
            mc::transition();
            auto same = [&](auto& x, const string& how) {
                MC_CHECK(static_parameters(x) == params, "parameters", how, ": saved ", params, " but reloaded ", static_parameters(x));
                auto got = answers(x, queries);
                MC_CHECK(got == want, "answers", how, " ", params, ": saved ", want, " but reloaded ", got);
                mc::outcome(mc::hash(got));
                mc::evaluation();
                mc::trace();
            };
            same(index, "the saved index itself");
            // Assembled from every kind of loader.
            {
                auto x = v::auto_assemble(dir / "config", svs::GraphLoader<uint32_t>(dir / "graph"), svs::VectorDataLoader<T, D>(dir / "data"), Dist(), 1);
                same(x, "by loaders");
                // The next generation, over the first.
                x.save(dir / "config", dir / "graph", dir / "data");
            }
            {
                auto x = v::auto_assemble(dir / "config", svs::graphs::SimpleGraph<uint32_t>::load(dir / "graph"), svs::data::SimpleData<T, D>::load(dir / "data"), Dist(), size_t(2));
                same(x, "from objects, two threads");
                x.set_num_threads(1);
                auto y = std::move(x);
                same(y, "moved");
            }
            {
                auto x = v::auto_assemble(dir / "config", lib::Lazy([&] { return svs::graphs::SimpleGraph<uint32_t, lib::Allocator<uint32_t>>::load(dir / "graph"); }),
                    lib::Lazy([&] { return lib::load_from_disk<svs::data::SimpleData<T>>(dir / "data"); }), Dist(), 1);
                same(x, "lazily, without static dimensions");
            }
            // As a dynamic index with the identity as identifiers.
            {
                auto data = [&] {
                    svs::data::BlockingParameters p;
                    p.blocksize_bytes = lib::prevpow2(std::max<size_t>(64, 4 * d * sizeof(T)));
                    using B = svs::data::BlockedData<T>;
                    return B::load(dir / "data", typename B::allocator_type(p));
                };
                auto graph = [&] {
                    auto g = svs::graphs::SimpleGraph<uint32_t>::load(dir / "graph");
                    SmallGraph s(g.max_degree(), g.n_nodes());
                    for (size_t i = 0; i < g.n_nodes(); ++i) {
                        s.replace_node(i, g.get_node(i));
                    }
                    return s;
                };
                auto x = v::auto_dynamic_assemble(dir / "config", lib::Lazy(graph), lib::Lazy(data), Dist(), 1, true);
                MC_CHECK(describe(x.get_search_parameters()) == describe(index.get_search_parameters()) && x.size() == n && x.get_alpha() == index.get_alpha() && x.max_degree() == index.max_degree(), "as-dynamic", "parameters differ when read as a dynamic index");
                for (size_t i = 0; i < n; ++i) {
                    auto got = x.get_datum(i);
                    auto row = dataset<T>(pts);
                    auto have = row.get_datum(i);
                    MC_CHECK(x.has_id(i) && std::equal(got.begin(), got.end(), have.begin(), have.end()), "as-dynamic", "vector ", i, " differs when read as a dynamic index");
                }
                mc::trace();
            }
            mc::state(mc::hash(params + want));
        }
    });
}
template <typename T, size_t D, typename Dist> void statics(size_t d) {
    bool l2 = std::is_same_v<Dist, svs::distance::DistanceL2>;
    for (size_t n : {1, 2, 3, 6, 12}) {
        for (int seed : {0, 1}) {
            static_case<T, D, Dist>(n, d, {l2 ? 1.2f : 0.95f, 4, 8, 10, 4, true}, seed);
            static_case<T, D, Dist>(n, d, {1.0f, 3, 5, 7, 2, false}, seed);
        }
    }
}

// Inverted -----------------------------------------------------------------------------------------
template <typename Strategy, typename Dist> void inverted_case(size_t n, double percent, double epsilon, size_t replicas, size_t max_size, const char* kind) {
    mc::run([&] { return mc::str("inverted ", kind, " ", name(Dist()), " ", n, " centroids ", percent, " epsilon ", epsilon, " replicas ", replicas, " limit ", max_size); }, [&] {
        auto pts = cloud(n, 3, 2);
        auto data = dataset(pts);
        auto queries = dataset(cloud(4, 3, 11));
        inverted::InvertedBuildParameters bp;
        bp.clustering_parameters_.percent_centroids(lib::Percent(percent)).epsilon(epsilon).max_replicas(replicas).max_cluster_size(max_size).batchsize(5);
        bp.primary_parameters_ = {1.0f, 8, 20, 20, 8, true};
        Dir dir;
        std::optional<inverted::Clustering<uint32_t>> kept;
        auto build = [&] {
            return inverted::auto_build(bp, data, Dist(), 1, Strategy(), inverted::pick_centroids_randomly, [&](const inverted::Clustering<uint32_t>& c) {
                lib::save_to_disk(c, dir / "clustering");
                kept = c;
            });
        };
        std::optional<decltype(build())> built;
        try {
            built.emplace(build());
        } catch (const svs::ANNException&) {
            MC_CHECK(max_size > 0 && n > max_size, "refused", "an unlimited clustering was refused");
            mc::count("limit_impossible");
            return; // the limit can be impossible to meet
        }
        auto& index = *built;
        auto reloaded = lib::load_from_disk<inverted::Clustering<uint32_t>>(dir / "clustering");
        MC_CHECK(reloaded == *kept, "clustering", "the reloaded clustering differs");
        index.save_primary_index(dir / "config", dir / "graph", dir / "data");
        auto params = index.get_search_parameters();
        auto again = [&](auto strategy, size_t threads) {
            return inverted::assemble_from_clustering(dir / "clustering", dataset(pts), Dist(), strategy, dir / "config", dir / "graph", threads);
        };
        auto same = [&](auto& x, const string& how) {
            MC_CHECK(x.size() == index.size() && x.dimensions() == index.dimensions(), "shape", how, ": size ", x.size(), " instead of ", index.size());
            MC_CHECK(describe(x.get_search_parameters().primary_parameters_) == describe(params.primary_parameters_), "parameters", how, ": ", describe(x.get_search_parameters().primary_parameters_));
            for (double eps : {0.0, 0.3, 10.0}) {
                for (size_t w : {1, 2, 30}) {
                    inverted::InvertedSearchParameters sp{{v::SearchBufferConfig{w, w}, false, 2, 1}, eps};
                    index.set_search_parameters(sp);
                    x.set_search_parameters(sp);
                    auto want = answers(index, queries), got = answers(x, queries);
                    MC_CHECK(want == got, "answers", how, " window ", w, " epsilon ", eps, ": built ", want, " but reassembled ", got);
                    mc::outcome(mc::hash(got));
                    mc::evaluation();
                }
            }
            index.set_search_parameters(params);
            mc::trace();
        };
        auto a = again(inverted::SparseStrategy(), 1);
        same(a, "sparse");
        auto b = again(inverted::DenseStrategy(), 2);
        same(b, "dense");
        b.save_primary_index(dir / "config", dir / "graph", dir / "data");
        auto c = again(Strategy(), 1);
        auto x = c.get_search_parameters();
        c.set_search_parameters({params.primary_parameters_, x.refinement_epsilon_});
        same(c, "second generation");
        mc::transition(4);
        mc::state(mc::str("inverted", n, percent, epsilon, replicas, max_size));
    });
}

static void body() {
    mc::ScratchDir s;
    scratch = s.path;
    auto logger = svs::logging::get();
    svs::logging::set_level(svs::logging::Level::Off);
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
    using Cos = svs::distance::DistanceCosineSimilarity;
    bool deep = mc::thorough();
#if PART == 0
    size_t d = deep ? 4 : 3;
    dynamics<L2>({2, 8, 8, 16, 30, 1.2f, true, 1, 2}, d);
    dynamics<L2>({4, 2, 2, 4, 30, 1.2f, false, 1, 1}, 2 + deep);
    dynamics<IP>({3, 8, 7, 16, 30, 0.95f, true, 1, 4}, 2 + deep);
    dynamics<Cos>({3, 3, 2, 16, 30, 1.0f, true, 1, 4}, 2 + deep);
#else
    statics<float, svs::Dynamic, L2>(3);
    statics<float, svs::Dynamic, IP>(5);
    statics<float, 4, Cos>(4);
    statics<Float16, svs::Dynamic, L2>(7);
    statics<uint8_t, 3, L2>(3);
    statics<int8_t, svs::Dynamic, IP>(2);
    for (size_t n : {2, 5, 9, 16}) {
        for (double percent : {0.2, 0.5, 0.8}) {
            if (n * percent < 1) {
                continue; // no centroids
            }
            for (double epsilon : {0.0, 0.5}) {
                for (size_t replicas : {1, 3}) {
                    for (size_t limit : {0, 6}) {
                        inverted_case<inverted::SparseStrategy, L2>(n, percent, epsilon, replicas, limit, "sparse");
                        inverted_case<inverted::DenseStrategy, L2>(n, percent, epsilon, replicas, limit, "dense");
                        inverted_case<inverted::SparseStrategy, IP>(n, percent, epsilon, replicas, limit, "sparse");
                    }
                }
            }
        }
    }
#endif
}
MC_MAIN("C23", body)
