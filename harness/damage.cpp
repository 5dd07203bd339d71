// C24: damaged or incomplete saved state. Every saved object of a small family is damaged in every
// enumerated way: cut at every byte, removed, emptied, replaced; every entry of its description
// removed, retyped or altered; loaded as every other kind; interrupted at every write of a second
// save. Loading must report an error or return exactly what was saved.
#include "mc.h"
#include "kit.h"
#include "newlimit.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/inverted/memory_based.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/inverted/memory_search_params.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>
#include <unistd.h>

namespace fs = std::filesystem;
namespace lib = svs::lib;
namespace vamana = svs::index::vamana;
namespace inverted = svs::index::inverted;
using std::string;
using svs::Float16;

static string scratch;

// Recording what a save writes ------------------------------------------------------------------
struct Step {
    enum Kind { Create, Append, Remove, Rename } kind;
    string file;
    string bytes; // Append: what is written, Rename: the new name
    size_t at = 0;
};
static std::vector<Step>* tape = nullptr;
static std::map<int, string> tape_fds;
static bool taped(const char* path) { return tape && string(path).rfind(scratch, 0) == 0; }
static void tape_open(const char* path, int fd, bool truncate) {
    if (fd >= 0 && taped(path)) {
        tape_fds[fd] = path;
        if (truncate) {
            tape->push_back({Step::Create, path, {}});
        }
    }
}
template <typename F> F real(const char* name) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, name)); }
extern "C" {
FILE* fopen(const char* path, const char* mode) {
    static auto f = real<FILE* (*)(const char*, const char*)>("fopen");
    FILE* r = f(path, mode);
    if (r) {
        tape_open(path, fileno(r), strchr(mode, 'w') != nullptr);
    }
    return r;
}
FILE* fopen64(const char* path, const char* mode) {
    static auto f = real<FILE* (*)(const char*, const char*)>("fopen64");
    FILE* r = f(path, mode);
    if (r) {
        tape_open(path, fileno(r), strchr(mode, 'w') != nullptr);
    }
    return r;
}
static void tape_write(int fd, const char* p, ssize_t n) {
    if (tape && n > 0) {
        auto it = tape_fds.find(fd);
        if (it != tape_fds.end()) {
            // The place matters: the header of a native file is written a second time at the end.
            tape->push_back({Step::Append, it->second, string(p, size_t(n)), size_t(lseek(fd, 0, SEEK_CUR) - n)});
        }
    }
}
ssize_t write(int fd, const void* p, size_t n) {
    static auto f = real<ssize_t (*)(int, const void*, size_t)>("write");
    ssize_t r = f(fd, p, n);
    tape_write(fd, static_cast<const char*>(p), r);
    return r;
}
ssize_t writev(int fd, const struct iovec* v, int c) {
    static auto f = real<ssize_t (*)(int, const struct iovec*, int)>("writev");
    ssize_t r = f(fd, v, c);
    if (tape && r > 0) {
        string all;
        for (int i = 0; i < c; ++i) {
            all.append(static_cast<const char*>(v[i].iov_base), v[i].iov_len);
        }
        tape_write(fd, all.data(), r);
    }
    return r;
}
int rename(const char* a, const char* b) noexcept {
    static auto f = real<int (*)(const char*, const char*)>("rename");
    int r = f(a, b);
    if (r == 0 && taped(a)) {
        tape->push_back({Step::Rename, a, b});
    }
    return r;
}
int unlink(const char* a) noexcept {
    static auto f = real<int (*)(const char*)>("unlink");
    int r = f(a);
    if (r == 0 && taped(a)) {
        tape->push_back({Step::Remove, a, {}});
    }
    return r;
}
}

// Files -----------------------------------------------------------------------------------------
using Files = std::map<string, string>; // relative name -> content
static void spit(const string& path, const string& bytes) {
    std::ofstream o(path, std::ios::binary | std::ios::trunc);
    o.write(bytes.data(), bytes.size());
}
static string slurp(const string& path) {
    std::ifstream i(path, std::ios::binary);
    return string(std::istreambuf_iterator<char>(i), {});
}
static Files snapshot(const string& dir) {
    Files r;
    for (auto& e : fs::recursive_directory_iterator(dir)) {
        if (e.is_regular_file()) {
            r[fs::relative(e.path(), dir)] = slurp(e.path());
        }
    }
    return r;
}
static void restore(const string& dir, const Files& files) {
    fs::remove_all(dir);
    fs::create_directories(dir);
    for (auto& [name, content] : files) {
        fs::create_directories((fs::path(dir) / name).parent_path());
        spit(dir + "/" + name, content);
    }
}

// Objects -----------------------------------------------------------------------------------------
// `load` describes the loaded object completely, as text.
struct Object {
    string name;
    string kind; // objects of the same kind may be read by the same loader
    std::function<void(const string& dir)> save;
    std::vector<std::pair<string, std::function<string(const string& dir)>>> loads;
    string content;
};

template <typename D> string describe_data(const D& d, const char* type) {
    string s = mc::str("data ", type, " ", d.size(), "x", d.dimensions(), ":");
    for (size_t i = 0; i < d.size(); ++i) {
        auto r = d.get_datum(i);
        s.append(reinterpret_cast<const char*>(r.data()), r.size_bytes());
    }
    return s;
}
template <typename G> string describe_graph(const G& g, const char* type) {
    string s = mc::str("graph ", type, " ", g.n_nodes(), "/", g.max_degree(), ":");
    for (size_t i = 0; i < g.n_nodes(); ++i) {
        s += mc::list(g.get_node(i));
    }
    return s;
}
static string describe(const svs::IDTranslator& t) {
    std::map<size_t, size_t> m;
    for (auto it = t.begin(); it != t.end(); ++it) {
        m[it->first] = it->second;
    }
    string s = mc::str("map ", t.size(), ":");
    for (auto [e, i] : m) {
        s += mc::str(" ", e, "=", i, "=", t.has_internal(i) ? t.get_external(i) : size_t(-1));
    }
    return s;
}
static string describe(const vamana::VamanaBuildParameters& p) {
    return mc::str("build ", p.alpha, " ", p.graph_max_degree, " ", p.window_size, " ", p.max_candidate_pool_size, " ", p.prune_to, " ", p.use_full_search_history);
}
static string describe(const vamana::VamanaSearchParameters& p) {
    return mc::str("search ", p.buffer_config_.get_search_window_size(), " ", p.buffer_config_.get_total_capacity(), " ", p.search_buffer_visited_set_, " ", p.prefetch_lookahead_, " ", p.prefetch_step_);
}
static string describe(const vamana::VamanaIndexParameters& p) {
    return mc::str("index ", p.entry_point, " ", describe(p.build_parameters), " ", describe(p.search_parameters));
}
static string describe(const inverted::ClusteringParameters& p) {
    return mc::str("clustering ", p.percent_centroids_.value(), " ", p.epsilon_, " ", p.max_replicas_, " ", p.max_cluster_size_, " ", p.seed_, " ", p.batchsize_, " ", p.search_window_size_, " ", p.num_intermediate_results_, " ", p.refinement_alpha_);
}
template <typename I> string describe(const inverted::Clustering<I>& c, const char* type) {
    std::map<I, string> m;
    for (auto& [id, cluster] : c) {
        string s;
        for (auto& e : cluster) {
            s += mc::str(" ", e.id(), "@", e.distance());
        }
        m[id] = mc::str(cluster.centroid(), ":", s);
    }
    string s = mc::str("clustering ", type, " ", c.size());
    for (auto& [id, t] : m) {
        s += mc::str(" {", id, ":", t, "}");
    }
    return s;
}

template <typename T> std::vector<T> numbers(size_t n, int seed) {
    std::vector<T> v(n);
    for (size_t i = 0; i < n; ++i) {
        v[i] = T(int((i * 7 + seed * 11) % 100) + 1);
    }
    return v;
}
template <typename T> const char* type_name() {
    static string s(svs::name(svs::datatype_v<T>));
    return s.c_str();
}

template <typename T, typename D> void add_data_loader(Object& o, const char* how) {
    o.loads.push_back({how, [](const string& d) { return describe_data(lib::load_from_disk<D>(d), type_name<T>()); }});
}
template <typename T, size_t E> Object data_object(size_t n, size_t d, int seed) {
    Object o;
    o.name = mc::str("dataset ", type_name<T>(), " ", n, "x", d, " #", seed);
    o.kind = mc::str("data ", type_name<T>());
    auto make = [=] {
        svs::data::SimpleData<T> x(n, d);
        for (size_t i = 0; i < n; ++i) {
            auto v = numbers<T>(d, seed + int(i));
            x.set_datum(i, std::span<const T>(v));
        }
        return x;
    };
    o.save = [=](const string& dir) { lib::save_to_disk(make(), dir); };
    o.content = describe_data(make(), type_name<T>());
    add_data_loader<T, svs::data::SimpleData<T>>(o, "plain");
    add_data_loader<T, svs::data::BlockedData<T>>(o, "blocked");
    if constexpr (E != svs::Dynamic) {
        if (d == E) {
            add_data_loader<T, svs::data::SimpleData<T, E>>(o, "fixed");
        }
    }
    return o;
}
template <typename I> Object graph_object(size_t n, size_t degree, int seed) {
    Object o;
    o.name = mc::str("graph ", type_name<I>(), " ", n, "/", degree, " #", seed);
    o.kind = mc::str("graph ", type_name<I>());
    auto make = [=] {
        svs::graphs::SimpleGraph<I> g(n, degree);
        for (size_t i = 0; i < n; ++i) {
            std::vector<I> l;
            for (size_t j = 0; j < (i + seed) % (degree + 1); ++j) {
                l.push_back(I((i + j + 1) % std::max<size_t>(n, 1)));
            }
            g.replace_node(I(i), l);
        }
        return g;
    };
    o.save = [=](const string& dir) { lib::save_to_disk(make(), dir); };
    o.content = describe_graph(make(), type_name<I>());
    o.loads.push_back({"plain", [](const string& d) { return describe_graph(svs::graphs::SimpleGraph<I>::load(d), type_name<I>()); }});
    o.loads.push_back({"generic", [](const string& d) { return describe_graph(lib::load_from_disk<svs::graphs::SimpleGraph<I>>(d), type_name<I>()); }});
    return o;
}
static Object map_object(size_t n, int seed) {
    Object o;
    o.name = mc::str("map ", n, " #", seed);
    o.kind = "map";
    auto make = [=] {
        svs::IDTranslator t;
        std::vector<size_t> e(n), i(n);
        for (size_t j = 0; j < n; ++j) {
            e[j] = 100 * seed + 5 * j + 1;
            i[j] = (j + seed) % n;
        }
        t.insert(e, i);
        return t;
    };
    o.save = [=](const string& dir) { lib::save_to_disk(make(), dir); };
    o.content = describe(make());
    o.loads.push_back({"plain", [](const string& d) { return describe(lib::load_from_disk<svs::IDTranslator>(d)); }});
    return o;
}
template <typename T> Object blob_object(size_t n, int seed) {
    Object o;
    o.name = mc::str("blob ", type_name<T>(), " ", n, " #", seed);
    o.kind = mc::str("blob ", type_name<T>());
    auto show = [](const std::vector<T>& v) {
        return mc::str("blob ", type_name<T>(), " ", v.size(), ":", string(reinterpret_cast<const char*>(v.data()), v.size() * sizeof(T)));
    };
    auto v = numbers<T>(n, seed);
    o.save = [=](const string& dir) {
        lib::save_to_disk(lib::BinaryBlobSaver(v), dir);
    };
    o.content = show(v);
    o.loads.push_back({"plain", [=](const string& d) {
        std::vector<T> v = lib::load_from_disk<lib::BinaryBlobLoader<T>>(d);
        return show(v);
    }});
    return o;
}
template <typename P> Object params_object(const char* kind, const P& p, int seed) {
    Object o;
    o.name = mc::str(kind, " #", seed);
    o.kind = kind;
    o.save = [=](const string& dir) { lib::save_to_disk(p, dir); };
    o.content = describe(p);
    o.loads.push_back({"plain", [](const string& d) { return describe(lib::load_from_disk<P>(d)); }});
    return o;
}
static vamana::VamanaBuildParameters build_parameters(int seed) {
    return {1.25f + seed, size_t(64 + seed), 100, 750, size_t(60 + seed), seed % 2 == 0};
}
static vamana::VamanaSearchParameters search_parameters(int seed) {
    return {vamana::SearchBufferConfig(size_t(120 + seed), size_t(235 + seed)), seed % 2 == 1, size_t(3 + seed), size_t(2 + seed)};
}
template <typename I> Object clustering_object(std::vector<std::vector<int>> clusters, int seed) {
    Object o;
    o.kind = mc::str("clustering ", type_name<I>());
    o.name = mc::str(o.kind, " #", seed);
    auto make = [=] {
        inverted::Clustering<I> c;
        for (auto& x : clusters) {
            inverted::Cluster<I> k{I(x[0])};
            for (size_t i = 1; i < x.size(); ++i) {
                k.push_back(svs::Neighbor<I>(I(x[i]), 0.5f * x[i] + seed));
            }
            c.insert(std::move(k));
        }
        return c;
    };
    o.save = [=](const string& dir) { lib::save_to_disk(make(), dir); };
    o.content = describe(make(), type_name<I>());
    o.loads.push_back({"plain", [](const string& d) { return describe(lib::load_from_disk<inverted::Clustering<I>>(d), type_name<I>()); }});
    return o;
}

// The growing graph of the dynamic index with small blocks.
using BlockedRows = svs::data::BlockedData<uint32_t>;
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, BlockedRows> {
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, BlockedRows>;
    static auto alloc(size_t row) {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = svs::lib::prevpow2(4 * row * sizeof(uint32_t));
        return BlockedRows::allocator_type(bp);
    }
    SmallGraph(size_t n, size_t degree)
        : parent_type(n, degree, alloc(degree + 1)) {}
    explicit SmallGraph(BlockedRows data)
        : parent_type(std::move(data)) {}
    void unsafe_resize(size_t n) { data_.resize(n); }
    void add_node() { data_.resize(data_.size() + 1); }
    static SmallGraph load(const fs::path& p) {
        auto g = svs::graphs::SimpleGraph<uint32_t>::load(p);
        SmallGraph r(g.n_nodes(), g.max_degree());
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            r.replace_node(i, g.get_node(i));
        }
        return r;
    }
};
static kit::Points line(size_t n, int seed) {
    kit::Points p;
    for (size_t i = 0; i < n; ++i) {
        p.push_back({float((i * 37 + seed * 5) % 101), float(i % 3)});
    }
    return p;
}
static kit::Adj ring(size_t n) {
    kit::Adj a(n);
    for (size_t i = 0; i < n && n > 1; ++i) {
        a[i] = {uint32_t((i + 1) % n)};
        if (n > 2) {
            a[i].push_back(uint32_t((i + n - 1) % n));
        }
    }
    return a;
}
// A whole index: configuration, graph and data. Loading it shows what another save of it holds.
static string parts(const string& d, const string& config) {
    return config + " | " + describe_graph(svs::graphs::SimpleGraph<uint32_t>::load(d + "/graph"), "uint32") + " | " +
           describe_data(lib::load_from_disk<svs::data::SimpleData<float>>(d + "/data"), "float32");
}
static string again() {
    string d = scratch + "/again";
    fs::remove_all(d);
    fs::create_directories(d);
    return d;
}
static Object static_index(size_t n, int seed, size_t entry) {
    Object o;
    o.name = mc::str("vamana index ", n, " #", seed);
    o.kind = "vamana";
    vamana::VamanaIndexParameters p{entry, {1.25f, 3, 10, 20, 3, true}, search_parameters(seed)};
    auto pts = line(n, seed);
    o.save = [=](const string& d) {
        lib::save_to_disk(p, d + "/config");
        lib::save_to_disk(kit::graph(ring(n), 3), d + "/graph");
        lib::save_to_disk(kit::dataset(pts, 2), d + "/data");
    };
    o.content = describe(p) + " | " + describe_graph(kit::graph(ring(n), 3), "uint32") + " | " + describe_data(kit::dataset(pts, 2), "float32");
    o.loads.push_back({"assembled", [](const string& d) {
        auto index = vamana::auto_assemble(d + "/config", svs::graphs::SimpleGraph<uint32_t>::load(d + "/graph"), svs::VectorDataLoader<float>(d + "/data"), svs::distance::DistanceL2(), 1);
        auto to = again();
        index.save(to + "/config", to + "/graph", to + "/data");
        return parts(to, describe(lib::load_from_disk<vamana::VamanaIndexParameters>(to + "/config")));
    }});
    return o;
}
static Object dynamic_index(size_t n, int seed, size_t entry) {
    Object o;
    o.name = mc::str("dynamic index ", n, " #", seed);
    o.kind = "dynamic";
    vamana::VamanaIndexParameters p{entry, {1.25f, 3, 10, 20, 3, true}, search_parameters(seed)};
    auto pts = line(n, seed);
    svs::IDTranslator map;
    {
        std::vector<size_t> e, i;
        for (size_t j = 0; j < n; ++j) {
            e.push_back(10 * j + seed);
            i.push_back(j);
        }
        map.insert(e, i);
    }
    auto table = [=](const lib::SaveContext& ctx) {
        return lib::SaveTable(
            "vamana_dynamic_auxiliary_parameters", lib::Version(0, 0, 0),
            {{"name", lib::save(string("mutable vamana"))}, {"parameters", lib::save(p, ctx)}, {"translation", lib::save(map, ctx)}}
        );
    };
    o.save = [=](const string& d) {
        lib::save_to_disk(lib::SaveOverride([&](const lib::SaveContext& ctx) { return table(ctx); }), d + "/config");
        lib::save_to_disk(kit::graph(ring(n), 3), d + "/graph");
        lib::save_to_disk(kit::dataset(pts, 2), d + "/data");
    };
    auto config = [](const vamana::VamanaIndexParameters& p, const svs::IDTranslator& t) { return describe(p) + " | " + describe(t); };
    o.content = config(p, map) + " | " + describe_graph(kit::graph(ring(n), 3), "uint32") + " | " + describe_data(kit::dataset(pts, 2), "float32");
    o.loads.push_back({"assembled", [=](const string& d) {
        auto data = [&] {
            auto plain = lib::load_from_disk<svs::data::SimpleData<float>>(d + "/data");
            svs::data::BlockingParameters bp;
            bp.blocksize_bytes = svs::lib::PowerOfTwo(6);
            using Blocked = svs::data::BlockedData<float>;
            Blocked b(plain.size(), plain.dimensions(), Blocked::allocator_type(bp));
            svs::data::copy(plain, b);
            return b;
        };
        auto index = vamana::auto_dynamic_assemble(d + "/config", lib::Lazy([&] { return SmallGraph::load(d + "/graph"); }), lib::Lazy(data), svs::distance::DistanceL2(), 1);
        auto to = again();
        index.save(to + "/config", to + "/graph", to + "/data");
        auto loaded = lib::load_from_disk<vamana::detail::VamanaStateLoader>(to + "/config", false, size_t(0));
        return parts(to, config(loaded.parameters_, loaded.translator_));
    }});
    return o;
}

// Damage ------------------------------------------------------------------------------------------
// Load by every loader of the object and judge.
static void judge(const Object& o, const string& dir, const std::set<string>& fine, const string& what, bool must_fail = false, const char* key = "misread") {
    for (auto& [how, load] : o.loads) {
        string got;
        bool threw = mc::throws([&] { got = load(dir); });
        mc::trace();
        mc::evaluation();
        mc::outcome(threw ? "refused" : "loaded");
        mc::count(threw ? "damaged states refused" : "damaged states loaded unchanged");
        if (!threw) {
            MC_CHECK(fine.count(got), key, o.name, " (", how, "): ", what, ": loaded other content: ", got.substr(0, 400));
            MC_CHECK(!must_fail, key, o.name, " (", how, "): ", what, ": loaded although it must be refused");
        }
    }
}
static string kind_of(const string& name) { return fs::path(name).extension() == ".toml" ? "description" : "data"; }

static void cuts(const Object& o, const Files& files) {
    string dir = scratch + "/o";
    for (auto& [name, content] : files) {
        // The data file's header is mostly padding; all of it is cut all the same.
        for (size_t block = 0; block <= content.size(); block += 64) {
            mc::run([&] { return mc::str(o.name, ", ", name, " cut at ", block, "+"); }, [&] {
                restore(dir, files);
                for (size_t cut = block; cut < std::min(block + 64, content.size()); ++cut) {
                    spit(dir + "/" + name, content.substr(0, cut));
                    mc::transition();
                    judge(o, dir, {o.content}, mc::str(name, " cut to ", cut, " of ", content.size(), " bytes"), false, "cut");
                }
                mc::state(mc::hash(o.name + name) + block);
            });
        }
        for (size_t extra : {1, 4, 8, 64}) {
            mc::run([&] { return mc::str(o.name, ", ", name, " longer by ", extra); }, [&] {
                restore(dir, files);
                spit(dir + "/" + name, content + content.substr(0, std::min(extra, content.size())));
                mc::transition();
                judge(o, dir, {o.content}, mc::str(name, " longer by ", extra), false, "longer");
            });
        }
    }
}
static void swaps(const Object& o, const Files& files, const std::vector<std::pair<string, string>>& others) {
    string dir = scratch + "/o";
    for (auto& [name, content] : files) {
        string whole = dir + "/" + name;
        mc::run([&] { return mc::str(o.name, ", ", name, " removed"); }, [&] {
            restore(dir, files);
            fs::remove(whole);
            mc::transition();
            judge(o, dir, {o.content}, name + " removed", true, "missing");
            fs::create_directories(whole);
            judge(o, dir, {o.content}, name + " is a directory", true, "directory");
        });
        for (size_t i = 0; i < others.size(); ++i) {
            auto& [source, bytes] = others[i];
            if (bytes == content) {
                continue;
            }
            mc::run([&] { return mc::str(o.name, ", ", name, " replaced by ", source); }, [&] {
                restore(dir, files);
                spit(whole, bytes);
                mc::transition();
                judge(o, dir, {o.content}, mc::str(name, " replaced by ", source), false, "replaced");
            });
        }
    }
    // Everything removed.
    mc::run([&] { return mc::str(o.name, ", all files removed"); }, [&] {
        restore(dir, {});
        judge(o, dir, {o.content}, "all files removed", true, "missing");
        fs::remove_all(dir);
        judge(o, dir, {o.content}, "directory removed", true, "missing");
    });
}

// Every leaf of a description, as its path of keys.
using Path = std::vector<string>;
static void leaves(const toml::node& n, Path at, std::vector<Path>& out) {
    if (auto* t = n.as_table()) {
        out.push_back(at);
        for (auto& [k, v] : *t) {
            Path p = at;
            p.push_back(string(k.str()));
            leaves(v, p, out);
        }
    } else {
        out.push_back(at);
    }
}
static toml::table* parent_of(toml::table& t, const Path& p) {
    toml::table* at = &t;
    for (size_t i = 0; i + 1 < p.size(); ++i) {
        at = at->get(p[i])->as_table();
    }
    return at;
}
static string show(const Path& p) {
    string s;
    for (auto& x : p) {
        s += (s.empty() ? "" : ".") + x;
    }
    return s;
}
// Entries that describe the form of the object. All others are its content: changing their value
// gives another valid object.
static bool describes(const string& key) {
    static const std::set<string> keys{
        "__schema__", "__version__", "eltype", "element_type", "uuid", "binary_file", "filename", "filepath", "filesize", "dims", "num_vectors", "num_points", "max_degree",
        "num_vertices", "num_elements", "external_id_type", "internal_id_type", "integer_type", "num_clusters", "name", "element_size"};
    return keys.count(key) != 0;
}
static string print(const toml::table& t) {
    // A line break ends every complete description.
    std::ostringstream s;
    s << t << "\n";
    return s.str();
}
static bool is_older_version(const string& v, const string& original) {
    return !mc::throws([&] { (void)lib::Version(v); }) && lib::Version(v) < lib::Version(original);
}
static void descriptions(const Object& o, const Files& files, const std::vector<string>& uuids, const std::vector<string>& schemas) {
    string dir = scratch + "/o";
    for (auto& [name, content] : files) {
        if (kind_of(name) != "description") {
            continue;
        }
        auto original = toml::parse(content);
        std::vector<Path> all;
        leaves(original, {}, all);
        for (auto& path : all) {
            if (path.empty()) {
                continue;
            }
            auto& key = path.back();
            auto damage = [&](const string& what, auto&& change, bool must_fail) {
                mc::run([&] { return mc::str(o.name, ", ", name, ": ", show(path), " ", what); }, [&] {
                    restore(dir, files);
                    auto t = original;
                    change(*parent_of(t, path));
                    spit(dir + "/" + name, print(t));
                    mc::transition();
                    mc::state(mc::hash(o.name + show(path) + what));
                    judge(o, dir, {o.content}, mc::str(show(path), " ", what), must_fail, "description");
                });
            };
            bool global_version = path.size() == 1 && key == "__version__";
            const toml::node* leaf = parent_of(original, path)->get(key);
            damage("removed", [&](toml::table& t) { t.erase(key); }, false);
            // Retyped.
            damage("is a table", [&](toml::table& t) { t.insert_or_assign(key, toml::table()); }, false);
            damage("is an array", [&](toml::table& t) { t.insert_or_assign(key, toml::array()); }, false);
            if (leaf->is_table()) {
                damage("is a number", [&](toml::table& t) { t.insert_or_assign(key, 1); }, false);
                damage("is a text", [&](toml::table& t) { t.insert_or_assign(key, "x"); }, false);
                continue;
            }
            if (!leaf->is_integer()) {
                damage("is a number", [&](toml::table& t) { t.insert_or_assign(key, 1); }, false);
            }
            if (!leaf->is_floating_point()) {
                damage("is a fraction", [&](toml::table& t) { t.insert_or_assign(key, 1.0); }, false);
            }
            if (!leaf->is_string()) {
                damage("is a text", [&](toml::table& t) { t.insert_or_assign(key, "1"); }, false);
            }
            if (!leaf->is_boolean()) {
                damage("is a truth value", [&](toml::table& t) { t.insert_or_assign(key, true); }, false);
            }
            if (!describes(key) || global_version) {
                continue;
            }
            if (auto* i = leaf->as_integer()) {
                int64_t v = i->get();
                for (int64_t w : {int64_t(0), int64_t(1), int64_t(2), v - 1, v + 1, 2 * v, v + 256, v + 65536, v + (int64_t(1) << 32), -v, int64_t(-1), INT64_MAX, INT64_MIN}) {
                    if (w != v) {
                        damage(mc::str("= ", w), [&](toml::table& t) { t.insert_or_assign(key, w); }, false);
                    }
                }
            } else if (auto* s = leaf->as_string()) {
                const string& v = s->get();
                std::vector<string> variants{"", v + "x", v.substr(0, v.size() - 1), "x" + v, "/nonexistent", ".", "..", "../" + v};
                string up = v;
                if (!up.empty()) {
                    up[0] = char(up[0] ^ 1);
                }
                variants.push_back(up);
                if (key == "uuid") {
                    variants.insert(variants.end(), uuids.begin(), uuids.end());
                    for (size_t i = 0; i < v.size(); ++i) {
                        string w = v;
                        w[i] = w[i] == '0' ? '1' : '0';
                        variants.push_back(w);
                    }
                } else if (key == "__schema__") {
                    variants.insert(variants.end(), schemas.begin(), schemas.end());
                } else if (key == "__version__") {
                    for (auto w : {"v0.0.0", "v0.0.1", "v0.0.2", "v0.0.3", "v0.0.4", "v0.1.0", "v1.0.0", "v10.10.10", "v0.0.10", "v0.0.18446744073709551615"}) {
                        variants.push_back(w);
                    }
                } else if (key.find("type") != string::npos) {
                    for (auto w : {"float32", "float16", "float64", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "undef", "byte"}) {
                        variants.push_back(w);
                    }
                } else if (key.find("file") != string::npos) {
                    for (auto& f : files) {
                        variants.push_back(f.first);
                    }
                }
                for (auto& w : variants) {
                    if (w == v) {
                        continue;
                    }
                    // An older version of the format is not damage but another format.
                    if (key == "__version__" && is_older_version(w, v)) {
                        continue;
                    }
                    damage(mc::str("= \"", w, "\""), [&](toml::table& t) { t.insert_or_assign(key, w); }, key == "__version__" || key == "__schema__" || key == "uuid");
                }
            }
        }
    }
}
// Loading as something else.
static void confusions(const std::vector<Object>& objects, const std::vector<Files>& saved) {
    string dir = scratch + "/o";
    for (size_t i = 0; i < objects.size(); ++i) {
        for (auto& other : objects) {
            if (other.kind == objects[i].kind) {
                continue;
            }
            mc::run([&] { return mc::str(objects[i].name, " loaded as ", other.name); }, [&] {
                restore(dir, saved[i]);
                mc::transition();
                judge(other, dir, {}, mc::str("saved as ", objects[i].name), true, "confused");
            });
        }
    }
}
template <typename T, size_t E> void wrong_extent(const Object& o, const Files& files) {
    mc::run([&] { return mc::str(o.name, " loaded with ", E, " fixed dimensions"); }, [&] {
        string dir = scratch + "/o";
        restore(dir, files);
        bool plain = mc::throws([&] { (void)lib::load_from_disk<svs::data::SimpleData<T, E>>(dir); });
        bool blocked = mc::throws([&] { (void)lib::load_from_disk<svs::data::BlockedData<T, E>>(dir); });
        mc::evaluation(2);
        MC_CHECK(plain && blocked, "extent", o.name, ": loaded with ", E, " fixed dimensions");
    });
}

// A second save over the first, interrupted at every write.
static void interrupted(const Object& before, const Object& after) {
    string dir = scratch + "/o";
    std::vector<Step> steps;
    Files start;
    {
        restore(dir, {});
        if (before.save) {
            before.save(dir);
        }
        start = snapshot(dir);
        tape = &steps;
        tape_fds.clear();
        after.save(dir);
        tape = nullptr;
    }
    auto relative = [&](const string& p) { return string(fs::relative(p, dir)); };
    auto apply = [&](Files& f, const Step& s, size_t bytes) {
        switch (s.kind) {
        case Step::Create:
            f[relative(s.file)] = "";
            break;
        case Step::Append:
        {
            auto& content = f[relative(s.file)];
            content.resize(std::max(content.size(), s.at + bytes), '\0');
            content.replace(s.at, bytes, s.bytes.substr(0, bytes));
            break;
        }
        case Step::Remove:
            f.erase(relative(s.file));
            break;
        case Step::Rename:
            f[relative(s.bytes)] = f[relative(s.file)];
            f.erase(relative(s.file));
            break;
        }
    };
    // The record must account for what the save did.
    mc::run([&] { return mc::str(before.name, " then ", after.name, ": record"); }, [&] {
        Files f = start;
        for (auto& s : steps) {
            apply(f, s, s.bytes.size());
        }
        restore(dir, start);
        restore(dir, f);
        judge(after, dir, {after.content}, "complete record", false, "record");
        for (auto& l : after.loads) {
            MC_CHECK(l.second(dir) == after.content, "record", "the recorded writes do not give the saved object");
        }
    });
    std::set<string> fine{before.content, after.content};
    Object judged = after;
    judged.name = before.name + " overwritten by " + after.name;
    // In order, every prefix of every write.
    Files f = start;
    for (size_t i = 0; i < steps.size(); ++i) {
        size_t n = steps[i].kind == Step::Append ? steps[i].bytes.size() : 1;
        for (size_t block = 0; block < n; block += 64) {
            mc::run([&] { return mc::str(judged.name, " interrupted in step ", i, "+", block); }, [&] {
                for (size_t b = block; b < std::min(n, block + 64); ++b) {
                    Files g = f;
                    if (steps[i].kind == Step::Append) {
                        apply(g, steps[i], b);
                    } else if (b > 0) {
                        break;
                    }
                    restore(dir, g);
                    mc::transition();
                    mc::state(mc::hash(judged.name) + i * 100000 + b);
                    judge(judged, dir, fine, mc::str("interrupted in step ", i, " after ", b, " bytes of ", steps[i].file), false, "interrupted");
                }
            });
        }
        apply(f, steps[i], steps[i].bytes.size());
    }
    // Files reach the disk independently of each other: every combination of old, empty, partly
    // written and new for each file.
    std::map<string, std::vector<std::optional<string>>> choices;
    for (auto& s : start) {
        choices[s.first].push_back(s.second);
    }
    for (auto& s : f) {
        auto& c = choices[s.first];
        if (!start.count(s.first)) {
            c.push_back(std::nullopt);
        }
        c.push_back(string());
        for (size_t k = 1; k < 8; ++k) {
            c.push_back(s.second.substr(0, s.second.size() * k / 8));
        }
        c.push_back(s.second);
    }
    std::vector<std::pair<string, std::vector<std::optional<string>>>> list(choices.begin(), choices.end());
    size_t total = 1;
    for (auto& l : list) {
        total *= l.second.size();
    }
    for (size_t block = 0; block < total; block += 16) {
        mc::run([&] { return mc::str(judged.name, " combination ", block, "+"); }, [&] {
            for (size_t c = block; c < std::min(total, block + 16); ++c) {
                Files g;
                size_t x = c;
                for (auto& [name, options] : list) {
                    auto& o = options[x % options.size()];
                    if (o) {
                        g[name] = *o;
                    }
                    x /= options.size();
                }
                restore(dir, g);
                mc::transition();
                judge(judged, dir, fine, mc::str("combination ", c), false, "combined");
            }
        });
    }
}

// Whole indexes assembled from parts of different ones.
static void mixtures(const std::vector<Object>& objects, const std::vector<Files>& saved) {
    string dir = scratch + "/o";
    for (size_t i = 0; i < objects.size(); ++i) {
        for (size_t j = 0; j < objects.size(); ++j) {
            if (i == j || objects[i].kind != objects[j].kind || (objects[i].kind != "vamana" && objects[i].kind != "dynamic")) {
                continue;
            }
            for (const char* part : {"config", "graph", "data"}) {
                mc::run([&] { return mc::str(objects[i].name, " with the ", part, " of ", objects[j].name); }, [&] {
                    Files g;
                    for (auto& f : saved[i]) {
                        if (f.first.rfind(part, 0) != 0) {
                            g.insert(f);
                        }
                    }
                    for (auto& f : saved[j]) {
                        if (f.first.rfind(part, 0) == 0) {
                            g.insert(f);
                        }
                    }
                    restore(dir, g);
                    mc::transition();
                    // A configuration of a static index has no size of its own; all other parts
                    // of indexes of different sizes must not be combined.
                    bool config = objects[i].kind == "vamana" && string(part) == "config";
                    if (!config) {
                        judge(objects[i], dir, {}, mc::str("with the ", part, " of ", objects[j].name), true, "mixed");
                    }
                });
            }
        }
        if (objects[i].kind == "vamana" || objects[i].kind == "dynamic") {
            // An entry point that is no node.
            mc::run([&] { return mc::str(objects[i].name, ", entry point outside"); }, [&] {
                for (int64_t e : {int64_t(0), int64_t(1), int64_t(2), int64_t(3), int64_t(4), int64_t(1000), int64_t(UINT32_MAX), int64_t(UINT32_MAX) + 1, INT64_MAX, int64_t(-1)}) {
                    size_t n = lib::load_from_disk<svs::data::SimpleData<float>>([&] {
                                   restore(dir, saved[i]);
                                   return dir + "/data";
                               }()).size();
                    if (n == 0 || (e >= 0 && size_t(e) < n)) {
                        continue;
                    }
                    Files g = saved[i];
                    auto& text = g.at("config/svs_config.toml");
                    auto t = toml::parse(text);
                    auto* object = t.get("object")->as_table();
                    if (objects[i].kind == "dynamic") {
                        object = object->get("parameters")->as_table();
                    }
                    object->insert_or_assign("entry_point", e);
                    text = print(t);
                    restore(dir, g);
                    mc::transition();
                    judge(objects[i], dir, {}, mc::str("entry point ", e), true, "entry-point");
                }
            });
        }
    }
}
// Inverted index: clustering that mentions vectors outside the dataset.
static void inverted_parts() {
    string dir = scratch + "/inv";
    kit::Points pts = line(4, 1);
    for (auto& clusters : std::vector<std::vector<std::vector<int>>>{
             {{0, 1, 3}, {2}}, {{0, 4}, {2}}, {{0, 1}, {4}}, {{0, 1, 100000}, {2, 3}}, {{0}, {7, 1}}, {{0, 1, 3}}, {{0, 1}, {2}, {3}}}) {
        mc::run([&] { return mc::str("inverted ", clusters.size(), " clusters ", mc::list(clusters[0]), mc::list(clusters.back())); }, [&] {
            fs::remove_all(dir);
            fs::create_directories(dir);
            bool inside = true;
            for (auto& c : clusters) {
                for (auto x : c) {
                    inside = inside && x < 4;
                }
            }
            clustering_object<uint32_t>(clusters, 1).save(dir + "/clustering");
            lib::save_to_disk(vamana::VamanaIndexParameters{0, {1.25f, 3, 10, 20, 3, true}, search_parameters(1)}, dir + "/config");
            lib::save_to_disk(kit::graph(ring(2), 3), dir + "/graph");
            bool fits = inside && clusters.size() == 2;
            bool threw = mc::throws([&] {
                (void)inverted::assemble_from_clustering(dir + "/clustering", kit::dataset(pts), svs::distance::DistanceL2(), inverted::SparseStrategy(), dir + "/config", dir + "/graph", 1);
            });
            mc::evaluation();
            MC_CHECK(threw == !fits, "inverted-parts", "clustering ", mc::list(clusters[0]), mc::list(clusters.back()), " for 4 vectors and 2 graph nodes was ", threw ? "refused" : "accepted");
        });
    }
}

static void explore() {
    mc::ScratchDir s;
    scratch = fs::canonical(s.path);
    std::vector<Object> objects;
    bool deep = mc::thorough();
    for (size_t n : {0, 1, 3}) {
        for (size_t d : {1, 3}) {
            objects.push_back(data_object<float, 3>(n, d, 1));
        }
    }
    objects.push_back(data_object<float, 3>(3, 3, 2));
    objects.push_back(data_object<Float16, 3>(3, 3, 1));
    objects.push_back(data_object<uint8_t, 3>(3, 3, 1));
    objects.push_back(data_object<int8_t, 3>(3, 3, 1));
    if (deep) {
        objects.push_back(data_object<double, 3>(2, 4, 1));
        objects.push_back(data_object<float, 3>(33, 17, 1));
        objects.push_back(data_object<int32_t, 3>(2, 3, 1));
    }
    for (size_t n : {0, 1, 3}) {
        objects.push_back(graph_object<uint32_t>(n, 2, 1));
    }
    objects.push_back(graph_object<uint32_t>(3, 2, 2));
    objects.push_back(graph_object<uint32_t>(3, 3, 1));
    objects.push_back(graph_object<uint64_t>(3, 2, 1));
    for (size_t n : {0, 1, 3}) {
        objects.push_back(map_object(n, 1));
    }
    objects.push_back(map_object(3, 2));
    objects.push_back(blob_object<float>(0, 1));
    objects.push_back(blob_object<float>(3, 1));
    objects.push_back(blob_object<float>(3, 2));
    objects.push_back(blob_object<uint64_t>(3, 1));
    for (int i : {1, 2}) {
        objects.push_back(params_object("build parameters", build_parameters(i), i));
        objects.push_back(params_object("search parameters", search_parameters(i), i));
        objects.push_back(params_object("index parameters", vamana::VamanaIndexParameters{size_t(17 + i), build_parameters(i), search_parameters(i)}, i));
    }
    objects.push_back(params_object("clustering parameters", inverted::ClusteringParameters(), 1));
    objects.push_back(clustering_object<uint32_t>({{0, 1, 3}, {2}}, 1));
    objects.push_back(clustering_object<uint32_t>({{5}, {2, 4, 1, 3}, {9, 4}}, 2));
    objects.push_back(clustering_object<uint32_t>({}, 3));
    objects.push_back(clustering_object<uint64_t>({{0, 1, 3}, {2}}, 4));
    size_t single = objects.size();
    for (auto [n, e] : std::vector<std::pair<size_t, size_t>>{{1, 0}, {3, 2}, {4, 1}}) {
        objects.push_back(static_index(n, 1, e));
        objects.push_back(dynamic_index(n, 1, e));
    }

    std::vector<Files> saved;
    std::vector<string> uuids, schemas;
    std::vector<std::pair<string, string>> others;
    std::set<string> kinds;
    for (auto& o : objects) {
        restore(scratch + "/o", {});
        o.save(scratch + "/o");
        saved.push_back(snapshot(scratch + "/o"));
        for (auto& [name, content] : saved.back()) {
            if (kind_of(name) == "description") {
                auto t = toml::parse(content);
                auto* object = t.get("object")->as_table();
                if (auto* u = object->get("uuid")) {
                    uuids.push_back(u->as_string()->get());
                }
                schemas.push_back(object->get("__schema__")->as_string()->get());
            }
            // One file of each kind to replace others with.
            if (kinds.insert(o.kind + kind_of(name)).second) {
                others.push_back({o.name + "'s " + name, content});
            }
        }
    }
    std::sort(schemas.begin(), schemas.end());
    schemas.erase(std::unique(schemas.begin(), schemas.end()), schemas.end());

    for (size_t i = 0; i < objects.size(); ++i) {
        auto& o = objects[i];
        // Undamaged.
        mc::run([&] { return mc::str(o.name, " undamaged"); }, [&] {
            restore(scratch + "/o", saved[i]);
            for (auto& [how, load] : o.loads) {
                auto got = load(scratch + "/o");
                MC_CHECK(got == o.content, "undamaged", o.name, " (", how, ") came back as ", got.substr(0, 400));
            }
        });
        cuts(o, saved[i]);
        // Files of the same kind of object are only told apart where an identifier links them.
        std::vector<std::pair<string, string>> replacements;
        for (auto& x : others) {
            bool linked = o.kind.rfind("data", 0) == 0 || o.kind.rfind("graph", 0) == 0;
            bool same_kind = x.first.rfind(o.kind, 0) == 0;
            // (the others carry no mark of their own: a file of another save with the expected
            // size cannot be told from the right one)
            bool single_source = x.first.find(" index ") == string::npos;
            bool same_size = false;
            for (auto& f : saved[i]) {
                same_size = same_size || f.second.size() == x.second.size();
            }
            if (linked || (!same_kind && single_source && !same_size && i < single)) {
                replacements.push_back(x);
            }
        }
        swaps(o, saved[i], replacements);
        std::vector<string> foreign;
        for (auto& u : uuids) {
            if (foreign.size() < 4) {
                foreign.push_back(u);
            }
        }
        descriptions(o, saved[i], foreign, schemas);
    }
    confusions(objects, saved);
    for (size_t i = 0; i < objects.size(); ++i) {
        if (objects[i].kind == "data float32") {
            if (objects[i].name.find("x3 ") != string::npos) {
                wrong_extent<float, 2>(objects[i], saved[i]);
                wrong_extent<float, 4>(objects[i], saved[i]);
            } else if (objects[i].name.find("x1 ") != string::npos) {
                wrong_extent<float, 2>(objects[i], saved[i]);
            }
        }
    }
    mixtures(objects, saved);
    inverted_parts();
    // The files of datasets and graphs carry identifiers: a second save over a first may be
    // interrupted anywhere. The others are only saved into a new directory.
    Object nothing;
    nothing.name = "nothing";
    for (size_t i = 0; i < single; ++i) {
        auto& o = objects[i];
        interrupted(nothing, o);
        bool linked = o.kind.rfind("data", 0) == 0 || o.kind.rfind("graph", 0) == 0;
        size_t partners = 0;
        for (size_t k = 1; k < single && linked; ++k) {
            auto& after = objects[(i + k) % single];
            if (after.kind == o.kind && partners < (deep ? single : 1)) {
                ++partners;
                interrupted(o, after);
            }
        }
    }
}
MC_MAIN("C24", explore)
