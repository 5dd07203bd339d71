// C22: everything that is saved loads back as it was. All pairs of a source layout and a
// destination layout, for every element type and a grid of shapes (content includes extreme values
// and NaN patterns); every sequence of up to three objects under one directory, with every renaming
// and permutation of the files that are linked by identifier; every small identifier map.
#include "mc.h"
#include "kit.h"
#include "newlimit.h"
#include "svs/core/data.h"
#include "svs/core/graph.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

namespace fs = std::filesystem;
namespace lib = svs::lib;
namespace data = svs::data;
namespace graphs = svs::graphs;
using std::string;
using svs::Float16;

static string scratch;
static string fresh() {
    static size_t n = 0;
    return scratch + "/d" + std::to_string(n++);
}
struct Dir {
    string path = fresh();
    ~Dir() {
        std::error_code e;
        fs::remove_all(path, e);
    }
};
template <typename T> const char* type_name() {
    static string s(svs::name(svs::datatype_v<T>));
    return s.c_str();
}

// Content ------------------------------------------------------------------------------------------
template <typename T> using Rows = std::vector<std::vector<T>>;
// Bit patterns, so that special values of the floating types are among them.
template <typename T> Rows<T> content(size_t n, size_t d, int seed) {
    static const uint64_t patterns[] = {0, ~0ull, 0x8000800080008000ull, 0x7fc000007fc00000ull, 0x7ff8000000000001ull, 0x0100010001000100ull,
        0x7c007c007c007c00ull, 0x0000000100000001ull, 0xff80ff80ff80ff80ull, 0x7f7fffff7f7fffffull, 0x0a0d0a0d0a0d0a0dull, 0x5a1e5a1e5a1e5a1eull};
    Rows<T> r(n, std::vector<T>(d));
    uint64_t k = 977 * seed + 1;
    for (auto& row : r) {
        for (auto& x : row) {
            uint64_t bits = k % 3 == 0 ? patterns[(k / 3) % std::size(patterns)] : k * 0x9e3779b97f4a7c15ull;
            ++k;
            std::memcpy(&x, reinterpret_cast<char*>(&bits) + (8 - sizeof(T)), sizeof(T));
        }
    }
    return r;
}
template <typename T> bool same(const std::vector<T>& a, const T* b) { return a.empty() || std::memcmp(a.data(), b, a.size() * sizeof(T)) == 0; }
template <typename T, typename D> void expect(const D& x, const Rows<T>& rows, size_t d, const string& where) {
    MC_CHECK(x.size() == rows.size(), "size", where, ": ", x.size(), " vectors instead of ", rows.size());
    MC_CHECK(x.dimensions() == d, "dimensions", where, ": ", x.dimensions(), " dimensions instead of ", d);
    for (size_t i = 0; i < rows.size(); ++i) {
        auto got = x.get_datum(i);
        MC_CHECK(got.size() == d && same(rows[i], got.data()), "content", where, ": vector ", i, " differs");
    }
    mc::evaluation();
}

// Layouts ------------------------------------------------------------------------------------------
template <typename T, size_t E = svs::Dynamic> using Plain = data::SimpleData<T, E>;
template <typename T, size_t E = svs::Dynamic> using Huge = data::SimpleData<T, E, svs::HugepageAllocator<T>>;
template <typename T, size_t E = svs::Dynamic> using Standard = data::SimpleData<T, E, std::allocator<T>>;
template <typename T, size_t E = svs::Dynamic> using Block = data::SimpleData<T, E, data::Blocked<lib::Allocator<T>>>;
template <typename T> data::Blocked<lib::Allocator<T>> blocks(size_t bytes) {
    data::BlockingParameters p;
    p.blocksize_bytes = lib::prevpow2(bytes);
    return data::Blocked<lib::Allocator<T>>(p);
}
template <typename D, typename T, typename... A> D filled(const Rows<T>& rows, size_t d, A&&... a) {
    D x(rows.size(), d, std::forward<A>(a)...);
    for (size_t i = 0; i < rows.size(); ++i) {
        x.set_datum(i, std::span<const T>(rows[i]));
    }
    return x;
}

template <typename T> struct Source {
    string name;
    std::function<void(const Rows<T>&, size_t, const string&)> save;
};
template <typename T> struct Sink {
    string name;
    std::function<void(const string&, const Rows<T>&, size_t)> check;
};

// Save, make sure that the saved object is as before, and save again to a second place.
template <typename T, typename D> void save_checked(D& x, const Rows<T>& rows, size_t d, const string& dir) {
    lib::save_to_disk(x, dir);
    expect<T>(x, rows, d, "the saved object itself");
}
template <typename T, size_t E> void add_sources(std::vector<Source<T>>& out, const string& suffix) {
    auto add = [&](string name, auto f) { out.push_back({name + suffix, f}); };
    add("plain", [](const Rows<T>& r, size_t d, const string& dir) {
        auto x = filled<Plain<T, E>>(r, d);
        save_checked(x, r, d, dir);
    });
    add("huge", [](const Rows<T>& r, size_t d, const string& dir) {
        auto x = filled<Huge<T, E>>(r, d);
        save_checked(x, r, d, dir);
    });
    for (size_t rows_per_block : {1, 2, 4}) {
        add(mc::str("blocked", rows_per_block), [=](const Rows<T>& r, size_t d, const string& dir) {
            auto x = filled<Block<T, E>>(r, d, blocks<T>(std::max<size_t>(rows_per_block * d * sizeof(T), 16)));
            save_checked(x, r, d, dir);
        });
    }
    add("view", [](const Rows<T>& r, size_t d, const string& dir) {
        auto x = filled<Plain<T, E>>(r, d);
        auto v = x.view();
        save_checked(v, r, d, dir);
    });
    add("cview", [](const Rows<T>& r, size_t d, const string& dir) {
        auto x = filled<Plain<T, E>>(r, d);
        auto v = x.cview();
        save_checked(v, r, d, dir);
    });
    // More capacity than vectors: grown, shrunk, shrunk and tightened.
    add("shrunk", [](const Rows<T>& r, size_t d, const string& dir) {
        auto more = r;
        more.resize(r.size() + 3, std::vector<T>(d));
        auto x = filled<Plain<T, E>>(more, d);
        x.resize(r.size());
        save_checked(x, r, d, dir);
    });
    add("shrunk-blocked", [](const Rows<T>& r, size_t d, const string& dir) {
        auto more = r;
        more.resize(r.size() + 3, std::vector<T>(d));
        auto x = filled<Block<T, E>>(more, d, blocks<T>(std::max<size_t>(2 * d * sizeof(T), 16)));
        x.resize(r.size());
        save_checked(x, r, d, dir);
    });
    add("grown", [](const Rows<T>& r, size_t d, const string& dir) {
        auto x = filled<Plain<T, E>>(Rows<T>(r.begin(), r.begin() + r.size() / 2), d);
        x.resize(r.size());
        for (size_t i = r.size() / 2; i < r.size(); ++i) {
            x.set_datum(i, std::span<const T>(r[i]));
        }
        save_checked(x, r, d, dir);
    });
}
template <typename T, size_t E> void add_sinks(std::vector<Sink<T>>& out, const string& suffix) {
    auto add = [&](string name, auto load) {
        out.push_back({name + suffix, [=](const string& dir, const Rows<T>& r, size_t d) { expect<T>(load(dir), r, d, mc::str("loaded as ", name, suffix)); }});
    };
    add("plain", [](const string& dir) { return lib::load_from_disk<Plain<T, E>>(dir); });
    add("plain-direct", [](const string& dir) { return Plain<T, E>::load(dir); });
    add("plain-config", [](const string& dir) { return Plain<T, E>::load(dir + "/svs_config.toml"); });
    add("standard", [](const string& dir) { return Standard<T, E>::load(dir); });
    add("huge", [](const string& dir) { return Huge<T, E>::load(dir); });
    add("blocked", [](const string& dir) { return lib::load_from_disk<Block<T, E>>(dir, blocks<T>(64)); });
    add("blocked-direct", [](const string& dir) { return Block<T, E>::load(dir, blocks<T>(1024)); });
    add("load_data", [](const string& dir) { return svs::load_data<T, E>(dir); });
    add("loader", [](const string& dir) { return svs::VectorDataLoader<T, E>(dir).load(); });
    add("loader-alloc", [](const string& dir) { return svs::VectorDataLoader<T, E, lib::Allocator<T>>(dir, lib::Allocator<T>()).load(); });
    add("refined", [](const string& dir) {
        auto u = svs::UnspecializedVectorDataLoader(dir);
        MC_CHECK(u.type_ == svs::datatype_v<T>, "deduced", "the element type was deduced as ", svs::name(u.type_));
        return u.template refine<T, E>(lib::Type<T>()).load();
    });
    add("dispatched", [](const string& dir) {
        auto u = svs::UnspecializedVectorDataLoader<svs::HugepageAllocator<std::byte>>(dir, svs::datatype_v<T>);
        using C = lib::DispatchConverter<decltype(u), svs::VectorDataLoader<T, E>>;
        MC_CHECK(C::match(u) >= 0, "match", "no match for the stored type and dimensions");
        return C::convert(u).load();
    });
    // The binary file itself.
    add("file", [](const string& dir) {
        string file;
        for (auto& e : fs::directory_iterator(dir)) {
            if (e.path().extension() == ".svs") {
                MC_CHECK(file.empty(), "files", "more than one file for one dataset");
                file = e.path();
            }
        }
        MC_CHECK(!file.empty(), "files", "no native file");
        return Plain<T, E>::load(file);
    });
}

// Loading as something else is refused.
template <typename T, typename U> void refuse_type(const string& dir, const string& where) {
    if constexpr (!std::is_same_v<T, U>) {
        auto no = [&](const char* how, auto f) { MC_CHECK(mc::throws(f), "accepted", where, ": ", how, " accepted element type ", type_name<U>()); };
        no("loading", [&] { lib::load_from_disk<Plain<U>>(dir); });
        no("direct loading", [&] { Plain<U>::load(dir); });
        no("blocked loading", [&] { lib::load_from_disk<Block<U>>(dir, blocks<U>(64)); });
        no("the typed loader", [&] { svs::VectorDataLoader<U>(dir).load(); });
        no("refining", [&] { svs::UnspecializedVectorDataLoader(dir).template refine<U>(lib::Type<U>()); });
        no("the type hint", [&] { lib::load_from_disk<data::Matcher>(dir, svs::datatype_v<U>, size_t(svs::Dynamic)); });
        auto u = svs::UnspecializedVectorDataLoader(dir);
        MC_CHECK((lib::DispatchConverter<decltype(u), svs::VectorDataLoader<U>>::match(u) < 0), "accepted", where, ": dispatching matches element type ", type_name<U>());
    }
}
template <typename T, size_t E> void refuse_extent(const string& dir, size_t d, const string& where) {
    auto no = [&](const char* how, auto f) { MC_CHECK(mc::throws(f), "accepted", where, ": ", how, " accepted fixed dimension ", E); };
    auto u = svs::UnspecializedVectorDataLoader(dir);
    auto match = lib::DispatchConverter<decltype(u), svs::VectorDataLoader<T, E>>::match(u);
    MC_CHECK((match == lib::perfect_match) == (d == E) && (match < 0) == (d != E), "match", where, ": dispatching to fixed dimension ", E, " rates ", match);
    bool hint = mc::throws([&] { lib::load_from_disk<data::Matcher>(dir, svs::DataType::undef, E); });
    MC_CHECK(hint == (d != E), "hint", where, ": dimension hint ", E, hint ? " refused" : " accepted");
    if (d == E) {
        return;
    }
    no("loading", [&] { lib::load_from_disk<Plain<T, E>>(dir); });
    no("direct loading", [&] { Plain<T, E>::load(dir); });
    no("blocked loading", [&] { lib::load_from_disk<Block<T, E>>(dir, blocks<T>(64)); });
    no("the typed loader", [&] { svs::VectorDataLoader<T, E>(dir).load(); });
    no("refining", [&] { svs::UnspecializedVectorDataLoader(dir).template refine<T, E>(lib::Type<T>()); });
    no("load_data", [&] { svs::load_data<T, E>(dir); });
}

template <typename T> void datasets() {
    std::vector<Source<T>> sources, fixed_sources;
    std::vector<Sink<T>> sinks, fixed_sinks;
    add_sources<T, svs::Dynamic>(sources, "");
    add_sources<T, 3>(fixed_sources, "<3>");
    add_sinks<T, svs::Dynamic>(sinks, "");
    add_sinks<T, 3>(fixed_sinks, "<3>");
    std::vector<size_t> ns{0, 1, 2, 3, 5}, ds{1, 2, 3, 4, 5, 7, 8, 16, 17, 33, 64, 65, 129};
    if (mc::thorough()) {
        ns = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 17};
        ds.clear();
        for (size_t d = 1; d <= 72; ++d) {
            ds.push_back(d);
        }
        for (size_t d : {96, 100, 127, 128, 129, 255, 256, 257, 768, 1023, 1024, 1025}) {
            ds.push_back(d);
        }
    }
    for (size_t d : ds) {
        for (size_t n : ns) {
            auto all = sources;
            if (d == 3) {
                all.insert(all.end(), fixed_sources.begin(), fixed_sources.end());
            }
            for (auto& s : all) {
                mc::run([&] { return mc::str("dataset ", type_name<T>(), " ", n, "x", d, " from ", s.name); }, [&] {
                    auto rows = content<T>(n, d, int(n + d));
                    Dir dir;
                    s.save(rows, d, dir.path);
                    mc::transition();
                    for (auto& k : sinks) {
                        k.check(dir.path, rows, d);
                        mc::trace();
                    }
                    if (d == 3) {
                        for (auto& k : fixed_sinks) {
                            k.check(dir.path, rows, d);
                            mc::trace();
                        }
                    }
                    // Equality as the library sees it, across layouts; NaN differs from itself.
                    if constexpr (std::is_integral_v<T>) {
                        auto original = filled<Plain<T>>(rows, d);
                        MC_CHECK(original == Plain<T>::load(dir.path), "equality", "the reloaded dataset does not compare equal");
                        MC_CHECK(original == Huge<T>::load(dir.path), "equality", "the reloaded dataset does not compare equal with another allocator");
                        if (n > 0) {
                            auto other = rows;
                            other[n - 1][d - 1] = T(other[n - 1][d - 1] ^ 1);
                            MC_CHECK(!(filled<Plain<T>>(other, d) == Plain<T>::load(dir.path)), "equality", "a different dataset compares equal");
                        }
                    }
                    // The binary file found by content may have any name and the directory any place.
                    Dir moved;
                    fs::rename(dir.path, moved.path);
                    for (auto& e : fs::directory_iterator(moved.path)) {
                        if (e.path().extension() == ".svs") {
                            fs::rename(e.path(), moved.path + "/zz renamed.svs");
                            break;
                        }
                    }
                    sinks[0].check(moved.path, rows, d);
                    // Saving again, something else, in the same place replaces what was there.
                    auto other = content<T>(n + 1, d, 99);
                    s.save(other, d, moved.path);
                    sinks[0].check(moved.path, other, d);
                    sinks[5].check(moved.path, other, d);
                    s.save(rows, d, moved.path);
                    s.save(rows, d, moved.path);
                    sinks[0].check(moved.path, rows, d);
                    mc::state(mc::str(type_name<T>(), n, "x", d, s.name));
                });
            }
            mc::run([&] { return mc::str("dataset ", type_name<T>(), " ", n, "x", d, " refusals"); }, [&] {
                auto rows = content<T>(n, d, int(n + d));
                Dir dir;
                sources[0].save(rows, d, dir.path);
                string where = "refusals";
                refuse_type<T, float>(dir.path, where);
                refuse_type<T, double>(dir.path, where);
                refuse_type<T, Float16>(dir.path, where);
                refuse_type<T, uint8_t>(dir.path, where);
                refuse_type<T, int8_t>(dir.path, where);
                refuse_type<T, uint16_t>(dir.path, where);
                refuse_type<T, int16_t>(dir.path, where);
                refuse_type<T, uint32_t>(dir.path, where);
                refuse_type<T, int32_t>(dir.path, where);
                refuse_type<T, uint64_t>(dir.path, where);
                refuse_type<T, int64_t>(dir.path, where);
                refuse_extent<T, 1>(dir.path, d, where);
                refuse_extent<T, 2>(dir.path, d, where);
                refuse_extent<T, 3>(dir.path, d, where);
                refuse_extent<T, 4>(dir.path, d, where);
                refuse_extent<T, 6>(dir.path, d, where);
                refuse_extent<T, 8>(dir.path, d, where);
                refuse_extent<T, 128>(dir.path, d, where);
            });
        }
    }
}

// Graphs -------------------------------------------------------------------------------------------
template <typename I> using Rows32 = data::BlockedData<I, svs::Dynamic>;
template <typename I> struct Growing : graphs::SimpleGraphBase<I, Rows32<I>> {
    using parent_type = graphs::SimpleGraphBase<I, Rows32<I>>;
    static auto alloc(size_t row) {
        data::BlockingParameters bp;
        bp.blocksize_bytes = lib::prevpow2(4 * row * sizeof(I));
        return typename Rows32<I>::allocator_type(bp);
    }
    explicit Growing(Rows32<I> d)
        : parent_type(std::move(d)) {}
    Growing(size_t n, size_t degree)
        : parent_type(n, degree, alloc(degree + 1)) {}
    void unsafe_resize(size_t n) { (parent_type::data_).resize(n); }
    static Growing load(const lib::LoadTable& table, size_t row) {
        return parent_type::load(table, lib::Lazy([](Rows32<I> d) { return Growing(std::move(d)); }), alloc(row));
    }
    static bool check_load_compatibility(std::string_view s, lib::Version v) { return s == "default_graph" && v == lib::Version(0, 0, 0); }
};
template <typename I> using Lists = std::vector<std::vector<I>>;
template <typename I, typename G> void fill(G& g, const Lists<I>& l) {
    for (size_t i = 0; i < l.size(); ++i) {
        g.replace_node(I(i), l[i]);
    }
}
template <typename I, typename G> void expect_graph(const G& g, const Lists<I>& l, size_t degree, const string& where) {
    MC_CHECK(g.n_nodes() == l.size() && g.max_degree() == degree, "graph-shape", where, ": ", g.n_nodes(), " nodes of degree ", g.max_degree());
    for (size_t i = 0; i < l.size(); ++i) {
        auto got = g.get_node(I(i));
        MC_CHECK(g.get_node_degree(I(i)) == l[i].size() && std::equal(got.begin(), got.end(), l[i].begin(), l[i].end()), "graph-list", where, ": node ", i, " has ", mc::list(got),
            " instead of ", mc::list(l[i]));
    }
    mc::evaluation();
}
template <typename I, typename D> void graph_case(const Lists<I>& lists, size_t degree, const D& show) {
    mc::run(show, [&] {
        auto source = [&](int k, const string& dir) {
            auto go = [&](auto&& g) {
                fill(g, lists);
                lib::save_to_disk(g, dir);
                expect_graph(g, lists, degree, "the saved graph itself");
            };
            if (k == 0) {
                go(graphs::SimpleGraph<I>(lists.size(), degree));
            } else if (k == 1) {
                go(graphs::SimpleGraph<I, lib::Allocator<I>>(lists.size(), degree));
            } else if (k == 2) {
                go(Growing<I>(lists.size(), degree));
            } else {
                Growing<I> g(0, degree);
                g.unsafe_resize(lists.size() + 2);
                g.unsafe_resize(lists.size());
                go(g);
            }
        };
        for (int k = 0; k < 4; ++k) {
            Dir dir;
            string where = mc::str("source ", k);
            auto loads = [&] {
                expect_graph(lib::load_from_disk<graphs::SimpleGraph<I>>(dir.path), lists, degree, where + " to plain");
                expect_graph(graphs::SimpleGraph<I>::load(dir.path), lists, degree, where + " directly to plain");
                expect_graph(graphs::SimpleGraph<I>::load(dir.path + "/svs_config.toml"), lists, degree, where + " by description to plain");
                expect_graph(graphs::SimpleGraph<I, lib::Allocator<I>>::load(dir.path), lists, degree, where + " to another allocator");
                expect_graph(lib::load_from_disk<Growing<I>>(dir.path, degree + 1), lists, degree, where + " to blocked");
                expect_graph(svs::GraphLoader<I>(dir.path).load(), lists, degree, where + " by loader");
                if (sizeof(I) != 4) {
                    MC_CHECK(mc::throws([&] { graphs::SimpleGraph<uint32_t>::load(dir.path); }), "graph-accepted", where, ": accepted as a graph of 32-bit identifiers");
                } else {
                    MC_CHECK(mc::throws([&] { graphs::SimpleGraph<uint64_t>::load(dir.path); }), "graph-accepted", where, ": accepted as a graph of 64-bit identifiers");
                    MC_CHECK(mc::throws([&] { graphs::SimpleGraph<uint16_t>::load(dir.path); }), "graph-accepted", where, ": accepted as a graph of 16-bit identifiers");
                }
                MC_CHECK(mc::throws([&] { Plain<I>::load(dir.path); }), "graph-accepted", where, ": accepted as a dataset");
            };
            source(k, dir.path);
            loads();
            for (auto& e : fs::directory_iterator(dir.path)) {
                if (e.path().extension() == ".svs") {
                    fs::rename(e.path(), dir.path + "/A renamed.svs");
                    break;
                }
            }
            loads();
            source(3 - k, dir.path);
            loads();
            mc::trace(3);
            mc::transition(3);
        }
        mc::state(mc::str("graph", sizeof(I), degree, lists.size()));
    });
}
// The lists of 'n' nodes with up to 'degree' neighbours: every assignment of the variants below.
template <typename I> void graph_cases(size_t max_n, size_t max_degree) {
    for (size_t degree = 1; degree <= max_degree; ++degree) {
        for (size_t n = 0; n <= max_n; ++n) {
            // Variants of a list: a length and a rotation of the other nodes.
            size_t variants = std::min(degree, n ? n - 1 : 0) + 1;
            size_t total = 1;
            for (size_t i = 0; i < n; ++i) {
                total *= variants;
            }
            for (size_t code = 0; code < total; ++code) {
                Lists<I> lists(n);
                size_t c = code;
                for (size_t i = 0; i < n; ++i, c /= variants) {
                    for (size_t j = 0; j < c % variants; ++j) {
                        lists[i].push_back(I((i + (code + j) % (n - 1) + 1) % n));
                    }
                }
                graph_case(lists, degree, [&] { return mc::str("graph ", type_name<I>(), " ", n, "/", degree, " #", code); });
            }
        }
    }
    for (size_t degree : {7, 8, 15, 16, 31, 32, 63, 64, 127, 128}) {
        size_t n = degree + 3;
        Lists<I> lists(n);
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < (i * 5) % (degree + 1); ++j) {
                lists[i].push_back(I((i + j + 1) % n));
            }
        }
        graph_case(lists, degree, [&] { return mc::str("graph ", type_name<I>(), " wide /", degree); });
    }
}

// Identifier maps ----------------------------------------------------------------------------------
using Map = std::map<size_t, size_t>;
static void expect_map(const svs::IDTranslator& t, const Map& m, const string& where) {
    MC_CHECK(t.size() == m.size(), "map-size", where, ": ", t.size(), " entries instead of ", m.size());
    Map got;
    for (auto it = t.begin(); it != t.end(); ++it) {
        got[it->first] = it->second;
    }
    MC_CHECK(got == m, "map-entries", where, ": other entries");
    for (auto [e, i] : m) {
        MC_CHECK(t.has_external(e) && t.get_internal(e) == i && t.has_internal(i) && t.get_external(i) == e, "map-lookup", where, ": ", e, " and ", i, " do not belong together");
    }
    mc::evaluation();
}
static void map_case(const Map& m, const std::function<void(svs::IDTranslator&)>& make, const std::function<string()>& show) {
    mc::run(show, [&] {
        svs::IDTranslator t;
        make(t);
        expect_map(t, m, "before saving");
        Dir dir;
        lib::save_to_disk(t, dir.path);
        expect_map(t, m, "the saved map itself");
        auto back = lib::load_from_disk<svs::IDTranslator>(dir.path);
        expect_map(back, m, "loaded");
        // A second generation, and saving over another map.
        Dir again;
        lib::save_to_disk(back, again.path);
        expect_map(lib::load_from_disk<svs::IDTranslator>(again.path), m, "loaded twice");
        svs::IDTranslator other;
        other.insert(std::vector<size_t>{3, 1, 2, 8, 7}, std::vector<size_t>{0, 1, 2, 3, 4});
        lib::save_to_disk(other, again.path);
        lib::save_to_disk(t, again.path);
        expect_map(lib::load_from_disk<svs::IDTranslator>(again.path), m, "saved over another");
        // What is loaded accepts further entries.
        size_t e = 0, i = 0;
        while (m.count(e)) {
            ++e;
        }
        while (back.has_internal(i)) {
            ++i;
        }
        back.insert(std::vector<size_t>{e}, std::vector<size_t>{i});
        auto more = m;
        more[e] = i;
        expect_map(back, more, "extended after loading");
        mc::trace(3);
        mc::transition(3);
        mc::state(mc::hash(show()));
    });
}
static void maps() {
    // Every injection of a subset of the external candidates into the internal candidates.
    std::vector<size_t> ext{0, 5, size_t(1) << 32, ~size_t(0)}, in{0, 1, 2, size_t(UINT32_MAX)};
    if (mc::thorough()) {
        ext = {0, 1, 5, 0xffffffffull, size_t(1) << 32, ~size_t(0)};
        in = {0, 1, 2, 7, 0x80000000ull, size_t(UINT32_MAX)};
    }
    std::function<void(size_t, Map&, unsigned)> go = [&](size_t k, Map& m, unsigned used) {
        if (k == ext.size()) {
            map_case(m, [&](svs::IDTranslator& t) {
                std::vector<size_t> e, i;
                for (auto [x, y] : m) {
                    e.push_back(x);
                    i.push_back(y);
                }
                t.insert(e, i);
            }, [&] {
                string s = "map";
                for (auto [x, y] : m) {
                    s += mc::str(" ", x, "=", y);
                }
                return s;
            });
            return;
        }
        go(k + 1, m, used);
        for (size_t j = 0; j < in.size(); ++j) {
            if (!(used >> j & 1)) {
                m[ext[k]] = in[j];
                go(k + 1, m, used | 1u << j);
                m.erase(ext[k]);
            }
        }
    };
    Map m;
    go(0, m, 0);
    // Histories: identity, deletions, remapping.
    for (size_t n = 0; n <= 6; ++n) {
        for (unsigned gone = 0; gone < 1u << n; ++gone) {
            for (int by = 0; by < 2; ++by) {
                Map m;
                std::vector<size_t> del;
                for (size_t i = 0; i < n; ++i) {
                    if (gone >> i & 1) {
                        del.push_back(i);
                    } else {
                        m[i] = i;
                    }
                }
                if (!m.empty() && gone) {
                    m.rbegin()->second = del[0];
                }
                map_case(m, [&](svs::IDTranslator& t) {
                    t = svs::IDTranslator(svs::IDTranslator::Identity(n));
                    if (by) {
                        t.delete_external(del);
                    } else {
                        t.delete_internal(del);
                    }
                    if (!m.empty() && gone) {
                        t.remap_internal_id(uint32_t(m.rbegin()->first), uint32_t(del[0]));
                    }
                }, [&] { return mc::str("map identity ", n, " without ", gone, by ? " by external" : " by internal"); });
            }
        }
    }
    for (size_t n : {100, 1000}) {
        Map m;
        for (size_t i = 0; i < n; ++i) {
            m[i * 0x100000001ull] = n - 1 - i;
        }
        map_case(m, [&](svs::IDTranslator& t) {
            for (auto [x, y] : m) {
                t.insert(std::vector<size_t>{x}, std::vector<size_t>{y});
            }
        }, [&] { return mc::str("map of ", n); });
    }
}

// Several objects under one directory --------------------------------------------------------------
static std::vector<int> bundle_kinds;
struct Bundle {
    std::vector<int> kinds;
    std::vector<string> content; // of what was loaded
    static constexpr size_t n_kinds = 6;
    template <typename D> static string text(const D& x) {
        string s = mc::str(x.size(), "x", x.dimensions(), ":");
        for (size_t i = 0; i < x.size(); ++i) {
            auto r = x.get_datum(i);
            s.append(reinterpret_cast<const char*>(r.data()), r.size_bytes());
        }
        return s;
    }
    template <typename G> static string graph_text(const G& g) {
        string s = mc::str("graph ", g.n_nodes(), "/", g.max_degree());
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            s += mc::list(g.get_node(i));
        }
        return s;
    }
    static string map_text(const svs::IDTranslator& t) {
        Map m;
        for (auto it = t.begin(); it != t.end(); ++it) {
            m[it->first] = it->second;
        }
        string s = "map";
        for (auto [e, i] : m) {
            s += mc::str(" ", e, "=", i);
        }
        return s;
    }
    // All objects of a kind have the same shape, so that a mix-up cannot be told by it.
    template <typename F> static auto with(int kind, size_t pos, F f) {
        switch (kind) {
        case 0:
            return f(filled<Plain<float>>(content_of<float>(pos), 4));
        case 1:
            return f(filled<Plain<uint8_t>>(content_of<uint8_t>(pos), 4));
        case 2:
            return f(filled<Block<float>>(content_of<float>(pos), 4, blocks<float>(32)));
        case 3: {
            graphs::SimpleGraph<uint32_t> g(3, 2);
            for (uint32_t i = 0; i < 3; ++i) {
                g.replace_node(i, std::vector<uint32_t>{uint32_t((i + pos) % 3)});
            }
            return f(std::move(g));
        }
        case 4: {
            svs::IDTranslator t;
            t.insert(std::vector<size_t>{10 * pos, 10 * pos + 1}, std::vector<size_t>{1, 0});
            return f(std::move(t));
        }
        default:
            return f(std::vector<uint32_t>{uint32_t(pos), 7, uint32_t(100 - pos)});
        }
    }
    template <typename T> static Rows<T> content_of(size_t pos) {
        Rows<T> r(3, std::vector<T>(4));
        for (size_t i = 0; i < 12; ++i) {
            r[i / 4][i % 4] = T(i + 20 * pos);
        }
        return r;
    }
    template <typename X> static string show(const X& x) {
        if constexpr (std::is_same_v<X, svs::IDTranslator>) {
            return map_text(x);
        } else if constexpr (std::is_same_v<X, graphs::SimpleGraph<uint32_t>>) {
            return graph_text(x);
        } else if constexpr (std::is_same_v<X, std::vector<uint32_t>>) {
            return mc::list(x);
        } else {
            return text(x);
        }
    }
    static string expected(int kind, size_t pos) {
        return with(kind, pos, [](auto&& x) { return show(x); });
    }
    static constexpr lib::Version save_version{0, 0, 1};
    static constexpr std::string_view serialization_schema = "bundle";
    lib::SaveTable save(const lib::SaveContext& ctx) const {
        lib::SaveTable t(serialization_schema, save_version);
        for (size_t i = 0; i < kinds.size(); ++i) {
            with(kinds[i], i, [&](auto&& x) {
                using X = std::remove_cvref_t<decltype(x)>;
                if constexpr (std::is_same_v<X, std::vector<uint32_t>>) {
                    t.insert(mc::str("item", i), lib::save(lib::BinaryBlobSaver(x), ctx));
                } else {
                    t.insert(mc::str("item", i), lib::save(x, ctx));
                }
                return 0;
            });
        }
        return t;
    }
    static Bundle load(const lib::LoadTable& t) {
        Bundle b;
        b.kinds = bundle_kinds;
        for (size_t i = 0; i < b.kinds.size(); ++i) {
            string key = mc::str("item", i);
            switch (b.kinds[i]) {
            case 0:
                b.content.push_back(show(lib::load_at<Plain<float>>(t, key)));
                break;
            case 1:
                b.content.push_back(show(lib::load_at<Plain<uint8_t>>(t, key)));
                break;
            case 2:
                b.content.push_back(show(lib::load_at<Block<float>>(t, key, blocks<float>(16))));
                break;
            case 3:
                b.content.push_back(show(lib::load_at<graphs::SimpleGraph<uint32_t>>(t, key)));
                break;
            case 4:
                b.content.push_back(show(lib::load_at<svs::IDTranslator>(t, key)));
                break;
            default: {
                std::vector<uint32_t> v = lib::load_at<lib::BinaryBlobLoader<uint32_t>>(t, key);
                b.content.push_back(show(v));
            }
            }
        }
        return b;
    }
};
static void expect_bundle(const string& dir, const std::vector<int>& kinds, const string& where) {
    bundle_kinds = kinds;
    auto b = lib::load_from_disk<Bundle>(dir);
    for (size_t i = 0; i < kinds.size(); ++i) {
        MC_CHECK(b.content[i] == Bundle::expected(kinds[i], i), "bundle", where, ": object ", i, " came back as ", b.content[i]);
    }
    mc::evaluation();
}
static void bundles() {
    size_t longest = mc::thorough() ? 4 : 3;
    std::function<void(std::vector<int>&)> go = [&](std::vector<int>& kinds) {
        mc::run([&] { return "bundle " + mc::list(kinds); }, [&] {
            Dir dir;
            Bundle b{kinds, {}};
            lib::save_to_disk(b, dir.path);
            expect_bundle(dir.path, kinds, "saved");
            size_t files = 0;
            for (auto& e : fs::directory_iterator(dir.path)) {
                files += e.path().filename() != "svs_config.toml";
            }
            MC_CHECK(files == kinds.size(), "bundle-files", files, " files for ", kinds.size(), " objects");
            mc::transition();
            // Saving again (the same, or another bundle first) leaves the latest.
            lib::save_to_disk(b, dir.path);
            expect_bundle(dir.path, kinds, "saved twice");
            auto reversed = kinds;
            std::reverse(reversed.begin(), reversed.end());
            lib::save_to_disk(Bundle{reversed, {}}, dir.path);
            expect_bundle(dir.path, reversed, "another saved over it");
            // Every permutation of the names of the files found by identifier.
            Dir clean;
            lib::save_to_disk(b, clean.path);
            std::vector<fs::path> names;
            for (auto& e : fs::directory_iterator(clean.path)) {
                if (e.path().extension() == ".svs") {
                    names.push_back(e.path().filename());
                }
            }
            std::sort(names.begin(), names.end());
            auto target = names;
            do {
                Dir p;
                fs::create_directories(p.path);
                for (auto& e : fs::directory_iterator(clean.path)) {
                    auto k = std::find(names.begin(), names.end(), e.path().filename()) - names.begin();
                    fs::copy_file(e.path(), fs::path(p.path) / (size_t(k) < names.size() ? target[k] : e.path().filename()));
                }
                expect_bundle(p.path, kinds, "files permuted");
                mc::trace();
            } while (std::next_permutation(target.begin(), target.end()));
            // New names, with files in the way that belong to nothing.
            Dir p;
            fs::create_directories(p.path);
            int k = 0;
            for (auto& e : fs::directory_iterator(clean.path)) {
                auto native = e.path().extension() == ".svs";
                fs::copy_file(e.path(), fs::path(p.path) / (native ? fs::path(mc::str("m", 9 - k++, ".svs")) : e.path().filename()));
            }
            std::ofstream(p.path + "/a.svs") << "not a vector file at all, but long enough to hold a header " << string(2000, 'x');
            std::ofstream(p.path + "/b.svs");
            std::ofstream(p.path + "/z.svs") << "short";
            std::ofstream(p.path + "/notes.txt") << "notes";
            fs::create_directories(p.path + "/sub");
            expect_bundle(p.path, kinds, "files renamed among others");
            mc::trace();
            mc::state("bundle" + mc::list(kinds));
        });
        if (kinds.size() < longest) {
            for (size_t k = 0; k < Bundle::n_kinds; ++k) {
                kinds.push_back(int(k));
                go(kinds);
                kinds.pop_back();
            }
        }
    };
    std::vector<int> kinds;
    go(kinds);
}

static void body() {
    mc::ScratchDir s;
    scratch = s.path;
#if PART == 0
    datasets<float>();
    datasets<uint8_t>();
    datasets<Float16>();
#elif PART == 1
    datasets<int8_t>();
    datasets<double>();
    datasets<uint16_t>();
    datasets<int16_t>();
#elif PART == 2
    datasets<uint32_t>();
    datasets<int32_t>();
    datasets<uint64_t>();
    datasets<int64_t>();
#else
    graph_cases<uint32_t>(mc::thorough() ? 4 : 3, 4);
    graph_cases<uint64_t>(3, 3);
    graph_cases<uint8_t>(3, 2);
    graph_cases<uint16_t>(3, 2);
    maps();
    bundles();
#endif
}
MC_MAIN("C22", body)
