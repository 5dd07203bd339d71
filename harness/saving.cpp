// C26: structured saving. Every value of the supported kinds at all boundaries, alone, in
// vectors and in objects, in memory and through the text on disk; every object with every field
// removed, retyped or altered; every combination of saved and accepted schema and version.
#include "mc.h"
#include "svs/core/distance.h"
#include "svs/index/inverted/memory_build_params.h"
#include "svs/index/inverted/memory_search_params.h"
#include "svs/index/vamana/index.h"
#include "svs/lib/saveload.h"

#include <limits>
#include <sstream>

namespace lib = svs::lib;
namespace fs = std::filesystem;
using std::string;

static string scratch;

// What a value becomes on disk, parsed.
struct OnDisk {
    toml::table table;
    explicit OnDisk(const string& text)
        : table(toml::parse(text)) {}
    const toml::node& object() const { return *table.get(lib::config_object_key); }
};
// The text of a node as the library writes it to a file.
template <typename N> string text_of(N&& node) {
    auto path = scratch + "/text.toml";
    lib::detail::save_node_to_file(std::forward<N>(node), path);
    std::ifstream i(path, std::ios::binary);
    std::ostringstream s;
    s << i.rdbuf();
    return s.str();
}
template <typename T> OnDisk through_text(const T& x) { return OnDisk(text_of(lib::save(x))); }

template <typename F> bool same(F a, F b) {
    return (std::isnan(a) && std::isnan(b)) || (a == b && std::signbit(a) == std::signbit(b));
}

// Integers -----------------------------------------------------------------------------------
template <typename I> std::vector<I> integers() {
    std::vector<I> v;
    if constexpr (sizeof(I) <= 2) {
        for (int64_t x = std::numeric_limits<I>::min(); x <= int64_t(std::numeric_limits<I>::max()); ++x) {
            v.push_back(I(x));
        }
    } else {
        std::set<I> s{std::numeric_limits<I>::min(), std::numeric_limits<I>::max()};
        for (int b = 0; b < int(8 * sizeof(I)); ++b) {
            for (int d = -3; d <= 3; ++d) {
                using U = std::make_unsigned_t<I>;
                U p = (U(1) << b) + U(d);
                s.insert(I(p));
                s.insert(I(U(0) - p));
                s.insert(I(p + (p >> 1)));
            }
        }
        v.assign(s.begin(), s.end());
    }
    return v;
}
template <typename J, typename I> bool fits(I x) {
    return std::in_range<J>(x);
}
template <typename J, typename I, typename Node> void read_as(I x, const Node& node, const char* how) {
    J got{};
    bool threw = mc::throws([&] { got = lib::load<J>(lib::node_view(node)); });
    bool fine = fits<J>(x);
    MC_CHECK(threw == !fine, "integer", how, ": ", +x, " saved from ", svs::name(svs::datatype_v<I>), threw ? " refused as " : " read as ", svs::name(svs::datatype_v<J>), " ", threw ? 0 : +got);
    MC_CHECK(!fine || std::cmp_equal(got, x), "integer", how, ": ", +x, " came back as ", +got);
    mc::evaluation();
}
template <typename I> void integer_type() {
    auto all = integers<I>();
    mc::run([&] { return mc::str("integers ", svs::name(svs::datatype_v<I>)); }, [&] {
        std::vector<I> storable;
        for (I x : all) {
            bool ok = fits<int64_t>(x);
            std::unique_ptr<toml::node> node;
            bool threw = mc::throws([&] { node = lib::save(x); });
            MC_CHECK(threw == !ok, "integer", "saving ", +x, threw ? " was refused" : " was accepted");
            mc::transition();
            // All 64 bits as a bit pattern.
            if constexpr (std::is_unsigned_v<I>) {
                auto full = lib::save(lib::FullUnsigned(x));
                MC_CHECK(lib::load<lib::FullUnsigned>(lib::node_view(full)).value() == x, "integer", "full unsigned ", +x);
            }
            if (!ok) {
                continue;
            }
            storable.push_back(x);
            read_as<uint8_t>(x, *node, "memory");
            read_as<uint16_t>(x, *node, "memory");
            read_as<uint32_t>(x, *node, "memory");
            read_as<uint64_t>(x, *node, "memory");
            read_as<int8_t>(x, *node, "memory");
            read_as<int16_t>(x, *node, "memory");
            read_as<int32_t>(x, *node, "memory");
            read_as<int64_t>(x, *node, "memory");
        }
        auto disk = through_text(storable);
        auto got = lib::load<std::vector<I>>(lib::node_view(disk.object()));
        MC_CHECK(got == storable, "integer", "a vector came back different from disk");
        size_t i = 0;
        for (const toml::node& node : *disk.object().as_array()) {
            I x = storable[i++];
            read_as<uint8_t>(x, node, "disk");
            read_as<uint16_t>(x, node, "disk");
            read_as<uint32_t>(x, node, "disk");
            read_as<uint64_t>(x, node, "disk");
            read_as<int8_t>(x, node, "disk");
            read_as<int16_t>(x, node, "disk");
            read_as<int32_t>(x, node, "disk");
            read_as<int64_t>(x, node, "disk");
        }
        if constexpr (std::is_unsigned_v<I>) {
            std::vector<lib::FullUnsigned> full;
            for (I x : all) {
                full.emplace_back(x);
            }
            auto d = through_text(full);
            auto back = lib::load<std::vector<lib::FullUnsigned>>(lib::node_view(d.object()));
            for (size_t j = 0; j < all.size(); ++j) {
                MC_CHECK(back[j].value() == all[j], "integer", "full unsigned ", +all[j], " came back from disk as ", back[j].value());
            }
        }
        mc::trace();
        mc::state(mc::str(svs::name(svs::datatype_v<I>)));
    });
}

// Floating point -----------------------------------------------------------------------------
template <typename F, typename B> std::vector<F> floats(int exponent_bits, int mantissa_bits) {
    std::vector<F> v;
    std::vector<B> mantissas{0};
    B ones = (B(1) << mantissa_bits) - 1;
    for (int b = 0; b < mantissa_bits; ++b) {
        mantissas.push_back(B(1) << b);
        mantissas.push_back(ones ^ (B(1) << b));
        mantissas.push_back(ones >> b);
        mantissas.push_back(ones & ~(ones >> b));
    }
    for (B m : {0x5555555555555555ull, 0x3333333333333333ull, 0x9999999999999999ull, 0xaaaaaaaaaaaaaaaaull}) {
        mantissas.push_back(m & ones);
    }
    for (B s : {0, 1}) {
        for (B e = 0; e < (B(1) << exponent_bits); ++e) {
            for (B m : mantissas) {
                if (e + 1 == (B(1) << exponent_bits) && m != 0) {
                    continue; // not a number: below
                }
                B bits = (s << (exponent_bits + mantissa_bits)) | (e << mantissa_bits) | m;
                v.push_back(std::bit_cast<F>(bits));
            }
        }
    }
    return v;
}
template <typename F> void float_chunks(const std::vector<F>& all, const char* name) {
    constexpr size_t chunk = 20000;
    for (size_t at = 0; at < all.size(); at += chunk) {
        mc::run([&] { return mc::str(name, " from ", at); }, [&] {
            std::vector<F> part(all.begin() + at, all.begin() + std::min(all.size(), at + chunk));
            for (F x : part) {
                auto node = lib::save(x);
                MC_CHECK(same(lib::load<F>(lib::node_view(node)), x), "float", x, " came back differently in memory");
                auto d = lib::load<double>(lib::node_view(node));
                MC_CHECK(same(d, double(x)), "float", x, " reads as ", d);
                // Reading with less precision rounds, but never turns a number into an infinity.
                float f = 0;
                bool threw = mc::throws([&] { f = lib::load<float>(lib::node_view(node)); });
                bool inf = std::isinf(float(double(x))) && !std::isinf(x);
                MC_CHECK(threw == inf && (inf || same(f, float(x))), "float", double(x), threw ? " refused as float" : " read as float ", threw ? 0 : f);
                mc::transition();
            }
            auto disk = through_text(part);
            auto got = lib::load<std::vector<F>>(lib::node_view(disk.object()));
            for (size_t i = 0; i < part.size(); ++i) {
                MC_CHECK(i < got.size() && same(got[i], part[i]), "float", mc::str(double(part[i])), " came back from disk as ", double(got[i]));
                mc::evaluation();
            }
            mc::trace();
        });
    }
}
static void nans() {
    mc::run([] { return string("not a number"); }, [&] {
        // Either refused or preserved.
        for (double x : {std::nan(""), -std::nan("")}) {
            std::unique_ptr<toml::node> node;
            if (!mc::throws([&] { node = lib::save(x); })) {
                MC_CHECK(std::isnan(lib::load<double>(lib::node_view(node))), "float", "not a number came back as a number");
                OnDisk d(text_of(std::move(node)));
                MC_CHECK(std::isnan(lib::load<double>(lib::node_view(d.object()))), "float", "not a number came back from disk as a number");
            }
        }
        mc::trace();
    });
    mc::run([] { return string("fractions and truth values"); }, [&] {
        for (double x : {0.0, -0.0, 1.0, 0.5, 1e-300, 0x1p-1074, std::nextafter(1.0, 0.0), std::nextafter(1.0, 2.0), -0x1p-1074, -1.0, 2.0, 1e300, double(INFINITY), -double(INFINITY), std::nan("")}) {
            bool fine = x >= 0 && x <= 1;
            lib::Percent p;
            MC_CHECK(mc::throws([&] { p = lib::Percent(x); }) == !fine, "percent", x);
            toml::value<double> v(x);
            lib::Percent q;
            MC_CHECK(mc::throws([&] { q = lib::load<lib::Percent>(lib::node_view(static_cast<const toml::node&>(v))); }) == !fine, "percent", "reading ", x);
            if (fine) {
                auto d = through_text(p);
                MC_CHECK(q == p && lib::load<lib::Percent>(lib::node_view(d.object())).value() == x, "percent", x, " came back differently");
            }
            mc::evaluation();
        }
        for (size_t n = 0; n <= 10; ++n) {
            for (size_t bits = 0; bits < (size_t(1) << n); ++bits) {
                std::vector<bool> v;
                for (size_t i = 0; i < n; ++i) {
                    v.push_back((bits >> i) & 1);
                }
                auto d = through_text(v);
                MC_CHECK((lib::load<std::vector<bool>>(lib::node_view(d.object())) == v), "bool", "vector of ", n, " bits ", bits);
                mc::evaluation();
            }
        }
        mc::trace();
    });
}

// Strings ------------------------------------------------------------------------------------
static bool valid_utf8(const string& s) {
    for (size_t i = 0; i < s.size();) {
        unsigned char c = s[i];
        size_t n = c < 0x80 ? 1 : c >= 0xc2 && c < 0xe0 ? 2 : c >= 0xe0 && c < 0xf0 ? 3 : c >= 0xf0 && c < 0xf5 ? 4 : 0;
        if (!n || i + n > s.size()) {
            return false;
        }
        for (size_t j = 1; j < n; ++j) {
            if ((static_cast<unsigned char>(s[i + j]) & 0xc0) != 0x80) {
                return false;
            }
        }
        i += n;
    }
    return true;
}
static void check_string(const string& s) {
    auto node = lib::save(s);
    MC_CHECK(lib::load<string>(lib::node_view(node)) == s, "string", "a text came back differently in memory");
    auto path = lib::save(fs::path(s));
    MC_CHECK(lib::load<fs::path>(lib::node_view(path)).native() == s, "string", "a path came back differently in memory");
    auto view = lib::save(std::string_view(s));
    MC_CHECK(lib::load<string>(lib::node_view(view)) == s, "string", "a text came back differently in memory");
    auto text = text_of(std::move(node));
    MC_CHECK(text == text_of(std::move(path)) && text == text_of(std::move(view)), "string", "text and path are written differently");
    string got;
    bool threw = mc::throws([&] {
        OnDisk d(text);
        got = lib::load<string>(lib::node_view(d.object()));
        MC_CHECK(lib::load<fs::path>(lib::node_view(d.object())).native() == got, "string", "text and path are read differently");
    });
    mc::evaluation();
    if (threw) {
        MC_CHECK(!valid_utf8(s), "string", "the text ", mc::list(s), " cannot be read back from ", text);
        mc::count("texts refused");
        return;
    }
    // The printer of the TOML library alters texts that are not UTF-8.
    MC_CHECK(got == s || valid_utf8(s), "string-not-utf8", "the text ", mc::list(s), " came back as ", mc::list(got), " from ", text);
    MC_CHECK(got == s, "string", "the text ", mc::list(s), " came back as ", mc::list(got));
}
static void strings() {
    for (int a = -1; a < 256; ++a) {
        mc::run([&] { return mc::str("texts of <=2 bytes beginning with ", a); }, [&] {
            string s;
            if (a >= 0) {
                s += char(a);
                for (int b = 0; b < 256; ++b) {
                    check_string(s + char(b));
                }
            }
            check_string(s);
            mc::trace();
        });
    }
    std::vector<string> alphabet{"a", "\"", "'", "\\", "\n", "\r", "\t", string(1, 0), "\x1f", "\x7f", "é", "\xe2\x82\xac", "\xf0\x9f\x92\xa9", " ", "#", "=", "[", "]", "{", ",", "u", "0"};
    size_t n = alphabet.size(), depth = mc::thorough() ? 4 : 3;
    for (size_t first = 0; first < n; ++first) {
        mc::run([&] { return mc::str("texts of ", depth, " symbols beginning with symbol ", first); }, [&] {
            std::vector<size_t> digit(depth - 1, 0);
            while (true) {
                string s = alphabet[first];
                for (auto d : digit) {
                    s += alphabet[d];
                }
                check_string(s);
                mc::transition();
                size_t i = 0;
                while (i < digit.size() && ++digit[i] == n) {
                    digit[i++] = 0;
                }
                if (i == digit.size()) {
                    break;
                }
            }
            mc::trace();
        });
    }
    mc::run([] { return string("long texts and text-like values"); }, [&] {
        for (size_t len : {100, 1000, 4096, 65537}) {
            for (auto& a : alphabet) {
                string s;
                while (s.size() < len) {
                    s += a;
                }
                check_string(s);
                check_string("x" + s + "y");
            }
        }
        // Texts that look like other values stay texts.
        for (string s : {"1", "1.0", "true", "nan", "inf", "1979-05-27", "1979-05-27T07:32:00", "[]", "{}", "v0.0.1", "0x10"}) {
            check_string(s);
            auto d = through_text(s);
            MC_CHECK(d.object().is_string(), "string", s, " is no longer a text");
        }
        mc::trace();
    });
}

// Every kind of value read as every other kind ---------------------------------------------------
struct Kind {
    string name;
    std::unique_ptr<toml::node> node;
    char type;
};
static std::vector<Kind> kinds() {
    std::vector<Kind> k;
    auto add = [&](string name, char type, std::unique_ptr<toml::node> node) { k.push_back({name, std::move(node), type}); };
    add("integer", 'i', lib::save(5));
    add("zero", 'i', lib::save(0));
    add("negative integer", 'i', lib::save(-5));
    add("float", 'f', lib::save(0.5));
    add("whole float", 'f', lib::save(1.0));
    add("true", 'b', lib::save(true));
    add("false", 'b', lib::save(false));
    add("text", 's', lib::save(string("float32")));
    add("empty text", 's', lib::save(string()));
    add("numeric text", 's', lib::save(string("5")));
    add("empty array", 'a', lib::save(std::vector<int>()));
    add("array", 'a', lib::save(std::vector<int>{1, 2}));
    add("table", 't', std::make_unique<toml::table>());
    add("table with metadata", 't', std::make_unique<toml::table>(lib::SaveTable("s", lib::Version(0, 0, 0)).get()));
    add("date", 'd', lib::save(std::chrono::system_clock::time_point{}));
    return k;
}
template <typename T> void read_kind(char accepts, const char* name) {
    mc::run([&] { return mc::str("kinds read as ", name); }, [&] {
        for (auto& k : kinds()) {
            bool threw = mc::throws([&] { (void)lib::load<T>(lib::node_view(k.node)); });
            MC_CHECK(k.type == accepts || threw, "kind", k.name, " was accepted as ", name);
            mc::evaluation();
        }
        mc::trace();
    });
}

// Schema and version -------------------------------------------------------------------------
// An object of a schema and version, accepted by exactly that schema and version, ...
struct Exact {
    static constexpr lib::Version save_version{0, 1, 2};
    static constexpr std::string_view serialization_schema = "exact";
    int64_t value = 0;
    lib::SaveTable save() const { return lib::SaveTable(serialization_schema, save_version, {{"value", lib::save(value)}}); }
    static Exact load(const lib::ContextFreeLoadTable& t) { return {lib::load_at<int64_t>(t, "value")}; }
    static lib::TryLoadResult<Exact> try_load(const lib::ContextFreeLoadTable& t) { return load(t); }
    bool operator==(const Exact&) const = default;
};
// ... or by what its own check says.
struct Checked {
    static constexpr lib::Version save_version{9, 9, 9}; // not consulted
    static constexpr std::string_view serialization_schema = "not consulted";
    int64_t value = 0;
    static bool check_load_compatibility(std::string_view s, lib::Version v) { return (s == "exact" && v <= lib::Version(0, 1, 2)) || s == "any"; }
    static Checked load(const lib::ContextFreeLoadTable& t) { return {lib::load_at<int64_t>(t, "value")}; }
    static lib::TryLoadResult<Checked> try_load(const lib::ContextFreeLoadTable& t) { return load(t); }
};
template <typename T> void gate(const char* name) {
    std::vector<string> schemas{"exact", "any", "", "exac", "exactx", "Exact", "not consulted", " exact"};
    mc::run([&] { return mc::str("schema and version gate, ", name); }, [&] {
        for (auto& schema : schemas) {
            for (size_t ma = 0; ma < 3; ++ma) {
                for (size_t mi = 0; mi < 4; ++mi) {
                    for (size_t pa = 0; pa < 5; ++pa) {
                        lib::Version v(ma, mi, pa);
                        bool want;
                        if constexpr (std::is_same_v<T, Exact>) {
                            want = schema == "exact" && ma == 0 && mi == 1 && pa == 2;
                        } else {
                            want = (schema == "exact" && ma == 0 && (mi < 1 || (mi == 1 && pa <= 2))) || schema == "any";
                        }
                        auto table = lib::SaveTable(schema, v, {{"value", lib::save(77)}}).get();
                        auto outer = lib::SaveTable("outer", lib::Version(0, 0, 0), {{"inner", table}}).get();
                        std::optional<int64_t> got;
                        string message;
                        auto attempt = [&](auto&& f, const char* how) {
                            got = std::nullopt;
                            message.clear();
                            try {
                                got = f();
                            } catch (const svs::ANNException& e) { message = e.what(); }
                            MC_CHECK(got == (want ? std::optional<int64_t>(77) : std::nullopt), "gate", how, ": (", schema, ",", v.str(), ") was ", got ? "loaded" : "refused");
                            MC_CHECK(want || (message.find(schema) != string::npos && message.find(v.str()) != string::npos), "gate-message", how, ": the error does not name schema and version: ", message);
                            mc::transition();
                        };
                        OnDisk d(text_of(table));
                        attempt([&] { return lib::load<T>(lib::node_view(table)).value; }, "table");
                        attempt([&] { return lib::load<T>(lib::node_view(static_cast<const toml::node&>(table))).value; }, "node");
                        attempt([&] { return lib::load<T>(lib::node_view(d.object())).value; }, "disk");
                        attempt([&] { return lib::load_at<T>(lib::node_view(outer), "inner").value; }, "member");
                        auto trial = [&](auto&& f, const char* how) {
                            lib::TryLoadResult<T> r = f();
                            MC_CHECK(r.has_value() == want && bool(r) == want, "trial", how, ": (", schema, ",", v.str(), ") ", r ? "accepted" : "rejected");
                            if (want) {
                                MC_CHECK(r->value == 77 && (*r).value == 77 && r.value().value == 77 && mc::throws([&] { (void)r.error(); }), "trial", how);
                            } else {
                                MC_CHECK(r.error() == lib::TryLoadFailureReason::InvalidSchema && mc::throws([&] { (void)r.value(); }), "trial", how, ": wrong reason");
                            }
                            mc::transition();
                        };
                        trial([&] { return lib::try_load<T>(lib::node_view(table)); }, "trial of the table");
                        trial([&] { return lib::try_load<T>(lib::node_view(static_cast<const toml::node&>(table))); }, "trial of the node");
                        trial([&] { return lib::try_load_at<T>(lib::node_view(outer), "inner"); }, "trial of the member");
                        auto missing = lib::try_load_at<T>(lib::node_view(outer), "outer");
                        MC_CHECK(!missing && missing.error() == lib::TryLoadFailureReason::MissingKey, "trial", "a missing member");
                        mc::state(schema + v.str());
                    }
                }
            }
        }
        // A trial with something that is not an object.
        for (auto& k : kinds()) {
            if (k.type != 't') {
                auto r = lib::try_load<T>(lib::node_view(k.node));
                MC_CHECK(!r && r.error() == lib::TryLoadFailureReason::Other, "trial", k.name);
            }
        }
        // Objects without complete metadata are refused.
        for (int which = 0; which < 3; ++which) {
            for (auto& k : kinds()) {
                auto t = lib::SaveTable("exact", lib::Version(0, 1, 2), {{"value", lib::save(77)}}).get();
                auto key = which == 0 ? lib::config_schema_key : lib::config_version_key;
                t.erase(key);
                if (which < 2) {
                    k.node->visit([&](auto& inner) { t.insert(key, inner); });
                }
                MC_CHECK(mc::throws([&] { (void)lib::load<T>(lib::node_view(static_cast<const toml::node&>(t))); }), "metadata", "an object with ", which == 2 ? "no" : k.name, " as ", key, " was loaded");
                bool loaded = false;
                mc::throws([&] { loaded = bool(lib::try_load<T>(lib::node_view(static_cast<const toml::node&>(t)))); });
                MC_CHECK(!loaded, "metadata", "a trial of an object with ", k.name, " as ", key, " succeeded");
            }
        }
        mc::trace();
    });
}

// The version of the file itself.
static void file_version() {
    mc::run([] { return string("file versions"); }, [&] {
        auto dir = scratch + "/file_version";
        fs::remove_all(dir);
        fs::create_directory(dir);
        Exact x{5};
        lib::save_to_disk(x, dir);
        MC_CHECK(lib::load_from_disk<Exact>(dir) == x && lib::load_from_disk<Exact>(dir + "/svs_config.toml") == x && lib::load_from_file<Exact>(dir + "/svs_config.toml") == x, "file", "the saved object");
        lib::save_to_file(x, dir + "/alone.toml");
        MC_CHECK(lib::load_from_file<Exact>(dir + "/alone.toml") == x && lib::load_from_disk<Exact>(dir + "/alone.toml") == x, "file", "the saved object in a file");
        MC_CHECK(lib::try_load_from_disk<Exact>(dir).value() == x, "file", "the trial");
        for (size_t ma = 0; ma < 3; ++ma) {
            for (size_t mi = 0; mi < 3; ++mi) {
                for (size_t pa = 0; pa < 5; ++pa) {
                    lib::Version v(ma, mi, pa);
                    bool want = ma == 0 && mi == 0 && pa == 2;
                    lib::detail::save_node_to_file(lib::save(x), dir + "/svs_config.toml", v);
                    MC_CHECK(mc::throws([&] { (void)lib::load_from_disk<Exact>(dir); }) == !want, "file", "file version ", v.str());
                    MC_CHECK(mc::throws([&] { (void)lib::load_from_file<Exact>(dir + "/svs_config.toml"); }) == !want, "file", "file version ", v.str());
                    mc::transition();
                }
            }
        }
        auto write = [&](const string& text) {
            std::ofstream o(dir + "/svs_config.toml", std::ios::binary);
            o << text;
        };
        auto refused = [&](const string& what) {
            MC_CHECK(mc::throws([&] { (void)lib::load_from_disk<Exact>(dir); }), "file", what, " was loaded");
            MC_CHECK(mc::throws([&] { (void)lib::load_from_file<Exact>(dir + "/svs_config.toml"); }), "file", what, " was loaded");
            bool ok = false;
            mc::throws([&] { ok = bool(lib::try_load_from_disk<Exact>(dir)); });
            MC_CHECK(!ok, "file", "a trial of ", what, " succeeded");
            mc::transition();
        };
        // Every prefix of the file.
        auto full = text_of(lib::save(x));
        for (size_t n = 0; n < full.size(); ++n) {
            write(full.substr(0, n));
            Exact got{};
            // Dropping trailing blanks only leaves the same content.
            bool threw = mc::throws([&] { got = lib::load_from_disk<Exact>(dir); });
            MC_CHECK(threw || got == x, "file", "the first ", n, " bytes were read as ", got.value);
            mc::evaluation();
        }
        fs::remove(dir + "/svs_config.toml");
        refused("a missing file");
        write("__version__ = 'v0.0.2'\n");
        refused("a file without object");
        write("[object]\n__schema__ = 'exact'\n__version__ = 'v0.1.2'\nvalue = 5\n");
        refused("a file without version");
        write("__version__ = 2\n[object]\n__schema__ = 'exact'\n__version__ = 'v0.1.2'\nvalue = 5\n");
        refused("a file with a numeric version");
        write("__version__ = 'v0.0.2'\nobject = 5\n");
        refused("a file with a number as object");
        fs::remove_all(dir);
        MC_CHECK(mc::throws([&] { (void)lib::load_from_disk<Exact>(dir); }), "file", "a missing directory was loaded");
        // Saving below a missing directory is refused; saving over an existing object replaces it.
        MC_CHECK(mc::throws([&] { lib::save_to_disk(x, dir + "/a/b"); }), "file", "saving below a missing directory");
        lib::save_to_disk(x, dir);
        lib::save_to_disk(Exact{6}, dir);
        MC_CHECK(lib::load_from_disk<Exact>(dir) == Exact{6}, "file", "saving over an older object");
        fs::remove_all(dir);
        mc::trace();
    });
}

// Parameter objects: every field at its boundaries, removed, retyped ------------------------------
namespace va = svs::index::vamana;
namespace inv = svs::index::inverted;

template <typename T> std::vector<toml::table*> nested(toml::table& t, T&& f, const string& path = "") {
    for (auto&& [k, v] : t) {
        string key(k.str());
        if (auto* inner = v.as_table()) {
            nested(*inner, f, path + key + ".");
        }
        f(t, key, path);
    }
    return {};
}
// The list of (path, key) pairs of all entries.
static std::vector<std::pair<string, string>> entries(toml::table t) {
    std::vector<std::pair<string, string>> r;
    nested(t, [&](toml::table&, const string& k, const string& p) { r.emplace_back(p, k); });
    return r;
}
static toml::table& table_at(toml::table& t, const string& path) {
    toml::table* x = &t;
    std::istringstream s(path);
    for (string part; std::getline(s, part, '.');) {
        x = x->get(part)->as_table();
    }
    return *x;
}
// Load an object from a table, in memory and through text. Empty if refused.
template <typename T> std::optional<T> attempt(const toml::table& t, string* message = nullptr) {
    std::optional<T> a, b;
    string m;
    try {
        a = lib::load<T>(lib::node_view(t));
    } catch (const std::exception& e) { m = e.what(); }
    try {
        OnDisk d(text_of(t));
        b = lib::load<T>(lib::node_view(d.object()));
    } catch (const std::exception& e) {}
    MC_CHECK(a == b, "object", "an object loads differently in memory and from text");
    if (message) {
        *message = m;
    }
    return a;
}
static bool metadata(const string& k) { return k == lib::config_schema_key || k == lib::config_version_key; }

template <typename T> void object(const string& name, const std::vector<T>& samples, const std::set<string>& bits_in_64 = {}) {
    mc::run([&] { return "object " + name; }, [&] {
        for (size_t s = 0; s < samples.size(); ++s) {
            const T& x = samples[s];
            auto t = lib::save_to_table(x);
            auto back = attempt<T>(t);
            MC_CHECK(back && *back == x, "object", name, " sample ", s, " came back differently");
            MC_CHECK(lib::save_to_table(*back) == t, "object", name, " sample ", s, " saves differently after loading");
            mc::evaluation();
            for (size_t o = 0; o < samples.size(); ++o) {
                MC_CHECK(s == o || !(samples[o] == x), "object", "two different samples are equal");
            }
        }
        const T& x = samples.back();
        auto t = lib::save_to_table(x);
        for (auto& [path, key] : entries(t)) {
            string message;
            {
                auto altered = t;
                table_at(altered, path).erase(key);
                auto got = attempt<T>(altered, &message);
                MC_CHECK(!got || *got == x, "missing-key", name, " without ", path, key, " was loaded as something else");
                MC_CHECK(got || message.find(key) != string::npos || metadata(key), "missing-key", name, " without ", path, key, ": the error does not name the key: ", message);
                MC_CHECK(!got || key == "name", "missing-key", name, " without ", path, key, " was loaded");
                mc::transition();
            }
            for (auto& k : kinds()) {
                const toml::node& old = *table_at(t, path).get(key);
                if (k.node->type() == old.type()) {
                    continue;
                }
                auto altered = t;
                table_at(altered, path).erase(key);
                k.node->visit([&](auto& inner) { table_at(altered, path).insert(key, inner); });
                auto got = attempt<T>(altered);
                MC_CHECK(!got || (key == "name" && *got == x), "retyped-key", name, " with ", k.name, " as ", path, key, " was loaded");
                mc::transition();
            }
            // Other values of the right kind are either taken exactly or refused.
            auto with = [&](auto v, bool must_load) {
                auto altered = t;
                table_at(altered, path).insert_or_assign(key, v);
                auto got = attempt<T>(altered);
                MC_CHECK(got || !must_load, "field", name, " with ", path, key, " = ", v, " was refused");
                if (got && key != "name") {
                    MC_CHECK(lib::save_to_table(*got) == altered, "field", name, " with ", path, key, " = ", v, " was loaded as something else");
                }
                mc::transition();
            };
            const toml::node& old = *table_at(t, path).get(key);
            if (old.is_integer()) {
                bool ordered = key == "search_window_size" || key == "search_buffer_capacity"; // window <= capacity
                for (int64_t v : {int64_t(0), int64_t(1), int64_t(2), int64_t(255), int64_t(65536), int64_t(1) << 32, (int64_t(1) << 53) + 1, std::numeric_limits<int64_t>::max()}) {
                    with(v, !ordered);
                }
                for (int64_t v : {int64_t(-1), int64_t(-255), std::numeric_limits<int64_t>::min()}) {
                    auto altered = t;
                    table_at(altered, path).insert_or_assign(key, v);
                    if (bits_in_64.count(key)) {
                        with(v, true);
                    } else {
                        MC_CHECK(!attempt<T>(altered), "field", name, " with ", path, key, " = ", v, " was loaded");
                    }
                    mc::transition();
                }
            } else if (old.is_boolean()) {
                with(true, true);
                with(false, true);
            } else if (old.is_floating_point()) {
                for (double v : {0.0, 0.25, 1.0}) {
                    with(v, true);
                }
                for (double v : {-1.0, 1.5, 0x1p-126, 0x1p127, double(INFINITY), -double(INFINITY)}) {
                    with(v, key != "percent_centroids");
                }
            }
        }
        // Schema and version of the object and of every nested one.
        for (auto& [path, key] : entries(t)) {
            if (key == lib::config_schema_key) {
                auto right = table_at(t, path).get(key)->value_or(string());
                for (string v : {string(), right + "x", right.substr(1), string("leanvec")}) {
                    auto altered = t;
                    table_at(altered, path).insert_or_assign(key, v);
                    MC_CHECK(!attempt<T>(altered), "gate", name, " with schema ", v, " at ", path, " was loaded");
                    mc::transition();
                }
            } else if (key == lib::config_version_key) {
                lib::Version right(table_at(t, path).get(key)->value_or(string()));
                for (size_t ma : {0, 1}) {
                    for (size_t mi : {0, 1}) {
                        for (size_t pa = 0; pa < 6; ++pa) {
                            lib::Version v(ma, mi, pa);
                            auto altered = t;
                            table_at(altered, path).insert_or_assign(key, v.str());
                            auto got = attempt<T>(altered);
                            MC_CHECK(!(v > right) || !got, "gate", name, " with the later version ", v.str(), " at ", path, " was loaded");
                            MC_CHECK(!(v == right) || (got && *got == x), "gate", name);
                            mc::transition();
                        }
                    }
                }
            }
        }
        // Unknown additional entries do not disturb.
        auto extra = t;
        extra.insert("unknown", 5);
        auto got = attempt<T>(extra);
        MC_CHECK(got && *got == x, "object", name, " with an additional entry");
        mc::trace();
        mc::state(name);
    });
}

static void objects() {
    constexpr size_t big = std::numeric_limits<int64_t>::max();
    using SP = va::VamanaSearchParameters;
    using BP = va::VamanaBuildParameters;
    using IP = va::VamanaIndexParameters;
    using CP = inv::ClusteringParameters;
    using C = va::SearchBufferConfig;
    std::vector<SP> sp{SP(), SP(C(1, 1), true, 0, 0), SP(C(1, big), false, big, 1), SP(C(big, big), true, 1, big), SP(C(11, 13), true, 7, 9)};
    std::vector<BP> bp{BP(1.2f, 64, 128, 1000, 60, true), BP(0.95f, 0, 0, 0, 0, false), BP(0x1p-149f, big, 1, 2, 3, true), BP(std::numeric_limits<float>::max(), 1, big, big, big, false), BP(1.5f, 21, 22, 23, 24, false)};
    std::vector<CP> cp{CP(), CP(lib::Percent(0), 0, 0, 0, 0, 0, 0, 0, 0), CP(lib::Percent(1), 1e300, big, big, ~uint64_t(0), big, big, big, -1e-300), CP(lib::Percent(0.1), 0.2, 3, 4, uint64_t(1) << 63, 6, 7, 8, 0.9)};
    object<SP>("search parameters", sp);
    object<BP>("build parameters", bp);
    object<CP>("clustering parameters", cp, {"seed"});
    std::vector<IP> ip;
    for (size_t i = 0; i < 5; ++i) {
        ip.push_back(IP{i == 0 ? big : i, bp[i], sp[4 - i]});
    }
    ip.push_back(IP{17, bp[4], sp[4]});
    object<IP>("index parameters", ip);
    std::vector<inv::InvertedSearchParameters> isp;
    for (size_t i = 0; i < 5; ++i) {
        isp.push_back({sp[i], 0.125 * double(i)});
    }
    object<inv::InvertedSearchParameters>("inverted search parameters", isp);
    std::vector<inv::InvertedBuildParameters> ibp;
    for (size_t i = 0; i < 4; ++i) {
        ibp.push_back({cp[i], bp[i + 1]});
    }
    object<inv::InvertedBuildParameters>("inverted build parameters", ibp, {"seed"});
    object<Exact>("exact", {Exact{-5}, Exact{7}}, {"value"});

    // Older versions of the parameter objects load with documented defaults.
    mc::run([] { return string("older versions"); }, [&] {
        for (auto& p : bp) {
            auto t = lib::save_to_table(p);
            t.insert_or_assign("__version__", "v0.0.0");
            t.erase("prune_to");
            auto want = p;
            want.prune_to = p.graph_max_degree;
            auto got = attempt<BP>(t);
            MC_CHECK(got && *got == want, "legacy", "build parameters of version 0.0.0");
            mc::evaluation();
        }
        for (auto& p : sp) {
            auto t = lib::save_to_table(p);
            t.insert_or_assign("__version__", "v0.0.0");
            t.erase("prefetch_lookahead");
            t.erase("prefetch_step");
            auto want = p;
            want.prefetch_lookahead_ = 4;
            want.prefetch_step_ = 1;
            auto got = attempt<SP>(t);
            MC_CHECK(got && *got == want, "legacy", "search parameters of version 0.0.0");
            mc::evaluation();
        }
        for (size_t patch = 0; patch < 3; ++patch) {
            for (auto& p : bp) {
                for (bool visited : {false, true}) {
                    for (int has = 0; has < 4; ++has) {
                        auto t = lib::SaveTable("vamana_index_parameters", lib::Version(0, 0, patch),
                            {{"name", "vamana config parameters"}, {"entry_point", lib::save(9)}, {"alpha", lib::save(p.alpha)}, {"max_out_degree", lib::save(p.graph_max_degree)},
                             {"construction_window_size", lib::save(p.window_size)}, {"max_candidates", lib::save(p.max_candidate_pool_size)}, {"default_search_window_size", lib::save(31)}, {"visited_set", lib::save(visited)}}).get();
                        if (has & 1) {
                            t.insert("use_full_search_history", p.use_full_search_history);
                        }
                        if (has & 2) {
                            t.insert("prune_to", int64_t(p.prune_to));
                        }
                        auto want = IP{9, BP(p.alpha, p.graph_max_degree, p.window_size, p.max_candidate_pool_size, (has & 2) ? p.prune_to : p.graph_max_degree, (has & 1) ? p.use_full_search_history : true), SP(C(31), visited, 4, 1)};
                        auto got = attempt<IP>(t);
                        MC_CHECK(got && *got == want, "legacy", "index parameters of version 0.0.", patch);
                        for (auto& [path, key] : entries(t)) {
                            if (key == "use_full_search_history" || key == "prune_to") {
                                continue;
                            }
                            auto altered = t;
                            altered.erase(key);
                            string message;
                            MC_CHECK(!attempt<IP>(altered, &message) && (metadata(key) || message.find(key) != string::npos), "legacy", "index parameters without ", key, " were loaded or the error does not name it: ", message);
                        }
                        mc::evaluation();
                    }
                }
            }
        }
        mc::trace();
    });

    // Distances know their own name; one saved distance is not loaded as another.
    mc::run([] { return string("distance objects"); }, [&] {
        auto l2 = lib::save(svs::DistanceL2()), ip2 = lib::save(svs::DistanceIP()), cs = lib::save(svs::DistanceCosineSimilarity());
        const toml::table* all[] = {&l2, &ip2, &cs};
        for (int i = 0; i < 3; ++i) {
            MC_CHECK(mc::throws([&] { (void)lib::load<svs::DistanceL2>(lib::node_view(*all[i])); }) == (i != 0), "distance", "L2 from ", i);
            MC_CHECK(mc::throws([&] { (void)lib::load<svs::DistanceIP>(lib::node_view(*all[i])); }) == (i != 1), "distance", "MIP from ", i);
            MC_CHECK(mc::throws([&] { (void)lib::load<svs::DistanceCosineSimilarity>(lib::node_view(*all[i])); }) == (i != 2), "distance", "Cosine from ", i);
            for (auto d : {svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine}) {
                auto n = through_text(d);
                MC_CHECK(lib::load<svs::DistanceType>(lib::node_view(n.object())) == d, "distance", svs::name(d));
            }
        }
        for (int t = 0; t <= int(svs::DataType::undef); ++t) {
            auto n = through_text(svs::DataType(t));
            MC_CHECK(lib::load<svs::DataType>(lib::node_view(n.object())) == svs::DataType(t), "datatype", t);
        }
        for (int i = 0; i < 64; ++i) {
            lib::UUID u;
            auto n = through_text(u);
            MC_CHECK(lib::load<lib::UUID>(lib::node_view(n.object())) == u, "uuid", u.str());
        }
        mc::trace();
    });
}

// Vectors of vectors and of objects --------------------------------------------------------------
static void vectors() {
    mc::run([] { return string("nested vectors"); }, [&] {
        // Every shape: up to three inner vectors of up to three entries.
        for (int code = 0; code < 256; ++code) {
            std::vector<std::vector<int>> v;
            int outer = code & 3;
            for (int i = 0; i < outer; ++i) {
                v.emplace_back();
                for (int j = 0; j < ((code >> (2 + 2 * i)) & 3); ++j) {
                    v.back().push_back(10 * i + j);
                }
            }
            auto node = lib::save(v);
            MC_CHECK(lib::load<decltype(v)>(lib::node_view(node)) == v, "vector", "shape ", code, " in memory");
            OnDisk d(text_of(std::move(node)));
            MC_CHECK(lib::load<decltype(v)>(lib::node_view(d.object())) == v, "vector", "shape ", code, " from disk");
            mc::evaluation();
        }
        for (size_t n = 0; n < 5; ++n) {
            std::vector<Exact> v;
            for (size_t i = 0; i < n; ++i) {
                v.push_back({int64_t(n * 10 + i)});
            }
            auto d = through_text(v);
            MC_CHECK(lib::load<decltype(v)>(lib::node_view(d.object())) == v, "vector", n, " objects");
            std::vector<string> s;
            for (size_t i = 0; i < n; ++i) {
                s.push_back(string(i, '"'));
            }
            auto e = through_text(s);
            MC_CHECK(lib::load<decltype(s)>(lib::node_view(e.object())) == s, "vector", n, " texts");
            // An entry of another kind makes the vector unreadable.
            for (size_t i = 0; i <= n; ++i) {
                for (auto& k : kinds()) {
                    if (k.type == 's') {
                        continue;
                    }
                    toml::array a;
                    for (size_t j = 0; j <= n; ++j) {
                        if (j == i) {
                            k.node->visit([&](auto& inner) { a.push_back(inner); });
                        } else {
                            a.push_back(string("x"));
                        }
                    }
                    MC_CHECK(mc::throws([&] { (void)lib::load<std::vector<string>>(lib::node_view(static_cast<const toml::node&>(a))); }), "vector", "texts with a ", k.name, " among them were read");
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
}

// Binary blobs -----------------------------------------------------------------------------------
struct Plain {
    int a;
    char b;
    bool operator==(const Plain&) const = default;
};
struct Plain2 {
    int a[3];
    bool operator==(const Plain2&) const = default;
};
template <typename T> T make_value(size_t i) {
    if constexpr (std::is_same_v<T, Plain>) {
        return Plain{int(i * 7), char(i)};
    } else if constexpr (std::is_same_v<T, Plain2>) {
        return Plain2{{int(i), int(i + 1), int(i + 2)}};
    } else {
        return T(i * 37 + 1);
    }
}
template <typename T, typename U> void blob_as(const string& dir, bool same_type) {
    bool threw = mc::throws([&] { std::vector<U> v = lib::load_from_disk<lib::BinaryBlobLoader<U>>(dir); });
    MC_CHECK(threw == !same_type, "blob", "a blob of ", svs::name(svs::datatype_v<T>), "/", sizeof(T), threw ? " was refused as " : " was read as ", svs::name(svs::datatype_v<U>), "/", sizeof(U));
    mc::transition();
}
template <typename T> void blobs(const string& name) {
    for (size_t n : {0, 1, 2, 3, 17, 1000}) {
        mc::run([&] { return mc::str("blob of ", n, " ", name); }, [&] {
            auto dir = scratch + "/blob_" + name + std::to_string(n);
            fs::remove_all(dir);
            std::vector<T> v;
            for (size_t i = 0; i < n; ++i) {
                v.push_back(make_value<T>(i));
            }
            lib::save_to_disk(lib::BinaryBlobSaver(v), dir);
            std::vector<T> got = lib::load_from_disk<lib::BinaryBlobLoader<T>>(dir);
            MC_CHECK(got == v, "blob", "came back differently");
            blob_as<T, float>(dir, std::is_same_v<T, float>);
            blob_as<T, uint8_t>(dir, std::is_same_v<T, uint8_t>);
            blob_as<T, uint32_t>(dir, std::is_same_v<T, uint32_t>);
            blob_as<T, int32_t>(dir, std::is_same_v<T, int32_t>);
            blob_as<T, uint64_t>(dir, std::is_same_v<T, uint64_t>);
            blob_as<T, Plain>(dir, std::is_same_v<T, Plain>);
            blob_as<T, Plain2>(dir, std::is_same_v<T, Plain2>);
            fs::remove_all(dir);
            mc::trace();
            mc::evaluation();
        });
    }
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    scratch = mc::ex().scratch + "/saving." + std::to_string(getpid());
    fs::remove_all(scratch);
    fs::create_directories(scratch);
    integer_type<uint8_t>();
    integer_type<uint16_t>();
    integer_type<uint32_t>();
    integer_type<uint64_t>();
    integer_type<int8_t>();
    integer_type<int16_t>();
    integer_type<int32_t>();
    integer_type<int64_t>();
    float_chunks(floats<float, uint32_t>(8, 23), "single precision");
    float_chunks(floats<double, uint64_t>(11, 52), "double precision");
    nans();
    strings();
    read_kind<uint8_t>('i', "uint8");
    read_kind<int64_t>('i', "int64");
    read_kind<bool>('b', "bool");
    read_kind<float>('f', "float");
    read_kind<double>('f', "double");
    read_kind<string>('s', "text");
    read_kind<fs::path>('s', "path");
    read_kind<svs::DataType>('s', "element type");
    read_kind<svs::DistanceType>('s', "distance");
    read_kind<lib::UUID>('s', "identifier");
    read_kind<lib::Percent>('f', "fraction");
    read_kind<lib::FullUnsigned>('i', "full unsigned");
    read_kind<std::vector<int>>('a', "vector");
    read_kind<Exact>('-', "object");
    read_kind<va::VamanaBuildParameters>('-', "build parameters");
    gate<Exact>("one version");
    gate<Checked>("own check");
    file_version();
    objects();
    vectors();
    blobs<float>("float");
    blobs<uint8_t>("uint8");
    blobs<uint32_t>("uint32");
    blobs<int32_t>("int32");
    blobs<uint64_t>("uint64");
    blobs<Plain>("plain");
    blobs<Plain2>("plain2");
    fs::remove_all(scratch);
    return mc::finish();
}
