// C27: every name the library prints parses back to the same value, and nothing else does.
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/core/io.h"
#include "svs/lib/datatype.h"
#include "svs/lib/saveload.h"
#include "svs/lib/uuid.h"
#include "svs/lib/version.h"

#include <algorithm>

namespace lib = svs::lib;
using svs::DataType;
using svs::DistanceType;

// Every text at one edit (replace, insert, delete, duplicate, case) from `s`.
static std::vector<std::string> edits(const std::string& s) {
    std::vector<std::string> v{"", s + s, s + "\0x", std::string("\0", 1)};
    for (size_t i = 0; i <= s.size(); ++i) {
        for (int c = 0; c < 256; ++c) {
            std::string t = s;
            t.insert(t.begin() + long(i), char(c));
            v.push_back(t);
            if (i < s.size()) {
                t = s;
                t[i] = char(c);
                v.push_back(t);
            }
        }
        if (i < s.size()) {
            std::string t = s;
            t.erase(i, 1);
            v.push_back(t);
            v.push_back(s.substr(i));
            v.push_back(s.substr(0, i));
        }
        if (i + 1 < s.size()) {
            std::string t = s;
            std::swap(t[i], t[i + 1]);
            v.push_back(t);
        }
    }
    return v;
}

// ---- versions ------------------------------------------------------------------------------

// Reference reading: exactly "v" digits "." digits "." digits within range.
static bool read_version(const std::string& t, std::array<uint64_t, 3>& out) {
    if (t.empty() || t[0] != 'v') {
        return false;
    }
    size_t i = 1;
    for (int part = 0; part < 3; ++part) {
        unsigned __int128 x = 0;
        size_t start = i;
        while (i < t.size() && t[i] >= '0' && t[i] <= '9') {
            x = x * 10 + unsigned(t[i] - '0');
            if (x > ~uint64_t(0)) {
                return false;
            }
            ++i;
        }
        if (i == start) {
            return false;
        }
        out[size_t(part)] = uint64_t(x);
        if (part < 2) {
            if (i >= t.size() || t[i] != '.') {
                return false;
            }
            ++i;
        }
    }
    return i == t.size();
}

static void check_version_text(const std::string& t) {
    std::array<uint64_t, 3> want{};
    bool fine = read_version(t, want);
    std::optional<lib::Version> got;
    bool threw = mc::throws([&] { got.emplace(std::string_view(t)); });
    MC_CHECK(threw == !fine, "version", "the text '", t, "' was ", threw ? "refused" : "accepted", threw ? "" : mc::str(" as ", got->str()));
    if (fine) {
        MC_CHECK(got->major == want[0] && got->minor == want[1] && got->patch == want[2], "version", "the text '", t, "' was read as ", got->str());
    }
    mc::evaluation();
}

static void versions() {
    std::vector<uint64_t> n{0, 1, 2, 9, 10, 11, 99, 100, 255, 256, 65535, 65536, (uint64_t(1) << 31) - 1, uint64_t(1) << 31, (uint64_t(1) << 32) - 1, uint64_t(1) << 32, (uint64_t(1) << 53) + 1, (uint64_t(1) << 63) - 1, uint64_t(1) << 63, ~uint64_t(0) - 1, ~uint64_t(0)};
    mc::run([] { return std::string("versions print and parse"); }, [&] {
        std::set<std::string> seen;
        for (auto a : n) {
            for (auto b : n) {
                for (auto c : n) {
                    lib::Version v(a, b, c);
                    std::string s = "v" + std::to_string(a) + "." + std::to_string(b) + "." + std::to_string(c);
                    MC_CHECK(v.str() == s && fmt::format("{}", v) == s, "version", "version ", s, " prints as ", v.str());
                    MC_CHECK(seen.insert(v.str()).second, "version", "two versions print as ", s);
                    lib::Version w{std::string_view(s)};
                    MC_CHECK(w == v && w.major == a && w.minor == b && w.patch == c, "version", s, " parses as ", w.str());
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
    std::vector<uint64_t> few{0, 1, 2, 10, uint64_t(1) << 32, ~uint64_t(0)};
    for (auto a : few) {
        mc::run([&] { return mc::str("order of versions starting with ", a); }, [&] {
            for (auto b : few) {
                for (auto c : few) {
                    for (auto d : few) {
                        for (auto e : few) {
                            for (auto f : few) {
                                lib::Version x(a, b, c), y(d, e, f);
                                auto tx = std::tie(a, b, c);
                                auto ty = std::tie(d, e, f);
                                MC_CHECK((x == y) == (tx == ty) && (x != y) == (tx != ty) && (x < y) == (tx < ty) && (x > y) == (tx > ty) && (x <= y) == (tx <= ty) && (x >= y) == (tx >= ty), "version", "order of ", x.str(), " and ", y.str());
                                mc::transition();
                            }
                        }
                    }
                }
            }
            mc::trace();
        });
    }
    for (std::string s : {"v0.0.4", "v1.2.3", "v10.20.30", "v18446744073709551615.0.1", "v18446744073709551616.0.1", "v0.0.18446744073709551616", "v0.00.01"}) {
        mc::run([&] { return "texts around " + s; }, [&] {
            check_version_text(s);
            for (auto& t : edits(s)) {
                check_version_text(t);
            }
            mc::state(mc::hash(s));
            mc::trace();
        });
    }
    // Every short text over the alphabet of versions.
    size_t longest = mc::thorough() ? 8 : 7;
    for (size_t len = 0; len <= longest; ++len) {
        mc::run([&] { return mc::str("all texts of ", len, " characters"); }, [&] {
            const std::string alphabet = len > 6 ? "v.01" : "v.01x";
            std::vector<size_t> d(len, 0);
            while (true) {
                std::string t;
                for (auto i : d) {
                    t += alphabet[i];
                }
                check_version_text(t);
                size_t i = 0;
                while (i < len && ++d[i] == alphabet.size()) {
                    d[i++] = 0;
                }
                if (i == len) {
                    break;
                }
            }
            mc::trace();
        });
    }
}

// ---- unique identifiers ----------------------------------------------------------------------

static bool read_uuid(const std::string& t, std::array<uint8_t, 16>& printed) {
    if (t.size() != 36) {
        return false;
    }
    size_t k = 0;
    for (size_t i = 0; i < 36; ++i) {
        if (i == 8 || i == 13 || i == 18 || i == 23) {
            if (t[i] != '-') {
                return false;
            }
            continue;
        }
        char c = t[i];
        int x = c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1;
        if (x < 0) {
            return false;
        }
        printed[k / 2] = uint8_t(k % 2 ? printed[k / 2] | x : x << 4);
        ++k;
    }
    return true;
}

static void check_uuid_text(const std::string& t) {
    std::array<uint8_t, 16> want{};
    bool fine = read_uuid(t, want);
    std::optional<lib::UUID> got;
    bool threw = mc::throws([&] { got.emplace(std::string_view(t)); });
    MC_CHECK(threw == !fine, "uuid", "the text '", t, "' was ", threw ? "refused" : "accepted");
    if (fine) {
        auto raw = got->raw();
        std::reverse(raw.begin(), raw.end());
        MC_CHECK(raw == want, "uuid", "the text '", t, "' was read as ", got->str());
        std::string lower = t;
        for (auto& c : lower) {
            c = char(c >= 'A' && c <= 'F' ? c + 32 : c);
        }
        MC_CHECK(got->str() == lower, "uuid", "the text '", t, "' prints as ", got->str());
    }
    mc::evaluation();
}

static void uuids() {
    for (size_t at = 0; at < 16; ++at) {
        mc::run([&] { return mc::str("unique identifiers, every value of byte ", at); }, [&] {
            std::set<std::string> seen;
            for (int base : {0, 0x5A, 0xFF}) {
                for (int v = 0; v < 256; ++v) {
                    std::array<uint8_t, 16> raw;
                    raw.fill(uint8_t(base));
                    raw[at] = uint8_t(v);
                    lib::UUID u(raw);
                    std::string s = u.str();
                    lib::UUID back{std::string_view(s)};
                    MC_CHECK(back == u && back.raw() == raw, "uuid", s, " parses as ", back.str());
                    check_uuid_text(s);
                    MC_CHECK(seen.insert(s).second, "uuid", "two identifiers print as ", s);
                    std::array<uint8_t, 16> other = raw;
                    for (size_t j = 0; j < 16; ++j) {
                        other[j] ^= 1;
                        MC_CHECK(!(lib::UUID(other) == u), "uuid", "identifiers differing in byte ", j, " are equal");
                        other[j] ^= 1;
                    }
                    mc::transition();
                }
            }
            mc::state(at);
            mc::trace();
        });
    }
    for (std::string s : {"01234567-89ab-cdef-0123-456789abcdef", "FEDCBA98-7654-3210-fedc-BA9876543210", "00000000-0000-0000-0000-000000000000"}) {
        mc::run([&] { return "texts around " + s; }, [&] {
            check_uuid_text(s);
            for (auto& t : edits(s)) {
                check_uuid_text(t);
            }
            // two simultaneous replacements by characters of the format
            for (size_t i = 0; i < s.size(); ++i) {
                for (size_t j = i + 1; j < s.size(); ++j) {
                    for (char a : {'-', '0', 'g', 'F'}) {
                        for (char b : {'-', 'f', ':', 'G'}) {
                            auto t = s;
                            t[i] = a;
                            t[j] = b;
                            check_uuid_text(t);
                        }
                    }
                }
            }
            mc::trace();
        });
    }
    mc::run([] { return std::string("fresh unique identifiers"); }, [] {
        std::set<std::array<uint8_t, 16>> seen;
        // Two equal ones among this many happen with probability below 1e-26 if 122 bits
        // are random, and almost certainly if they come from 32 random bits.
        for (size_t i = 0; i < 400000; ++i) {
            lib::UUID u;
            MC_CHECK(seen.insert(u.raw()).second, "fresh", "identifier ", u.str(), " was generated twice");
            if (i < 5000) {
                auto s = u.str();
                std::array<uint8_t, 16> p;
                MC_CHECK(read_uuid(s, p) && s[14] == '4' && std::string("89ab").find(s[19]) != std::string::npos, "fresh", "malformed identifier ", s);
            }
            mc::transition();
        }
        mc::trace();
    });
    mc::run([] { return std::string("the zero identifier"); }, [] {
        MC_CHECK(lib::ZeroUUID.str() == "00000000-0000-0000-0000-000000000000", "uuid", lib::ZeroUUID.str());
        MC_CHECK(!(lib::UUID() == lib::ZeroUUID), "fresh", "a fresh identifier is zero");
        mc::trace();
    });
}

// ---- element types ---------------------------------------------------------------------------

struct Named {
    DataType type;
    const char* name;
    size_t size;
};
static const std::vector<Named> types{
    {DataType::uint8, "uint8", 1}, {DataType::uint16, "uint16", 2}, {DataType::uint32, "uint32", 4}, {DataType::uint64, "uint64", 8}, {DataType::int8, "int8", 1}, {DataType::int16, "int16", 2}, {DataType::int32, "int32", 4}, {DataType::int64, "int64", 8}, {DataType::float16, "float16", 2}, {DataType::float32, "float32", 4}, {DataType::float64, "float64", 8}, {DataType::byte, "byte", 1}, {DataType::undef, "undef", 0}};

static void check_type_text(const std::string& t) {
    DataType want = DataType::undef;
    for (auto& x : types) {
        if (t == x.name) {
            want = x.type;
        }
    }
    DataType got = svs::parse_datatype(t);
    MC_CHECK(got == want, "datatype", "the text '", t, "' was read as ", svs::name(got));
    auto node = lib::save(std::string(t));
    MC_CHECK(lib::load<DataType>(lib::node_view(node)) == want, "datatype", "the saved text '", t, "'");
    mc::evaluation();
}

template <typename T, DataType D> void static_type() {
    static_assert(svs::datatype_v<T> == D && svs::datatype_v<const T> == D && svs::datatype_v<const T&> == D && svs::has_datatype_v<T>);
    static_assert(std::is_same_v<svs::cpp_type_t<D>, T>);
    MC_CHECK(svs::element_size(D) == sizeof(T) && svs::name<D>() == svs::name(D), "datatype", svs::name(D));
    T value{};
    svs::ConstErasedPointer p(&value);
    MC_CHECK(p.type() == D && bool(p) && p.get<T>() == &value && svs::get<T>(p) == &value, "datatype", "erased pointer to ", svs::name(D));
    auto refuse = [&](auto tag) {
        using U = typename decltype(tag)::type;
        bool threw = mc::throws([&] { (void)p.get<U>(); });
        MC_CHECK((threw == !std::is_same_v<T, U>), "datatype", "erased pointer to ", svs::name(D), " as ", svs::name(svs::datatype_v<U>));
        svs::AnonymousArray<2> a(&value, 3, 5);
        MC_CHECK((mc::throws([&] { (void)svs::get<U>(a); }) == !std::is_same_v<T, U>), "datatype", "array of ", svs::name(D), " as ", svs::name(svs::datatype_v<U>));
        MC_CHECK(a.size(0) == 3 && a.size(1) == 5 && a.type() == D, "datatype", "array of ", svs::name(D));
        mc::transition();
    };
    refuse(lib::Type<uint8_t>());
    refuse(lib::Type<uint16_t>());
    refuse(lib::Type<uint32_t>());
    refuse(lib::Type<uint64_t>());
    refuse(lib::Type<int8_t>());
    refuse(lib::Type<int16_t>());
    refuse(lib::Type<int32_t>());
    refuse(lib::Type<int64_t>());
    refuse(lib::Type<svs::Float16>());
    refuse(lib::Type<float>());
    refuse(lib::Type<double>());
    refuse(lib::Type<std::byte>());
}

static void datatypes() {
    for (auto& x : types) {
        mc::run([&] { return mc::str("element type ", x.name); }, [&] {
            MC_CHECK(svs::name(x.type) == x.name && fmt::format("{}", x.type) == x.name && mc::str(x.type) == x.name, "datatype", "type ", x.name, " prints as ", svs::name(x.type));
            MC_CHECK(svs::parse_datatype(x.name) == x.type, "datatype", x.name, " parses as ", svs::name(svs::parse_datatype(x.name)));
            MC_CHECK(svs::element_size(x.type) == x.size, "datatype", "size of ", x.name);
            auto node = lib::save(x.type);
            MC_CHECK(lib::load<DataType>(lib::node_view(node)) == x.type, "datatype", x.name, " saved and loaded");
            for (auto& t : edits(x.name)) {
                check_type_text(t);
            }
            for (auto& y : types) {
                check_type_text(std::string(x.name) + y.name);
                check_type_text(std::string(x.name) + " " + y.name);
            }
            mc::state(mc::hash(x.name));
            mc::trace();
        });
    }
    mc::run([] { return std::string("static element types"); }, [] {
        static_type<uint8_t, DataType::uint8>();
        static_type<uint16_t, DataType::uint16>();
        static_type<uint32_t, DataType::uint32>();
        static_type<uint64_t, DataType::uint64>();
        static_type<int8_t, DataType::int8>();
        static_type<int16_t, DataType::int16>();
        static_type<int32_t, DataType::int32>();
        static_type<int64_t, DataType::int64>();
        static_type<svs::Float16, DataType::float16>();
        static_type<float, DataType::float32>();
        static_type<double, DataType::float64>();
        static_type<std::byte, DataType::byte>();
        mc::trace();
    });
}

// ---- distances and file schemas ----------------------------------------------------------------

static void distances() {
    std::vector<std::pair<DistanceType, std::string>> all{{DistanceType::L2, "L2"}, {DistanceType::MIP, "MIP"}, {DistanceType::Cosine, "Cosine"}};
    auto text = [&](const std::string& t) {
        std::optional<DistanceType> want, got;
        for (auto& [d, n] : all) {
            if (t == n) {
                want = d;
            }
        }
        mc::throws([&] { got = svs::parse_distance_type(t); });
        MC_CHECK(got == want, "distance", "the text '", t, "' was ", got ? "accepted" : "refused");
        std::optional<DistanceType> loaded;
        mc::throws([&] {
            auto node = lib::save(std::string(t));
            loaded = lib::load<DistanceType>(lib::node_view(node));
        });
        MC_CHECK(loaded == want, "distance", "the saved text '", t, "' was ", loaded ? "accepted" : "refused");
        mc::evaluation();
    };
    for (auto& [d, n] : all) {
        mc::run([&] { return "distance " + n; }, [&, d = d, n = n] {
            MC_CHECK(svs::name(d) == n && fmt::format("{}", d) == n, "distance", "distance prints as ", svs::name(d));
            for (auto& t : edits(n)) {
                text(t);
            }
            for (auto& [e, m] : all) {
                text(m);
                text(n + m);
            }
            size_t calls = 0;
            svs::DistanceDispatcher dispatcher(d);
            auto got = dispatcher([&](auto f, int x) {
                ++calls;
                MC_CHECK(x == 17, "distance", "argument of the dispatched call");
                return svs::distance_type_v<decltype(f)>;
            }, 17);
            MC_CHECK(calls == 1 && got == d, "distance", n, " was dispatched to ", svs::name(got));
            mc::state(mc::hash(n));
            mc::trace();
        });
    }
}

static void schemas() {
    namespace io = svs::io;
    std::vector<std::tuple<io::FileSchema, std::string, uint64_t>> all{{io::FileSchema::Vtest, "Vtest", io::vtest::magic_number}, {io::FileSchema::V1, "V1", io::v1::magic_number}, {io::FileSchema::Database, "Database", io::database::magic_number}};
    mc::run([] { return std::string("file schemas"); }, [&] {
        for (auto& [schema, n, magic] : all) {
            MC_CHECK(io::name(schema) == n && mc::str(schema) == n, "schema", "schema prints as ", io::name(schema));
            MC_CHECK(io::from_magic_number(magic) == schema, "schema", "magic number of ", n);
            for (auto& t : edits(n)) {
                std::optional<io::FileSchema> want, got;
                for (auto& [s2, n2, m2] : all) {
                    if (t == n2) {
                        want = s2;
                    }
                }
                mc::throws([&] { got = io::parse_schema(t); });
                MC_CHECK(got == want, "schema", "the text '", t, "'");
                mc::evaluation();
            }
            MC_CHECK(io::parse_schema(n) == schema, "schema", n);
            for (int bit = 0; bit < 64; ++bit) {
                MC_CHECK(!io::from_magic_number(magic ^ (uint64_t(1) << bit)), "schema", "a magic number with bit ", bit, " flipped was recognised");
                mc::transition();
            }
        }
        MC_CHECK(!io::from_magic_number(0) && !io::from_magic_number(~uint64_t(0)), "schema", "zero");
        mc::trace();
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    versions();
    uuids();
    datatypes();
    distances();
    schemas();
    return mc::finish();
}
