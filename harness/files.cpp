// C25: vector files. A plain decoder of the three formats, written from their description, is the
// oracle for everything read; a plain encoder for everything written. Every small shape, element
// type, limit, cut, extension and alteration of the header is executed on the real readers.
#include "mc.h"
#include "newlimit.h"
#include "svs/core/data.h"
#include "svs/core/query_result.h"

#include <cstring>

namespace fs = std::filesystem;
namespace io = svs::io;
namespace lib = svs::lib;
using std::string;
using svs::Float16;

static string dir;

template <typename T> using Rows = std::vector<std::vector<T>>;
template <typename T> string type_name() { return string(svs::name(svs::datatype_v<T>)); }

// Bytes --------------------------------------------------------------------------------------
template <typename T> void put(string& s, const T& x) {
    s.append(reinterpret_cast<const char*>(&x), sizeof(T));
}
template <typename T> T get(const string& s, size_t at) {
    T x;
    std::memcpy(&x, s.data() + at, sizeof(T));
    return x;
}
static void spit(const string& path, const string& bytes) {
    std::ofstream o(path, std::ios::binary | std::ios::trunc);
    o.write(bytes.data(), bytes.size());
}
static string slurp(const string& path) {
    std::ifstream i(path, std::ios::binary);
    return string(std::istreambuf_iterator<char>(i), {});
}
template <typename T> bool same_bits(const T& a, const T& b) {
    return std::memcmp(&a, &b, sizeof(T)) == 0;
}
template <typename T> bool same_rows(const Rows<T>& a, const Rows<T>& b) {
    if (a.size() != b.size()) {
        return false;
    }
    for (size_t i = 0; i < a.size(); ++i) {
        if (a[i].size() != b[i].size()) {
            return false;
        }
        for (size_t j = 0; j < a[i].size(); ++j) {
            if (!same_bits(a[i][j], b[i][j])) {
                return false;
            }
        }
    }
    return true;
}

// The formats --------------------------------------------------------------------------------
enum Format { native, vecs, bin, vtest };
static const char* format_name[] = {"native", "vecs", "bin", "vtest"};
constexpr uint64_t v1_magic = 0xcad4a6b2579980feULL;
constexpr uint64_t vtest_magic = 0xf83ad4901d434f04ULL;
constexpr uint64_t database_magic = 0x26b0644ab838c3a3ULL;

template <typename T>
string encode(Format f, const Rows<T>& rows, size_t d, const string& uuid = string(16, '\0')) {
    string s;
    if (f == native) {
        put(s, v1_magic);
        s += uuid;
        put<uint64_t>(s, rows.size());
        put<uint64_t>(s, d);
        s.resize(1024, '\0');
    } else if (f == vtest) {
        put(s, vtest_magic);
        put<uint64_t>(s, rows.size());
        put<uint64_t>(s, d);
        s += uuid;
        s.resize(64, '\0');
    } else if (f == bin) {
        put<uint32_t>(s, rows.size());
        put<uint32_t>(s, d);
    }
    for (auto& r : rows) {
        if (f == vecs) {
            put<uint32_t>(s, d);
        }
        for (auto& x : r) {
            put(s, x);
        }
    }
    return s;
}

// What a reader of elements T must deliver: nothing (refused) or the first `limit` rows.
template <typename T> struct Decoded {
    bool ok = false;
    size_t n = 0, d = 0;
    Rows<T> rows;
};
template <typename T>
Decoded<T> decode(Format f, const string& s, size_t limit = SIZE_MAX) {
    using Wide = unsigned __int128;
    Decoded<T> r;
    size_t at = 0;
    if (f == vecs) {
        if (s.size() < 4) {
            return r;
        }
        size_t d = get<uint32_t>(s, 0);
        Wide line = 4 + Wide(d) * sizeof(T);
        if (Wide(s.size()) % line != 0) {
            return r;
        }
        r.d = d;
        r.n = s.size() / size_t(line);
        for (size_t i = 0; i < std::min(r.n, limit); ++i) {
            if (get<uint32_t>(s, i * size_t(line)) != d) {
                return r;
            }
        }
    } else {
        size_t header = f == native ? 1024 : f == vtest ? 64 : 8;
        if (s.size() < header) {
            return r;
        }
        if (f == bin) {
            r.n = get<uint32_t>(s, 0);
            r.d = get<uint32_t>(s, 4);
        } else if (f == native) {
            if (get<uint64_t>(s, 0) != v1_magic) {
                return r;
            }
            r.n = get<uint64_t>(s, 24);
            r.d = get<uint64_t>(s, 32);
        } else {
            if (get<uint64_t>(s, 0) != vtest_magic) {
                return r;
            }
            r.n = get<uint64_t>(s, 8);
            r.d = get<uint64_t>(s, 16);
        }
        Wide elements = Wide(r.n) * r.d;
        if (elements > Wide(s.size()) || elements * sizeof(T) != Wide(s.size() - header)) {
            return r;
        }
        at = header;
    }
    r.ok = true;
    if (r.d == 0 && r.n > 64) {
        return r;
    }
    for (size_t i = 0; i < std::min(r.n, limit); ++i) {
        if (f == vecs) {
            at += 4;
        }
        std::vector<T> row(r.d);
        for (auto& x : row) {
            x = get<T>(s, at);
            at += sizeof(T);
        }
        r.rows.push_back(row);
    }
    return r;
}

// The readers --------------------------------------------------------------------------------
template <typename T> struct Got {
    bool ok = false;
    string error;
    size_t n = 0, d = 0;
    Rows<T> rows;
};
template <typename T, typename Reader> void collect(Reader& reader, Rows<T>& rows) {
    for (auto v : reader) {
        rows.emplace_back(v.begin(), v.end());
    }
}
template <typename T, typename F> Got<T> guarded(F&& f) {
    Got<T> g;
    try {
        f(g);
        g.ok = true;
    } catch (const std::exception& e) {
        g.error = e.what();
    }
    return g;
}
template <typename T> Got<T> read(Format f, const string& path, size_t limit = SIZE_MAX) {
    return guarded<T>([&](Got<T>& g) {
        auto use = [&](const auto& file) {
            auto reader = limit == SIZE_MAX ? file.reader(lib::Type<T>()) : file.reader(lib::Type<T>(), limit);
            g.d = reader.ndims();
            g.n = reader.nvectors();
            collect(reader, g.rows);
        };
        if (f == native || f == vtest) {
            io::NativeFile(path).resolve(use);
        } else if (f == vecs) {
            use(io::vecs::VecsFile(path));
        } else {
            use(io::binary::BinaryFile(path));
        }
    });
}
template <typename T, typename Data> void rows_of(const Data& data, Got<T>& g) {
    g.n = data.size();
    g.d = data.dimensions();
    for (size_t i = 0; i < data.size(); ++i) {
        auto v = data.get_datum(i);
        g.rows.emplace_back(v.begin(), v.end());
    }
}
template <typename T> Got<T> load(Format f, const string& path) {
    return guarded<T>([&](Got<T>& g) {
        auto lazy = lib::Lazy([](size_t n, size_t d) { return svs::data::SimpleData<T>(n, d); });
        if (f == native || f == vtest) {
            rows_of(io::load_dataset(io::NativeFile(path), lazy), g);
        } else if (f == vecs) {
            rows_of(io::load_dataset(io::vecs::VecsFile(path), lazy), g);
        } else {
            rows_of(io::load_dataset(io::binary::BinaryFile(path), lazy), g);
        }
    });
}
template <typename T> string verdict(const Got<T>& g) {
    if (!g.ok) {
        return "refused (" + g.error.substr(0, 80) + ")";
    }
    return mc::str(g.n, " vectors with ", g.d, " elements, ", g.rows.size(), " rows delivered");
}
// Compare everything a user can get out of a file with the plain decoder.
template <typename T> void check_reading(Format f, const string& bytes, const string& path, bool limits) {
    auto want = decode<T>(f, bytes);
    mc::state(mc::mix(mc::hash(bytes), mc::hash(type_name<T>()) + f));
    if (want.ok && want.d == 0 && want.n > 64) {
        return;
    }
    auto got = read<T>(f, path);
    auto describe = [&] {
        return mc::str(format_name[f], " file of ", bytes.size(), " bytes as ", type_name<T>(), ": ");
    };
    MC_CHECK(got.ok == want.ok, "refusal", describe(), "expected ", want.ok ? "contents" : "a refusal", ", got ", verdict(got));
    if (want.ok) {
        MC_CHECK(got.n == want.n && got.d == want.d && same_rows(got.rows, want.rows), "content", describe(), "expected ", want.n, " vectors with ", want.d, " elements, got ", verdict(got), " or other values");
    }
    mc::evaluation();
    // Loading into a dataset.
    auto data = load<T>(f, path);
    MC_CHECK(data.ok == want.ok, "load-refusal", describe(), "dataset: expected ", want.ok ? "contents" : "a refusal", ", got ", verdict(data));
    if (want.ok) {
        MC_CHECK(data.n == want.n && data.d == want.d && same_rows(data.rows, want.rows), "load-content", describe(), "dataset: expected ", want.n, " vectors with ", want.d, " elements, got ", verdict(data), " or other values");
    }
    mc::evaluation();
    if (!limits) {
        return;
    }
    for (size_t m = 0; m <= std::min<size_t>(want.n + 2, 15); ++m) {
        auto w = decode<T>(f, bytes, m);
        auto g = read<T>(f, path, m);
        MC_CHECK(g.ok == w.ok, "limit", describe(), "limit ", m, ": expected ", w.ok ? "contents" : "a refusal", ", got ", verdict(g));
        MC_CHECK(!w.ok || same_rows(g.rows, w.rows), "limit", describe(), "limit ", m, ": expected ", w.rows.size(), " rows, got ", verdict(g), " or other values");
        mc::evaluation();
    }
}

template <typename T> T element(size_t i, size_t j, int pattern, size_t d) {
    if (pattern == 0) {
        return T(float((i * 7 + j * 3 + 1) % 100));
    }
    // Values whose bytes look like a length of d, for formats that guess.
    T x{};
    uint64_t bits = pattern == 1 ? d : d * 0x0101010101010101ULL;
    std::memcpy(&x, &bits, sizeof(T));
    return x;
}
template <typename T> Rows<T> make(size_t n, size_t d, int pattern) {
    Rows<T> rows(n, std::vector<T>(d));
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            rows[i][j] = element<T>(i, j, pattern, d);
        }
    }
    return rows;
}
template <typename F> void types(F&& f) {
    f(lib::Type<float>());
    f(lib::Type<Float16>());
    f(lib::Type<double>());
    f(lib::Type<uint8_t>());
    f(lib::Type<int8_t>());
    f(lib::Type<int32_t>());
    f(lib::Type<uint32_t>());
    f(lib::Type<int16_t>());
    f(lib::Type<uint64_t>());
}
static bool stop() { return mc::enough(); }

// Every shape: written by the library = plain encoding; read back with all limits and types.
template <typename T> void shapes() {
    size_t N = mc::thorough() ? 12 : 4, D = mc::thorough() ? 17 : 9;
    for (Format f : {native, vecs, bin, vtest}) {
        for (size_t n = 0; n <= N; ++n) {
            for (size_t d = 0; d <= D; ++d) {
                for (int pattern = 0; pattern < 3; ++pattern) {
                    if (stop()) {
                        return;
                    }
                    mc::run([&] { return mc::str("shape ", format_name[f], " ", type_name<T>(), " n=", n, " d=", d, " pattern=", pattern); }, [&] {
                        auto path = dir + "/shape." + (f == native ? "svs" : f == vecs ? "fvecs" : f == bin ? "bin" : "svs");
                        auto rows = make<T>(n, d, pattern);
                        lib::UUID uuid{};
                        auto raw = uuid;
                        string uuid_bytes(reinterpret_cast<const char*>(&raw), 16);
                        auto want = encode(f, rows, d, f == vecs || f == bin ? "" : uuid_bytes);
                        if (f == native) {
                            auto w = io::v1::NativeFile(path).writer(lib::Type<T>(), d, uuid);
                            for (auto& r : rows) {
                                w << r;
                            }
                        } else if (f == vecs) {
                            auto w = io::vecs::VecsFile(path).writer<T>(d);
                            for (auto& r : rows) {
                                w << r;
                            }
                        } else if (f == bin) {
                            auto w = io::binary::BinaryFile(path).writer<T>(n, d);
                            for (auto& r : rows) {
                                w << r;
                            }
                        } else {
                            spit(path, want);
                        }
                        MC_CHECK(slurp(path) == want, "written", "the file differs from the format's description");
                        mc::evaluation();
                        check_reading<T>(f, want, path, true);
                        types([&](auto t) {
                            using U = typename decltype(t)::type;
                            if constexpr (!std::is_same_v<U, T>) {
                                check_reading<U>(f, want, path, false);
                            }
                        });
                        // Dimensions without and with the element size.
                        auto dims = [&](auto&& call) {
                            return guarded<T>([&](Got<T>& g) { std::tie(g.n, g.d) = call(); });
                        };
                        if (f == vecs && n > 0) {
                            io::vecs::VecsFile file(path);
                            auto g = dims([&] { return file.get_dims(sizeof(T)); });
                            MC_CHECK(g.ok && g.n == n && g.d == d, "dims", "with the element size: ", g.n, " x ", g.d, g.error);
                            g = dims([&] { return file.get_dims(); });
                            if constexpr (sizeof(T) <= 8) {
                                bool consistent[9] = {};
                                size_t ways = 0;
                                for (size_t e : {1, 2, 4, 8}) {
                                    consistent[e] = e == 1 ? decode<uint8_t>(vecs, want).ok : e == 2 ? decode<int16_t>(vecs, want).ok : e == 4 ? decode<float>(vecs, want).ok : decode<double>(vecs, want).ok;
                                    ways += consistent[e];
                                }
                                MC_CHECK(g.ok && g.d == d, "dims-guess", "a valid file was refused or has ", g.d, " dimensions: ", g.error);
                                if (ways == 1 || d == 0) {
                                    MC_CHECK(g.n == n, "dims-guess", n, " vectors counted as ", g.n);
                                }
                                mc::count(ways == 1 ? "vecs files with one interpretation" : "ambiguous vecs files");
                            }
                        } else if (f == bin) {
                            io::binary::BinaryFile file(path);
                            auto g = dims([&] { return file.get_dims(sizeof(T)); });
                            MC_CHECK(g.ok && g.n == n && g.d == d, "dims", "with the element size: ", g.n, " x ", g.d, g.error);
                            g = dims([&] { return file.get_dims(); });
                            MC_CHECK(g.ok && g.n == n && g.d == d, "dims", g.n, " x ", g.d, g.error);
                        } else if (f != vecs) {
                            io::NativeFile file(path);
                            auto g = dims([&] { return file.get_dims(); });
                            MC_CHECK(g.ok && g.n == n && g.d == d, "dims", g.n, " x ", g.d, g.error);
                            MC_CHECK(io::get_uuid(path) == std::optional(uuid), "uuid", "not the one written");
                            MC_CHECK(io::classify(path) == (f == native ? io::FileSchema::V1 : io::FileSchema::Vtest), "classify", "wrong kind");
                            // Mapping shows the same data.
                            file.resolve([&](const auto& resolved) {
                                size_t bytes = n * d * sizeof(T);
                                auto ptr = resolved.mmap(lib::Type<T>(), lib::Bytes(bytes), svs::MemoryMapper(svs::MemoryMapper::ReadOnly, svs::MemoryMapper::MustUseExisting));
                                MC_CHECK(ptr.uuid() == uuid, "map", "wrong identifier");
                                MC_CHECK(bytes == 0 || std::memcmp(std::as_const(ptr).data(), want.data() + (f == native ? 1024 : 64), bytes) == 0, "map", "wrong contents");
                            });
                        }
                        // Re-reading and resizing one reader.
                        auto use = [&](auto&& reader) {
                            for (size_t m : {n, size_t(0), n / 2, n, n + 5}) {
                                bool native_like = f == native || f == vtest;
                                size_t k = native_like ? std::min(m, n) : m;
                                reader.resize(k);
                                Rows<T> r;
                                collect(reader, r);
                                auto expect = rows;
                                expect.resize(std::min(m, n));
                                MC_CHECK(same_rows(r, expect), "resize", "resized to ", m, ": ", r.size(), " rows or other values");
                                r.clear();
                                collect(reader, r);
                                MC_CHECK(same_rows(r, expect), "reread", "second reading differs");
                                mc::evaluation(2);
                            }
                        };
                        if (f == vecs && n > 0) {
                            use(io::vecs::VecsReader<T>(path));
                        } else if (f == bin) {
                            use(io::binary::BinaryReader<T>(path));
                        } else if (f != vecs) {
                            io::NativeFile(path).resolve([&](const auto& file) { use(file.reader(lib::Type<T>())); });
                        }
                    });
                }
            }
        }
    }
}

// Cut at every byte, extended by every number of bytes, header bytes altered.
template <typename T> void damage() {
    for (Format f : {native, vecs, bin, vtest}) {
        for (auto [n, d] : std::vector<std::pair<size_t, size_t>>{{1, 1}, {2, 3}, {3, 2}, {5, 4}, {12, 1}}) {
            if (stop()) {
                return;
            }
            auto path = dir + "/damaged." + (f == vecs ? "fvecs" : f == bin ? "bin" : "svs");
            auto bytes = encode(f, make<T>(n, d, 0), d);
            size_t header = f == native ? 1024 : f == vtest ? 64 : 8;
            auto one = [&](const string& changed) {
                spit(path, changed);
                if (changed.empty()) {
                    MC_CHECK(!read<T>(f, path).ok && !load<T>(f, path).ok, "empty", "an empty file was read");
                    return;
                }
                check_reading<T>(f, changed, path, n <= 3);
            };
            for (size_t cut = 0; cut < bytes.size(); ++cut) {
                if (cut > 80 && cut + 40 < header && !mc::thorough() && cut % 64 != 0) {
                    continue;
                }
                mc::run([&] { return mc::str("cut ", format_name[f], " ", type_name<T>(), " n=", n, " d=", d, " at ", cut); }, [&] { one(bytes.substr(0, cut)); });
            }
            for (size_t more = 1; more <= (mc::thorough() ? 40 : 20); ++more) {
                mc::run([&] { return mc::str("extend ", format_name[f], " ", type_name<T>(), " n=", n, " d=", d, " by ", more); }, [&] { one(bytes + string(more, char(more))); });
            }
            size_t altered = f == native ? 40 : f == vtest ? 40 : f == bin ? 8 : std::min<size_t>(bytes.size(), 3 * (4 + d * sizeof(T)));
            for (size_t at = 0; at < altered; ++at) {
                for (int v : {0, 1, 2, 3, 4, 5, 6, 12, 127, 128, 255}) {
                    if (uint8_t(bytes[at]) == v) {
                        continue;
                    }
                    mc::run([&] { return mc::str("alter ", format_name[f], " ", type_name<T>(), " n=", n, " d=", d, " byte ", at, " to ", v); }, [&] {
                        auto changed = bytes;
                        changed[at] = char(v);
                        one(changed);
                    });
                }
            }
            // Consistent alterations of both numbers.
            if (f != vecs) {
                for (uint64_t a : {0ul, 1ul, 2ul, 3ul, 4ul, 6ul, 12ul, 1ul << 31, 1ul << 32, 1ul << 62, 1ul << 63, ~0ul}) {
                    for (uint64_t b : {0ul, 1ul, 2ul, 3ul, 4ul, 6ul, 12ul, 1ul << 31, 1ul << 32, 1ul << 62, 1ul << 63, ~0ul}) {
                        mc::run([&] { return mc::str("header ", format_name[f], " ", type_name<T>(), " n=", n, " d=", d, " becomes ", a, " x ", b); }, [&] {
                            auto changed = bytes;
                            if (f == bin) {
                                uint32_t x = a, y = b;
                                std::memcpy(changed.data(), &x, 4);
                                std::memcpy(changed.data() + 4, &y, 4);
                            } else {
                                std::memcpy(changed.data() + (f == native ? 24 : 8), &a, 8);
                                std::memcpy(changed.data() + (f == native ? 32 : 16), &b, 8);
                            }
                            one(changed);
                        });
                    }
                }
            }
        }
    }
}

// Conversions while writing ------------------------------------------------------------------
template <typename T> std::vector<T> values() {
    std::vector<double> v{0, 1, -1, 2, 100, 127, 128, -128, -129, 255, 256, 32767, 32768, 65535, 65536, 2147483647.0, 2147483648.0, -2147483648.0, 4294967295.0, 4294967296.0, 0.5, 0.1, -2.25, 65504, 65520, 1e-8, 1e10, 3e38, 16777217, 9007199254740993.0};
    std::vector<T> out;
    for (double x : v) {
        if constexpr (std::is_integral_v<T>) {
            if (x >= double(std::numeric_limits<T>::min()) && x <= double(std::numeric_limits<T>::max()) && x == std::floor(x)) {
                out.push_back(T(x));
            }
        } else if constexpr (std::is_same_v<T, Float16>) {
            out.push_back(Float16(float(x)));
        } else {
            out.push_back(T(x));
        }
    }
    return out;
}
template <typename T> long double exact(T x) {
    if constexpr (std::is_same_v<T, Float16>) {
        return float(x);
    } else {
        return x;
    }
}
// Does `T` hold the value of x?
template <typename T, typename U> bool holds(U x) {
    if constexpr (std::is_same_v<T, U>) {
        return true;
    }
    long double v = exact(x);
    if constexpr (std::is_integral_v<T>) {
        return v >= (long double)std::numeric_limits<T>::min() && v <= (long double)std::numeric_limits<T>::max() && v == std::floor(v);
    } else if constexpr (std::is_same_v<T, Float16>) {
        return std::isfinite(float(Float16(float(v)))) && (long double)(float(Float16(float(v)))) == v;
    } else {
        return (long double)(T(v)) == v;
    }
}
template <typename U, typename T> void conversion() {
    if constexpr (!((std::is_same_v<T, Float16> || std::is_same_v<U, Float16>) && !std::is_same_v<T, U> && !std::is_same_v<T, float> && !std::is_same_v<U, float>)) {
        auto all = values<U>();
        for (Format f : {native, vecs, bin}) {
            for (size_t k = 0; k < all.size() && !stop(); ++k) {
                mc::run([&] { return mc::str("convert ", format_name[f], " ", type_name<U>(), " to ", type_name<T>(), " value ", double(exact(all[k]))); }, [&] {
                    U x = all[k];
                    auto path = dir + "/converted";
                    std::vector<U> first{U(float(1)), U(float(2))}, second{U(float(3)), x};
                    bool lossy = std::is_same_v<U, float> && std::is_same_v<T, Float16>;
                    bool fine = lossy || holds<T>(x);
                    bool threw = mc::throws([&] {
                        auto go = [&](auto&& w) {
                            w << first;
                            w << std::span<const U>(second);
                        };
                        if (f == native) {
                            go(io::NativeFile(path).writer(lib::Type<T>(), 2));
                        } else if (f == vecs) {
                            go(io::vecs::VecsFile(path).writer<T>(2));
                        } else {
                            go(io::binary::BinaryFile(path).writer<T>(2, 2));
                        }
                    });
                    MC_CHECK(threw == !fine, "conversion", threw ? "refused" : "accepted");
                    auto got = read<T>(f, path);
                    if (fine) {
                        MC_CHECK(got.ok && got.rows.size() == 2 && exact(got.rows[0][0]) == 1 && exact(got.rows[0][1]) == 2 && exact(got.rows[1][0]) == 3, "conversion", "neighbouring values damaged: ", verdict(got));
                        T y = got.rows[1][1];
                        if (lossy) {
                            MC_CHECK(same_bits(y, T(x)), "conversion", "rounded to ", double(exact(y)));
                        } else {
                            MC_CHECK(exact(y) == exact(x), "conversion", "became ", double(exact(y)));
                        }
                    } else {
                        MC_CHECK(!got.ok, "conversion", "a file whose writing was refused half-way is readable: ", verdict(got));
                    }
                    mc::evaluation();
                });
            }
        }
    }
}

// Detection by extension and content -----------------------------------------------------------
static void detection() {
    auto rows = make<float>(3, 4, 0);
    const char* names[] = {"a.svs", "a.fvecs", "a.bvecs", "a.ivecs", "a.hvecs", "a.vecs", "a.bin", "a.fbin", "svs", "a.svs.old", "a.txt", "a", "a.vecs2", "a.binary", "bin.svs", "svs.fvecs", "vecs.bin"};
    for (const char* name : names) {
        for (Format actual : {native, vtest, vecs, bin}) {
            mc::run([&] { return mc::str("detect ", name, " holding ", format_name[actual]); }, [&] {
                auto path = dir + "/" + name;
                auto bytes = encode(actual, rows, 4);
                spit(path, bytes);
                std::string_view sv(name);
                bool known = sv.ends_with("svs") || sv.ends_with("vecs") || sv.ends_with("bin");
                MC_CHECK(io::special_by_file_extension(path) == known, "extension", "recognised: ", !known);
                Format by_name = sv.ends_with("svs") ? (actual == vtest ? vtest : native) : sv.ends_with("vecs") ? vecs : bin;
                Decoded<float> want;
                if (known) {
                    want = decode<float>(by_name, bytes);
                }
                auto compare = [&](const Got<float>& got, const char* how) {
                    MC_CHECK(got.ok == want.ok, "detect", how, ": expected ", want.ok ? "contents" : "a refusal", ", got ", verdict(got));
                    MC_CHECK(!want.ok || same_rows(got.rows, want.rows), "detect", how, ": other content");
                    mc::evaluation();
                };
                auto load_as = [&](auto&& f) { return guarded<float>([&](Got<float>& g) { rows_of(f(), g); }); };
                compare(load_as([&] { return svs::data::SimpleData<float>::load(path); }), "SimpleData");
                compare(load_as([&] { return svs::data::SimpleData<float, 4>::load(path); }), "SimpleData of fixed extent");
                compare(load_as([&] { return svs::load_data<float>(path); }), "load_data");
                compare(load_as([&] { return svs::VectorDataLoader<float>(path).load(); }), "VectorDataLoader");
                using Small = svs::data::Blocked<svs::lib::Allocator<float>>;
                Small small{svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(6)}};
                compare(load_as([&] { return svs::data::BlockedData<float>::load(path, small); }), "BlockedData");
                compare(load_as([&] { return svs::data::BlockedData<float, 4>::load(path, small); }), "BlockedData of fixed extent");
                if (want.ok) {
                    MC_CHECK(mc::throws([&] { svs::data::SimpleData<float, 5>::load(path); }), "extent", "loaded with another fixed dimensionality");
                    MC_CHECK(mc::throws([&] { svs::data::BlockedData<float, 5>::load(path, small); }), "extent", "blocked: loaded with another fixed dimensionality");
                }
                // Deduction with hints.
                auto unspecified = [&](std::optional<svs::DataType> t, std::optional<size_t> d) {
                    return guarded<float>([&](Got<float>& g) {
                        svs::UnspecializedVectorDataLoader<> u(path, t, d);
                        g.d = u.dims_;
                        MC_CHECK(u.type_ == svs::DataType::float32, "hint", "type");
                        rows_of(u.refine(lib::Type<float>()).load(), g);
                    });
                };
                compare(unspecified(svs::DataType::float32, 4), "both hints");
                compare(unspecified(svs::DataType::float32, {}), "type hint");
                MC_CHECK(!unspecified({}, 4).ok && !unspecified({}, {}).ok, "hint", "the element type of a raw file was invented");
                if (want.ok) {
                    MC_CHECK(mc::throws([&] { svs::UnspecializedVectorDataLoader<> u(path, svs::DataType::float32); u.refine(lib::Type<Float16>()); }), "hint", "refined to another type");
                    MC_CHECK(mc::throws([&] { svs::UnspecializedVectorDataLoader<> u(path, svs::DataType::float32); u.refine(lib::Type<float>(), lib::Val<3>()); }), "hint", "refined to another extent");
                    MC_CHECK(io::deduce_dimensions(path) == 4, "dims", "deduced ", io::deduce_dimensions(path));
                    MC_CHECK(mc::throws([&] { lib::load_from_disk<svs::data::Matcher>(fs::path(path), svs::DataType::float32, size_t(3)); }), "hint", "wrong dimensionality accepted");
                }
                // By content, whatever the name.
                auto kind = io::classify(path);
                bool is_native = actual == native || actual == vtest;
                MC_CHECK(kind.has_value() == is_native, "classify", "wrong");
                auto lazy = lib::Lazy([](size_t n, size_t d) { return svs::data::SimpleData<float>(n, d); });
                for (int how = 0; how < 4; ++how) {
                    auto g = load_as([&] {
                        return how == 0   ? io::load_dataset(io::NativeFile(path), lazy)
                               : how == 1 ? io::load_dataset(path, lazy)
                               : how == 2 ? io::load_dataset(std::string_view(path), lazy)
                                          : io::load_dataset(fs::path(path), lazy);
                    });
                    MC_CHECK(g.ok == is_native, "native", "by content: ", verdict(g));
                    MC_CHECK(!g.ok || same_rows(g.rows, rows), "native", "other content");
                }
                fs::remove(path);
            });
        }
    }
    mc::run([] { return string("database files"); }, [&] {
        string s;
        put(s, database_magic);
        s.resize(2048, '\1');
        spit(dir + "/d.svs", s);
        MC_CHECK(io::classify(dir + "/d.svs") == io::FileSchema::Database, "classify", "not recognised");
        MC_CHECK(!read<float>(native, dir + "/d.svs").ok && !load<float>(native, dir + "/d.svs").ok, "database", "read as vectors");
    });
    mc::run([] { return string("missing files"); }, [&] {
        for (Format f : {native, vecs, bin}) {
            MC_CHECK(!read<float>(f, dir + "/missing").ok && !load<float>(f, dir + "/missing").ok, "missing", format_name[f]);
            MC_CHECK(!read<float>(f, dir).ok && !load<float>(f, dir).ok, "directory", format_name[f]);
        }
        MC_CHECK(mc::throws([&] { io::vecs::VecsFile(dir + "/none/x").writer<float>(1); }), "missing", "written into a missing directory");
    });
}

// Whole datasets and query results -------------------------------------------------------------
template <typename T> void datasets() {
    for (size_t n = 1; n <= 4; ++n) {
        for (size_t d = 1; d <= 5; ++d) {
            mc::run([&] { return mc::str("dataset ", type_name<T>(), " n=", n, " d=", d); }, [&] {
                auto rows = make<T>(n, d, 0);
                svs::data::SimpleData<T> data(n, d);
                using Small = svs::data::Blocked<svs::lib::Allocator<T>>;
                svs::data::BlockedData<T> blocked(n, d, Small{svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(6)}});
                for (size_t i = 0; i < n; ++i) {
                    data.set_datum(i, std::span<const T>(rows[i]));
                    blocked.set_datum(i, std::span<const T>(rows[i]));
                }
                auto compare = [&](Format f, const string& path) {
                    MC_CHECK(slurp(path) == encode(f, rows, d), "saved", format_name[f], " file differs from the format's description");
                    mc::evaluation();
                };
                io::save_vecs(data, dir + "/s.fvecs");
                compare(vecs, dir + "/s.fvecs");
                io::save_vecs(blocked, dir + "/s.fvecs");
                compare(vecs, dir + "/s.fvecs");
                io::save(data, io::NativeFile(dir + "/s.svs"));
                compare(native, dir + "/s.svs");
                io::save(blocked, io::NativeFile(dir + "/s.svs"));
                compare(native, dir + "/s.svs");
                // Headers written early, more vectors afterwards.
                {
                    auto w = io::NativeFile(dir + "/s.svs").writer(lib::Type<T>(), d);
                    for (size_t i = 0; i < n; ++i) {
                        w << data.get_datum(i);
                        w.writeheader();
                        w.flush();
                        auto part = rows;
                        part.resize(i + 1);
                        MC_CHECK(slurp(dir + "/s.svs") == encode(native, part, d), "header", "after ", i + 1, " vectors");
                    }
                }
                compare(native, dir + "/s.svs");
            });
        }
    }
}
template <typename I> void results() {
    for (size_t n = 1; n <= 3; ++n) {
        for (size_t k = 1; k <= 4; ++k) {
            mc::run([&] { return mc::str("query result ", type_name<I>(), " n=", n, " k=", k); }, [&] {
                svs::QueryResult<I> r(n, k);
                Rows<uint32_t> rows(n, std::vector<uint32_t>(k));
                for (size_t i = 0; i < n; ++i) {
                    for (size_t j = 0; j < k; ++j) {
                        rows[i][j] = uint32_t(0xfffffff0u * (i % 2) + j + 3 * i);
                        r.index(i, j) = rows[i][j];
                        r.distance(i, j) = 1;
                    }
                }
                auto path = dir + "/r.ivecs";
                r.save_vecs(path);
                MC_CHECK(slurp(path) == encode(vecs, rows, k), "result", "file differs from the format's description");
                auto g = load<uint32_t>(vecs, path);
                MC_CHECK(g.ok && same_rows(g.rows, rows), "result", "read back ", verdict(g));
                if constexpr (sizeof(I) > 4) {
                    r.index(n - 1, k - 1) = I(1) << 32;
                    MC_CHECK(mc::throws([&] { r.save_vecs(path); }), "result", "an identifier that does not fit was written");
                }
                mc::evaluation(2);
            });
        }
    }
}

static void body() {
    mc::ScratchDir scratch;
    dir = scratch.path.string();
    detection();
    results<uint32_t>();
    results<size_t>();
    types([&](auto t) {
        using T = typename decltype(t)::type;
        datasets<T>();
        shapes<T>();
        types([&](auto u) { conversion<typename decltype(u)::type, T>(); });
    });
    damage<float>();
    damage<uint8_t>();
    damage<Float16>();
    if (mc::thorough()) {
        damage<double>();
        damage<uint32_t>();
    }
}
MC_MAIN("C25", body)
