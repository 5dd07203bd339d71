// C21: number conversions against exact arithmetic, on the instruction set of this build.
#include "mc.h"
#include "svs/lib/float16.h"
#include "svs/lib/misc.h"
#include "svs/lib/narrow.h"

#include <algorithm>
#include <cfloat>
#include <limits>
#include <typeinfo>
#include <unordered_set>

using svs::Float16;
namespace lib = svs::lib;

static float float_of(uint32_t b) {
    float f;
    std::memcpy(&f, &b, 4);
    return f;
}
static uint32_t bits_of(float f) {
    uint32_t b;
    std::memcpy(&b, &f, 4);
    return b;
}

// The value of a half-precision number, from its definition.
static double half_value(uint16_t h) {
    int e = (h >> 10) & 31, m = h & 1023;
    double v = e == 0 ? std::ldexp(double(m), -24) : std::ldexp(double(1024 + m), e - 25);
    return h & 0x8000 ? -v : v;
}

static void halves() {
    for (uint32_t block = 0; block < 16; ++block) {
        mc::run([&] { return mc::str("half-precision patterns, block ", block); }, [&] {
            for (uint32_t i = block * 4096; i < (block + 1) * 4096; ++i) {
                auto raw = uint16_t(i);
                Float16 h = Float16::from_raw(raw);
                MC_CHECK(h.raw() == raw, "raw", "pattern ", raw, " is stored as ", h.raw());
                float f = h;
                bool special = ((raw >> 10) & 31) == 31, nan = special && (raw & 1023);
                if (nan) {
                    MC_CHECK(std::isnan(f), "to-single", "NaN pattern ", raw, " became ", f);
                } else if (special) {
                    MC_CHECK(std::isinf(f), "to-single", "infinity ", raw, " became ", f);
                } else {
                    MC_CHECK(double(f) == half_value(raw), "to-single", "pattern ", raw, " became ", f, " instead of ", half_value(raw));
                }
                MC_CHECK(std::signbit(f) == bool(raw & 0x8000), "to-single", "pattern ", raw, " changed its sign: ", f);
                Float16 back(f);
                Float16 assigned = Float16::from_raw(0);
                assigned = f;
                MC_CHECK(back.raw() == assigned.raw(), "round-trip", "construction and assignment differ for ", f);
                if (nan) {
                    MC_CHECK((back.raw() & 0x7C00) == 0x7C00 && (back.raw() & 0x3FF) && (back.raw() & 0x8000) == (raw & 0x8000), "round-trip", "NaN pattern ", raw, " came back as ", back.raw());
                } else {
                    MC_CHECK(back.raw() == raw, "round-trip", "pattern ", raw, " (", f, ") came back as ", back.raw());
                    MC_CHECK(h == back && std::hash<Float16>()(h) == std::hash<Float16>()(back), "equality", "pattern ", raw);
                    MC_CHECK(Float16(double(f)).raw() == raw, "round-trip", "pattern ", raw, " through double precision");
                    MC_CHECK(lib::narrow<float>(h) == f && lib::narrow<double>(h) == double(f), "narrow", "widening of ", f);
                    if (!special) {
                        MC_CHECK(lib::narrow<Float16>(f).raw() == raw && lib::relaxed_narrow<Float16>(f).raw() == raw, "narrow", "narrowing of ", f);
                    }
                }
                mc::transition();
                mc::evaluation();
            }
            mc::state(block);
            mc::trace();
        });
    }
    mc::run([] { return std::string("half-precision equality"); }, [] {
        for (uint32_t i = 0; i < 65536; i += 7) {
            for (uint32_t j = i % 31; j < 65536; j += 1021) {
                Float16 a = Float16::from_raw(uint16_t(i)), b = Float16::from_raw(uint16_t(j));
                MC_CHECK((a == b) == (float(a) == float(b)), "equality", i, " ", j);
                if (a == b) {
                    MC_CHECK(std::hash<Float16>()(a) == std::hash<Float16>()(b), "equality", "hash of equal numbers ", i, " ", j);
                }
            }
        }
        MC_CHECK(Float16::from_raw(0) == Float16::from_raw(0x8000) && std::hash<Float16>()(Float16::from_raw(0)) == std::hash<Float16>()(Float16::from_raw(0x8000)), "equality", "signed zeros");
        mc::trace();
    });
}

// Every single-precision number, in order of magnitude.
static void singles() {
    constexpr uint32_t pieces = 256;
    for (uint32_t piece = 0; piece < pieces; ++piece) {
        mc::run([&] { return mc::str("single-precision numbers, piece ", piece, " of ", pieces); }, [&] {
            uint32_t first = uint32_t((uint64_t(0x7F800001) * piece) / pieces), last = uint32_t((uint64_t(0x7F800001) * (piece + 1)) / pieces);
            // the largest finite half not above |x|
            uint32_t h = 0;
            auto value = [](uint32_t k) { return k < 0x7C00 ? half_value(uint16_t(k)) : 65536.0; };
            for (uint32_t step = 0x4000; step; step /= 2) {
                if (h + step < 0x7C00 && value(h + step) <= double(float_of(first))) {
                    h += step;
                }
            }
            double here = value(h), next = value(h + 1), middle = (here + next) / 2;
            for (uint32_t b = first; b < last; ++b) {
                double x = double(float_of(b));
                while (h < 0x7C00 && next <= x) {
                    ++h;
                    here = next;
                    next = h < 0x7C00 ? value(h + 1) : HUGE_VAL;
                    middle = h < 0x7C00 ? (here + next) / 2 : HUGE_VAL;
                }
                uint16_t want = h >= 0x7C00 ? 0x7C00 : uint16_t(x < middle ? h : x > middle ? h + 1 : h + (h & 1));
                uint16_t got = Float16(float_of(b)).raw(), negative = Float16(float_of(b | 0x80000000u)).raw();
                if (got != want || negative != (want | 0x8000)) {
                    mc::fail("to-half", mc::str("single ", float_of(b), " (bits ", b, ") became half ", got, " (negative: ", negative, ") instead of ", want));
                }
            }
            (void)here;
            mc::transition(2 * uint64_t(last - first));
            mc::evaluation(2 * uint64_t(last - first));
            mc::state(mc::hash(mc::str("single", piece)));
            mc::trace();
        });
    }
    mc::run([] { return std::string("single-precision NaNs"); }, [] {
        for (uint32_t m = 1; m < (1u << 23); m += m < 5000 ? 1 : 977) {
            for (uint32_t s : {0u, 0x80000000u}) {
                uint16_t got = Float16(float_of(s | 0x7F800000u | m)).raw();
                MC_CHECK((got & 0x7C00) == 0x7C00 && (got & 0x3FF) && (got & 0x8000) == (s >> 16), "to-half", "NaN with mantissa ", m, " became ", got);
                mc::transition();
            }
        }
        mc::trace();
    });
}

// ---- narrowing ------------------------------------------------------------------------------

template <typename T> const char* type_name() {
    return std::is_same_v<T, int8_t> ? "i8" : std::is_same_v<T, uint8_t> ? "u8" : std::is_same_v<T, int16_t> ? "i16" : std::is_same_v<T, uint16_t> ? "u16" : std::is_same_v<T, int32_t> ? "i32" : std::is_same_v<T, uint32_t> ? "u32" : std::is_same_v<T, int64_t> ? "i64" : std::is_same_v<T, uint64_t> ? "u64" : std::is_same_v<T, float> ? "f32" : std::is_same_v<T, double> ? "f64" : "f16";
}

template <typename U> std::vector<U> values() {
    std::vector<U> v;
    if constexpr (sizeof(U) <= 2) {
        for (uint32_t i = 0; i < (1u << (8 * sizeof(U))); ++i) {
            if constexpr (std::is_same_v<U, Float16>) {
                v.push_back(Float16::from_raw(uint16_t(i)));
            } else {
                v.push_back(U(i));
            }
        }
    } else if constexpr (std::is_integral_v<U>) {
        for (int k = 0; k <= int(8 * sizeof(U)); ++k) {
            __int128 p = __int128(1) << k;
            for (__int128 d = -3; d <= 3; ++d) {
                for (__int128 x : {p + d, -p + d, p + p / 2 + d, -p - p / 2 + d}) {
                    if (x >= __int128(std::numeric_limits<U>::min()) && x <= __int128(std::numeric_limits<U>::max())) {
                        v.push_back(U(x));
                    }
                }
            }
        }
        for (int64_t x = -70000; x <= 70000; ++x) {
            if (std::is_signed_v<U> || x >= 0) {
                v.push_back(U(x));
            }
        }
    } else {
        auto both = [&](U x) {
            v.push_back(x);
            v.push_back(-x);
        };
        for (int k = std::numeric_limits<U>::min_exponent - 30; k < std::numeric_limits<U>::max_exponent; ++k) {
            U p = std::ldexp(U(1), k);
            for (U x : {p, p * U(1.5), p * U(1.25)}) {
                both(x);
                both(std::nextafter(x, U(0)));
                both(std::nextafter(x, std::numeric_limits<U>::infinity()));
            }
            if (k <= 66) {
                for (int d = 1; d <= 3; ++d) {
                    both(p + U(d));
                    both(p - U(d));
                    both(p + U(d) / 2);
                }
            }
        }
        for (int x = 0; x <= 70000; ++x) {
            both(U(x));
            both(U(x) + U(0.5));
        }
        both(0);
        both(std::numeric_limits<U>::infinity());
        both(std::numeric_limits<U>::max());
        v.push_back(std::numeric_limits<U>::quiet_NaN());
    }
    return v;
}

template <typename U> long double exact(U u) {
    if constexpr (std::is_same_v<U, Float16>) {
        return static_cast<long double>(float(u));
    } else {
        return static_cast<long double>(u); // 64 bits of mantissa hold every value in use
    }
}

template <typename T, typename U> bool fits(U u) {
    long double x = exact(u);
    if (std::isnan(x)) {
        return false;
    }
    if constexpr (std::is_same_v<T, Float16>) {
        if (std::isinf(x)) {
            return true;
        }
        uint16_t h = 0;
        long double a = std::fabs(x);
        for (uint16_t step = 0x4000; step; step /= 2) {
            if (h + step < 0x7C00 && half_value(uint16_t(h + step)) <= a) {
                h = uint16_t(h + step);
            }
        }
        return half_value(h) == a;
    } else if constexpr (std::is_integral_v<T>) {
        return !std::isinf(x) && std::floor(x) == x && x >= static_cast<long double>(std::numeric_limits<T>::min()) && x <= static_cast<long double>(std::numeric_limits<T>::max());
    } else if (std::isinf(x)) {
        return true;
    } else {
        // enough exponent and mantissa
        int e;
        long double m = std::frexp(std::fabs(x), &e);
        int spacing = std::max(e - std::numeric_limits<T>::digits, std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits);
        long double scaled = std::ldexp(m, e - spacing);
        return x == 0 || (e <= std::numeric_limits<T>::max_exponent && std::floor(scaled) == scaled);
    }
}

template <typename T, typename U> void narrowing() {
    mc::run([] { return mc::str("narrowing ", type_name<U>(), " to ", type_name<T>()); }, [] {
        size_t kept = 0, refused = 0;
        for (U u : values<U>()) {
            if (std::is_same_v<T, U> && std::isnan(exact(u))) {
                continue; // no conversion at all
            }
            bool ok = fits<T>(u);
            (ok ? kept : refused)++;
            auto attempt = [&](auto&& f, const char* what) {
                T t{};
                bool threw = mc::throws([&] { t = f(); });
                MC_CHECK(!(ok && threw), "narrow", what, " of ", exact(u), " from ", type_name<U>(), " to ", type_name<T>(), " was refused");
                MC_CHECK(!(!ok && !threw), "narrow", what, " of ", exact(u), " from ", type_name<U>(), " to ", type_name<T>(), " gave ", exact(t));
                MC_CHECK(!ok || exact(t) == exact(u), "narrow", what, " of ", exact(u), " from ", type_name<U>(), " to ", type_name<T>(), " gave ", exact(t));
            };
            attempt([&] { return lib::narrow<T>(u); }, "narrow");
            if constexpr (!svs::allow_lossy_conversion<U, T>) {
                attempt([&] { return lib::relaxed_narrow<T>(u); }, "relaxed_narrow");
            } else if (!std::isnan(float(u))) {
                T t = lib::relaxed_narrow<T>(u);
                MC_CHECK(exact(t) == exact(T(u)), "narrow", "relaxed_narrow of ", exact(u));
            }
            mc::transition();
            mc::evaluation();
        }
        mc::state(mc::hash(mc::str(type_name<T>(), type_name<U>())));
        mc::outcome(mc::hash(mc::str(kept, refused)));
        mc::trace();
    });
}
template <typename U> void from() {
    narrowing<int8_t, U>();
    narrowing<uint8_t, U>();
    narrowing<int16_t, U>();
    narrowing<uint16_t, U>();
    narrowing<int32_t, U>();
    narrowing<uint32_t, U>();
    narrowing<int64_t, U>();
    narrowing<uint64_t, U>();
    narrowing<float, U>();
    narrowing<double, U>();
}

// ---- helpers on sizes --------------------------------------------------------------------------

static void sizes() {
    mc::run([] { return std::string("powers of two"); }, [] {
        auto check = [](size_t x) {
            if (x == 0) {
                MC_CHECK(mc::throws([] { (void)lib::prevpow2(0); }), "power", "the power of two below zero");
                return;
            }
            auto p = lib::prevpow2(x);
            MC_CHECK(p.value() <= x && x / 2 < p.value() && (p.value() & (p.value() - 1)) == 0 && p.value() == size_t(1) << p.raw(), "power", "prevpow2(", x, ") = ", p.value());
            MC_CHECK(p.mod_mask() == p.value() - 1, "power", "mask of ", p.value());
            mc::transition();
        };
        for (size_t x = 0; x < 70000; ++x) {
            check(x);
        }
        for (int k = 0; k < 64; ++k) {
            for (size_t d = 0; d < 3; ++d) {
                check((size_t(1) << k) + d);
                check((size_t(1) << k) - d);
                check(~((size_t(1) << k) + d));
            }
            auto p = lib::PowerOfTwo(size_t(k));
            for (size_t x = 0; x < 2000; ++x) {
                for (size_t y : {x, x << 20, x << 50, ~x}) {
                    MC_CHECK(y / p == y / p.value() && y % p == y % p.value() && y * p == y * p.value() && p * y == y * p.value(), "power", y, " and 2^", k);
                }
            }
        }
        mc::trace();
    });
    mc::run([] { return std::string("rounding up"); }, [] {
        for (size_t y = 1; y <= 70; ++y) {
            for (size_t x = 0; x <= 1500; ++x) {
                for (size_t big : {size_t(0), size_t(1) << 33, size_t(1) << 53, size_t(1) << 62}) {
                    size_t a = big + x;
                    size_t q = lib::div_round_up(a, y), r = lib::round_up_to_multiple_of(a, y);
                    MC_CHECK(q * y >= a && (q == 0 || (q - 1) * y < a), "round", a, " divided by ", y, " rounded up gave ", q);
                    MC_CHECK(r % y == 0 && r >= a && r - a < y, "round", a, " rounded up to a multiple of ", y, " gave ", r);
                    mc::transition();
                }
            }
        }
        for (size_t y : {size_t(1) << 12, size_t(1) << 21, size_t(1) << 30, size_t(1) << 40}) {
            for (size_t k = 0; k < 20; ++k) {
                for (size_t d : {-2, -1, 0, 1, 2}) {
                    size_t a = k * y + d;
                    if (k == 0 && int64_t(a) < 0) {
                        continue;
                    }
                    size_t r = lib::round_up_to_multiple_of(a, y);
                    MC_CHECK(r % y == 0 && r >= a && r - a < y, "round", a, " rounded up to a multiple of ", y, " gave ", r);
                }
            }
        }
        MC_CHECK(lib::div_round_up(SIZE_MAX, 1) == SIZE_MAX && lib::div_round_up(SIZE_MAX, SIZE_MAX) == 1 && lib::div_round_up(SIZE_MAX - 1, SIZE_MAX) == 1, "round", "largest sizes");
        mc::trace();
    });
    mc::run([] { return std::string("common members"); }, [] {
        // every pair of short lists over few values
        std::vector<std::vector<int>> lists;
        std::vector<int> l;
        std::function<void()> grow = [&] {
            lists.push_back(l);
            if (l.size() < 4) {
                for (int x = 0; x < 4; ++x) {
                    l.push_back(x);
                    grow();
                    l.pop_back();
                }
            }
        };
        grow();
        for (auto& a : lists) {
            for (auto& b : lists) {
                std::set<int> x(a.begin(), a.end()), y(b.begin(), b.end());
                size_t want = 0;
                for (int k : x) {
                    want += y.count(k);
                }
                MC_CHECK(lib::count_intersect(a, b) == want, "intersect", mc::list(a), " and ", mc::list(b), " share ", lib::count_intersect(a, b));
                mc::transition();
            }
        }
        mc::trace();
    });
    mc::run([] { return std::string("halves from integers and doubles"); }, [] {
        for (int x = -70000; x <= 70000; ++x) {
            uint16_t want = Float16(float(x)).raw();
            MC_CHECK(Float16(x).raw() == want, "to-half", "the integer ", x);
            if (x >= 0) {
                MC_CHECK(Float16(size_t(x)).raw() == want, "to-half", "the size ", x);
            }
            mc::transition();
        }
        for (int k = 0; k < 64; ++k) {
            for (size_t d : {0, 1, 2, 3}) {
                size_t x = (size_t(1) << k) - d;
                bool exact = size_t(__int128(float(x))) == x && __int128(float(x)) == __int128(x);
                MC_CHECK(mc::throws([&] { (void)Float16(x); }) == !exact, "to-half", "the size ", x, exact ? " was refused" : " was accepted");
            }
        }
        mc::trace();
    });
}

static void body() {
    halves();
    singles();
    from<int8_t>();
    from<uint8_t>();
    from<int16_t>();
    from<uint16_t>();
    from<int32_t>();
    from<uint32_t>();
    from<int64_t>();
    from<uint64_t>();
    from<float>();
    from<double>();
    narrowing<int8_t, Float16>();
    narrowing<uint8_t, Float16>();
    narrowing<int16_t, Float16>();
    narrowing<float, Float16>();
    narrowing<double, Float16>();
    narrowing<Float16, float>();
    sizes();
}

MC_MAIN("C21", body)
