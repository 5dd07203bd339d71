// C20: distance functions against their definition, on the instruction set of this build.
#include "mc.h"
#include "svs/core/distance.h"
#include "svs/concepts/distance.h"
#include "svs/lib/float16.h"
#include "svs/lib/neighbor.h"

#include <csetjmp>
#include <csignal>
#include <sys/mman.h>

#ifndef PAIRS
#define PAIRS 0
#endif

using svs::Float16;
using L2 = svs::distance::DistanceL2;
using IP = svs::distance::DistanceIP;
using Cos = svs::distance::DistanceCosineSimilarity;

// ---- memory with nothing around it ------------------------------------------------------------

static sigjmp_buf jump;
static volatile sig_atomic_t armed = 0;
static void on_segv(int sig) {
    if (armed) {
        siglongjmp(jump, 1);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}

struct Guarded {
    static constexpr size_t room = 1 << 16;
    char* base;
    Guarded() {
        size_t page = 4096;
        char* p = static_cast<char*>(mmap(nullptr, room + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p == MAP_FAILED || mprotect(p + page, room, PROT_READ | PROT_WRITE)) {
            std::perror("guard pages");
            std::exit(2);
        }
        base = p + page;
    }
    // `n` elements that end (or begin) at unmapped memory.
    template <typename T> T* at_end(size_t n) { return reinterpret_cast<T*>(base + room - n * sizeof(T)); }
    template <typename T> T* at_start() { return reinterpret_cast<T*>(base); }
};
static Guarded& left() {
    static Guarded g;
    return g;
}
static Guarded& right() {
    static Guarded g;
    return g;
}

// ---- definition -------------------------------------------------------------------------------

struct Value {
    double value;
    double scale; // sum of the magnitudes that were added
};
template <typename A, typename B> Value define(L2, const A* a, const B* b, size_t n) {
    double s = 0;
    for (size_t i = 0; i < n; ++i) {
        double d = double(float(a[i])) - double(float(b[i]));
        s += d * d;
    }
    return {s, s};
}
template <typename A, typename B> Value define(IP, const A* a, const B* b, size_t n) {
    double s = 0, m = 0;
    for (size_t i = 0; i < n; ++i) {
        double d = double(float(a[i])) * double(float(b[i]));
        s += d;
        m += std::fabs(d);
    }
    return {s, m};
}
template <typename A, typename B> Value define(Cos, const A* a, const B* b, size_t n) {
    double x = 0, y = 0;
    for (size_t i = 0; i < n; ++i) {
        x += double(float(a[i])) * double(float(a[i]));
        y += double(float(b[i])) * double(float(b[i]));
    }
    if (x == 0 || y == 0) {
        return {0, 0};
    }
    auto ip = define(IP(), a, b, n);
    double norm = std::sqrt(x) * std::sqrt(y);
    return {ip.value / norm, ip.scale / norm + std::fabs(ip.value / norm)};
}
static const char* name(L2) { return "L2"; }
static const char* name(IP) { return "IP"; }
static const char* name(Cos) { return "cosine"; }
template <typename T> const char* tname();
template <> const char* tname<float>() { return "f32"; }
template <> const char* tname<Float16>() { return "f16"; }
template <> const char* tname<int8_t>() { return "i8"; }
template <> const char* tname<uint8_t>() { return "u8"; }

template <typename T> std::string shown(const T* p, size_t n) {
    std::vector<float> v;
    for (size_t i = 0; i < std::min<size_t>(n, 40); ++i) {
        v.push_back(float(p[i]));
    }
    return mc::list(v) + (n > 40 ? mc::str("... (", n, ")") : "");
}

// Static, dynamic, or mixed extents of both arguments.
template <size_t EA, size_t EB, typename Dist, typename A, typename B> float call(Dist d, const A* a, const B* b, size_t n) {
    std::span<const A, EA> x(a, n);
    std::span<const B, EB> y(b, n);
    svs::distance::maybe_fix_argument(d, x);
    return svs::distance::compute(d, x, y);
}

// The call under test, separate from its callers so that they are compiled once per type pair.
template <typename A, typename B> using Kernel = float (*)(const A*, const B*, size_t);
template <size_t EA, size_t EB, typename Dist, typename A, typename B> [[gnu::noinline]] float kernel(const A* a, const B* b, size_t n) {
    return call<EA, EB>(Dist(), a, b, n);
}

template <typename Dist, typename A, typename B>
[[gnu::noinline]] void compare(Kernel<A, B> f, const A* a, const B* b, size_t n, const char* what, bool fixed) {
    auto want = define(Dist(), a, b, n);
    volatile float got = 0;
    if (sigsetjmp(jump, 1) == 0) {
        armed = 1;
        got = f(a, b, n);
        armed = 0;
    } else {
        armed = 0;
        mc::fail("out-of-bounds", mc::str(name(Dist()), " ", tname<A>(), "/", tname<B>(), " of ", n, " coordinates (", what, ") touched memory outside of its arguments"));
    }
    // at most one rounding per coordinate and lane, and a few for the final division
    double tolerance = want.scale * 6e-8 * (double(n) / 4 + 12) + 1e-37;
    bool ok = std::isfinite(want.value) ? std::fabs(double(got) - want.value) <= tolerance : false;
    MC_CHECK(
        ok, "value", name(Dist()), " ", tname<A>(), "/", tname<B>(), " of ", n, " coordinates (", what, fixed ? ", fixed length" : "", "): ", shown(a, n), " and ",
        shown(b, n), " gave ", float(got), " instead of ", want.value
    );
    mc::transition();
    mc::evaluation();
    float g = got;
    uint32_t bits;
    std::memcpy(&bits, &g, 4);
    mc::outcome(bits >> 12);
}

struct Lcg {
    uint64_t s;
    uint32_t next() {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return uint32_t(s >> 33);
    }
};
template <typename T> T some(Lcg& r, int kind) {
    uint32_t x = r.next();
    if constexpr (std::is_same_v<T, int8_t>) {
        return kind == 2 ? T(x & 1 ? -128 : 127) : T(x & 255);
    } else if constexpr (std::is_same_v<T, uint8_t>) {
        return kind == 2 ? T(x & 3 ? 255 : 0) : T(x & 255);
    } else {
        switch (kind) {
        case 0:
            return T(float(int(x % 17) - 8)); // sums are exact
        case 1:
            return T((float(int(x % 20001) - 10000)) / 1000.0f);
        default:
            return T((x & 1 ? 1.0f : -1.0f) * std::ldexp(1.0f + float(x % 1024) / 1024, int(x >> 10) % 12 - 6));
        }
    }
}

template <typename Dist, typename A, typename B> [[gnu::noinline]] void dimension(size_t n, Kernel<A, B> both, Kernel<A, B> second, Kernel<A, B> first, bool fixed) {
    auto& L = left();
    auto& R = right();
    mc::state(mc::hash(mc::str(name(Dist()), tname<A>(), tname<B>(), n, fixed)));
    for (int place = 0; place < 4; ++place) {
        A* a = place & 1 ? L.at_start<A>() : L.at_end<A>(n);
        B* b = place & 2 ? R.at_start<B>() : R.at_end<B>(n);
        // every coordinate on its own, on a background of nothing and of ones
        for (int ground = 0; ground < 2; ++ground) {
            for (size_t i = 0; i < n; ++i) {
                a[i] = A(float(ground));
                b[i] = B(float(ground));
            }
            compare<Dist, A, B>(both, a, b, n, "background", fixed);
            size_t step = place == 0 || n <= 24 ? 1 : 7; // quick: other placements sample positions
            for (size_t i = ground; i < n; i += step) {
                a[i] = A(3.0f);
                b[i] = B(7.0f);
                compare<Dist, A, B>(both, a, b, n, "one coordinate of both", fixed);
                b[i] = B(float(ground));
                compare<Dist, A, B>(both, a, b, n, "one coordinate of the left", fixed);
                a[i] = A(float(ground));
                b[i] = B(5.0f);
                compare<Dist, A, B>(both, a, b, n, "one coordinate of the right", fixed);
                b[i] = B(float(ground));
            }
        }
        Lcg r{n * 1000 + place};
        for (int kind = 0; kind < 3; ++kind) {
            for (size_t i = 0; i < n; ++i) {
                a[i] = some<A>(r, kind);
                b[i] = some<B>(r, kind);
            }
            compare<Dist, A, B>(both, a, b, n, "dense", fixed);
            compare<Dist, A, B>(second, a, b, n, "dense, mixed extents", fixed);
            compare<Dist, A, B>(first, a, b, n, "dense, mixed extents", fixed);
        }
        // one against itself
        if constexpr (std::is_same_v<A, B>) {
            compare<Dist, A, B>(both, a, static_cast<const B*>(a), n, "itself", fixed);
        }
    }
    mc::trace();
}

template <size_t E, typename Dist, typename A, typename B> void dimension(size_t n) {
    dimension<Dist, A, B>(n, kernel<E, E, Dist, A, B>, kernel<svs::Dynamic, E, Dist, A, B>, kernel<E, svs::Dynamic, Dist, A, B>, E != svs::Dynamic);
}

template <typename Dist, typename A, typename B, size_t... E> void fixed(std::index_sequence<E...>) {
    auto one = [&]<size_t N>() {
        mc::run([&] { return mc::str(name(Dist()), " ", tname<A>(), "/", tname<B>(), " fixed length ", N); }, [&] { dimension<N, Dist, A, B>(N); });
    };
    (one.template operator()<E>(), ...);
}

// Every pair of 8-bit values, every half-precision number.
template <typename Dist, typename A, typename B> void every_value() {
    auto& L = left();
    auto& R = right();
    auto sweep = [&]<typename T>(T*) {
        std::vector<T> v;
        if constexpr (std::is_same_v<T, Float16>) {
            for (uint32_t i = 0; i < 65536; ++i) {
                uint16_t bits = uint16_t(i);
                Float16 x;
                std::memcpy(&x, &bits, 2);
                if (std::isfinite(float(x))) {
                    v.push_back(x);
                }
            }
        } else if constexpr (sizeof(T) == 1) {
            for (int i = 0; i < 256; ++i) {
                v.push_back(T(i));
            }
        } else {
            for (float x : {0.0f, -0.0f, 1.0f, -1.0f, 0.1f, 3.14159f, 1e-10f, -1e-10f, 1e10f, -3e15f, 16777217.0f, 1e-30f, 65504.0f, -0.33333f, 255.0f, 12345.678f}) {
                v.push_back(x);
            }
        }
        return v;
    };
    auto va = sweep(static_cast<A*>(nullptr));
    auto vb = sweep(static_cast<B*>(nullptr));
    // all of the longer list against a part of the shorter one
    auto thin = [](auto& v, size_t keep) {
        std::remove_reference_t<decltype(v)> few;
        for (size_t i = 0; i < keep; ++i) {
            few.push_back(v[i * (v.size() - 1) / (keep - 1)]);
        }
        v = few;
    };
    if (va.size() > 256 && vb.size() > 16) {
        thin(vb, 16);
    } else if (vb.size() > 256 && va.size() > 16) {
        thin(va, 16);
    }
    for (size_t n : {size_t(1), size_t(8), size_t(33)}) {
        for (size_t at : {size_t(0), n - 1}) {
            if ((n == 1 && at) || (n > 1 && va.size() * vb.size() > 70000 && at == 0)) {
                continue;
            }
            A* a = L.at_end<A>(n);
            B* b = R.at_end<B>(n);
            for (size_t i = 0; i < n; ++i) {
                a[i] = A(0.0f);
                b[i] = B(0.0f);
            }
            for (auto x : va) {
                for (auto y : vb) {
                    a[at] = x;
                    b[at] = y;
                    if (std::is_same_v<Dist, Cos> && (std::fabs(float(x)) < 1e-15f || std::fabs(float(y)) < 1e-15f || std::fabs(float(x)) > 1e15f || std::fabs(float(y)) > 1e15f) && float(x) != 0 && float(y) != 0) {
                        continue; // squares leave the range of single precision
                    }
                    compare<Dist, A, B>(kernel<svs::Dynamic, svs::Dynamic, Dist, A, B>, a, b, n, "every value", false);
                }
            }
        }
    }
    mc::trace();
}

// Not-a-number and infinities are not swallowed by masked lanes.
template <typename Dist> void specials() {
    auto& L = left();
    auto& R = right();
    const float inf = std::numeric_limits<float>::infinity();
    for (size_t n = 1; n <= 140; ++n) {
        float* a = L.at_end<float>(n);
        float* b = R.at_end<float>(n);
        for (size_t i = 0; i < n; ++i) {
            for (int which = 0; which < 3; ++which) {
                std::fill(a, a + n, 1.0f);
                std::fill(b, b + n, 2.0f);
                (which == 1 ? b : a)[i] = which == 2 ? inf : std::nanf("");
                float got = call<svs::Dynamic, svs::Dynamic>(Dist(), a, b, n);
                bool ok = which == 2 && !std::is_same_v<Dist, Cos> ? got == inf : std::isnan(got);
                MC_CHECK(ok, "special", name(Dist()), " of ", n, " coordinates with a special value at ", i, " gave ", got);
                mc::evaluation();
            }
        }
    }
}

template <typename Dist> void ordering() {
    svs::distance::compare_t<Dist> cmp;
    svs::distance::compare_t<Dist> cmp2 = svs::distance::comparator(Dist());
    const std::vector<float> q = {1, 2, 3};
    const std::vector<std::vector<float>> pts = {{1, 2, 3}, {1, 2, 2}, {0, 0, 1}, {-1, -2, -3}, {5, 1, 1}, {2, 4, 6.5f}, {0.1f, 0.3f, 0.2f}};
    auto value = [&](size_t i) { return call<svs::Dynamic, svs::Dynamic>(Dist(), q.data(), pts[i].data(), 3); };
    for (size_t i = 0; i < pts.size(); ++i) {
        for (size_t j = 0; j < pts.size(); ++j) {
            double x = define(Dist(), q.data(), pts[i].data(), 3).value, y = define(Dist(), q.data(), pts[j].data(), 3).value;
            bool nearer = std::is_same_v<Dist, L2> ? x < y : x > y;
            MC_CHECK(cmp(value(i), value(j)) == nearer && cmp2(value(i), value(j)) == nearer, "order", name(Dist()), ": is ", value(i), " nearer than ", value(j), "?");
            svs::Neighbor<uint32_t> a{uint32_t(i), value(i)}, b{uint32_t(j), value(j)};
            MC_CHECK(cmp(a, b) == nearer, "order", name(Dist()), ": order of neighbours ", i, " and ", j);
            svs::TotalOrder total(cmp);
            MC_CHECK(total(a, b) == (nearer || (value(i) == value(j) && i < j)), "order", name(Dist()), ": total order of neighbours ", i, " and ", j);
            auto worst = svs::type_traits::sentinel_v<svs::Neighbor<uint32_t>, decltype(cmp)>;
            MC_CHECK(cmp(a, worst) && !cmp(worst, a), "order", name(Dist()), ": the sentinel is not the farthest");
            mc::evaluation();
        }
    }
    // a fixed argument serves many right-hand sides, and is replaced by the next one
    Dist d;
    for (int round = 0; round < 2; ++round) {
        for (size_t i = 0; i < pts.size(); ++i) {
            svs::distance::maybe_fix_argument(d, std::span<const float>(pts[i]));
            for (size_t j = 0; j < pts.size(); ++j) {
                float got = svs::distance::compute(d, std::span<const float>(pts[i]), std::span<const float>(pts[j]));
                double want = define(Dist(), pts[i].data(), pts[j].data(), 3).value;
                MC_CHECK(std::fabs(got - want) < 1e-4, "fixed", name(Dist()), " of ", mc::list(pts[i]), " and ", mc::list(pts[j]), " with a reused functor gave ", got);
                mc::evaluation();
            }
        }
    }
    // one functor per query
    svs::distance::BroadcastDistance many(Dist(), pts.size());
    for (size_t i = 0; i < pts.size(); ++i) {
        svs::distance::maybe_fix_argument(many[i], std::span<const float>(pts[i]));
    }
    for (size_t i = 0; i < pts.size(); ++i) {
        for (size_t j = 0; j < pts.size(); ++j) {
            float got = svs::distance::compute(many[i], std::span<const float>(pts[i]), std::span<const float>(pts[j]));
            MC_CHECK(std::fabs(got - define(Dist(), pts[i].data(), pts[j].data(), 3).value) < 1e-4, "fixed", name(Dist()), " of ", mc::list(pts[i]), " and ", mc::list(pts[j]), " with one functor per query gave ", got);
        }
    }
}

template <typename Dist, typename A, typename B> void pair() {
    bool deep = mc::thorough();
    auto id = [&](const std::string& s) { return mc::str(name(Dist()), " ", tname<A>(), "/", tname<B>(), " ", s); };
    for (size_t n = 1; n <= (deep ? 300 : 145); ++n) {
        mc::run([&] { return id(mc::str("length ", n)); }, [&] { dimension<svs::Dynamic, Dist, A, B>(n); });
    }
    for (size_t n : {160, 192, 200, 255, 256, 257, 320, 511, 768, 769, 960, 1023, 1025, 1536, 4095}) {
        if (deep || n < 1000) {
            mc::run([&] { return id(mc::str("length ", n)); }, [&] { dimension<svs::Dynamic, Dist, A, B>(n); });
        }
    }
#if PAIRS == 2
    fixed<Dist, A, B>(std::index_sequence<1, 8, 17, 33, 64, 100>());
#else
    fixed<Dist, A, B>(std::index_sequence<1, 2, 3, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65, 96, 100, 128, 129>());
#endif
    mc::run([&] { return id("every value"); }, [&] { every_value<Dist, A, B>(); });
}
template <typename A, typename B> void metrics() {
    pair<L2, A, B>();
    pair<IP, A, B>();
    pair<Cos, A, B>();
}

static void body() {
    struct sigaction sa {};
    sa.sa_handler = on_segv;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
#if PAIRS == 0
    metrics<float, float>();
    metrics<float, Float16>();
    metrics<Float16, Float16>();
    metrics<Float16, float>();
    mc::run([] { return std::string("specials"); }, [] {
        specials<L2>();
        specials<IP>();
        specials<Cos>();
    });
    mc::run([] { return std::string("ordering"); }, [] {
        ordering<L2>();
        ordering<IP>();
        ordering<Cos>();
    });
#elif PAIRS == 1
    metrics<int8_t, int8_t>();
    metrics<uint8_t, uint8_t>();
    metrics<float, int8_t>();
    metrics<float, uint8_t>();
#else
    metrics<int8_t, uint8_t>();
    metrics<uint8_t, int8_t>();
    metrics<int8_t, float>();
    metrics<uint8_t, float>();
    metrics<Float16, int8_t>();
    metrics<Float16, uint8_t>();
    metrics<int8_t, Float16>();
    metrics<uint8_t, Float16>();
#endif
}

MC_MAIN("C20", body)
