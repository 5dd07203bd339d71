// C34: compressed (LVQ) vectors, against plain arithmetic on their codes and constants.
// The EVE vector library is absent here; harness/shim stands in for it, lane by lane.
#include "mc.h"
#include "svs/quantization/lvq/lvq.h"

#if PART >= 2
#include "kit.h"
#include "newlimit.h"
#include "svs/extensions/vamana/lvq.h"
#include "svs/lib/saveload.h"
#include "svs/index/vamana/dynamic_index.h"
#include "svs/index/vamana/index.h"
#include "svs/extensions/flat/lvq.h"
#endif

#include <csetjmp>
#include <csignal>
#include <sys/mman.h>

#ifndef PART
#define PART 0
#endif

namespace lvq = svs::quantization::lvq;
using svs::Float16;
constexpr size_t Dyn = svs::Dynamic;
using Seq = lvq::Sequential;
using T8 = lvq::Turbo<16, 8>; // for 4-bit codes
using T4 = lvq::Turbo<16, 4>; // for 8-bit codes

template <typename S> const char* sname() {
    return std::is_same_v<S, Seq> ? "sequential" : "turbo";
}

// ---- memory with nothing around it ------------------------------------------------------------

static sigjmp_buf jump;
static volatile sig_atomic_t armed = 0;
static void on_segv(int sig) {
    if (armed) {
        siglongjmp(jump, 1);
    }
    signal(sig, SIG_DFL);
    raise(sig);
}
struct Guarded {
    static constexpr size_t room = 1 << 14;
    char* base;
    Guarded() {
        size_t page = 4096;
        char* p = static_cast<char*>(mmap(nullptr, room + 2 * page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        if (p == MAP_FAILED || mprotect(p + page, room, PROT_READ | PROT_WRITE)) {
            std::perror("guard pages");
            std::exit(2);
        }
        base = p + page;
    }
    template <typename T> T* at(bool end, size_t n) { return reinterpret_cast<T*>(end ? base + room - n * sizeof(T) : base); }
};
template <int I> Guarded& area() {
    static Guarded g;
    return g;
}

// Run `f`; report a read or write outside of the memory it was given.
template <typename F, typename What> void contained(F&& f, What&& what) {
    if (sigsetjmp(jump, 1) == 0) {
        armed = 1;
        f();
        armed = 0;
    } else {
        armed = 0;
        mc::fail("out-of-bounds", mc::str(what(), " touched memory outside of its arguments"));
    }
}

struct Lcg {
    uint64_t s;
    uint32_t next() {
        s = s * 6364136223846793005ull + 1442695040888963407ull;
        return uint32_t(s >> 33);
    }
};

#if PART == 0
// ---- codes ------------------------------------------------------------------------------------

template <typename Sign, size_t Bits, size_t E, typename S> struct Packing {
    using Mut = lvq::MutableCompressedVector<Sign, Bits, E, S>;
    using Const = lvq::CompressedVector<Sign, Bits, E, S>;
    static constexpr int lo = Const::min(), hi = Const::max();
    size_t n;
    bool end;
    std::string what(const char* op) const {
        return mc::str(op, " of ", n, " ", std::is_same_v<Sign, lvq::Signed> ? "signed" : "unsigned", " ", Bits, "-bit codes (", sname<S>(), E == Dyn ? "" : ", fixed length", ")");
    }

    Mut view(std::byte* p) const {
        auto size = [&] {
            if constexpr (E == Dyn) {
                return svs::lib::MaybeStatic<E>(n);
            } else {
                return svs::lib::MaybeStatic<E>();
            }
        }();
        return Mut(size, typename Mut::span_type(p, Mut::compute_bytes(size)));
    }
    size_t bytes() const { return S::compute_bytes(Bits, n); }

    void same(Mut& v, const std::vector<int>& want, const char* op, bool full = true) {
        for (size_t i = 0; i < n; ++i) {
            int got = v.get(i);
            MC_CHECK(got == want[i], "code", what(op), ": code ", i, " reads ", got, " instead of ", want[i], " of ", mc::list(want));
        }
        if (!full) {
            return;
        }
        auto bulk = [&]<typename I>(I) {
            I* out = area<1>().at<I>(end, n);
            std::fill(out, out + n, I(77));
            contained([&] { lvq::unpack(std::span<I>(out, n), v.as_const()); }, [&] { return what("bulk reading"); });
            for (size_t i = 0; i < n; ++i) {
                MC_CHECK(out[i] == I(want[i]), "bulk", what(op), ": code ", i, " unpacks to ", int(out[i]), " instead of ", want[i], " of ", mc::list(want));
            }
            mc::evaluation();
        };
        bulk(int32_t());
        bulk(typename Const::value_type());
        if constexpr (std::is_same_v<S, Seq>) {
            // the packed form is the codes, biased to begin at zero, one after another from the lowest bit
            for (size_t i = 0; i < n; ++i) {
                int code = 0;
                for (size_t b = 0; b < Bits; ++b) {
                    size_t at = i * Bits + b;
                    code |= int((uint8_t(v.data()[at / 8]) >> (at % 8)) & 1) << b;
                }
                int value = Bits == 8 && lo < 0 ? int(int8_t(code)) : code + lo;
                MC_CHECK(value == want[i], "layout", what(op), ": the bits of code ", i, " spell ", value, " instead of ", want[i]);
            }
        }
    }

    void all() {
        size_t len = bytes();
        MC_CHECK(len >= (Bits * n + 7) / 8 && (std::is_same_v<S, Seq> ? len == (Bits * n + 7) / 8 : len <= (Bits * n + 7) / 8 + 63), "size", what("storage"), " takes ", len, " bytes");
        auto* p = area<0>().at<std::byte>(end, len);
        std::memset(p, 0x5a, len);
        Mut v = view(p);
        MC_CHECK(v.size() == n && v.size_bytes() == len && v.data() == p, "size", what("view"));
        mc::state(mc::hash(what("view")));
        const int mid = (lo + hi + 1) / 2;
        for (int ground : {lo, hi, mid}) {
            std::vector<int> want(n, ground);
            for (size_t i = 0; i < n; ++i) {
                v.set(typename Const::value_type(ground), i);
            }
            same(v, want, "background");
            std::vector<int> values;
            if (Bits <= 5 ? n <= 34 : n <= 10) {
                for (int x = lo; x <= hi; ++x) {
                    values.push_back(x);
                }
            } else {
                values = {lo, lo + 1, mid, hi - (hi > lo + 1), hi};
            }
            for (size_t i = 0; i < n; ++i) {
                for (int x : values) {
                    v.set(typename Const::value_type(x), i);
                    want[i] = x;
                    if (n <= 34 || i % 16 < 2 || i + 2 >= n) {
                        same(v, want, "one code");
                    }
                    mc::transition();
                }
                want[i] = ground;
                v.set(typename Const::value_type(ground), i);
                // a value that has no code is refused and changes nothing
                if constexpr (Bits < 8) {
                    for (int x : {lo - 1, hi + 1}) {
                        if (x < 0 && lo == 0) {
                            continue;
                        }
                        MC_CHECK(mc::throws([&] { v.set(typename Const::value_type(x), i); }), "refusal", what("setting"), " to ", x, " was accepted");
                    }
                }
                MC_CHECK(mc::throws([&] { v.set(hi + 300, i); }) && mc::throws([&] { v.set(0.5f, i); }), "refusal", what("setting"), " to a value without a code was accepted");
                if (n <= 34) {
                    same(v, want, "refused", false);
                }
            }
        }
        Lcg r{n * 8 + Bits};
        std::vector<int> want(n);
        for (int round = 0; round < 4; ++round) {
            for (auto& x : want) {
                x = lo + int(r.next() >> 3) % (hi - lo + 1);
            }
            if (round & 1) {
                v.copy_from(want);
            } else {
                for (size_t i = n; i-- > 0;) {
                    v.set(want[i], i);
                }
            }
            same(v, want, "dense");
        }
        // copies and equality, with the same and with another arrangement
        auto* q = area<2>().at<std::byte>(end, len);
        std::memset(q, 0x33, len);
        Mut w = view(q);
        contained([&] { w.copy_from(v.as_const()); }, [&] { return what("copying"); });
        same(w, want, "copy");
        MC_CHECK(lvq::logically_equal(v.as_const(), w.as_const()), "equal", what("a copy"), " is not equal to its source");
        lvq::CVStorage box;
        auto o = box.template view<Sign, Bits, E, Seq>([&] {
            if constexpr (E == Dyn) {
                return svs::lib::MaybeStatic<E>(n);
            } else {
                return svs::lib::MaybeStatic<E>();
            }
        }());
        if constexpr (!std::is_same_v<S, Seq>) {
            std::memset(o.data(), 0xff, o.size_bytes());
            for (size_t i = 0; i < n; ++i) {
                o.set(v.get(i), i);
            }
            MC_CHECK(lvq::logically_equal(v.as_const(), o.as_const()) && lvq::logically_equal(o.as_const(), v.as_const()), "equal", what("another arrangement"), " is not equal");
        }
        for (size_t i = 0; i < n; ++i) {
            int old = want[i];
            int x = old == hi ? lo : old + 1;
            w.set(typename Const::value_type(x), i);
            MC_CHECK(!lvq::logically_equal(v.as_const(), w.as_const()), "equal", what("comparison"), " misses code ", i, ": ", x, " and ", old);
            if constexpr (!std::is_same_v<S, Seq>) {
                MC_CHECK(!lvq::logically_equal(o.as_const(), w.as_const()), "equal", what("comparison"), " misses code ", i, ": ", x, " and ", old);
            }
            w.set(typename Const::value_type(old), i);
            mc::evaluation();
        }
        mc::outcome(mc::hash_bytes(p, len));
        mc::trace();
    }
};

template <typename Sign, size_t Bits, size_t E, typename S> void one(size_t n) {
    mc::run(
        [&] { return mc::str(std::is_same_v<Sign, lvq::Signed> ? "signed " : "unsigned ", Bits, " bits ", sname<S>(), E == Dyn ? " length " : " fixed length ", n); },
        [&] {
            Packing<Sign, Bits, E, S>{n, true}.all();
            Packing<Sign, Bits, E, S>{n, false}.all();
        }
    );
}
template <typename Sign, size_t Bits, typename S> void lengths() {
    size_t top = (std::is_same_v<S, Seq> ? 70 : 150) * (mc::thorough() ? 3 : 1);
    for (size_t n = 1; n <= top; ++n) {
        one<Sign, Bits, Dyn, S>(n);
    }
    for (size_t n : {200, 255, 256, 257, 300}) {
        one<Sign, Bits, Dyn, S>(n);
    }
    auto fixed = [&]<size_t... E>(std::index_sequence<E...>) { (one<Sign, Bits, E, S>(E), ...); };
    fixed(std::index_sequence<1, 16, 33, 95>());
}
template <typename Sign> void signs() {
    lengths<Sign, 1, Seq>();
    lengths<Sign, 2, Seq>();
    lengths<Sign, 3, Seq>();
    lengths<Sign, 4, Seq>();
    lengths<Sign, 5, Seq>();
    lengths<Sign, 6, Seq>();
    lengths<Sign, 7, Seq>();
    lengths<Sign, 8, Seq>();
}

// The arrangements name every place once.
template <typename S> void arrangement() {
    std::vector<char> seen(4096);
    for (size_t i = 0; i < 4096; ++i) {
        size_t j = S::logical_to_linear(i);
        MC_CHECK(j < 4096 && !seen[j] && S::linear_to_logical(j) == i, "arrangement", sname<S>(), ": place ", i, " goes to ", j, " and back to ", S::linear_to_logical(j));
        seen[j] = 1;
        mc::evaluation();
    }
}

static void cases() {
    signs<lvq::Signed>();
    signs<lvq::Unsigned>();
    // Turbo arrangements hold unsigned codes
    lengths<lvq::Unsigned, 4, T8>();
    lengths<lvq::Unsigned, 8, T4>();
    mc::run([] { return std::string("arrangements"); }, [] {
        arrangement<Seq>();
        arrangement<T8>();
        arrangement<T4>();
    });
}
#endif

#if PART == 1
// ---- constants, distances and compression ---------------------------------------------------

using L2 = svs::distance::DistanceL2;
using IP = svs::distance::DistanceIP;
using Centroids = svs::data::SimpleData<float>;

template <size_t E> auto dims(size_t n) {
    if constexpr (E == Dyn) {
        return svs::lib::MaybeStatic<E>(n);
    } else {
        return svs::lib::MaybeStatic<E>();
    }
}

template <size_t P, size_t R, size_t E, typename S> struct Kind {
    static constexpr size_t p = P, r = R;
    using One = lvq::ScaledBiasedVector<P, E, S>;
    using Vec = std::conditional_t<R == 0, One, lvq::ScaledBiasedWithResidual<P, R == 0 ? 1 : R, E, S>>;
    static std::string name(size_t n) { return mc::str(P, "x", R, " ", sname<S>(), E == Dyn ? " length " : " fixed length ", n); }

    // A vector with these codes, its storage next to inaccessible memory.
    static Vec make(bool end, const std::vector<int>& a, const std::vector<int>& b, float scale, float bias, size_t selector) {
        size_t n = a.size();
        using M = lvq::MutableCompressedVector<lvq::Unsigned, P, E, S>;
        size_t bytes = S::compute_bytes(P, n);
        auto* x = area<0>().template at<std::byte>(end, bytes);
        std::memset(x, 0, bytes);
        M m(dims<E>(n), typename M::span_type(x, bytes));
        for (size_t i = 0; i < n; ++i) {
            m.set(uint8_t(a[i]), i);
        }
        One one(scale, bias, svs::quantization::lvq::selector_t(selector), m);
        if constexpr (R == 0) {
            return one;
        } else {
            using Q = lvq::MutableCompressedVector<lvq::Unsigned, R, E, Seq>;
            size_t more = Seq::compute_bytes(R, n);
            auto* y = area<1>().template at<std::byte>(end, more);
            std::memset(y, 0, more);
            Q q(dims<E>(n), typename Q::span_type(y, more));
            for (size_t i = 0; i < n; ++i) {
                q.set(uint8_t(b[i]), i);
            }
            return lvq::combine(one, lvq::CompressedVector<lvq::Unsigned, R, E, Seq>(q));
        }
    }
    // What these codes stand for.
    static double value(int a, int b, double scale, double bias) {
        double v = scale * a + bias;
        if constexpr (R != 0) {
            v += scale * (double(b) / double((1 << R) - 1)) - scale / 2;
        }
        return v;
    }
};

struct Sum {
    double value = 0, scale = 0;
    void add(double x) {
        value += x;
        scale += std::fabs(x);
    }
};

template <typename K> struct Distances {
    size_t n;
    bool end;

    void close(double got, double want, double scale, const char* what) {
        double tol = scale * 3e-7 * (double(n) / 4 + 24) + 1e-30;
        MC_CHECK(std::fabs(got - want) <= tol, "value", what, " of a ", K::name(n), " vector is ", got, " instead of ", want);
        mc::evaluation();
    }

    void check(const std::vector<int>& a, const std::vector<int>& b, const std::vector<float>& query, float scale, float bias, const std::shared_ptr<const Centroids>& centroids, bool full) {
        size_t selector = centroids->size() - 1;
        auto v = K::make(end, a, b, scale, bias, selector);
        double s = float(Float16(scale)), o = float(Float16(bias));
        float* q = area<2>().at<float>(end, n);
        float* c = area<3>().at<float>(end, n);
        float* out = area<4>().at<float>(end, n);
        std::copy(query.begin(), query.end(), q);
        for (size_t i = 0; i < n; ++i) {
            c[i] = centroids->get_datum(selector)[i];
            out[i] = 12345;
        }
        std::vector<double> want(n), size(n);
        Sum l2, ip, with, dot;
        double qsum = 0, msum = 0;
        for (size_t i = 0; i < n; ++i) {
            want[i] = K::value(a[i], K::r ? b[i] : 0, s, o);
            size[i] = s * (a[i] + 1) + std::fabs(o) + std::fabs(double(c[i]));
            close(v.get(i), want[i], size[i], "component");
            double m = std::fabs(q[i]) + size[i];
            l2.value += (q[i] - want[i]) * (q[i] - want[i]);
            l2.scale += m * m;
            ip.value += q[i] * want[i];
            ip.scale += std::fabs(q[i]) * size[i];
            double z = want[i] + c[i];
            with.value += (q[i] - z) * (q[i] - z);
            m += std::fabs(c[i]);
            with.scale += m * m;
            dot.value += q[i] * z;
            dot.scale += std::fabs(q[i]) * (size[i] + std::fabs(double(c[i])));
            qsum += q[i];
            msum += std::fabs(q[i]);
        }
        std::span<const float> qs(q, n);
        MC_CHECK(v.size() == n && v.get_selector() == selector, "size", "a ", K::name(n), " vector says ", v.size(), " components, centroid ", v.get_selector());
        contained(
            [&] {
                close(svs::distance::compute(L2(), qs, v), l2.value, l2.scale, "squared distance");
                close(svs::distance::compute(IP(), qs, v), ip.value, ip.scale, "inner product");
                close(svs::distance::compute(lvq::DistanceFastIP{float(qsum)}, qs, v), ip.value, ip.scale + msum * std::fabs(o), "inner product from the sum");
                if (full) {
                    close(lvq::EuclideanReference().compute(qs, v), l2.value, l2.scale, "reference squared distance");
                    close(lvq::InnerProductReference().compute(qs, v), ip.value, ip.scale, "reference inner product");
                }
                lvq::decompress(std::span<float>(out, n), v, c);
            },
            [&] { return mc::str("reading a ", K::name(n), " vector"); }
        );
        for (size_t i = 0; i < n; ++i) {
            close(out[i], want[i] + c[i], size[i], "decompressed component");
        }
        mc::transition();
        if (!full) {
            return;
        }
        // one functor, several queries; copies
        lvq::EuclideanBiased e(centroids);
        lvq::InnerProductBiased p(centroids);
        lvq::DecompressionAdaptor<lvq::EuclideanBiased> de(std::in_place, centroids);
        lvq::DecompressionAdaptor<lvq::InnerProductBiased> dp(std::in_place, centroids);
        lvq::Decompressor whole{std::shared_ptr<const Centroids>(centroids)};
        MC_CHECK(e == e.shallow_copy() && p == p.shallow_copy(), "copy", "a copied distance has another bias");
        std::vector<float> other(n, 1.5f);
        for (int round = 0; round < 3; ++round) {
            if (round != 1) {
                svs::distance::maybe_fix_argument(e, qs);
                svs::distance::maybe_fix_argument(p, qs);
                close(svs::distance::compute(e, qs, v), with.value, with.scale, "squared distance from the centre");
                close(svs::distance::compute(p, qs, v), dot.value, dot.scale + msum * (std::fabs(o) + 1), "inner product with the centre");
            } else {
                std::span<const float> os(other);
                svs::distance::maybe_fix_argument(e, os);
                svs::distance::maybe_fix_argument(p, os);
            }
        }
        auto copy = e.shallow_copy();
        copy.fix_argument(qs);
        close(svs::distance::compute(copy, qs, v), with.value, with.scale, "squared distance with a copied functor");
        auto whole_span = whole(v);
        for (size_t i = 0; i < n; ++i) {
            close(whole_span[i], want[i] + c[i], size[i], "component from the decompressor");
        }
        // two compressed vectors
        Sum self, prod;
        for (size_t i = 0; i < n; ++i) {
            double z = want[i] + c[i], m = size[i] + std::fabs(double(c[i]));
            self.scale += 4 * m * m;
            prod.value += z * z;
            prod.scale += m * m;
        }
        de.fix_argument(v);
        dp.fix_argument(v);
        close(de.compute(v), 0, self.scale, "squared distance of a vector to itself");
        close(dp.compute(v), prod.value, prod.scale * 3, "inner product of a vector with itself");
        auto de2 = de.shallow_copy();
        de2.fix_argument(v);
        close(de2.compute(v), 0, self.scale, "squared distance of a vector to itself (copied)");
    }

    void all() {
        mc::state(mc::hash(mc::str(K::name(n), end)));
        const int hp = (1 << K::p) - 1, hr = (1 << K::r) - 1;
        Lcg r{n * 64 + K::p + K::r};
        for (size_t nc : {1, 3}) {
            auto made = std::make_shared<Centroids>(nc, n);
            for (size_t k = 0; k < nc; ++k) {
                std::vector<float> x(n);
                for (size_t i = 0; i < n; ++i) {
                    x[i] = k == 0 && nc == 3 ? 1000.0f : float(int(r.next() % 33) - 16) / 4;
                }
                made->set_datum(k, x);
            }
            std::shared_ptr<const Centroids> centroids = made;
            std::vector<float> q(n);
            for (size_t i = 0; i < n; ++i) {
                q[i] = float(int(r.next() % 41) - 20) / 8 + float(i) / 16;
            }
            // every place on its own
            for (int ground : {0, 1}) {
                std::vector<int> a(n, ground ? hp : 0), b(n, ground ? hr : 0);
                check(a, b, q, 0.5f, -1.25f, centroids, true);
                for (size_t i = 0; i < n; ++i) {
                    if (n > 40 && i % 16 > 1 && i + 3 < n) {
                        continue;
                    }
                    a[i] = hp / 2;
                    check(a, b, q, 0.5f, -1.25f, centroids, false);
                    b[i] = hr / 3;
                    check(a, b, q, 0.5f, -1.25f, centroids, false);
                    a[i] = ground ? hp : 0;
                    check(a, b, q, 0.5f, -1.25f, centroids, false);
                    b[i] = ground ? hr : 0;
                }
            }
            for (int round = 0; round < 3; ++round) {
                std::vector<int> a(n), b(n);
                for (size_t i = 0; i < n; ++i) {
                    a[i] = r.next() % (hp + 1);
                    b[i] = r.next() % (hr + 1);
                }
                check(a, b, q, round == 0 ? 1.0f : round == 1 ? 0.0078125f : 3.3f, round == 0 ? 0.0f : round == 1 ? -1.0f : 17.7f, centroids, true);
            }
        }
        mc::trace();
    }
};

// ---- compression ------------------------------------------------------------------------------

template <size_t P, size_t R, typename S> struct Codec {
    template <typename T> static void check(const std::vector<T>& data, const char* what) {
        size_t n = data.size();
        auto encode = lvq::MinRange<P, Dyn, S>{svs::lib::MaybeStatic<Dyn>(n)};
        auto v = encode(std::span<const T>(data), 7);
        float lo = data[0], hi = data[0];
        for (auto x : data) {
            lo = std::min(lo, float(x));
            hi = std::max(hi, float(x));
        }
        const double M = (1 << P) - 1, range = double(hi) - lo;
        double s = v.get_scale(), b = v.get_bias();
        auto where = [&] { return mc::str(what, " ", P, "x", R, " ", sname<S>(), " of ", mc::list(std::vector<float>(data.begin(), data.end()))); };
        MC_CHECK(v.size() == n && v.get_selector() == 7, "size", where(), ": ", v.size(), " components, centroid ", v.get_selector());
        MC_CHECK(std::fabs(b - lo) <= std::fabs(lo) * 0x1p-11 + 0x1p-25, "bias", where(), ": begins at ", b);
        bool flat = range <= 7.1e-5 * M;
        MC_CHECK(s > 0 && (flat || std::fabs(s * M - range) <= range * 0x1.01p-11), "scale", where(), ": step ", s);
        double slop = (std::fabs(double(lo)) + std::fabs(double(hi)) + range) * 0x1p-21;
        lvq::ResidualEncoder<R == 0 ? 1 : R> more;
        for (size_t i = 0; i < n; ++i) {
            double x = float(data[i]);
            int code = v.vector().get(i);
            double err = std::fabs(v.get(i) - x);
            double best = std::clamp(std::round((x - b) / s), 0.0, M);
            MC_CHECK(err <= std::fabs(b + s * best - x) + slop, "nearest", where(), ": component ", i, " becomes ", v.get(i), " (code ", code, ") though code ", best, " is nearer");
            double bound = flat ? range : std::max(s / 2, (range + std::fabs(double(lo))) * 0x1p-11);
            MC_CHECK(err <= bound + std::fabs(double(lo)) * 0x1p-11 + slop + 0x1p-24, "error", where(), ": component ", i, " becomes ", v.get(i), ", further off than ", bound);
            mc::evaluation();
        }
        if constexpr (R != 0) {
            auto r = more(v, std::span<const T>(data));
            auto both = lvq::combine(v, r);
            const double step = s / ((1 << R) - 1);
            for (size_t i = 0; i < n; ++i) {
                double x = float(data[i]);
                double err = std::fabs(both.get(i) - x), first = std::fabs(v.get(i) - x);
                double bound = std::max(0.0, first - s / 2) + step / 2;
                MC_CHECK(err <= bound + slop * 2, "residual", where(), ": component ", i, " becomes ", both.get(i), " (first level ", v.get(i), "), further off than ", bound);
                mc::evaluation();
            }
        }
        mc::transition();
    }

    static void all() {
        const std::vector<float> grid = {0, 1, -1, 0.001f, -0.004f, 1.0f / 3, 2.5f, -77, 0.0625f, 1000, -20000, 30000, 5e-6f};
        mc::run([] { return mc::str("compression ", P, "x", R, " ", sname<S>(), " small"); }, [&] {
            for (float a : grid) {
                check<float>({a}, "one");
                for (float b : grid) {
                    check<float>({a, b}, "two");
                    for (float c : grid) {
                        check<float>({a, b, c}, "three");
                        mc::state(mc::mix(uint64_t(a * 1e6), uint64_t(b * 1e6 + c)));
                        check<Float16>({Float16(a), Float16(b), Float16(c)}, "half");
                    }
                }
            }
            mc::trace();
        });
        mc::run([] { return mc::str("compression ", P, "x", R, " ", sname<S>(), " long"); }, [&] {
            for (size_t n = 1; n <= 150; ++n) {
                // fine steps across the range: every code and every boundary between codes
                std::vector<float> x(n), y(n), z(n);
                for (size_t k = 0; k < 12; ++k) {
                    Lcg r{n * 100 + k};
                    float width = std::ldexp(1.0f, int(k) - 6), base = float(int(k % 5) - 2) * 3.7f;
                    for (size_t i = 0; i < n; ++i) {
                        x[i] = base + width * float(i * 7 % n) / float(n);
                        y[i] = base + width * float(r.next() % 4096) / 4096;
                        z[i] = i == n / 2 ? base + width : base;
                    }
                    check(x, "steps");
                    check(y, "dense");
                    check(z, "spike");
                }
                mc::state(mc::hash(mc::str("long", P, R, sname<S>(), n)));
            }
            // values along a whole interval at eighth steps of the codes
            const int M = (1 << P) - 1;
            std::vector<float> w;
            for (int i = 0; i <= 8 * M; ++i) {
                w.push_back(-3 + 0.25f * float(i) / 8);
            }
            check(w, "eighths");
            mc::trace();
        });
    }
};

template <size_t P, size_t R, typename S> void kinds() {
    size_t top = (std::is_same_v<S, Seq> ? 70 : 140) * (mc::thorough() ? 3 : 1);
    auto one = [&]<size_t E>(size_t n) {
        using K = Kind<P, R, E, S>;
        mc::run([&] { return "distances " + K::name(n); }, [&] {
            Distances<K>{n, true}.all();
            Distances<K>{n, false}.all();
        });
    };
    for (size_t n = 1; n <= top; ++n) {
        one.template operator()<Dyn>(n);
    }
    for (size_t n : {128, 129, 160, 200, 255, 256, 257, 300}) {
        if (n > top) {
            one.template operator()<Dyn>(n);
        }
    }
    auto fixed = [&]<size_t... E>(std::index_sequence<E...>) { (one.template operator()<E>(E), ...); };
    fixed(std::index_sequence<9, 64, 143>());
    Codec<P, R, S>::all();
}

static void cases() {
#if GROUP == 0
    kinds<4, 0, Seq>();
    kinds<8, 0, Seq>();
    kinds<3, 0, Seq>();
    kinds<5, 0, Seq>();
    kinds<6, 0, Seq>();
    kinds<7, 0, Seq>();
#else
    kinds<4, 0, T8>();
    kinds<8, 0, T4>();
    kinds<4, 8, T8>();
    kinds<4, 4, Seq>();
    kinds<4, 8, Seq>();
    kinds<8, 8, Seq>();
    kinds<5, 6, Seq>();
    kinds<7, 3, Seq>();
#endif
}
#endif

#if PART >= 2
// ---- datasets -----------------------------------------------------------------------------------
namespace fs = std::filesystem;
namespace lib = svs::lib;
using std::string;
using Rows = std::vector<std::vector<float>>;

static string scratch;
struct Dir {
    string path = [] {
        static size_t n = 0;
        return scratch + "/d" + std::to_string(n++);
    }();
    ~Dir() {
        std::error_code e;
        fs::remove_all(path, e);
    }
};

using Flat = lib::Allocator<std::byte>;
using Blocks = svs::data::Blocked<lib::Allocator<std::byte>>;
template <typename D> typename D::allocator_type allocator() {
    if constexpr (D::is_resizeable) {
        svs::data::BlockingParameters p;
        p.blocksize_bytes = lib::prevpow2(256);
        return typename D::allocator_type(p);
    } else {
        return {};
    }
}
template <typename D> string dname() {
    return mc::str(D::primary_bits, "x", D::residual_bits, " ", sname<typename D::strategy>(), D::extent == Dyn ? "" : " fixed", D::is_resizeable ? " blocked" : "");
}
template <typename D> auto dims_of(size_t d) {
    if constexpr (D::extent == Dyn) {
        return lib::MaybeStatic<Dyn>(d);
    } else {
        return lib::MaybeStatic<D::extent>();
    }
}

static Rows rows(size_t n, size_t d, int seed) {
    Lcg r{n * 1000 + d * 10 + seed};
    Rows x(n, std::vector<float>(d));
    for (auto& v : x) {
        float width = seed == 1 ? 8 : std::ldexp(1.0f, int(r.next() % 7) - 2);
        for (auto& y : v) {
            y = seed == 2 ? float(int(r.next() % 3) - 1) : width * (float(r.next() % 2048) / 1024 - 1) + (seed == 1 ? 100 : 0.5f);
        }
    }
    return x;
}
template <typename T> svs::data::SimpleData<T> as_data(const Rows& x, size_t d) {
    svs::data::SimpleData<T> data(x.size(), d);
    for (size_t i = 0; i < x.size(); ++i) {
        std::vector<T> v(d);
        for (size_t j = 0; j < d; ++j) {
            v[j] = T(x[i][j]);
        }
        data.set_datum(i, std::span<const T>(v));
    }
    return data;
}
static Rows means(const Rows& x, size_t d) {
    Rows m(1, std::vector<float>(d));
    for (size_t j = 0; j < d; ++j) {
        double s = 0;
        for (auto& v : x) {
            s += v[j];
        }
        m[0][j] = float(s / double(x.size()));
    }
    return m;
}

template <typename V> constexpr size_t residual_of = 0;
template <size_t P, size_t R, size_t E, typename S> constexpr size_t residual_of<lvq::ScaledBiasedWithResidual<P, R, E, S>> = R;
template <typename V> auto& primary_of(const V& v) {
    if constexpr (residual_of<V> == 0) {
        return v;
    } else {
        return v.primary_;
    }
}
static string joined(const std::vector<string>& v) {
    string r;
    for (auto& x : v) {
        r += "[" + x + "]";
    }
    return r;
}
// All codes and constants.
template <typename V> string codes(const V& v) {
    auto& p = primary_of(v);
    std::vector<int> a, b;
    for (size_t i = 0; i < v.size(); ++i) {
        a.push_back(p.data.get(i));
        if constexpr (residual_of<V> != 0) {
            b.push_back(v.residual_.get(i));
        }
    }
    return mc::str("scale ", p.get_scale(), " bias ", p.get_bias(), " centroid ", int(p.get_selector()), " codes ", mc::list(a), mc::list(b));
}
template <typename D> std::vector<string> codes_of(const D& data) {
    std::vector<string> r;
    for (size_t i = 0; i < data.size(); ++i) {
        r.push_back(codes(data.get_datum(i)));
    }
    return r;
}

// `v` stands for `x` once its centroid is added.
template <typename V> void stands_for(const V& v, const std::vector<float>& x, std::span<const float> centroid, const string& where) {
    auto& p = primary_of(v);
    constexpr size_t P = std::decay_t<decltype(p)>::vector_type::bits, R = residual_of<V>;
    MC_CHECK(v.size() == x.size(), "size", where, ": ", v.size(), " components instead of ", x.size());
    const double M = (1 << P) - 1;
    double lo = 1e30, hi = -1e30, most = 0;
    for (size_t i = 0; i < x.size(); ++i) {
        double y = double(x[i]) - centroid[i];
        lo = std::min(lo, y);
        hi = std::max(hi, y);
        most = std::max({most, std::fabs(double(x[i])), std::fabs(double(centroid[i]))});
    }
    double range = hi - lo, s = p.get_scale();
    bool flat = range <= 7.1e-5 * M;
    double slop = (most + range) * 0x1p-20;
    double edge = (range + std::fabs(lo)) * 0x1p-11;
    MC_CHECK(std::fabs(p.get_bias() - lo) <= std::fabs(lo) * 0x1p-11 + slop + 0x1p-24 && (flat || std::fabs(s * M - range) <= range * 0x1.01p-11 + slop), "constants", where, ": bias ", p.get_bias(), " and step ", s, " for values from ", lo, " to ", hi);
    for (size_t i = 0; i < x.size(); ++i) {
        double y = double(x[i]) - centroid[i];
        double first = std::fabs(p.get(i) - y), err = std::fabs(v.get(i) - y);
        double bound = flat ? range + std::fabs(lo) * 0x1p-11 : std::max(s / 2, edge);
        MC_CHECK(first <= bound + slop, "error", where, ": component ", i, " is ", y, " but reads ", p.get(i), ", further off than ", bound);
        if constexpr (R != 0) {
            double step = s / ((1 << R) - 1);
            MC_CHECK(err <= std::max(0.0, first - s / 2) + step / 2 + slop * 2, "residual", where, ": component ", i, " is ", y, " but reads ", v.get(i), " (first level ", p.get(i), ")");
        }
    }
    mc::evaluation();
}
template <typename D> void content(const D& data, const Rows& want, const Rows& centroids, const string& where) {
    MC_CHECK(data.size() == want.size(), "size", where, ": ", data.size(), " vectors instead of ", want.size());
    auto c = data.view_centroids();
    MC_CHECK(c && c->size() == centroids.size(), "centroids", where, ": wrong number of centroids");
    for (size_t k = 0; k < centroids.size(); ++k) {
        for (size_t j = 0; j < centroids[k].size(); ++j) {
            MC_CHECK(std::fabs(c->get_datum(k)[j] - centroids[k][j]) <= 1e-5 * (1 + std::fabs(centroids[k][j])), "centroids", where, ": centroid ", k, " is ", c->get_datum(k)[j], " instead of ", centroids[k][j], " in dimension ", j);
        }
    }
    for (size_t i = 0; i < want.size(); ++i) {
        auto v = data.get_datum(i);
        size_t k = v.get_selector();
        MC_CHECK(k < c->size(), "selector", where, ": vector ", i, " has centroid ", k);
        stands_for(v, want[i], c->get_datum(k), mc::str(where, ", vector ", i));
        // the same through the decompressor and the accessor
        auto read = data.decompressor();
        lvq::DecompressionAccessor access(data);
        auto a = read(v);
        auto b = access(data, i);
        for (size_t j = 0; j < want[i].size(); ++j) {
            double x = double(v.get(j)) + c->get_datum(k)[j];
            double tol = 1e-5 * (1 + std::fabs(x) + std::fabs(c->get_datum(k)[j]));
            MC_CHECK(std::fabs(a[j] - x) <= tol && std::fabs(b[j] - x) <= tol, "decompress", where, ": component ", j, " of vector ", i, " decompresses to ", a[j], " and ", b[j], " instead of ", x);
        }
        if constexpr (D::residual_bits != 0) {
            MC_CHECK(codes(data.get_primary(i)) == codes(v.primary_), "primary", where, ": the first level of vector ", i, " differs");
        }
    }
}
#endif

#if PART == 2
// The vectors one after another in the file, after a header of 1024 bytes: codes from the lowest bit,
// then scale and bias in half precision and the centroid.
template <typename D> void file_layout(const D& data, const string& dir, size_t d, const string& where) {
    const size_t P = D::primary_bits, bytes = (P * d + 7) / 8 + 5;
    size_t found = 0;
    for (auto& e : fs::directory_iterator(dir)) {
        if (e.file_size() != 1024 + data.size() * bytes || e.path().filename().string().find("lvq_data") == string::npos) {
            continue;
        }
        ++found;
        std::ifstream in(e.path(), std::ios::binary);
        std::vector<char> all(e.file_size());
        in.read(all.data(), all.size());
        for (size_t i = 0; i < data.size(); ++i) {
            const auto* row = reinterpret_cast<const uint8_t*>(all.data()) + 1024 + i * bytes;
            auto datum = data.get_datum(i);
            auto& p = primary_of(datum);
            for (size_t j = 0; j < d; ++j) {
                int code = 0;
                for (size_t b = 0; b < P; ++b) {
                    size_t at = j * P + b;
                    code |= ((row[at / 8] >> (at % 8)) & 1) << b;
                }
                MC_CHECK(code == p.data.get(j), "file", where, ": component ", j, " of vector ", i, " is written as ", code, " instead of ", int(p.data.get(j)));
            }
            Float16 c[2];
            std::memcpy(c, row + bytes - 5, 4);
            MC_CHECK(float(c[0]) == p.get_scale() && float(c[1]) == p.get_bias() && row[bytes - 1] == p.get_selector(), "file", where, ": constants of vector ", i, " are written as ", float(c[0]), ", ", float(c[1]));
        }
    }
    MC_CHECK(found == 1, "file", where, ": ", found, " files of codes of the right length");
}

template <typename D> struct Datasets {
    using Other = lvq::LVQDataset<D::primary_bits, D::residual_bits, D::extent, std::conditional_t<std::is_same_v<typename D::strategy, Seq>, std::conditional_t<D::primary_bits == 8, T4, std::conditional_t<D::primary_bits == 4, T8, Seq>>, Seq>, Flat>;

    template <typename X> static void reload(const D& data, const string& dir, size_t alignment, const string& where) {
        auto want = codes_of(data);
        auto x = lib::load_from_disk<X>(dir, alignment, allocator<X>());
        MC_CHECK(codes_of(x) == want, "reload", where, ", alignment ", alignment, " as ", dname<X>(), ": saved ", joined(want), " but loaded ", joined(codes_of(x)));
        MC_CHECK(x.dimensions() == data.dimensions() && x.primary_dataset_alignment() == alignment, "reload", where, ": ", x.dimensions(), " dimensions, alignment ", x.primary_dataset_alignment());
        MC_CHECK(*x.view_centroids() == *data.view_centroids(), "reload", where, ": other centroids");
        for (size_t i = 0; i < x.size(); ++i) {
            MC_CHECK(lvq::logically_equal(x.get_datum(i), data.get_datum(i)), "reload", where, ": vector ", i, " is not equal");
        }
        mc::transition();
        mc::evaluation();
    }
    template <typename X> static void refused(const string& dir, const string& where) {
        MC_CHECK(mc::throws([&] { (void)lib::load_from_disk<X>(dir); }), "mistaken", where, " was loaded as ", dname<X>());
        mc::evaluation();
    }

    static void one(size_t n, size_t d, int seed) {
        auto x = rows(n, d, seed);
        auto where = mc::str(dname<D>(), " ", n, "x", d, " #", seed);
        auto source = as_data<float>(x, d);
        auto centre = means(x, d);
        mc::state(mc::hash(where));
        auto data = D::compress(source, allocator<D>());
        content(data, x, centre, where);
        auto want = codes_of(data);
        for (auto& s : want) {
            mc::outcome(mc::hash(s));
        }
        for (size_t threads : {1, 2, 3}) {
            for (size_t alignment : {0, 32, 64}) {
                auto more = D::compress(source, threads, alignment, allocator<D>());
                MC_CHECK(codes_of(more) == want && more.primary_dataset_alignment() == alignment, "threads", where, " with ", threads, " threads and alignment ", alignment, ": ", joined(codes_of(more)), " instead of ", joined(want));
                mc::transition();
            }
        }
        // vectors that differ in one of their constants stand for different vectors
        for (size_t i = 0; i < n; ++i) {
            auto v = data.get_datum(i);
            auto differs = [&](const char* part, auto&& change) {
                auto w = data.get_datum(i);
                if constexpr (requires { w.primary_; }) {
                    change(w.primary_);
                } else {
                    change(w);
                }
                MC_CHECK(!lvq::logically_equal(v, w) && !lvq::logically_equal(w, v), "equal", where, ": comparison misses the ", part, " of vector ", i);
            };
            MC_CHECK(lvq::logically_equal(v, data.get_datum(i)), "equal", where, ": vector ", i, " is not equal to itself");
            differs("scale", [](auto& u) { u.scale = u.scale == 0 ? 1.0f : -float(u.scale); });
            differs("bias", [](auto& u) { u.bias = u.bias == 0 ? 1.0f : -float(u.bias); });
            differs("centroid", [](auto& u) { u.selector += 1; });
        }
        if constexpr (!std::is_same_v<typename D::strategy, Seq>) {
            auto other = Other::compress(source);
            MC_CHECK(codes_of(other) == want, "strategy", where, ": other codes than as ", dname<Other>());
            for (size_t i = 0; i < n; ++i) {
                MC_CHECK(lvq::logically_equal(data.get_datum(i), other.get_datum(i)), "strategy", where, ": vector ", i, " is not equal to itself as ", dname<Other>());
            }
        }
        // half precision
        {
            auto half = as_data<Float16>(x, d);
            Rows h = x;
            for (auto& v : h) {
                for (auto& y : v) {
                    y = float(Float16(y));
                }
            }
            auto data16 = D::compress(half, allocator<D>());
            MC_CHECK(data16.size() == n && data16.dimensions() == d, "size", where, " of half precision");
            // the centred values are rounded to half precision before they are encoded
            for (size_t i = 0; i < n; ++i) {
                auto v = data16.get_datum(i);
                for (size_t j = 0; j < d; ++j) {
                    double y = v.get(j) + data16.get_centroid(0)[j], s = primary_of(v).get_scale();
                    double far = 0;
                    for (size_t k = 0; k < d; ++k) {
                        far = std::max(far, std::fabs(double(h[i][k]) - data16.get_centroid(0)[k]));
                    }
                    MC_CHECK(std::fabs(y - h[i][j]) <= s / 2 + far * 0x1p-8 + 1e-4 * (1 + std::fabs(h[i][j])), "half", where, ": component ", j, " of vector ", i, " is ", h[i][j], " but reads ", y);
                }
            }
            mc::evaluation();
        }
        // saving, and loading as every other arrangement
        Dir dir;
        lib::save_to_disk(data, dir.path);
        file_layout(data, dir.path, d, where);
        for (size_t alignment : {0, 32, 64}) {
            reload<D>(data, dir.path, alignment, where);
            reload<Other>(data, dir.path, alignment, where);
            using B = lvq::LVQDataset<D::primary_bits, D::residual_bits, Dyn, typename D::strategy, Blocks>;
            reload<B>(data, dir.path, alignment, where);
        }
        {
            // a padded one is written the same way
            auto padded = D::compress(source, size_t(1), size_t(64), allocator<D>());
            Dir second;
            lib::save_to_disk(padded, second.path);
            file_layout(padded, second.path, d, where + ", padded");
            reload<Other>(data, second.path, 0, where + ", padded");
        }
        refused<lvq::LVQDataset<D::primary_bits == 8 ? 4 : 8, D::residual_bits>>(dir.path, where);
        refused<lvq::LVQDataset<D::primary_bits, D::residual_bits == 0 ? 8 : 0>>(dir.path, where);
        refused<lvq::LVQDataset<D::primary_bits, D::residual_bits, 19>>(dir.path, where);
        if constexpr (D::residual_bits != 0) {
            refused<lvq::LVQDataset<D::primary_bits, D::residual_bits == 8 ? 4 : 8>>(dir.path, where);
        }
        // what a directory holds is recognised
        lvq::ProtoLVQLoader<Flat> loader(lvq::Reload(dir.path), 32);
        MC_CHECK(loader.primary_ == D::primary_bits && loader.residual_ == D::residual_bits && loader.dims_ == d, "recognise", where, " is taken for ", loader.primary_, "x", loader.residual_, " of ", loader.dims_, " dimensions");
        using L = lvq::LVQLoader<D::primary_bits, D::residual_bits, D::extent, typename D::strategy, Flat>;
        using C = lib::DispatchConverter<lvq::ProtoLVQLoader<Flat>, L>;
        MC_CHECK(C::match(loader) >= 0, "recognise", where, " does not match its own kind");
        auto via = C::convert(loader).load();
        MC_CHECK(codes_of(via) == want && via.primary_dataset_alignment() == 32, "recognise", where, " loaded through a loader differs");
        auto never = [&]<typename X>(std::type_identity<X>) {
            using W = lib::DispatchConverter<lvq::ProtoLVQLoader<Flat>, X>;
            MC_CHECK(W::match(loader) < 0, "recognise", where, " matches ", W::description());
            MC_CHECK(mc::throws([&] { (void)W::convert(loader); }), "recognise", where, " is converted to ", W::description());
        };
        never(std::type_identity<lvq::LVQLoader<D::primary_bits == 8 ? 4 : 8, D::residual_bits, Dyn, Seq, Flat>>());
        never(std::type_identity<lvq::LVQLoader<D::primary_bits, D::residual_bits == 0 ? 8 : 0, Dyn, Seq, Flat>>());
        never(std::type_identity<lvq::LVQLoader<D::primary_bits, D::residual_bits, 19, Seq, Flat>>());
        for (auto wish : {lvq::LVQStrategyDispatch::Auto, lvq::LVQStrategyDispatch::Sequential, lvq::LVQStrategyDispatch::Turbo}) {
            lvq::ProtoLVQLoader<Flat> l(lvq::Reload(dir.path), 0, wish);
            bool turbo = lvq::TurboLike<typename D::strategy>;
            bool fits = wish == lvq::LVQStrategyDispatch::Auto || (wish == lvq::LVQStrategyDispatch::Turbo) == turbo;
            MC_CHECK((C::match(l) >= 0) == fits, "recognise", where, ": matches strategy ", int(wish), ": ", C::match(l));
            MC_CHECK(mc::throws([&] { (void)C::convert(l); }) == !fits, "recognise", where, ": conversion with strategy ", int(wish));
        }
        // compression while loading
        {
            Dir plain;
            lib::save_to_disk(source, plain.path);
            lvq::ProtoLVQLoader<Flat> online(svs::UnspecializedVectorDataLoader<Flat>(plain.path, svs::DataType::float32, d), D::primary_bits, D::residual_bits, 64);
            auto y = C::convert(online).load();
            MC_CHECK(codes_of(y) == want && y.primary_dataset_alignment() == 64, "online", where, " compressed while loading differs");
            MC_CHECK(mc::throws([&] { lvq::ProtoLVQLoader<Flat> bad(svs::UnspecializedVectorDataLoader<Flat>(plain.path, svs::DataType::int8, d), 8, 0); }), "online", where, ": integers were accepted");
        }
        // single vectors, several centroids
        auto y = rows(n + 2, d, seed == 1 ? 0 : 1);
        for (size_t nc : {1, 3}) {
            Rows cs(nc, std::vector<float>(d));
            for (size_t k = 0; k < nc; ++k) {
                cs[k] = y[k];
            }
            auto z = x;
            auto c = as_data<float>(cs, d);
            data.reproducibility_set_centroids(c.cview());
            auto selectors = std::vector<size_t>(n);
            for (size_t i = 0; i < n; ++i) {
                z[i] = y[(i + 1) % (n + 2)];
                for (auto& v : z[i]) {
                    v += 0.25f;
                }
                data.set_datum(i, std::span<const float>(z[i]));
                double best = 1e300;
                for (size_t k = 0; k < nc; ++k) {
                    double s = 0;
                    for (size_t j = 0; j < d; ++j) {
                        s += (double(z[i][j]) - cs[k][j]) * (double(z[i][j]) - cs[k][j]);
                    }
                    if (s < best * (1 - 1e-6)) {
                        best = s;
                        selectors[i] = k;
                    }
                }
            }
            content(data, z, cs, mc::str(where, " set one by one, ", nc, " centroids"));
            for (size_t i = 0; i < n; ++i) {
                size_t got = data.get_datum(i).get_selector();
                double a = 0, b = 0;
                for (size_t j = 0; j < d; ++j) {
                    a += (double(z[i][j]) - cs[got][j]) * (double(z[i][j]) - cs[got][j]);
                    b += (double(z[i][j]) - cs[selectors[i]][j]) * (double(z[i][j]) - cs[selectors[i]][j]);
                }
                MC_CHECK(a <= b * 1.0001 + 1e-6, "selector", where, ": vector ", i, " was given centroid ", got, " instead of ", selectors[i]);
            }
            // one vector replaced: the others stay
            auto before = codes_of(data);
            for (size_t i = 0; i < n; ++i) {
                for (size_t k = 0; k < nc; ++k) {
                    data.set_datum(i, std::span<const float>(x[i]), k);
                    auto after = codes_of(data);
                    for (size_t j = 0; j < n; ++j) {
                        MC_CHECK(j == i || after[j] == before[j], "neighbour", where, ": setting vector ", i, " changed vector ", j, " from ", before[j], " to ", after[j]);
                    }
                    MC_CHECK(data.get_datum(i).get_selector() == k, "selector", where, ": vector ", i, " was to use centroid ", k);
                    stands_for(data.get_datum(i), x[i], data.get_centroid(k), where + ", set with a centroid");
                    mc::transition();
                }
                data.set_datum(i, std::span<const float>(z[i]));
            }
            MC_CHECK(codes_of(data) == before, "neighbour", where, ": the vectors differ after they were set again");
        }
        {
            // saved with several centroids
            Dir third;
            lib::save_to_disk(data, third.path);
            reload<D>(data, third.path, 32, where + ", three centroids");
        }
        // growth and rearrangement
        if constexpr (D::is_resizeable) {
            auto before = codes_of(data);
            for (size_t m : {n + 1, 2 * n + 5, n, n + 3}) {
                data.resize(m);
                MC_CHECK(data.size() == m, "resize", where, ": ", data.size(), " vectors after a resize to ", m);
                auto now = codes_of(data);
                now.resize(n);
                MC_CHECK(now == before, "resize", where, ": vectors changed in a resize to ", m);
                if (m > n) {
                    data.set_datum(m - 1, std::span<const float>(x[0]));
                    now = codes_of(data);
                    now.resize(n);
                    MC_CHECK(now == before, "resize", where, ": vectors changed by a new one");
                    stands_for(data.get_datum(m - 1), x[0], data.get_centroid(data.get_datum(m - 1).get_selector()), where + ", new vector");
                }
            }
            data.resize(n);
            // every increasing selection (what compaction passes), several batch sizes and threads
            for (size_t mask = 1; mask < (size_t(1) << n); ++mask) {
                for (size_t batch : {1, 2, 100}) {
                    auto copy = data;
                    std::vector<uint32_t> keep;
                    std::vector<string> kept;
                    for (size_t i = 0; i < n; ++i) {
                        if (mask >> i & 1) {
                            keep.push_back(i);
                            kept.push_back(before[i]);
                        }
                    }
                    svs::threads::NativeThreadPool pool(1 + mask % 2);
                    copy.compact(std::span<const uint32_t>(keep), pool, batch);
                    copy.resize(keep.size());
                    MC_CHECK(codes_of(copy) == kept, "compact", where, ": keeping ", mc::list(keep), " in batches of ", batch, " gave ", joined(codes_of(copy)), " instead of ", joined(kept));
                    mc::transition();
                }
            }
            MC_CHECK(codes_of(data) == before, "compact", where, ": changing a copy changed the original");
        }
        mc::trace();
    }
    static void all() {
        std::vector<size_t> ds = D::extent == Dyn ? std::vector<size_t>{1, 2, 5, 15, 16, 17, 31, 32, 64, 65} : std::vector<size_t>{D::extent};
        if (D::extent == Dyn && mc::thorough()) {
            ds.insert(ds.end(), {3, 7, 8, 33, 48, 63, 80, 100, 128, 129, 200});
        }
        for (size_t d : ds) {
            for (size_t n : {1, 2, 3, 4}) {
                for (int seed : {0, 1, 2}) {
                    mc::run([&] { return mc::str("dataset ", dname<D>(), " ", n, "x", d, " #", seed); }, [&] { one(n, d, seed); });
                }
            }
        }
    }
};

static void cases() {
#if GROUP == 0
    Datasets<lvq::LVQDataset<4, 0, Dyn, Seq, Flat>>::all();
    Datasets<lvq::LVQDataset<4, 8, Dyn, T8, Flat>>::all();
    Datasets<lvq::LVQDataset<8, 0, 17, Seq, Blocks>>::all();
#elif GROUP == 1
    Datasets<lvq::LVQDataset<4, 0, Dyn, T8, Blocks>>::all();
    Datasets<lvq::LVQDataset<8, 8, Dyn, Seq, Blocks>>::all();
    Datasets<lvq::LVQDataset<5, 6, 32, Seq, Flat>>::all();
#else
    Datasets<lvq::LVQDataset<8, 0, Dyn, T4, Flat>>::all();
    Datasets<lvq::LVQDataset<6, 5, Dyn, Seq, Blocks>>::all();
    Datasets<lvq::LVQDataset<4, 4, Dyn, Seq, Blocks>>::all();
#endif
}
#endif

#if PART == 3
// ---- indexes over compressed vectors ------------------------------------------------------------
namespace vam = svs::index::vamana;
using GraphData = svs::data::SimpleData<uint32_t, Dyn, svs::data::Blocked<lib::Allocator<uint32_t>>>;
struct SmallGraph : svs::graphs::SimpleGraphBase<uint32_t, GraphData> {
    using parent_type = svs::graphs::SimpleGraphBase<uint32_t, GraphData>;
    static GraphData::allocator_type alloc(size_t row) {
        svs::data::BlockingParameters bp;
        bp.blocksize_bytes = lib::prevpow2(4 * row * 4);
        return GraphData::allocator_type(bp);
    }
    SmallGraph(size_t max_degree, size_t num_nodes)
        : parent_type{num_nodes, max_degree, alloc(max_degree + 1)} {}
    void unsafe_resize(size_t new_size) { (parent_type::data_).resize(new_size); }
    void add_node() { unsafe_resize(parent_type::n_nodes() + 1); }
};

template <typename D, typename Dist> struct Indexes {
    size_t n, d;
    int seed;
    size_t window, degree, threads;
    Rows points{}, queries{};

    string where() const { return mc::str(dname<D>(), " ", std::is_same_v<Dist, svs::distance::DistanceIP> ? "IP" : "L2", " ", n, "x", d, " #", seed, " window ", window, " degree ", degree, " threads ", threads); }
    static std::vector<double> decoded(const D& data, size_t i) {
        auto v = data.get_datum(i);
        auto c = data.view_centroids()->get_datum(v.get_selector());
        std::vector<double> r(v.size());
        for (size_t j = 0; j < v.size(); ++j) {
            r[j] = double(v.get(j)) + c[j];
        }
        return r;
    }
    struct Value {
        double value, tolerance;
    };
    static Value truth(const std::vector<float>& q, const std::vector<double>& x) {
        double s = 0, size = 0;
        for (size_t j = 0; j < q.size(); ++j) {
            if constexpr (std::is_same_v<Dist, svs::distance::DistanceIP>) {
                s += q[j] * x[j];
                size += std::fabs(q[j] * x[j]) + std::fabs(q[j]) * 10;
            } else {
                s += (q[j] - x[j]) * (q[j] - x[j]);
                size += (std::fabs(q[j]) + std::fabs(x[j]) + 1) * std::fabs(q[j] - x[j]) + 1e-3;
            }
        }
        return {s, 1e-5 * (size + std::fabs(s)) + 1e-5};
    }
    static bool nearer(double a, double b) { return std::is_same_v<Dist, svs::distance::DistanceIP> ? a > b : a < b; }

    // `live`: what may be returned, identifier -> slot. The search reaches all of it if `whole`.
    template <typename R> void answers(const R& r, size_t k, const D& data, const std::map<size_t, size_t>& live, bool whole, const string& op) {
        std::vector<int> trace;
        for (size_t q = 0; q < queries.size(); ++q) {
            std::set<size_t> seen;
            std::vector<Value> best;
            for (auto& [id, slot] : live) {
                best.push_back(truth(queries[q], decoded(data, slot)));
            }
            std::sort(best.begin(), best.end(), [](auto& a, auto& b) { return nearer(a.value, b.value); });
            for (size_t j = 0; j < std::min(k, live.size()); ++j) {
                size_t id = r.index(q, j);
                float dist = r.distance(q, j);
                if (!whole && !live.contains(id)) {
                    // the search may have found fewer than asked for
                    for (size_t m = j; m < k; ++m) {
                        MC_CHECK(!live.contains(r.index(q, m)) || seen.contains(r.index(q, m)), "gap", where(), op, ": query ", q, " has a place without vector before one with");
                    }
                    break;
                }
                MC_CHECK(live.contains(id), "identifier", where(), op, ": query ", q, ", place ", j, " returns ", id, ", which is not there");
                MC_CHECK(seen.insert(id).second, "twice", where(), op, ": query ", q, " returns ", id, " twice");
                auto want = truth(queries[q], decoded(data, live.at(id)));
                MC_CHECK(std::fabs(dist - want.value) <= want.tolerance, "distance", where(), op, ": query ", q, " returns ", id, " at distance ", dist, " instead of ", want.value);
                MC_CHECK(j == 0 || !nearer(dist, r.distance(q, j - 1)), "order", where(), op, ": query ", q, ", place ", j, " is nearer than the one before");
                if (whole) {
                    MC_CHECK(std::fabs(dist - best[j].value) <= best[j].tolerance + want.tolerance, "nearest", where(), op, ": query ", q, ", place ", j, " returns ", id, " at ", dist, " though there is one at ", best[j].value);
                }
                trace.push_back(int(id % 1000));
                mc::evaluation();
            }
        }
        mc::outcome(mc::hash(mc::list(trace)));
    }
    template <typename I> static auto asked(I& index, const svs::data::SimpleData<float>& q, size_t k, const vam::VamanaSearchParameters& sp) {
        svs::QueryResult<size_t> r(q.size(), k);
        std::fill(r.indices().begin(), r.indices().end(), size_t(-7));
        index.search(r.view(), q.cview(), sp);
        return r;
    }
    vam::VamanaSearchParameters params(size_t w, bool filter = false) const {
        vam::VamanaSearchParameters sp;
        sp.buffer_config_ = vam::SearchBufferConfig(w);
        sp.search_buffer_visited_set_ = filter;
        return sp;
    }
    D compress(const Rows& x, size_t nthreads) const {
        return D::compress(as_data<float>(x, d), nthreads, 0, allocator<D>());
    }
    template <typename G> void graph_ok(const G& g, size_t bound, const string& op) {
        for (size_t i = 0; i < g.n_nodes(); ++i) {
            auto list = g.get_node(i);
            std::set<size_t> seen(list.begin(), list.end());
            MC_CHECK(list.size() <= bound && seen.size() == list.size() && !seen.contains(i) && (seen.empty() || *seen.rbegin() < g.n_nodes()), "graph", where(), op, ": the neighbours of ", i, " are ", mc::list(std::vector<int>(list.begin(), list.end())));
        }
    }
    template <typename G, typename Starts> static bool connected(const G& g, const Starts& starts) {
        std::vector<bool> seen(g.n_nodes());
        std::vector<size_t> todo(starts.begin(), starts.end());
        size_t count = 0;
        while (!todo.empty()) {
            size_t i = todo.back();
            todo.pop_back();
            if (seen[i]) {
                continue;
            }
            seen[i] = true;
            ++count;
            for (auto j : g.get_node(i)) {
                todo.push_back(j);
            }
        }
        return count == g.n_nodes();
    }

    void fixed() {
        const bool ip = std::is_same_v<Dist, svs::distance::DistanceIP>;
        vam::VamanaBuildParameters bp{ip ? 0.95f : 1.2f, degree, window, 20, degree, true};
        auto index = vam::auto_build(bp, compress(points, threads), Dist(), threads);
        auto data = compress(points, 1); // the same one
        content(data, points, means(points, d), where());
        MC_CHECK(index.size() == n && index.dimensions() == d, "size", where(), ": ", index.size(), " vectors of ", index.dimensions());
        std::map<size_t, size_t> live;
        for (size_t i = 0; i < n; ++i) {
            live[i] = i;
        }
        auto q = as_data<float>(queries, d);
        for (size_t w : {size_t(1), window, n + 2}) {
            for (bool filter : {false, true}) {
                std::optional<svs::QueryResult<size_t>> longest;
                for (size_t k = n; k >= 1; --k) {
                    auto r = asked(index, q, k, params(std::max(w, n), filter));
                    answers(r, k, data, live, false, mc::str(" asked for ", k));
                    if (longest) {
                        for (size_t i = 0; i < queries.size(); ++i) {
                            for (size_t j = 0; j < k; ++j) {
                                MC_CHECK(r.index(i, j) == longest->index(i, j) && r.distance(i, j) == longest->distance(i, j), "prefix", where(), ": asked for ", k, " place ", j, " of query ", i, " differs from asking for ", n);
                            }
                        }
                    } else {
                        longest = std::move(r);
                    }
                }
                for (size_t k : {size_t(1), std::min(n, size_t(2))}) {
                    answers(asked(index, q, k, params(w, filter)), k, data, live, false, mc::str(" asked for ", k, " with window ", w));
                }
            }
        }
        // reading back
        std::vector<uint64_t> ids;
        for (size_t i = 0; i < n; ++i) {
            ids.push_back(n - 1 - i);
        }
        svs::data::SimpleData<float> back(n, d);
        index.reconstruct_at(back.view(), std::span<const uint64_t>(ids));
        for (size_t i = 0; i < n; ++i) {
            auto want = decoded(data, ids[i]);
            for (size_t j = 0; j < d; ++j) {
                MC_CHECK(std::fabs(back.get_datum(i)[j] - want[j]) <= 1e-5 * (1 + std::fabs(want[j])) + 1e-4 * std::fabs(double(points[ids[i]][j]) - want[j]), "reconstruct", where(), ": component ", j, " of ", ids[i], " is ", back.get_datum(i)[j], " instead of ", want[j]);
            }
        }
        // away and back
        Dir a, b, c;
        index.save(a.path, b.path, c.path);
        auto again = vam::auto_assemble(a.path, svs::GraphLoader(b.path), lib::load_from_disk<D>(c.path, size_t(0), allocator<D>()), Dist(), threads);
        auto g = svs::graphs::SimpleGraph<uint32_t>::load(b.path);
        graph_ok(g, degree, " built");
        for (size_t w : {size_t(1), window, n + 2}) {
            auto x = asked(index, q, n, params(w)), y = asked(again, q, n, params(w));
            for (size_t i = 0; i < queries.size(); ++i) {
                for (size_t j = 0; j < n; ++j) {
                    MC_CHECK(x.index(i, j) == y.index(i, j) && x.distance(i, j) == y.distance(i, j), "reload", where(), ": the reloaded index answers query ", i, " differently with window ", w);
                }
            }
            bool whole = w >= n && degree + 1 >= n;
            if (w >= n) {
                answers(x, n, data, live, whole, " everything");
            }
        }
        // every vector of a complete graph is compared: exhaustive search is the reference
        svs::index::flat::FlatIndex flat{compress(points, 1), Dist(), threads};
        svs::QueryResult<size_t> r(queries.size(), n);
        flat.search(r.view(), q.cview(), {});
        answers(r, n, data, live, true, " exhaustively");
    }

    struct Step {
        char kind; // a(dd) d(elete) c(onsolidate) m(ove together)
        std::vector<size_t> ids;
    };
    // Every history of `depth` steps.
    void histories(size_t depth) {
        if constexpr (D::is_resizeable) {
            std::vector<std::vector<int>> all{{}};
            for (size_t l = 0; l < depth; ++l) {
                std::vector<std::vector<int>> next;
                for (auto& h : all) {
                    for (int o = 0; o < 7; ++o) {
                        auto x = h;
                        x.push_back(o);
                        next.push_back(x);
                    }
                }
                all = next;
            }
            for (auto& h : all) {
                mc::run([&] { return mc::str("history ", where(), " ", mc::list(h)); }, [&] { history(h); });
            }
        }
    }
    void history(const std::vector<int>& ops) {
        if constexpr (D::is_resizeable) {
            using Index = vam::MutableVamanaIndex<SmallGraph, D, Dist>;
            const bool ip = std::is_same_v<Dist, svs::distance::DistanceIP>;
            vam::VamanaBuildParameters bp{ip ? 0.95f : 1.2f, degree, window, 20, degree, true};
            Rows start(points.begin(), points.begin() + 3);
            std::vector<size_t> ids{100, 101, 102};
            auto first = compress(start, threads);
            auto centroids = means(start, d);
            Index index(bp, std::move(first), ids, Dist(), threads);
            std::map<size_t, size_t> live{{100, 0}, {101, 1}, {102, 2}}; // -> position in points
            size_t next = 3;
            auto q = as_data<float>(queries, d);
            string said;
            auto check = [&] {
                graph_ok(index.view_graph(), degree, said);
                const D& data = index.view_data();
                std::map<size_t, size_t> slots;
                for (auto& [id, at] : live) {
                    size_t slot = index.translate_external_id(id);
                    slots[id] = slot;
                    auto v = data.get_datum(slot);
                    stands_for(v, points[at], data.view_centroids()->get_datum(0), mc::str(where(), said, ", vector ", id));
                    MC_CHECK(v.get_selector() == 0, "selector", where(), said, ": vector ", id, " has centroid ", int(v.get_selector()));
                }
                MC_CHECK(index.size() == live.size(), "size", where(), said, ": ", index.size(), " vectors instead of ", live.size());
                MC_CHECK(data.view_centroids()->size() == 1, "centroids", where(), said, ": ", data.view_centroids()->size(), " centroids");
                for (size_t j = 0; j < d; ++j) {
                    MC_CHECK(std::fabs(data.view_centroids()->get_datum(0)[j] - centroids[0][j]) <= 1e-5 * (1 + std::fabs(centroids[0][j])), "centroids", where(), said, ": component ", j, " of the centroid is ", data.view_centroids()->get_datum(0)[j]);
                }
                if (live.empty()) {
                    return;
                }
                for (size_t w : {size_t(1), size_t(40)}) {
                    size_t k = w == 1 ? 1 : live.size();
                    answers(asked(index, q, k, params(w)), k, data, slots, false, mc::str(said, " window ", w));
                }
                svs::QueryResult<size_t> r(queries.size(), live.size());
                index.exhaustive_search(q.cview(), live.size(), r.view());
                answers(r, live.size(), data, slots, true, said + " exhaustively");
                std::vector<uint64_t> all;
                for (auto& x : live) {
                    all.push_back(x.first);
                }
                svs::data::SimpleData<float> back(all.size(), d);
                index.reconstruct_at(back.view(), std::span<const uint64_t>(all));
                for (size_t i = 0; i < all.size(); ++i) {
                    auto want = decoded(data, slots[all[i]]);
                    for (size_t j = 0; j < d; ++j) {
                        MC_CHECK(std::fabs(back.get_datum(i)[j] - want[j]) <= 1e-5 * (10 + std::fabs(want[j])), "reconstruct", where(), said, ": component ", j, " of ", all[i], " is ", back.get_datum(i)[j], " instead of ", want[j]);
                    }
                }
            };
            check();
            for (int o : ops) {
                mc::transition();
                auto add = [&](size_t m) {
                    m = std::min(m, points.size() - next);
                    Rows x;
                    std::vector<size_t> as;
                    for (size_t i = 0; i < m; ++i) {
                        x.push_back(points[next]);
                        as.push_back(100 + next);
                        live[100 + next] = next;
                        ++next;
                    }
                    index.add_points(as_data<float>(x, d), as);
                };
                auto drop = [&](std::vector<size_t> which) {
                    std::vector<size_t> gone;
                    for (auto w : which) {
                        if (w < live.size()) {
                            auto it = live.begin();
                            std::advance(it, w);
                            gone.push_back(it->first);
                        }
                    }
                    for (auto g : gone) {
                        live.erase(g);
                    }
                    index.delete_entries(gone);
                };
                switch (o) {
                    case 0: add(1); break;
                    case 1: add(3); break;
                    case 2: drop({0}); break;
                    case 3: drop({1, 2}); break;
                    case 4: index.consolidate(); break;
                    case 5: index.consolidate(); index.compact(2); break;
                    case 6: {
                        // away and back
                        if (live.empty()) {
                            continue;
                        }
                        Dir a, b, c;
                        index.save(a.path, b.path, c.path);
                        auto saved = lib::load_from_disk<D>(c.path, size_t(0), allocator<D>());
                        auto now = codes_of(index.view_data());
                        MC_CHECK(codes_of(saved) == now, "reload", where(), said, ": saved ", joined(now), " but loaded ", joined(codes_of(saved)));
                        break;
                    }
                }
                said += mc::str(" ", o);
                check();
            }
        }
    }

    static void all() {
        for (size_t d : {size_t(5), size_t(16), size_t(17)}) {
            if (D::extent != Dyn && d != D::extent) {
                continue;
            }
            for (int seed : {0, 1, 2}) {
                for (size_t n : {size_t(1), size_t(4), size_t(9)}) {
                    for (size_t threads : {1, 2}) {
                        for (size_t degree : {size_t(3), size_t(12)}) {
                            Indexes x{n, d, seed, 6, degree, threads, rows(n, d, seed), rows(3, d, seed)};
                            x.queries[1] = x.points[0];
                            mc::run([&] { return "index " + x.where(); }, [&] { x.fixed(); });
                        }
                    }
                }
            }
            for (int seed : {0, 1}) {
                Indexes y{16, d, seed, 6, 3, 1, rows(16, d, seed), rows(2, d, seed)};
                y.histories(mc::thorough() ? 4 : d == 5 ? 3 : 2);
            }
        }
    }
};

static void cases() {
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
#if GROUP == 0
    Indexes<lvq::LVQDataset<4, 8, Dyn, T8, Blocks>, L2>::all();
#elif GROUP == 1
    Indexes<lvq::LVQDataset<8, 0, 17, Seq, Blocks>, IP>::all();
#elif GROUP == 2
    Indexes<lvq::LVQDataset<4, 4, Dyn, Seq, Blocks>, IP>::all();
#else
    Indexes<lvq::LVQDataset<8, 0, Dyn, T4, Blocks>, L2>::all();
#endif
}
#endif

static void body() {
    struct sigaction sa {};
    sa.sa_handler = on_segv;
    sa.sa_flags = SA_NODEFER;
    sigaction(SIGSEGV, &sa, nullptr);
    sigaction(SIGBUS, &sa, nullptr);
#if PART >= 2
    mc::ScratchDir own;
    scratch = own.path;
#endif
    cases();
}

MC_MAIN("C34", body)
