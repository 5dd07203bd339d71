// C28: dispatch runs exactly the best applicable target. Every sequence of registrations of
// up to four targets and every table of match scores over a small set of values, for one to
// three arguments; variants, extents, element types, distances and dataset loaders with every
// list of targets and every argument value.
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/distance.h"
#include "svs/lib/dispatcher.h"

#include <limits>

namespace lib = svs::lib;
using lib::Dispatcher;

// What happened ------------------------------------------------------------------------
struct Event {
    int target;
    std::vector<int> values;
};
static std::vector<Event> events;
static int conversions = 0, matches_bad = 0;
static int64_t score[3][4]; // [argument][target]

struct Arg {
    int serial = 0;
    bool moved = false;
    Arg() = default;
    explicit Arg(int s)
        : serial(s) {}
    Arg(const Arg&) = delete;
    Arg& operator=(const Arg&) = delete;
    Arg(Arg&& o) noexcept
        : serial(o.serial)
        , moved(o.moved) {
        o.serial = -1;
        o.moved = true;
    }
};
struct Copied { // a copyable one
    int serial = 0;
};
template <int T, int P> struct Conv {
    int serial;
};

static int64_t judge(int p, int t) { return score[p][t]; }

namespace svs::lib {
#define CONVERTER(FROM, MOVE)                                                      \
    template <int T, int P> struct DispatchConverter<FROM, Conv<T, P>> {           \
        static int64_t match(const std::remove_cvref_t<FROM>&) { return judge(P, T); } \
        static Conv<T, P> convert(MOVE x) {                                        \
            ++conversions;                                                         \
            return Conv<T, P>{x.serial};                                           \
        }                                                                          \
        static std::string description() { return mc::str("conversion to ", T, " at ", P); } \
    };
CONVERTER(Arg, Arg&&)
CONVERTER(const Arg&, const Arg&)
CONVERTER(Arg&, Arg&)
CONVERTER(Copied, Copied)
} // namespace svs::lib

template <int N, typename A, typename Ret> struct Setup;
template <typename A, typename Ret> struct Setup<1, A, Ret> {
    using D = Dispatcher<Ret, A>;
    template <int T> static void add(D& d, bool docs) {
        auto f = [](Conv<T, 0> a) -> Ret {
            events.push_back({T, {a.serial}});
            if constexpr (!std::is_void_v<Ret>) return Ret(T);
        };
        docs ? d.register_target(lib::dispatcher_build_docs, f) : d.register_target(f);
    }
};
template <typename A, typename Ret> struct Setup<2, A, Ret> {
    using D = Dispatcher<Ret, A, A>;
    template <int T> static void add(D& d, bool docs) {
        auto f = [](Conv<T, 0> a, Conv<T, 1> b) -> Ret {
            events.push_back({T, {a.serial, b.serial}});
            if constexpr (!std::is_void_v<Ret>) return Ret(T);
        };
        docs ? d.register_target(lib::dispatcher_build_docs, f) : d.register_target(f);
    }
};
template <typename A, typename Ret> struct Setup<3, A, Ret> {
    using D = Dispatcher<Ret, A, A, A>;
    template <int T> static void add(D& d, bool docs) {
        auto f = [](Conv<T, 0> a, Conv<T, 1> b, Conv<T, 2> c) -> Ret {
            events.push_back({T, {a.serial, b.serial, c.serial}});
            if constexpr (!std::is_void_v<Ret>) return Ret(T);
        };
        docs ? d.register_target(lib::dispatcher_build_docs, f) : d.register_target(f);
    }
};
// The best registration for the current scores, by the documented rules: every score must be
// non-negative, the smallest list in dictionary order wins, the earliest on ties.
template <int N> std::optional<size_t> best(const std::vector<int>& reg) {
    std::optional<size_t> b;
    for (size_t i = 0; i < reg.size(); ++i) {
        bool ok = true;
        for (int p = 0; p < N; ++p) {
            ok &= score[p][reg[i]] >= 0;
        }
        if (!ok) {
            continue;
        }
        if (b) {
            int cmp = 0;
            for (int p = 0; p < N && !cmp; ++p) {
                int64_t x = score[p][reg[i]], y = score[p][reg[*b]];
                cmp = x < y ? -1 : x > y ? 1 : 0;
            }
            if (cmp >= 0) {
                continue;
            }
        }
        b = i;
    }
    return b;
}

static std::string show(const std::vector<int>& reg, int n, int targets) {
    std::ostringstream s;
    s << "registered " << mc::list(reg) << " scores";
    for (int t = 0; t < targets; ++t) {
        s << (t ? ";" : " ");
        for (int p = 0; p < n; ++p) {
            s << (p ? "," : "") << score[p][t];
        }
    }
    return s.str();
}

template <int N, typename A, typename Ret, typename F>
void call(const typename Setup<N, A, Ret>::D& d, F&& result) {
    if constexpr (N == 1) {
        A a{11};
        result([&]() -> Ret { return d.invoke(static_cast<A>(std::move(a))); });
    } else if constexpr (N == 2) {
        A a{11}, b{22};
        result([&]() -> Ret { return d.invoke(std::move(a), std::move(b)); });
    } else {
        A a{11}, b{22}, c{33};
        result([&]() -> Ret { return d.invoke(std::move(a), std::move(b), std::move(c)); });
    }
}

template <int N, typename A, typename Ret>
void check(const typename Setup<N, A, Ret>::D& d, const std::vector<int>& reg, int targets) {
    auto want = best<N>(reg);
    auto m = [&] {
        std::remove_cvref_t<A> a, b, c;
        if constexpr (N == 1) {
            return std::pair(d.best_match(a), d.has_match(a));
        } else if constexpr (N == 2) {
            return std::pair(d.best_match(a, b), d.has_match(a, b));
        } else {
            return std::pair(d.best_match(a, b, c), d.has_match(a, b, c));
        }
    }();
    MC_CHECK(m.second == want.has_value(), "has-match", show(reg, N, targets), ": has_match says ", m.second);
    MC_CHECK(m.first.first == want, "best-match", show(reg, N, targets), ": best_match chose ", m.first.first ? int(*m.first.first) : -1, ", not ", want ? int(*want) : -1);
    if (want) {
        for (int p = 0; p < N; ++p) {
            MC_CHECK(m.first.second[p] == score[p][reg[*want]], "best-match", show(reg, N, targets), ": score of argument ", p);
        }
    }
    MC_CHECK(events.empty() && conversions == 0, "match-runs", show(reg, N, targets), ": asking for a match ran something");
    bool threw = false;
    call<N, A, Ret>(d, [&](auto&& go) {
        threw = mc::throws([&] {
            if constexpr (std::is_void_v<Ret>) {
                go();
            } else {
                auto r = go();
                MC_CHECK(want && int(r) == reg[*want], "result", show(reg, N, targets), ": result ", int(r));
            }
        });
    });
    MC_CHECK(threw == !want, "invoke", show(reg, N, targets), threw ? ": refused" : ": not refused");
    MC_CHECK(events.size() == size_t(!threw) && conversions == (threw ? 0 : N), "once", show(reg, N, targets), ": ", events.size(), " calls and ", conversions, " conversions");
    if (want) {
        MC_CHECK(events[0].target == reg[*want], "invoke", show(reg, N, targets), ": target ", events[0].target, " ran");
        for (int p = 0; p < N; ++p) {
            MC_CHECK(events[0].values[p] == 11 * (p + 1), "arguments", show(reg, N, targets), ": argument ", p, " arrived as ", events[0].values[p]);
        }
    }
    events.clear();
    conversions = 0;
    mc::evaluation();
}

template <int N, typename A, typename Ret>
typename Setup<N, A, Ret>::D make(const std::vector<int>& reg, int docs) {
    typename Setup<N, A, Ret>::D d;
    MC_CHECK(d.size() == 0 && d.num_args() == N, "size", "an empty dispatcher has ", d.size(), " methods and ", d.num_args(), " arguments");
    for (size_t i = 0; i < reg.size(); ++i) {
        bool with = (docs >> i) & 1;
        switch (reg[i]) {
            case 0: Setup<N, A, Ret>::template add<0>(d, with); break;
            case 1: Setup<N, A, Ret>::template add<1>(d, with); break;
            case 2: Setup<N, A, Ret>::template add<2>(d, with); break;
            default: Setup<N, A, Ret>::template add<3>(d, with);
        }
    }
    MC_CHECK(d.size() == reg.size(), "size", reg.size(), " registrations left ", d.size(), " methods");
    for (size_t i = 0; i < reg.size() + 2; ++i) {
        for (size_t p = 0; p < N + 2; ++p) {
            std::string s;
            bool threw = mc::throws([&] { s = d.description(i, p); });
            bool fine = i < reg.size() && p < N;
            MC_CHECK(threw == !fine, "description", "description of argument ", p, " of method ", i, " of ", reg.size(), threw ? " refused" : " accepted");
            if (fine) {
                auto want = ((docs >> i) & 1) ? mc::str("conversion to ", reg[i], " at ", p) : std::string("unknown");
                MC_CHECK(s == want, "description", "argument ", p, " of method ", i, ": ", s);
            }
        }
    }
    return d;
}

template <int N, typename A, typename Ret>
void tables(const std::string& name, const std::vector<int64_t>& values, int targets, size_t longest, bool repeats) {
    std::vector<std::vector<int>> regs{{}};
    for (size_t i = 0; i < regs.size(); ++i) {
        if (regs[i].size() == longest) {
            break;
        }
        for (int t = 0; t < targets; ++t) {
            if (!repeats && std::find(regs[i].begin(), regs[i].end(), t) != regs[i].end()) {
                continue;
            }
            auto r = regs[i];
            r.push_back(t);
            regs.push_back(r);
        }
    }
    for (auto& reg : regs) {
        mc::run([&] { return mc::str(name, " ", N, " arguments, ", targets, " targets, registered ", mc::list(reg)); }, [&] {
            std::memset(score, 0, sizeof score);
            events.clear();
            conversions = 0;
            auto d = make<N, A, Ret>(reg, 0x5);
            // A dispatcher that has been moved from one place to another still dispatches.
            auto d2 = std::move(d);
            d = std::move(d2);
            // Only the scores of registered targets matter.
            std::vector<int> used = reg;
            std::sort(used.begin(), used.end());
            used.erase(std::unique(used.begin(), used.end()), used.end());
            std::vector<size_t> digit(used.size() * N, 0);
            while (true) {
                for (size_t i = 0; i < digit.size(); ++i) {
                    score[i % N][used[i / N]] = values[digit[i]];
                }
                check<N, A, Ret>(d, reg, targets);
                mc::state(mc::hash_bytes(score, sizeof score));
                mc::transition();
                size_t i = 0;
                while (i < digit.size() && ++digit[i] == values.size()) {
                    digit[i++] = 0;
                }
                if (i == digit.size()) {
                    break;
                }
            }
            mc::trace();
        });
    }
}

// Implicit conversions -----------------------------------------------------------------
// Which argument category may go to which parameter category without a copy.
struct Val {
    int v = 0;
    int copies = 0, moves = 0;
    Val() = default;
    explicit Val(int x)
        : v(x) {}
    Val(const Val& o)
        : v(o.v)
        , copies(o.copies + 1)
        , moves(o.moves) {}
    Val(Val&& o)
        : v(o.v)
        , copies(o.copies)
        , moves(o.moves + 1) {
        o.v = -1;
    }
    Val& operator=(const Val&) = default;
};
struct Other {
    int v = 0;
};
static_assert(lib::DispatchConvertible<Val, Val> && lib::DispatchConvertible<Val, const Val&> && lib::DispatchConvertible<Val&&, Val> && lib::DispatchConvertible<Val&&, const Val&> && lib::DispatchConvertible<Val&&, Val&&>);
static_assert(lib::DispatchConvertible<Val&, Val&> && lib::DispatchConvertible<Val&, const Val&> && lib::DispatchConvertible<const Val&, const Val&>);
static_assert(!lib::DispatchConvertible<Val&, Val> && !lib::DispatchConvertible<const Val&, Val> && !lib::DispatchConvertible<const Val&, Val&>);
static_assert(!lib::DispatchConvertible<Val, Other> && !lib::DispatchConvertible<Val, Val&> && !lib::DispatchConvertible<const Val&, Other>);

static void implicit() {
    mc::run([] { return std::string("implicit conversions"); }, [&] {
        {
            Dispatcher<int, Val> d;
            d.register_target([](const Val& x) { return x.v * 10 + x.copies; });
            d.register_target([](Val x) { return -(x.v * 10 + x.copies); });
            MC_CHECK(d.invoke(Val(4)) == 40, "implicit", "value to const reference");
            Val keep(5);
            MC_CHECK(d.best_match(keep).first == 0u && d.best_match(keep).second[0] == lib::implicit_match && keep.v == 5, "implicit", "score");
            MC_CHECK(d.invoke(keep) == 51, "implicit", "a copied value arrives as a copy");
            MC_CHECK(keep.v == 5, "implicit", "the original changed");
        }
        {
            Dispatcher<int, Val> d;
            d.register_target([](Val x) { return x.v * 10 + x.copies; });
            MC_CHECK(d.invoke(Val(4)) == 40, "implicit", "value to value");
        }
        {
            Dispatcher<int, Val&> d;
            d.register_target([](Val& x) { return ++x.v; });
            Val x(7);
            MC_CHECK(d.invoke(x) == 8 && x.v == 8 && x.copies == 0, "implicit", "reference to reference");
        }
        {
            Dispatcher<const Val*, const Val&> d;
            d.register_target([](const Val& x) { return &x; });
            Val x(7);
            MC_CHECK(d.invoke(x) == &x, "implicit", "const reference to const reference");
        }
        {
            Dispatcher<int, Val&&> d;
            d.register_target([](Val&& x) { Val y(std::move(x)); return y.v * 10 + y.copies; });
            Val x(7);
            MC_CHECK(d.invoke(std::move(x)) == 70 && x.v == -1, "implicit", "rvalue reference");
        }
        {
            // An error thrown by the target reaches the caller, and the next call works.
            Dispatcher<int, int> d;
            d.register_target([](int x) { if (x == 1) throw std::out_of_range("inner"); return x; });
            bool inner = false;
            try {
                d.invoke(1);
            } catch (const std::out_of_range&) { inner = true; }
            MC_CHECK(inner && d.invoke(2) == 2, "implicit", "error of the target");
        }
        mc::trace();
        mc::evaluation(8);
    });
}

// Converters that answer with a truth value ------------------------------------------------
struct Flag {
    int v;
};
template <int T> struct FlagTo {
    int v;
};
static unsigned flag_mask;
namespace svs::lib {
template <int T> struct DispatchConverter<Flag, FlagTo<T>> {
    static bool match(Flag) { return (flag_mask >> T) & 1; }
    static FlagTo<T> convert(Flag f) { return {f.v}; }
};
} // namespace svs::lib
static void flags() {
    for (int order = 0; order < 27; ++order) {
        mc::run([&] { return mc::str("truth valued matches, order ", order); }, [&] {
            std::vector<int> reg{order % 3, order / 3 % 3, order / 9};
            Dispatcher<int, Flag> d;
            for (int t : reg) {
                switch (t) {
                    case 0: d.register_target(lib::dispatcher_build_docs, [](FlagTo<0> x) { return x.v; }); break;
                    case 1: d.register_target([](FlagTo<1> x) { return x.v + 100; }); break;
                    default: d.register_target([](FlagTo<2> x) { return x.v + 200; });
                }
            }
            MC_CHECK(d.description(0, 0) == "unknown", "description", d.description(0, 0));
            for (flag_mask = 0; flag_mask < 8; ++flag_mask) {
                int want = -1;
                for (int i = 2; i >= 0; --i) {
                    if ((flag_mask >> reg[i]) & 1) {
                        want = reg[i] * 100 + 5;
                    }
                }
                int got = -1;
                mc::throws([&] { got = d.invoke(Flag{5}); });
                MC_CHECK(got == want && d.has_match(Flag{5}) == (want >= 0), "truth", "mask ", flag_mask, " order ", mc::list(reg), ": ", got, " not ", want);
                mc::transition();
            }
            mc::trace();
        });
    }
}

// Variants ---------------------------------------------------------------------------------
// Alternatives 0..2; target t accepts alternative a if bit (t, a) of its static mask is set and
// scores it with vscore[t][a].
template <int I> struct Alt {
    int v = 0;
    Alt() = default;
    explicit Alt(int x)
        : v(x) {}
};
using Var = std::variant<Alt<0>, Alt<1>, Alt<2>>;
template <int Mask, int T> struct To {
    int alt, v;
};
static int64_t vscore[3][3];
namespace svs::lib {
#define VARIANT_CONVERTER(FROM)                                            \
    template <int I, int Mask, int T>                                      \
        requires(((Mask >> I) & 1) != 0)                                   \
    struct DispatchConverter<FROM, To<Mask, T>> {                          \
        static int64_t match(const Alt<I>&) { return vscore[T][I]; }       \
        static To<Mask, T> convert(FROM x) { return {I, x.v}; }            \
        static std::string description() { return mc::str("alt", I); }     \
    };
VARIANT_CONVERTER(Alt<I>)
VARIANT_CONVERTER(const Alt<I>&)
VARIANT_CONVERTER(Alt<I>&)
} // namespace svs::lib

template <int Mask> std::string variant_description() {
    std::string m, a;
    int n = 0;
    for (int i = 0; i < 3; ++i) {
        if ((Mask >> i) & 1) {
            m += (n ? " OR alt" : "alt") + std::to_string(i);
            a += (n ? ", " : "") + std::to_string(i);
            ++n;
        }
    }
    return m + " -- (union alternative" + (n > 1 ? "s " : " ") + a + ")";
}

template <typename Arg, int M0, int M1> void variant_pair(const char* category) {
    mc::run([&] { return mc::str("variants ", category, " masks ", M0, " ", M1); }, [&] {
        Dispatcher<int, Arg> d;
        d.register_target(lib::dispatcher_build_docs, [](To<M0, 0> x) { return x.alt * 10 + x.v; });
        d.register_target(lib::dispatcher_build_docs, [](To<M1, 1> x) { return 100 + x.alt * 10 + x.v; });
        MC_CHECK(d.description(0, 0) == variant_description<M0>(), "description", d.description(0, 0));
        MC_CHECK(d.description(1, 0) == variant_description<M1>(), "description", d.description(1, 0));
        for (int alt = 0; alt < 3; ++alt) {
            Var v = alt == 0 ? Var(Alt<0>(7)) : alt == 1 ? Var(Alt<1>(7)) : Var(Alt<2>(7));
            for (int64_t s0 : {-1, 0, 1, 10000}) {
                for (int64_t s1 : {-1, 0, 1, 10000}) {
                    vscore[0][alt] = s0;
                    vscore[1][alt] = s1;
                    int64_t a = ((M0 >> alt) & 1) ? s0 : -1, b = ((M1 >> alt) & 1) ? s1 : -1;
                    int want = a >= 0 && (b < 0 || a <= b) ? alt * 10 + 7 : b >= 0 ? 100 + alt * 10 + 7 : -1;
                    int got = -1;
                    MC_CHECK(d.has_match(v) == (want >= 0), "variant", "has_match for alternative ", alt, " scores ", s0, " ", s1);
                    mc::throws([&] {
                        if constexpr (std::is_same_v<Arg, Var> || std::is_same_v<Arg, Var&&>) {
                            Var copy(v);
                            got = d.invoke(std::move(copy));
                        } else {
                            got = d.invoke(v);
                        }
                    });
                    MC_CHECK(got == want, "variant", "alternative ", alt, " scores ", s0, " ", s1, ": ", got, " not ", want);
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
}
template <typename Arg, int... M> void variant_row(const char* c, std::integer_sequence<int, M...>) {
    (variant_pair<Arg, M / 7 + 1, M % 7 + 1>(c), ...);
}

// Variants against parameters of an alternative's own type.
static void variant_identity() {
    mc::run([] { return std::string("variants to their alternatives"); }, [&] {
        for (int order = 0; order < 6; ++order) {
            for (int alt = 0; alt < 3; ++alt) {
                static const int perm[6][3] = {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}};
                for (int n = 0; n <= 3; ++n) {
                    Dispatcher<int, const Var&> c;
                    Dispatcher<int, Var> v;
                    Dispatcher<int, Var&> r;
                    bool there = false;
                    for (int i = 0; i < n; ++i) {
                        there |= perm[order][i] == alt;
                        switch (perm[order][i]) {
                            case 0:
                                c.register_target([](const Alt<0>& x) { return x.v; });
                                v.register_target([](Alt<0> x) { return x.v; });
                                r.register_target([](Alt<0>& x) { return x.v++; });
                                break;
                            case 1:
                                c.register_target([](const Alt<1>& x) { return 10 + x.v; });
                                v.register_target([](Alt<1> x) { return 10 + x.v; });
                                r.register_target([](Alt<1>& x) { return 10 + x.v++; });
                                break;
                            default:
                                c.register_target([](const Alt<2>& x) { return 20 + x.v; });
                                v.register_target([](Alt<2> x) { return 20 + x.v; });
                                r.register_target([](Alt<2>& x) { return 20 + x.v++; });
                        }
                    }
                    Var x = alt == 0 ? Var(Alt<0>(7)) : alt == 1 ? Var(Alt<1>(7)) : Var(Alt<2>(7));
                    auto want = there ? alt * 10 + 7 : -1;
                    int got = -1;
                    mc::throws([&] { got = c.invoke(x); });
                    MC_CHECK(got == want, "variant", "const reference, alternative ", alt, ": ", got);
                    got = -1;
                    mc::throws([&] { got = v.invoke(x); });
                    MC_CHECK(got == want, "variant", "value, alternative ", alt, ": ", got);
                    got = -1;
                    mc::throws([&] { got = r.invoke(x); });
                    MC_CHECK(got == want, "variant", "reference, alternative ", alt, ": ", got);
                    int now = std::visit([](auto& a) { return a.v; }, x);
                    MC_CHECK(now == (there ? 8 : 7), "variant", "the referenced object has ", now);
                    mc::transition(3);
                }
            }
        }
        // Converting to a parameter the current alternative does not support is an error.
        Var x{Alt<1>(3)};
        using C = lib::DispatchConverter<const Var&, const Alt<0>&>;
        MC_CHECK(C::match(x) == lib::invalid_match && mc::throws([&] { (void)C::convert(x); }), "variant", "conversion of the wrong alternative");
        mc::trace();
    });
}

// Extents ------------------------------------------------------------------------------------
constexpr size_t extents_all[] = {svs::Dynamic, 0, 1, 128};
template <size_t N> void add_extent(Dispatcher<size_t, lib::ExtentArg>& d) {
    d.register_target(lib::dispatcher_build_docs, [](lib::ExtentTag<N>) { return N; });
}
static void extents() {
    std::vector<std::vector<int>> regs{{}};
    for (size_t i = 0; i < regs.size() && regs[i].size() < 4; ++i) {
        for (int t = 0; t < 4; ++t) {
            auto r = regs[i];
            r.push_back(t);
            regs.push_back(r);
        }
    }
    mc::run([] { return std::string("extents"); }, [&] {
        for (auto& reg : regs) {
            Dispatcher<size_t, lib::ExtentArg> d;
            for (size_t i = 0; i < reg.size(); ++i) {
                switch (reg[i]) {
                    case 0: add_extent<svs::Dynamic>(d); break;
                    case 1: add_extent<0>(d); break;
                    case 2: add_extent<1>(d); break;
                    default: add_extent<128>(d);
                }
                MC_CHECK(d.description(i, 0) == (reg[i] ? std::to_string(extents_all[reg[i]]) : std::string("any")), "extent", d.description(i, 0));
            }
            for (int how = 0; how < 4; ++how) {
                for (size_t value : {size_t(0), size_t(1), size_t(2), size_t(127), size_t(128), size_t(129), svs::Dynamic - 1, svs::Dynamic}) {
                    lib::ExtentArg a = how == 0 ? lib::ExtentArg(value, false) : how == 1 ? lib::ExtentArg(value, true) : how == 2 ? lib::ExtentArg(value) : lib::ExtentArg();
                    if (how == 3) {
                        value = svs::Dynamic;
                    }
                    bool exact = false, any = false;
                    for (int t : reg) {
                        exact |= extents_all[t] == value;
                        any |= t == 0;
                    }
                    std::optional<size_t> want, got;
                    if (exact) {
                        want = value;
                    } else if (any && how != 1) {
                        want = svs::Dynamic;
                    }
                    mc::throws([&] { got = d.invoke(a); });
                    MC_CHECK(got == want && d.has_match(a) == want.has_value(), "extent", "extent ", value, how == 1 ? " forced" : "", " registered ", mc::list(reg), " went to ", got ? mc::str(*got) : "nothing");
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
}

// Element types, distances and loaders ---------------------------------------------------------
template <typename T> void add_type(Dispatcher<int, svs::DataType>& d) {
    d.register_target(lib::dispatcher_build_docs, [](lib::Type<T>) { return int(svs::datatype_v<T>); });
}
template <typename... Ts> void types(const std::vector<svs::DataType>& all) {
    std::vector<void (*)(Dispatcher<int, svs::DataType>&)> adders{&add_type<Ts>...};
    std::vector<svs::DataType> types{svs::datatype_v<Ts>...};
    mc::run([] { return std::string("element types"); }, [&] {
        size_t n = adders.size();
        for (size_t mask = 0; mask < (size_t(1) << n); ++mask) {
            for (bool reverse : {false, true}) {
                Dispatcher<int, svs::DataType> d;
                for (size_t j = 0; j < n; ++j) {
                    size_t i = reverse ? n - 1 - j : j;
                    if ((mask >> i) & 1) {
                        adders[i](d);
                        MC_CHECK(d.description(d.size() - 1, 0) == svs::name(types[i]), "datatype", d.description(d.size() - 1, 0));
                    }
                }
                for (auto t : all) {
                    bool there = false;
                    for (size_t i = 0; i < n; ++i) {
                        there |= ((mask >> i) & 1) && types[i] == t;
                    }
                    int got = -1;
                    mc::throws([&] { got = d.invoke(t); });
                    MC_CHECK(got == (there ? int(t) : -1) && d.has_match(t) == there, "datatype", svs::name(t), " with types ", mask, " went to ", got);
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
}

static int which(const svs::DistanceL2&) { return 0; }
static int which(const svs::DistanceIP&) { return 1; }
static int which(const svs::DistanceCosineSimilarity&) { return 2; }
template <typename D> void add_distance(Dispatcher<int, svs::DistanceType>& d, int) {
    d.register_target(lib::dispatcher_build_docs, [](D x) { return which(x); });
}
static void distances() {
    mc::run([] { return std::string("distances"); }, [&] {
        const svs::DistanceType all[] = {svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine};
        const std::string names[] = {"L2", "MIP", "Cosine"};
        for (int code = 0; code < 64; ++code) {
            Dispatcher<int, svs::DistanceType> d;
            std::set<int> there;
            for (int c : {code % 4, code / 4 % 4, code / 16}) {
                if (c == 3) {
                    continue;
                }
                there.insert(c);
                c == 0 ? add_distance<svs::DistanceL2>(d, c) : c == 1 ? add_distance<svs::DistanceIP>(d, c) : add_distance<svs::DistanceCosineSimilarity>(d, c);
                MC_CHECK(d.description(d.size() - 1, 0) == std::string(svs::name(all[c])), "distance", d.description(d.size() - 1, 0));
            }
            for (int t = 0; t < 3; ++t) {
                int got = -1;
                mc::throws([&] { got = d.invoke(all[t]); });
                MC_CHECK(got == (there.count(t) ? t : -1), "distance", names[t], " went to ", got);
                mc::transition();
            }
        }
        // The other way of turning the enumeration into a functor.
        for (int t = 0; t < 3; ++t) {
            svs::DistanceDispatcher dd(all[t]);
            int got = dd([](auto x) { return which(x); });
            MC_CHECK(got == t, "distance", "dispatcher of ", names[t], " gave ", got);
        }
        mc::trace();
    });
}

using U = svs::UnspecializedVectorDataLoader<svs::HugepageAllocator<std::byte>>;
template <typename T, size_t N> using L = svs::VectorDataLoader<T, N, svs::HugepageAllocator<T>>;
using LD = Dispatcher<int, U>;
template <typename T, size_t N, int Id> void add_loader(LD& d) {
    d.register_target(lib::dispatcher_build_docs, [](L<T, N> l) { return l.get_path() == "some/path" ? Id : -2; });
}
template <typename T, size_t N> void loader_static() {
    std::string want = N == svs::Dynamic ? mc::str("VectorDataLoader with element type ", svs::name(svs::datatype_v<T>), " and any dimension")
                                         : mc::str("VectorDataLoader with element type ", svs::name(svs::datatype_v<T>), " and ", N, " dimensions");
    auto got = lib::dispatch_description<U, L<T, N>>();
    MC_CHECK(got == want, "loader", got);
}
static void loaders() {
    struct Target {
        svs::DataType type;
        size_t dims;
        void (*add)(LD&);
    };
    constexpr auto D = svs::Dynamic;
    std::vector<Target> ts{
        {svs::DataType::float32, D, &add_loader<float, D, 0>}, {svs::DataType::float32, 4, &add_loader<float, 4, 1>},
        {svs::DataType::float16, D, &add_loader<svs::Float16, D, 2>}, {svs::DataType::float32, 0, &add_loader<float, 0, 3>},
        {svs::DataType::int8, 4, &add_loader<int8_t, 4, 4>}};
    mc::run([] { return std::string("loaders"); }, [&] {
        std::vector<std::vector<int>> regs{{}};
        for (size_t i = 0; i < regs.size() && regs[i].size() < 4; ++i) {
            for (int t = 0; t < int(ts.size()); ++t) {
                auto r = regs[i];
                r.push_back(t);
                regs.push_back(r);
            }
        }
        loader_static<float, D>();
        loader_static<float, 4>();
        loader_static<int8_t, 128>();
        for (auto& reg : regs) {
            LD d;
            for (int t : reg) {
                ts[t].add(d);
            }
            for (auto type : {svs::DataType::float32, svs::DataType::float16, svs::DataType::int8, svs::DataType::uint8, svs::DataType::undef}) {
                for (size_t dims : {size_t(0), size_t(3), size_t(4), size_t(5), D}) {
                    U u("some/path", type, dims);
                    int want = -1;
                    for (int pass = 0; pass < 2 && want < 0; ++pass) {
                        for (int t : reg) {
                            if (want < 0 && ts[t].type == type && (pass == 0 ? ts[t].dims == dims : ts[t].dims == D)) {
                                want = t;
                            }
                        }
                    }
                    int got = -1;
                    mc::throws([&] { got = d.invoke(u); });
                    MC_CHECK(got == want && d.has_match(u) == (want >= 0), "loader", svs::name(type), " with ", dims, " dimensions, registered ", mc::list(reg), ": ", got, " not ", want);
                    mc::transition();
                }
            }
        }
        // Direct refinement validates what it can.
        for (size_t dims : {size_t(0), size_t(4), size_t(5), D}) {
            U u("some/path", svs::DataType::float32, dims);
            MC_CHECK(!mc::throws([&] { (void)u.refine(lib::Type<float>()); }), "loader", "refine to any dimensions");
            MC_CHECK(mc::throws([&] { (void)u.refine(lib::Type<double>()); }), "loader", "refine to another type");
            MC_CHECK((mc::throws([&] { (void)u.refine(lib::Type<float>(), lib::Val<4>()); }) == (dims != 4 && dims != D)), "loader", "refine ", dims, " to four dimensions");
        }
        mc::trace();
    });
}

// Mixed: the shape used by the applications.
static void mixed() {
    mc::run([] { return std::string("loader, distance and extent together"); }, [&] {
        using D = Dispatcher<std::string, std::variant<U, Copied>, svs::DistanceType, lib::ExtentArg>;
        std::vector<void (*)(D&)> adders{
            [](D& d) { d.register_target([](L<float, svs::Dynamic>, svs::DistanceL2, lib::ExtentTag<svs::Dynamic>) { return std::string("f*-L2-*"); }); },
            [](D& d) { d.register_target([](L<float, 4>, svs::DistanceL2, lib::ExtentTag<svs::Dynamic>) { return std::string("f4-L2-*"); }); },
            [](D& d) { d.register_target([](L<float, svs::Dynamic>, svs::DistanceL2, lib::ExtentTag<4>) { return std::string("f*-L2-4"); }); },
            [](D& d) { d.register_target([](L<float, svs::Dynamic>, svs::DistanceIP, lib::ExtentTag<4>) { return std::string("f*-MIP-4"); }); },
            [](D& d) { d.register_target([](Copied, svs::DistanceIP, lib::ExtentTag<svs::Dynamic>) { return std::string("copied-MIP-*"); }); }};
        std::vector<int> order{0, 1, 2, 3, 4};
        do {
            for (size_t n = 0; n <= 5; ++n) {
                D d;
                std::set<int> there;
                for (size_t i = 0; i < n; ++i) {
                    adders[order[i]](d);
                    there.insert(order[i]);
                }
                for (int src = 0; src < 4; ++src) {
                    for (auto dist : {svs::DistanceType::L2, svs::DistanceType::MIP, svs::DistanceType::Cosine}) {
                        for (auto ext : {lib::ExtentArg(4, false), lib::ExtentArg(4, true), lib::ExtentArg(5, false), lib::ExtentArg()}) {
                            std::variant<U, Copied> a;
                            size_t dims = src == 0 ? 4 : src == 1 ? 5 : svs::Dynamic;
                            if (src == 3) {
                                a = Copied{1};
                            } else {
                                a = U("p", svs::DataType::float32, dims);
                            }
                            std::string want = "none";
                            bool l2 = dist == svs::DistanceType::L2, ip = dist == svs::DistanceType::MIP;
                            auto use = [&](int t, bool ok, const char* name) {
                                if (want == "none" && there.count(t) && ok) {
                                    want = name;
                                }
                            };
                            bool four = ext.value_ == 4, any = !(ext.force_ && four);
                            if (src == 3) {
                                use(4, ip && any, "copied-MIP-*");
                            } else {
                                use(1, l2 && dims == 4 && any, "f4-L2-*");
                                use(2, l2 && four, "f*-L2-4");
                                use(0, l2 && any, "f*-L2-*");
                                use(3, ip && four, "f*-MIP-4");
                            }
                            score[0][0] = 0;
                            std::string got = "none";
                            mc::throws([&] { got = d.invoke(a, dist, ext); });
                            MC_CHECK(got == want, "mixed", "source ", src, " distance ", svs::name(dist), " extent ", ext.value_, ext.force_ ? " forced" : "", ": ", got, " not ", want);
                            mc::transition();
                        }
                    }
                }
            }
            mc::trace();
        } while (std::next_permutation(order.begin(), order.end()));
    });
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    constexpr auto lo = std::numeric_limits<int64_t>::min(), hi = std::numeric_limits<int64_t>::max();
    const std::vector<int64_t> wide{lo, -1, 0, 1, 2, 10000, hi}, some{-1, 0, 1, 10000}, few{-1, 0, 1};
    tables<1, Arg, int>("moved values", wide, 4, 4, true);
    tables<1, Copied, void>("copied values", few, 3, 3, true);
    tables<2, Arg, int>("moved values", some, 3, 3, true);
    tables<2, Copied, long>("copied values", few, 4, 4, mc::thorough());
    tables<2, Arg, int>("extreme scores", {lo, -2, 0, hi - 1, hi}, 2, 2, true);
    tables<3, Copied, int>("copied values", few, 3, 3, true);
    tables<3, Copied, int>("wide scores", {-1, 0, 1, 2}, 2, 3, true);
    tables<3, Copied, int>("more scores", some, 3, 3, mc::thorough());
    tables<1, Arg, int>("wide scores", {lo, lo + 1, -10000, -2, -1, 0, 1, 2, 9999, 10000, 10001, hi - 1, hi}, 4, 4, mc::thorough());
    if (mc::thorough()) {
        tables<2, Arg, int>("moved values", some, 4, 4, false);
    }
    implicit();
    flags();
    variant_row<Var>("by value", std::make_integer_sequence<int, 49>());
    variant_row<const Var&>("by const reference", std::make_integer_sequence<int, 49>());
    variant_row<Var&>("by reference", std::make_integer_sequence<int, 49>());
    variant_row<Var&&>("by rvalue reference", std::make_integer_sequence<int, 49>());
    variant_identity();
    extents();
    types<uint8_t, uint16_t, uint32_t, uint64_t, int8_t, int16_t, int32_t, int64_t, svs::Float16, float, double>(
        {svs::DataType::uint8, svs::DataType::uint16, svs::DataType::uint32, svs::DataType::uint64, svs::DataType::int8, svs::DataType::int16, svs::DataType::int32, svs::DataType::int64, svs::DataType::float16, svs::DataType::float32, svs::DataType::float64, svs::DataType::byte, svs::DataType::undef});
    distances();
    loaders();
    mixed();
    return mc::finish();
}
