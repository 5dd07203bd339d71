// Stand-in for the parts of the EVE vector library (absent from this machine) that LVQ uses:
// every operation does lane by lane what EVE documents, and touches only the lanes selected.
#pragma once
#include <array>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <type_traits>

namespace eve {

template <typename T> struct as {
    using type = T;
};
template <int64_t N> struct fixed {
    static constexpr int64_t value = N;
};
template <typename T, typename C> struct wide;

// ---- conditions ----
struct ignore_none_ {
    template <typename V> constexpr const ignore_none_& else_(V) const { return *this; }
    constexpr bool keeps(int64_t) const { return true; }
};
inline constexpr ignore_none_ ignore_none{};

template <typename C, typename V> struct or_else {
    C condition;
    V value;
    constexpr bool keeps(int64_t i) const { return condition.keeps(i); }
};
struct keep_first {
    int64_t count_;
    template <std::integral I> constexpr explicit keep_first(I n) : count_(static_cast<int64_t>(n)) {}
    template <typename T> constexpr int64_t count(as<T>) const { return count_; }
    template <typename V> constexpr or_else<keep_first, V> else_(V v) const { return {*this, v}; }
    constexpr bool keeps(int64_t i) const { return i < count_; }
};
template <typename T, typename C> constexpr T other(const C&, T given) { return given; }
template <typename T, typename C, typename V> constexpr T other(const or_else<C, V>& c, T) { return static_cast<T>(c.value); }

// ---- lanes ----
template <typename T, int64_t N> struct wide<T, fixed<N>> {
    std::array<T, N> lane;
    using value_type = T;

    wide() : lane{} {}
    template <typename S>
        requires std::is_arithmetic_v<S>
    wide(S x) {
        lane.fill(static_cast<T>(x));
    }
    explicit wide(const T* p) { std::memcpy(lane.data(), p, N * sizeof(T)); }
    wide(const wide<T, fixed<N / 2>>& lo, const wide<T, fixed<N / 2>>& hi) {
        for (int64_t i = 0; i < N / 2; ++i) {
            lane[i] = lo.lane[i];
            lane[i + N / 2] = hi.lane[i];
        }
    }
    template <typename... S>
        requires(sizeof...(S) == N && (std::is_arithmetic_v<S> && ...))
    wide(S... x) : lane{static_cast<T>(x)...} {}

    T get(size_t i) const { return lane[i]; }
    template <typename F> static wide each(F&& f) {
        wide r;
        for (int64_t i = 0; i < N; ++i) {
            r.lane[i] = static_cast<T>(f(i));
        }
        return r;
    }

#define VERIF_OP(op)                                                                                                        \
    friend wide operator op(const wide& a, const wide& b) {                                                                 \
        return each([&](int64_t i) { return a.lane[i] op b.lane[i]; });                                                     \
    }                                                                                                                       \
    template <typename S>                                                                                                   \
        requires std::is_arithmetic_v<S>                                                                                    \
    friend wide operator op(const wide& a, S b) {                                                                           \
        return each([&](int64_t i) { return a.lane[i] op static_cast<T>(b); });                                             \
    }                                                                                                                       \
    template <typename S>                                                                                                   \
        requires std::is_arithmetic_v<S>                                                                                    \
    friend wide operator op(S a, const wide& b) {                                                                           \
        return each([&](int64_t i) { return static_cast<T>(a) op b.lane[i]; });                                             \
    }
    VERIF_OP(+)
    VERIF_OP(-)
    VERIF_OP(*)
    VERIF_OP(&)
    VERIF_OP(|)
#undef VERIF_OP
    friend wide operator>>(const wide& a, const wide& b) {
        return each([&](int64_t i) { return a.lane[i] >> b.lane[i]; });
    }
    friend wide operator<<(const wide& a, const wide& b) {
        using U = std::make_unsigned_t<T>;
        return each([&](int64_t i) { return static_cast<T>(static_cast<U>(a.lane[i]) << b.lane[i]); });
    }
    template <std::integral S> friend wide operator>>(const wide& a, S b) { return a >> wide(b); }
    template <std::integral S> friend wide operator<<(const wide& a, S b) { return a << wide(b); }
    template <typename S> wide& operator>>=(S b) { return *this = *this >> b; }
    template <typename S> wide& operator<<=(S b) { return *this = *this << b; }
    template <typename S> wide& operator+=(S b) { return *this = *this + b; }
    template <typename S> wide& operator-=(S b) { return *this = *this - b; }
    template <typename S> wide& operator*=(S b) { return *this = *this * b; }
    template <typename S> wide& operator&=(S b) { return *this = *this & b; }
    template <typename S> wide& operator|=(S b) { return *this = *this | b; }
};

template <typename T, int64_t N, typename U> wide<U, fixed<N>> convert(const wide<T, fixed<N>>& a, as<U>) {
    return wide<U, fixed<N>>::each([&](int64_t i) { return static_cast<U>(a.lane[i]); });
}

// ---- memory and arithmetic, whole or under a condition ----
struct load_ {
    template <typename C> struct when {
        C c;
        template <typename P, typename T, int64_t N> wide<T, fixed<N>> operator()(const P* p, as<wide<T, fixed<N>>>) const {
            static_assert(std::is_same_v<P, T>);
            wide<T, fixed<N>> r;
            for (int64_t i = 0; i < N; ++i) {
                if (c.keeps(i)) {
                    std::memcpy(&r.lane[i], p + i, sizeof(T));
                } else {
                    r.lane[i] = other<T>(c, T(0));
                }
            }
            return r;
        }
    };
    template <typename C> when<C> operator[](C c) const { return {c}; }
    template <typename P, typename T, int64_t N> wide<T, fixed<N>> operator()(const P* p, as<wide<T, fixed<N>>> t) const {
        return when<ignore_none_>{}(p, t);
    }
};
inline constexpr load_ load{};

struct store_ {
    template <typename C> struct when {
        C c;
        template <typename T, int64_t N, typename P> void operator()(const wide<T, fixed<N>>& w, P* p) const {
            static_assert(std::is_same_v<P, T>);
            for (int64_t i = 0; i < N; ++i) {
                if (c.keeps(i)) {
                    std::memcpy(p + i, &w.lane[i], sizeof(T));
                }
            }
        }
    };
    template <typename C> when<C> operator[](C c) const { return {c}; }
    template <typename T, int64_t N, typename P> void operator()(const wide<T, fixed<N>>& w, P* p) const { when<ignore_none_>{}(w, p); }
};
inline constexpr store_ store{};

struct add_ {
    template <typename C> struct when {
        C c;
        template <typename T, int64_t N, typename S> wide<T, fixed<N>> operator()(const wide<T, fixed<N>>& a, const S& b) const {
            auto sum = a + b;
            for (int64_t i = 0; i < N; ++i) {
                if (!c.keeps(i)) {
                    sum.lane[i] = other<T>(c, a.lane[i]);
                }
            }
            return sum;
        }
    };
    template <typename C> when<C> operator[](C c) const { return {c}; }
    template <typename A, typename B> auto operator()(const A& a, const B& b) const { return a + b; }
};
inline constexpr add_ add{};

struct plus_ {
    template <typename A, typename B> auto operator()(const A& a, const B& b) const { return a + b; }
};
inline constexpr plus_ plus{};

template <typename T, int64_t N, typename Op> T reduce(const wide<T, fixed<N>>& a, Op op) {
    // pairs, as a vector unit would
    std::array<T, N> x = a.lane;
    for (int64_t n = N / 2; n > 0; n /= 2) {
        for (int64_t i = 0; i < n; ++i) {
            x[i] = op(x[i], x[i + n]);
        }
    }
    return x[0];
}
template <typename T, int64_t N> T reduce(const wide<T, fixed<N>>& a) { return reduce(a, plus); }

namespace algo {
template <typename R, typename T> T reduce(R&& range, T init) {
    for (const auto& x : range) {
        init = init + x;
    }
    return init;
}
} // namespace algo
} // namespace eve
