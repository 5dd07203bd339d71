// C18: vector containers, arrays, views and compaction against plain vectors of rows.
#include "mc.h"
#include "kit.h"
#include "svs/core/compact.h"
#include "svs/core/data/simple.h"
#include "svs/core/data/view.h"
#include "svs/lib/array.h"

#include <optional>

using svs::Float16;
namespace data = svs::data;

// A team whose members run one after another, in either order.
struct Team {
    size_t n;
    bool backwards;
    size_t size() const { return n; }
    void run(svs::threads::FunctionRef f) {
        for (size_t i = 0; i < n; ++i) {
            f(backwards ? n - 1 - i : i);
        }
    }
};

// An allocator with identity that knows what it handed out.
struct Ledger {
    std::map<void*, std::pair<size_t, int>> live;
    std::string error;
    ~Ledger() {}
};
static Ledger& ledger() {
    static Ledger l;
    return l;
}
static bool& refuse_allocation() {
    static bool b = false;
    return b;
}
template <typename T, bool Move, bool Copy, bool Swap> struct Tracked {
    using value_type = T;
    using propagate_on_container_move_assignment = std::bool_constant<Move>;
    using propagate_on_container_copy_assignment = std::bool_constant<Copy>;
    using propagate_on_container_swap = std::bool_constant<Swap>;
    using is_always_equal = std::false_type;
    template <typename U> struct rebind {
        using other = Tracked<U, Move, Copy, Swap>;
    };
    int home = 0;
    Tracked() = default;
    explicit Tracked(int h)
        : home(h) {}
    template <typename U>
    Tracked(const Tracked<U, Move, Copy, Swap>& o)
        : home(o.home) {}
    T* allocate(size_t n) {
        if (refuse_allocation()) {
            throw std::bad_alloc();
        }
        T* p = static_cast<T*>(::operator new(std::max<size_t>(1, n * sizeof(T))));
        std::memset(static_cast<void*>(p), 0xA5, n * sizeof(T));
        ledger().live[p] = {n, home};
        return p;
    }
    void deallocate(T* p, size_t n) noexcept {
        auto it = ledger().live.find(p);
        if (it == ledger().live.end()) {
            ledger().error = "memory returned that is not live";
            return;
        }
        if (it->second.first != n) {
            ledger().error = mc::str("block of ", it->second.first, " elements returned as ", n);
        }
        if (it->second.second != home) {
            ledger().error = mc::str("memory of allocator ", it->second.second, " returned to allocator ", home);
        }
        ledger().live.erase(it);
        ::operator delete(p);
    }
    friend bool operator==(const Tracked& a, const Tracked& b) { return a.home == b.home; }
};
static void settled(const std::string& where) {
    std::string e = std::exchange(ledger().error, "");
    size_t left = ledger().live.size();
    ledger().live.clear();
    MC_CHECK(e.empty(), "memory", where, ": ", e);
    MC_CHECK(left == 0, "memory", where, ": ", left, " blocks never returned");
}

// ---- the container against a list of optional rows ---------------------------------------------

using Value = int;
using RowOf = std::optional<std::vector<Value>>; // nothing: never written

template <typename T> T as(Value v) { return T(float(v)); }

template <typename Data> void compare(const Data& d, const std::vector<RowOf>& rows, size_t dims, const std::string& where) {
    MC_CHECK(d.size() == rows.size(), "size", where, ": size ", d.size(), " instead of ", rows.size());
    MC_CHECK(d.dimensions() == dims, "dims", where, ": dimensions ", d.dimensions(), " instead of ", dims);
    MC_CHECK(d.capacity() >= d.size(), "capacity", where, ": capacity ", d.capacity(), " below size ", d.size());
    auto each = d.eachindex();
    MC_CHECK(each.size() == rows.size() && (rows.empty() || (each.front() == 0 && each.back() == rows.size() - 1)), "indices", where, ": eachindex");
    for (size_t i = 0; i < rows.size(); ++i) {
        auto x = d.get_datum(i);
        MC_CHECK(x.size() == dims, "dims", where, ": row ", i, " has ", x.size(), " coordinates");
        d.prefetch(i);
        if (rows[i]) {
            for (size_t j = 0; j < dims; ++j) {
                MC_CHECK(x[j] == as<typename Data::element_type>((*rows[i])[j]), "content", where, ": coordinate ", j, " of vector ", i, " is ", float(x[j]), " instead of ", (*rows[i])[j]);
            }
        }
    }
    mc::evaluation();
}

struct Op {
    enum Kind { Set, Resize, Shrink, Compact, Copy, Overwrite } kind;
    size_t a = 0;                  // position or size
    std::vector<uint64_t> list{};  // compaction
    size_t batch = 0, threads = 1; // compaction
    std::string show() const {
        switch (kind) {
        case Set:
            return mc::str("set ", a);
        case Resize:
            return mc::str("resize ", a);
        case Shrink:
            return "shrink";
        case Compact:
            return mc::str("compact ", mc::list(list), "/", batch, "x", threads);
        case Copy:
            return "copy";
        default:
            return "rewrite";
        }
    }
};

template <typename Data> struct Subject;
template <typename T, size_t E, typename A> struct Subject<data::SimpleData<T, E, A>> {
    using Data = data::SimpleData<T, E, A>;
    static Data make(size_t n, size_t dims, size_t) { return Data(n, dims, A()); }
    static void copy(Data& d) {
        Data other(d);           // independent copies
        Data third(d.size() + 1, d.dimensions());
        third = other;
        if (d.size()) {
            std::vector<T> junk(d.dimensions(), as<T>(99));
            d.set_datum(0, std::span<const T>(junk));
        }
        Data moved(std::move(third));
        d = std::move(moved);
    }
    static std::string more(const Data& d, const std::string& where) {
        MC_CHECK(d.get_array().data() == d.data(), "layout", where, ": base pointer");
        for (size_t i = 0; i < d.size(); ++i) {
            MC_CHECK(d.get_datum(i).data() == d.data() + i * d.dimensions(), "layout", where, ": vector ", i, " is not contiguous with the others");
        }
        auto v = d.view();
        auto c = d.cview();
        MC_CHECK(v.size() == d.size() && c.size() == d.size(), "view", where, ": size of a view");
        for (size_t i = 0; i < d.size(); ++i) {
            MC_CHECK(v.get_datum(i).data() == d.get_datum(i).data() && c.get_datum(i).data() == d.get_datum(i).data(), "view", where, ": view of vector ", i);
        }
        auto any = svs::AnonymousArray<2>(d);
        MC_CHECK(any.size(0) == d.size() && any.size(1) == d.dimensions() && svs::get<T>(any) == d.data(), "view", where, ": untyped view");
        auto back = data::ConstSimpleDataView<T, E>(any);
        MC_CHECK(back.size() == d.size() && back == d, "view", where, ": view through an untyped view");
        return {};
    }
};
template <typename T, size_t E, typename A> struct Subject<data::SimpleData<T, E, data::Blocked<A>>> {
    using Data = data::SimpleData<T, E, data::Blocked<A>>;
    static Data make(size_t n, size_t dims, size_t per_block) {
        size_t bytes = per_block * dims * sizeof(T), lg = 0;
        while ((size_t(1) << lg) < bytes) {
            ++lg;
        }
        return Data(n, dims, data::Blocked<A>(data::BlockingParameters{.blocksize_bytes = svs::lib::PowerOfTwo(lg)}));
    }
    static void copy(Data& d) {
        Data other = d.copy();
        if (d.size()) {
            std::vector<T> junk(d.dimensions(), as<T>(99));
            d.set_datum(0, std::span<const T>(junk));
        }
        Data third(1, d.dimensions(), d.get_allocator());
        third = std::move(other);
        d = std::move(third);
    }
    static std::string more(const Data& d, const std::string& where) {
        size_t b = d.blocksize().value();
        MC_CHECK(b == 1 || b * d.dimensions() * sizeof(T) <= d.blocksize_bytes().value(), "layout", where, ": a block of ", b, " vectors exceeds ", d.blocksize_bytes().value(), " bytes");
        MC_CHECK(d.capacity() == d.num_blocks() * b, "layout", where, ": capacity ", d.capacity(), " with ", d.num_blocks(), " blocks of ", b);
        for (size_t i = 0; i < d.size(); ++i) {
            auto [x, y] = d.resolve(i);
            MC_CHECK(x == i / b && y == i % b, "layout", where, ": place of ", i);
        }
        for (size_t big : {size_t(1) << 31, (size_t(1) << 32) + 5, (size_t(1) << 40) + 77}) {
            auto [x, y] = d.resolve(big);
            MC_CHECK(x == big / b && y == big % b, "layout", where, ": place of ", big);
        }
        return {};
    }
};

static std::vector<Op> alphabet(size_t n, bool small) {
    std::vector<Op> ops;
    for (size_t i = 0; i < n; ++i) {
        if (!small || i == 0 || i + 1 == n) {
            ops.push_back({Op::Set, i});
        }
    }
    for (size_t s : {0, 1, 2, 3, 4, 5, 8, 9}) {
        if (s != n && (!small || s != 3)) {
            ops.push_back({Op::Resize, s});
        }
    }
    ops.push_back({Op::Shrink});
    ops.push_back({Op::Copy});
    if (n > 0) {
        std::vector<std::vector<uint64_t>> lists;
        for (size_t m = 0; m < (size_t(1) << std::min<size_t>(n, 5)); ++m) {
            std::vector<uint64_t> l;
            for (size_t i = 0; i < 5; ++i) {
                if (m >> i & 1) {
                    l.push_back(n > 5 && i == 4 ? n - 1 : i);
                }
            }
            lists.push_back(l);
        }
        if (small) {
            for (auto& l : std::vector<std::vector<uint64_t>>{{n - 1}, {}, {1, 2}, {0, 2, 3}, {1, 3, 4, 7}}) {
                if (l.empty() || l.back() < n) {
                    ops.push_back({Op::Compact, 0, l, 2, 2});
                }
            }
        } else {
            for (auto& l : lists) {
                for (size_t batch : {1, 2, 3, 1000000}) {
                    for (size_t t : {1, 2, 3}) {
                        ops.push_back({Op::Compact, 0, l, batch, t});
                    }
                }
            }
        }
    }
    return ops;
}

template <typename Data> void apply(Data& d, std::vector<RowOf>& rows, size_t dims, const Op& op, int stamp, const std::string& where) {
    using T = typename Data::element_type;
    auto fresh = [&](size_t i) {
        std::vector<Value> v(dims);
        for (size_t j = 0; j < dims; ++j) {
            v[j] = (stamp * 37 + int(i) * 11 + int(j) * 3) % 100;
        }
        return v;
    };
    switch (op.kind) {
    case Op::Set: {
        auto v = fresh(op.a);
        std::vector<T> w;
        for (auto x : v) {
            w.push_back(as<T>(x));
        }
        if (stamp % 2) {
            d.set_datum(op.a, std::span<const T>(w));
        } else {
            d.set_datum(op.a, w);
        }
        rows[op.a] = v;
        // refused, and nothing changes
        if (stamp % 4 != 2) {
            break;
        }
        std::vector<T> longer(dims + 1, as<T>(77)), shorter(dims - 1, as<T>(77));
        MC_CHECK(mc::throws([&] { d.set_datum(op.a, longer); }), "dims-unchecked", where, ": a vector of ", dims + 1, " coordinates was accepted");
        MC_CHECK(mc::throws([&] { d.set_datum(op.a, shorter); }), "dims-unchecked", where, ": a vector of ", dims - 1, " coordinates was accepted");
        break;
    }
    case Op::Resize:
        d.resize(op.a);
        rows.resize(op.a);
        break;
    case Op::Shrink:
        d.shrink_to_fit();
        break;
    case Op::Copy:
        Subject<Data>::copy(d);
        break;
    case Op::Compact: {
        Team team{op.threads, stamp % 2 == 0};
        auto before = rows;
        d.compact(std::span<const uint64_t>(op.list), team, op.batch);
        for (size_t i = 0; i < op.list.size(); ++i) {
            rows[i] = before[op.list[i]];
        }
        break;
    }
    case Op::Overwrite:
        break;
    }
}

template <typename Data> void histories(const std::string& label, size_t dims, size_t per_block, size_t depth) {
    for (size_t n0 : {0, 1, 3, 4, 5, 8}) {
        if (!mc::thorough() && depth == 3 && n0 % 4 != 0) {
            continue;
        }
        std::function<void(std::vector<Op>&, size_t)> grow = [&](std::vector<Op>& h, size_t n) {
            bool last = h.size() + 1 >= depth;
            for (auto& op : alphabet(n, !last)) {
                h.push_back(op);
                size_t m = op.kind == Op::Resize ? op.a : n;
                if (last) {
                    mc::run(
                        [&] {
                            std::string s = mc::str(label, " dims ", dims, " block ", per_block, " size ", n0, ":");
                            for (auto& o : h) {
                                s += " " + o.show() + ";";
                            }
                            return s;
                        },
                        [&] {
                            {
                                auto d = Subject<Data>::make(n0, dims, per_block);
                                std::vector<RowOf> rows(n0);
                                int stamp = 1;
                                for (size_t i = 0; i < n0; ++i) {
                                    apply(d, rows, dims, Op{Op::Set, i}, int(i) + 50, "filling");
                                }
                                std::string done;
                                for (auto& o : h) {
                                    done += " " + o.show() + ";";
                                    apply(d, rows, dims, o, ++stamp, mc::str("size ", n0, ", then", done));
                                    auto where = mc::str(label, " with dimension ", dims, ", size ", n0, ", then", done);
                                    compare(d, rows, dims, where);
                                    Subject<Data>::more(d, where);
                                    mc::transition();
                                }
                                mc::state(mc::hash(mc::str(label, dims, per_block, d.size(), d.capacity(), [&] {
                                    std::string s;
                                    for (auto& r : rows) {
                                        s += r ? mc::list(*r) : "?";
                                    }
                                    return s;
                                }())));
                                // every place can be written and read back, old content is not disturbed
                                for (size_t i = 0; i < rows.size(); ++i) {
                                    apply(d, rows, dims, Op{Op::Set, i}, ++stamp, "rewriting");
                                    compare(d, rows, dims, mc::str(label, " after", done, " rewrite of ", i));
                                }
                            }
                            settled(label);
                            mc::trace();
                        }
                    );
                } else {
                    grow(h, m);
                }
                h.pop_back();
            }
        };
        std::vector<Op> h;
        grow(h, n0);
    }
}

// ---- compaction of longer lists ----------------------------------------------------------------

template <typename Data> void compactions(const std::string& label, size_t dims, size_t per_block) {
    size_t top = mc::thorough() ? 10 : 8;
    for (size_t n = 1; n <= top; ++n) {
        mc::run([&] { return mc::str(label, " dims ", dims, " block ", per_block, ": every compaction of ", n); }, [&] {
            for (size_t m = 0; m < (size_t(1) << n); ++m) {
                std::vector<uint64_t> l;
                for (size_t i = 0; i < n; ++i) {
                    if (m >> i & 1) {
                        l.push_back(i);
                    }
                }
                for (size_t batch = 1; batch <= n + 1; ++batch) {
                    for (size_t t = 1; t <= 3; ++t) {
                        auto d = Subject<Data>::make(n, dims, per_block);
                        std::vector<RowOf> rows(n);
                        for (size_t i = 0; i < n; ++i) {
                            apply(d, rows, dims, Op{Op::Set, i}, int(i) + 1, "filling");
                        }
                        Op op{Op::Compact, 0, l, batch, t};
                        apply(d, rows, dims, op, int(m + t), "compacting");
                        compare(d, rows, dims, mc::str(label, " of ", n, " vectors: ", op.show()));
                        mc::state(mc::hash(mc::str(label, dims, per_block, n, op.show())));
                        mc::transition();
                    }
                }
            }
            settled(label);
            mc::trace();
        });
    }
}

// ---- views over lists of positions -------------------------------------------------------------

template <typename Data> void views(const std::string& label, size_t per_block) {
    size_t dims = 3;
    for (size_t n = 0; n <= 4; ++n) {
        mc::run([&] { return mc::str(label, " views of ", n); }, [&] {
            auto fresh = [&] {
                auto d = Subject<Data>::make(n, dims, per_block);
                std::vector<RowOf> rows(n);
                for (size_t i = 0; i < n; ++i) {
                    apply(d, rows, dims, Op{Op::Set, i}, int(i) + 1, "filling");
                }
                return std::pair(std::move(d), rows);
            };
            using T = typename Data::element_type;
            std::function<void(std::vector<int64_t>&)> each = [&](std::vector<int64_t>& l) {
                auto [d, rows] = fresh();
                bool fine = std::all_of(l.begin(), l.end(), [&](int64_t x) { return x >= 0 && size_t(x) < n; });
                auto where = mc::str(label, " of ", n, " viewed at ", mc::list(l));
                if (!fine) {
                    MC_CHECK(mc::throws([&] { (void)data::make_view(d, l); }), "view-range", where, " was accepted");
                    MC_CHECK(mc::throws([&] { (void)data::make_const_view(d, l); }), "view-range", where, " was accepted");
                    std::vector<uint32_t> u(l.begin(), l.end());
                    MC_CHECK(mc::throws([&] { (void)data::make_const_view(d, u); }), "view-range", where, " (unsigned) was accepted");
                } else {
                    auto v = data::make_view(d, l);
                    auto c = data::make_const_view(d, l);
                    MC_CHECK(v.size() == l.size() && c.size() == l.size() && v.dimensions() == dims && v.eachindex().size() == l.size(), "view", where, ": shape");
                    for (size_t i = 0; i < l.size(); ++i) {
                        MC_CHECK(v.get_datum(i).data() == d.get_datum(l[i]).data() && c.get_datum(i).data() == d.get_datum(l[i]).data(), "view", where, ": element ", i);
                        MC_CHECK(v.parent_id(i) == size_t(l[i]), "view", where, ": parent of ", i);
                        c.prefetch(i);
                        std::vector<T> w(dims, as<T>(int(60 + i)));
                        v.set_datum(i, w);
                        rows[l[i]] = std::vector<Value>(dims, int(60 + i));
                        compare(d, rows, dims, where + mc::str(" after writing through element ", i));
                    }
                    for (size_t a = 0; a <= l.size(); ++a) { // views of views
                        for (size_t b = a + 1; b <= l.size(); ++b) {
                            auto vv = data::make_const_view(c, svs::threads::UnitRange<size_t>(a, b));
                            for (size_t i = 0; i < b - a; ++i) {
                                MC_CHECK(vv.get_datum(i).data() == d.get_datum(l[a + i]).data(), "view", where, ": range [", a, ",", b, ") of the view, element ", i);
                            }
                        }
                    }
                }
                mc::state(mc::hash(where));
                mc::transition();
                if (l.size() < 3) {
                    for (int64_t x = -1; x <= int64_t(n); ++x) {
                        l.push_back(x);
                        each(l);
                        l.pop_back();
                    }
                }
            };
            std::vector<int64_t> l;
            each(l);
            auto [d, rows] = fresh();
            for (int64_t a = -1; a <= int64_t(n); ++a) {
                for (int64_t b = a + 1; b <= int64_t(n) + 2; ++b) {
                    bool fine = a >= 0 && b <= int64_t(n);
                    svs::threads::UnitRange<int64_t> r(a, b);
                    bool refused = mc::throws([&] {
                        auto v = data::make_view(d, r);
                        for (size_t i = 0; i < v.size(); ++i) {
                            MC_CHECK(v.get_datum(i).data() == d.get_datum(a + i).data(), "view", label, " range [", a, ",", b, ") element ", i);
                        }
                        MC_CHECK(v.size() == size_t(b - a), "view", label, " range [", a, ",", b, ") has size ", v.size());
                    });
                    MC_CHECK(refused == !fine, "view-range", label, " of ", n, " viewed at [", a, ",", b, ") was ", refused ? "refused" : "accepted");
                }
            }
            mc::trace();
        });
    }
}

template <typename Data> void empty_rows_of(const char* label) {
    for (size_t n : {0, 1, 2, 5, 9}) {
        mc::run([&] { return mc::str(label, " ", n, " rows without elements"); }, [&] {
            auto d = Subject<Data>::make(n, 0, 1);
            MC_CHECK(d.size() == n && d.dimensions() == 0, "empty-rows", label, ": ", d.size(), " x ", d.dimensions());
            for (size_t i = 0; i < n; ++i) {
                d.set_datum(i, std::vector<float>{});
                MC_CHECK(d.get_datum(i).size() == 0, "empty-rows", label, ": row ", i);
                MC_CHECK(mc::throws([&] { d.set_datum(i, std::vector<float>{1.0f}); }), "empty-rows", label, ": wrote an element to row ", i);
            }
            for (size_t m : {3, 0, 7}) {
                d.resize(m);
                MC_CHECK(d.size() == m, "empty-rows", label, ": resized to ", m, " but has ", d.size());
            }
            mc::transition(n + 3);
            mc::trace();
        });
    }
}
static void empty_rows() {
    empty_rows_of<data::SimpleData<float>>("plain");
    empty_rows_of<data::BlockedData<float>>("blocked");
    // A fixed dimension cannot be given another value.
    for (size_t n : {0, 1, 3}) {
        for (size_t dims : {0, 1, 2, 3, 4, 6}) {
            mc::run([&] { return mc::str("fixed dimension 3 created for ", n, "x", dims); }, [&] {
                bool plain = mc::throws([&] { data::SimpleData<float, 3> d(n, dims); });
                bool blocked = mc::throws([&] { data::BlockedData<float, 3> d(n, dims); });
                MC_CHECK(plain == (dims != 3) && blocked == (dims != 3), "fixed", "3 fixed dimensions created for ", n, "x", dims, ": plain ", plain ? "refused" : "accepted", ", blocked ", blocked ? "refused" : "accepted");
                mc::trace();
            });
        }
    }
}

// ---- comparisons and conversions ----------------------------------------------------------------

static void equality() {
    // all contents of few cells, over every pair of layouts
    for (size_t n = 0; n <= 3; ++n) {
        for (size_t dims = 1; dims <= 2; ++dims) {
            mc::run([&] { return mc::str("equality of ", n, " x ", dims); }, [&] {
                size_t cells = n * dims;
                for (size_t m = 0; m < (size_t(1) << cells); ++m) {
                    for (size_t k = 0; k < (size_t(1) << cells); ++k) {
                        data::SimpleData<float> a(n, dims);
                        data::SimpleData<int8_t> b(n, dims);
                        auto c = Subject<data::BlockedData<float>>::make(n, dims, 2);
                        for (size_t i = 0; i < n; ++i) {
                            std::vector<float> x;
                            std::vector<float> y;
                            for (size_t j = 0; j < dims; ++j) {
                                x.push_back(float(m >> (i * dims + j) & 1));
                                y.push_back(float(k >> (i * dims + j) & 1));
                            }
                            a.set_datum(i, x);
                            b.set_datum(i, y); // narrowing of representable values
                            c.set_datum(i, y);
                        }
                        MC_CHECK((a == b) == (m == k) && (b == a) == (m == k) && (a == c) == (m == k) && (c == a) == (m == k), "equality", n, "x", dims, " with bits ", m, " and ", k);
                        mc::transition();
                    }
                }
                data::SimpleData<float> a(n, dims), b(n + 1, dims), c(n, dims + 1);
                MC_CHECK(!(a == b) && !(b == a), "equality", "sizes ", n, " and ", n + 1);
                MC_CHECK(!(a == c) && !(c == a), "equality", "dimensions ", dims, " and ", dims + 1);
                mc::trace();
            });
        }
    }
    mc::run([] { return std::string("conversions on writing"); }, [] {
        data::SimpleData<int8_t> a(1, 1);
        data::SimpleData<uint8_t> b(1, 1);
        data::SimpleData<Float16> h(1, 1);
        auto blocked = Subject<data::BlockedData<int8_t>>::make(1, 1, 2);
        for (int v = -400; v <= 400; ++v) {
            for (float part : {0.0f, 0.5f}) {
                float x = float(v) + part;
                std::vector<float> w{x};
                auto attempt = [&](auto& d, double lo, double hi) {
                    d.set_datum(0, std::vector<float>{1.0f});
                    bool fits = part == 0 && x >= lo && x <= hi;
                    bool refused = mc::throws([&] { d.set_datum(0, w); });
                    MC_CHECK(refused == !fits, "narrowing", "writing ", x, " into [", lo, ",", hi, "] was ", refused ? "refused" : "accepted");
                    MC_CHECK(float(d.get_datum(0)[0]) == (fits ? x : 1.0f), "narrowing", "writing ", x, " left ", float(d.get_datum(0)[0]));
                };
                attempt(a, -128, 127);
                attempt(blocked, -128, 127);
                attempt(b, 0, 255);
                h.set_datum(0, w);
                MC_CHECK(float(h.get_datum(0)[0]) == x, "narrowing", "writing ", x, " to half precision left ", float(h.get_datum(0)[0]));
                mc::transition();
            }
        }
        mc::trace();
    });
}

// ---- arrays of any rank ------------------------------------------------------------------------

template <typename Dims, size_t... I> void rank(const Dims& dims, std::vector<size_t> shape, std::index_sequence<I...>) {
    constexpr size_t R = sizeof...(I);
    size_t total = 1;
    for (auto s : shape) {
        total *= s;
    }
    svs::DenseArray<int, Dims> a(dims);
    auto where = mc::str("array of shape ", mc::list(shape));
    MC_CHECK(a.size() == total && a.bytes() == total * sizeof(int) && a.ndims() == R, "array", where, ": size ", a.size());
    MC_CHECK(a.dims() == (std::array<size_t, R>{shape[I]...}), "array", where, ": dims");
    auto strides = a.strides();
    for (size_t k = 0; k < total; ++k) {
        *(a.data() + k) = int(k) + 1000;
    }
    std::vector<size_t> ix(R, 0);
    for (size_t k = 0; k < total; ++k) {
        size_t rest = k, dot = 0;
        for (size_t r = R; r-- > 0;) {
            ix[r] = rest % shape[r];
            rest /= shape[r];
        }
        for (size_t r = 0; r < R; ++r) {
            dot += ix[r] * strides[r];
        }
        MC_CHECK(dot == k, "array", where, ": strides give ", dot, " for ", mc::list(ix));
        MC_CHECK(a.offset(ix[I]...) == k, "array", where, ": offset of ", mc::list(ix), " is ", a.offset(ix[I]...));
        MC_CHECK(a.at(ix[I]...) == int(k) + 1000, "array", where, ": element ", mc::list(ix));
        MC_CHECK(a.view().at(int(ix[I])...) == int(k) + 1000 && a.cview().at(uint32_t(ix[I])...) == int(k) + 1000, "array", where, ": view element ", mc::list(ix));
        a.at(ix[I]...) = -5;
        MC_CHECK(a.data()[k] == -5, "array", where, ": write to ", mc::list(ix));
        a.data()[k] = int(k) + 1000;
        if (ix[R - 1] == 0) {
            auto check = [&](auto s) {
                MC_CHECK(s.size() == shape[R - 1], "array", where, ": slice size");
                for (size_t j = 0; j < s.size(); ++j) {
                    MC_CHECK(s[j] == int(k + j) + 1000, "array", where, ": slice ", mc::list(ix), " place ", j);
                }
            };
            [&]<size_t... J>(std::index_sequence<J...>) {
                check(a.slice(ix[J]...));
                check(std::as_const(a).slice(ix[J]...));
                check(a.cview().slice(ix[J]...));
            }(std::make_index_sequence<R - 1>());
        }
        mc::transition();
    }
    if (total) {
        MC_CHECK(a.first() == 1000 && a.last() == int(total) + 999, "array", where, ": first and last");
    }
    auto b = a;
    MC_CHECK(b.data() != a.data() && std::equal(a.begin(), a.end(), b.begin(), b.end()), "array", where, ": copy");
    mc::state(mc::hash(where + mc::str(typeid(Dims).name())));
}

static void arrays() {
    using svs::make_dims;
    using svs::lib::Val;
    for (size_t a = 0; a <= 4; ++a) {
        mc::run([&] { return mc::str("arrays with first length ", a); }, [&] {
            rank(make_dims(a), {a}, std::make_index_sequence<1>());
            for (size_t b = 1; b <= 4; ++b) {
                rank(make_dims(a, b), {a, b}, std::make_index_sequence<2>());
                rank(make_dims(a, Val<3>()), {a, 3}, std::make_index_sequence<2>());
                rank(make_dims(Val<2>(), b), {2, b}, std::make_index_sequence<2>());
                for (size_t c = 1; c <= 4; ++c) {
                    rank(make_dims(a, b, c), {a, b, c}, std::make_index_sequence<3>());
                    rank(make_dims(a, Val<3>(), c), {a, 3, c}, std::make_index_sequence<3>());
                    rank(make_dims(a, b, Val<2>()), {a, b, 2}, std::make_index_sequence<3>());
                    rank(make_dims(a, b, Val<3>(), c), {a, b, 3, c}, std::make_index_sequence<4>());
                }
            }
            mc::trace();
        });
    }
    mc::run([] { return std::string("addresses beyond 4 GiB"); }, [] {
        // no memory is touched: only where a vector would lie
        char* base = reinterpret_cast<char*>(size_t(1) << 44);
        for (size_t dims : {size_t(16), size_t(96), size_t(1000)}) {
            for (size_t n : {size_t(1) << 33, size_t(5000000000)}) {
                data::ConstSimpleDataView<float> v(reinterpret_cast<const float*>(base), n, dims);
                for (size_t i : {size_t(0), size_t(1) << 26, size_t(1) << 30, (size_t(1) << 31) + 1, (size_t(1) << 32) + 3, n - 1}) {
                    auto where = reinterpret_cast<const char*>(v.get_datum(i).data());
                    MC_CHECK(size_t(where - base) == i * dims * 4, "address", "vector ", i, " of ", dims, " coordinates lies at ", size_t(where - base));
                    mc::transition();
                }
            }
        }
        mc::trace();
    });
}

// Copying, moving, assigning and swapping arrays of every pair of sizes and allocators.
template <bool Move, bool Copy, bool Swap> void assignments() {
    using A = Tracked<int, Move, Copy, Swap>;
    using Array = svs::DenseArray<int, std::tuple<size_t, size_t>, A>;
    for (size_t n = 0; n <= 2; ++n) {
        for (size_t m = 0; m <= 2; ++m) {
            for (int other_home = 1; other_home <= 2; ++other_home) {
                for (int what = 0; what < 7; ++what) {
                    mc::run([&] { return mc::str("assign ", n, " from ", m, " homes 1,", other_home, " operation ", what, " propagate ", Move, Copy, Swap); }, [&] {
                        {
                            Array a(std::tuple<size_t, size_t>(n, 2), A(1));
                            Array b(std::tuple<size_t, size_t>(m, 3), A(other_home));
                            auto fill = [](Array& x, int base) {
                                for (size_t i = 0; i < x.size(); ++i) {
                                    x.data()[i] = base + int(i);
                                }
                            };
                            auto is = [&](const Array& x, size_t rows, size_t cols, int base, const char* which) {
                                MC_CHECK(x.dims() == (std::array<size_t, 2>{rows, cols}), "assign", which, " has dims ", mc::list(x.dims()));
                                for (size_t i = 0; i < rows * cols; ++i) {
                                    MC_CHECK(x.data()[i] == base + int(i), "assign", which, " element ", i, " is ", x.data()[i], " instead of ", base + int(i));
                                }
                            };
                            fill(a, 100);
                            fill(b, 200);
                            switch (what) {
                            case 0: {
                                a = b;
                                is(a, m, 3, 200, "target");
                                fill(a, 300);
                                is(b, m, 3, 200, "source");
                                break;
                            }
                            case 1: {
                                a = std::move(b);
                                is(a, m, 3, 200, "target");
                                break;
                            }
                            case 2: {
                                Array c(b);
                                is(c, m, 3, 200, "copy");
                                fill(c, 300);
                                is(b, m, 3, 200, "source");
                                a = c;
                                is(a, m, 3, 300, "target");
                                break;
                            }
                            case 3: {
                                Array c(std::move(b));
                                is(c, m, 3, 200, "moved");
                                b = a; // a moved-from array can be assigned
                                is(b, n, 2, 100, "reused");
                                a = std::move(c);
                                is(a, m, 3, 200, "target");
                                is(b, n, 2, 100, "reused");
                                break;
                            }
                            case 4: {
                                if (!Swap && other_home != 1) {
                                    break; // not allowed for containers
                                }
                                a.swap(b);
                                is(a, m, 3, 200, "first");
                                is(b, n, 2, 100, "second");
                                using std::swap;
                                swap(a, b);
                                is(b, m, 3, 200, "second");
                                is(a, n, 2, 100, "first");
                                break;
                            }
                            case 5: {
                                auto& alias = a;
                                a = alias;
                                is(a, n, 2, 100, "self");
                                break;
                            }
                            default: {
                                Array c;
                                c = b;
                                is(c, m, 3, 200, "from nothing");
                                c = Array(std::tuple<size_t, size_t>(1, 1), A(2));
                                fill(c, 7);
                                is(c, 1, 1, 7, "replaced");
                                break;
                            }
                            }
                            mc::transition();
                        }
                        settled(mc::str("assignment of ", m, " rows over ", n, " rows"));
                        mc::state(mc::hash(mc::str(n, m, other_home, what, Move, Copy, Swap)));
                        mc::trace();
                    });
                }
            }
        }
    }
}

// Running out of memory while growing leaves the old content in place.
static void exhausted() {
    using A = Tracked<float, true, true, true>;
    for (size_t n = 1; n <= 3; ++n) {
        mc::run([&] { return mc::str("growing without memory from ", n); }, [&] {
            {
                auto d = Subject<data::SimpleData<float, svs::Dynamic, A>>::make(n, 2, 0);
                auto b = Subject<data::SimpleData<float, svs::Dynamic, data::Blocked<A>>>::make(n, 2, 2);
                std::vector<RowOf> rows(n), rows2(n);
                for (size_t i = 0; i < n; ++i) {
                    apply(d, rows, 2, Op{Op::Set, i}, int(i), "filling");
                    apply(b, rows2, 2, Op{Op::Set, i}, int(i), "filling");
                }
                for (size_t m = n + 1; m < 9; ++m) {
                    if (m > b.capacity()) {
                        refuse_allocation() = true;
                        bool threw = mc::throws([&] { b.resize(m); });
                        refuse_allocation() = false;
                        MC_CHECK(threw, "memory", "no failure");
                        compare(b, rows2, 2, mc::str("blocked container of ", n, " after a failed resize to ", m));
                    }
                    refuse_allocation() = true;
                    bool threw = mc::throws([&] { d.resize(m); });
                    refuse_allocation() = false;
                    MC_CHECK(threw, "memory", "no failure");
                    compare(d, rows, 2, mc::str("container of ", n, " after a failed resize to ", m));
                    mc::transition(2);
                }
            }
            settled("growing without memory");
            mc::trace();
        });
    }
}

static void body() {
    size_t depth = mc::thorough() ? 4 : 3;
    using TA = Tracked<float, true, true, true>;
    using TB = Tracked<float, false, false, false>;
    histories<data::SimpleData<float>>("plain", 2, 0, depth);
    histories<data::SimpleData<float, svs::Dynamic, TA>>("tracked", 3, 0, 2);
    histories<data::SimpleData<float, svs::Dynamic, TB>>("tracked, fixed allocator", 3, 0, 2);
    histories<data::SimpleData<Float16, 3>>("plain f16 of fixed dimension", 3, 0, 2);
    histories<data::SimpleData<uint8_t, 5>>("plain u8 of fixed dimension", 5, 0, 2);
    histories<data::BlockedData<float>>("blocked", 2, 1, depth - 1);
    histories<data::BlockedData<float>>("blocked", 2, 2, depth);
    histories<data::BlockedData<float>>("blocked", 3, 4, depth - 1);
    histories<data::SimpleData<float, svs::Dynamic, data::Blocked<TA>>>("blocked, tracked", 1, 2, 2);
    histories<data::BlockedData<uint8_t, 5>>("blocked u8 of fixed dimension", 5, 3, 2);
    histories<data::BlockedData<Float16>>("blocked f16", 1, 4, 2);
    // rows longer than a block, and rows without elements
    histories<data::BlockedData<float>>("blocked, long rows", 3, 0, 2);
    histories<data::BlockedData<uint8_t, 5>>("blocked u8 of fixed dimension, long rows", 5, 0, 2);
    empty_rows();
    compactions<data::SimpleData<float>>("plain", 2, 0);
    compactions<data::BlockedData<float>>("blocked", 2, 1);
    compactions<data::BlockedData<float>>("blocked", 3, 2);
    compactions<data::BlockedData<int8_t, 3>>("blocked i8 of fixed dimension", 3, 4);
    compactions<data::SimpleData<Float16, 2>>("plain f16 of fixed dimension", 2, 0);
    views<data::SimpleData<float>>("plain", 0);
    views<data::BlockedData<float>>("blocked", 2);
    equality();
    arrays();
    assignments<true, true, true>();
    assignments<false, false, false>();
    assignments<true, false, true>();
    assignments<false, true, false>();
    exhausted();
}

MC_MAIN("C18", body)
