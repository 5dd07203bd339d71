// C14: breadth-first search over every reachable identifier mapping of a small universe;
// every operation of the alphabet is applied to every state on the real translator.
#include "mc.h"
#include "svs/core/translation.h"
#include "svs/lib/saveload.h"

#include <deque>
#include <list>
#include <optional>

using T = svs::IDTranslator;
using E = uint64_t;
using I = uint32_t;
using Map = std::map<E, I>;

static std::vector<E> ext_alpha = {0, 3, 4294967296ull + 3, 0xffffffffffffffffull};
static std::vector<I> int_alpha = {0, 1, 7, 0xffffffffu};

static std::string show(const Map& m) {
    std::string s = "{";
    for (auto [e, i] : m) {
        s += mc::str(e, ":", i, " ");
    }
    return s + "}";
}

// The whole observable content of the translator.
static void compare(const T& t, const Map& m, const std::string& what) {
    MC_CHECK(t.size() == m.size(), "content", what, ": size ", t.size(), " but expected ", show(m));
    std::map<I, E> inv;
    for (auto [e, i] : m) {
        inv[i] = e;
    }
    for (E e : ext_alpha) {
        bool in = m.count(e);
        MC_CHECK(t.has_external(e) == in, "content", what, ": has_external(", e, ") wrong for ", show(m));
        if (in) {
            MC_CHECK(t.get_internal(e) == m.at(e), "content", what, ": get_internal(", e, ") = ", t.get_internal(e), " for ", show(m));
            MC_CHECK(t.get_external(t.get_internal(e)) == e, "content", what, ": round trip of ", e);
        } else {
            MC_CHECK(mc::throws([&] { (void)t.get_internal(e); }), "unknown", what, ": get_internal of the unknown ", e, " returned a value");
        }
    }
    for (I i : int_alpha) {
        bool in = inv.count(i);
        MC_CHECK(t.has_internal(i) == in, "content", what, ": has_internal(", i, ") wrong for ", show(m));
        if (in) {
            MC_CHECK(t.get_external(i) == inv.at(i), "content", what, ": get_external(", i, ") = ", t.get_external(i), " for ", show(m));
        } else {
            MC_CHECK(mc::throws([&] { (void)t.get_external(i); }), "unknown", what, ": get_external of the unknown ", i, " returned a value");
        }
    }
    Map seen;
    size_t n = 0;
    for (auto p : t) {
        seen[p.first] = p.second;
        ++n;
    }
    MC_CHECK(n == m.size() && seen == m, "enumeration", what, ": enumeration gives ", n, " pairs ", show(seen), " but expected ", show(m));
    mc::evaluation();
}

template <typename X> static std::vector<std::vector<X>> lists(const std::vector<X>& alpha, size_t max) {
    std::vector<std::vector<X>> r;
    for (size_t n = 0; n <= max; ++n) {
        mc::tuples(n, alpha.size(), [&](const std::vector<size_t>& t) {
            std::vector<X> v;
            for (auto k : t) {
                v.push_back(alpha[k]);
            }
            r.push_back(v);
        });
    }
    return r;
}

template <typename X> static bool unique(const std::vector<X>& v) {
    return std::set<X>(v.begin(), v.end()).size() == v.size();
}

// All reachable maps, breadth first, with the operations that lead there.
struct State {
    Map map;
    T real;
    std::string path;
};

static std::string op_insert(const std::vector<E>& e, const std::vector<I>& i) {
    return mc::str("insert(", mc::list(e), ",", mc::list(i), ")");
}

static void explore(size_t max_list) {
    auto el = lists(ext_alpha, max_list);
    auto il = lists(int_alpha, max_list);
    std::map<Map, size_t> index;
    std::deque<State> queue;
    std::vector<State> all;
    queue.push_back({{}, T{}, ""});
    index[{}] = 0;
    size_t depth_states = 0;
    auto reach = [&](const Map& m, const T& t, const std::string& path) {
        if (index.emplace(m, index.size()).second) {
            queue.push_back({m, t, path});
        }
    };
    while (!queue.empty()) {
        State s = std::move(queue.front());
        queue.pop_front();
        ++depth_states;
        mc::state(mc::hash(show(s.map)));
        std::set<I> used;
        for (auto [e, i] : s.map) {
            used.insert(i);
        }
        // Every transition from this state. States are shared by all shards, their transitions
        // are one case each.
        auto successors = [&](bool full) {
            // insertions
            for (auto& e : el) {
                for (auto& i : il) {
                    if (!full && (e.size() != 1 || i.size() != 1)) {
                        continue;
                    }
                    bool ok = e.size() == i.size() && unique(e) && unique(i);
                    for (auto x : e) {
                        ok = ok && !s.map.count(x);
                    }
                    for (auto x : i) {
                        ok = ok && !used.count(x);
                    }
                    Map want = s.map;
                    if (ok) {
                        for (size_t k = 0; k < e.size(); ++k) {
                            want[e[k]] = i[k];
                        }
                    }
                    std::string what = s.path + " " + op_insert(e, i);
                    T t = s.real;
                    bool threw = mc::throws([&] { t.insert(e, i); });
                    mc::transition();
                    MC_CHECK(threw == !ok, "refusal", what, ok ? " was refused" : " was accepted");
                    compare(t, want, what);
                    if (ok && full) {
                        T u = s.real;
                        u.insert(e, i, false);
                        compare(u, want, what + " [unchecked]");
                        std::list<E> fe(e.begin(), e.end());
                        std::list<I> fi(i.begin(), i.end());
                        T w = s.real;
                        w.insert(fe, fi);
                        compare(w, want, what + " [lists]");
                    } else if (full) {
                        std::list<E> fe(e.begin(), e.end());
                        std::list<I> fi(i.begin(), i.end());
                        T w = s.real;
                        MC_CHECK(mc::throws([&] { w.insert(fe, fi); }), "refusal", what, " [lists] was accepted");
                        compare(w, s.map, what + " [lists]");
                    }
                    if (ok) {
                        reach(want, t, what);
                    }
                }
            }
            // removals by external identifier (unique lists: documented precondition)
            for (auto& e : el) {
                if (!unique(e)) {
                    continue;
                }
                bool ok = true;
                Map want = s.map;
                for (auto x : e) {
                    ok = ok && s.map.count(x);
                }
                if (ok) {
                    for (auto x : e) {
                        want.erase(x);
                    }
                }
                std::string what = s.path + mc::str(" delete_external(", mc::list(e), ")");
                T t = s.real;
                bool threw = mc::throws([&] { t.delete_external(e); });
                mc::transition();
                MC_CHECK(threw == !ok, "refusal", what, ok ? " was refused" : " was accepted");
                compare(t, want, what);
                MC_CHECK(
                    mc::throws([&] { s.real.check_external_exist(e.begin(), e.end()); }) == !ok,
                    "refusal", what, ": check_external_exist disagrees"
                );
                if (ok) {
                    T u = s.real;
                    u.delete_external(e, false);
                    compare(u, want, what + " [unchecked]");
                    reach(want, t, what);
                }
            }
            for (auto& i : il) {
                if (!unique(i)) {
                    continue;
                }
                bool ok = true;
                for (auto x : i) {
                    ok = ok && used.count(x);
                }
                Map want = s.map;
                if (ok) {
                    for (auto x : i) {
                        for (auto it = want.begin(); it != want.end(); ++it) {
                            if (it->second == x) {
                                want.erase(it);
                                break;
                            }
                        }
                    }
                }
                std::string what = s.path + mc::str(" delete_internal(", mc::list(i), ")");
                T t = s.real;
                bool threw = mc::throws([&] { t.delete_internal(i); });
                mc::transition();
                MC_CHECK(threw == !ok, "refusal", what, ok ? " was refused" : " was accepted");
                compare(t, want, what);
                MC_CHECK(
                    mc::throws([&] { s.real.check_internal_exist(i.begin(), i.end()); }) == !ok,
                    "refusal", what, ": check_internal_exist disagrees"
                );
                if (ok) {
                    T u = s.real;
                    u.delete_internal(i, false);
                    compare(u, want, what + " [unchecked]");
                    reach(want, t, what);
                }
            }
            // remapping of a slot (from present, to free: documented precondition)
            for (auto [e, from] : Map(s.map)) {
                for (I to : int_alpha) {
                    if (used.count(to)) {
                        continue;
                    }
                    Map want = s.map;
                    want[e] = to;
                    std::string what = s.path + mc::str(" remap(", from, ",", to, ")");
                    T t = s.real;
                    t.remap_internal_id(from, to);
                    mc::transition();
                    compare(t, want, what);
                    reach(want, t, what);
                }
            }
            if (full) {
                // copies, moves
                T c = s.real;
                T d = std::move(c);
                compare(d, s.map, s.path + " copy+move");
                T f{T::Identity(3)};
                f = s.real;
                compare(f, s.map, s.path + " assign");
                compare(s.real, s.map, s.path);
                // saving and loading, including after the mapping changed
                mc::ScratchDir dir;
                svs::lib::save_to_disk(s.real, dir.path);
                auto back = svs::lib::load_from_disk<T>(dir.path);
                mc::transition();
                compare(back, s.map, s.path + " save load");
                // saving again over it
                svs::lib::save_to_disk(back, dir.path);
                compare(svs::lib::load_from_disk<T>(dir.path), s.map, s.path + " save load save load");
                mc::trace();
            }
        };
        mc::run([&] { return mc::str("from", s.path.empty() ? " {}" : s.path); }, [&] {
            mc::outcome(mc::hash(show(s.map)));
            compare(s.real, s.map, s.path);
            successors(true);
        });
        // Make the walk itself independent of sharding (and of failures reported above).
        for (E e : ext_alpha) {
            for (I i : int_alpha) {
                if (!s.map.count(e) && !used.count(i)) {
                    Map want = s.map;
                    want[e] = i;
                    if (!index.count(want)) {
                        T t = s.real;
                        t.insert(std::vector<E>{e}, std::vector<I>{i});
                        reach(want, t, s.path + " " + op_insert({e}, {i}));
                    }
                }
            }
        }
    }
    mc::note_max("reachable_maps", depth_states);
}

// Histories: the same alphabet restricted to single elements, all sequences up to a depth, so that
// the history-dependent layout of the tables (growth, erased slots) is part of the exploration.
static void histories(size_t depth) {
    std::vector<E> es = {0, 3, 0xffffffffffffffffull};
    std::vector<I> is = {0, 7, 0xffffffffu};
    struct Op {
        int kind;
        size_t a, b;
    };
    std::vector<Op> ops;
    for (size_t a = 0; a < 3; ++a) {
        for (size_t b = 0; b < 3; ++b) {
            ops.push_back({0, a, b});
        }
        ops.push_back({1, a, 0});
        ops.push_back({2, a, 0});
    }
    for (size_t first = 0; first < ops.size(); ++first) {
        for (size_t second = 0; second < ops.size(); ++second) {
            mc::run([&] { return mc::str("history ", first, " ", second, " depth ", depth); }, [&] {
                std::function<void(const T&, const Map&, size_t, const std::string&)> go;
                auto apply = [&](const Op& o, T& t, Map& m, std::string& what) {
                    mc::transition();
                    if (o.kind == 0) {
                        bool ok = !m.count(es[o.a]);
                        for (auto [e, i] : m) {
                            ok = ok && i != is[o.b];
                        }
                        what += " " + op_insert({es[o.a]}, {is[o.b]});
                        bool threw = mc::throws([&] {
                            t.insert(std::vector<E>{es[o.a]}, std::vector<I>{is[o.b]});
                        });
                        MC_CHECK(threw == !ok, "refusal", what, " refused: ", threw);
                        if (ok) {
                            m[es[o.a]] = is[o.b];
                        }
                    } else if (o.kind == 1) {
                        bool ok = m.count(es[o.a]);
                        what += mc::str(" delete_external(", es[o.a], ")");
                        bool threw = mc::throws([&] { t.delete_external(std::vector<E>{es[o.a]}); });
                        MC_CHECK(threw == !ok, "refusal", what, " refused: ", threw);
                        m.erase(es[o.a]);
                    } else {
                        bool ok = false;
                        for (auto [e, i] : Map(m)) {
                            if (i == is[o.a]) {
                                ok = true;
                                m.erase(e);
                            }
                        }
                        what += mc::str(" delete_internal(", is[o.a], ")");
                        bool threw = mc::throws([&] { t.delete_internal(std::vector<I>{is[o.a]}); });
                        MC_CHECK(threw == !ok, "refusal", what, " refused: ", threw);
                    }
                    compare(t, m, what);
                };
                go = [&](const T& t, const Map& m, size_t left, const std::string& what) {
                    if (left == 0) {
                        return;
                    }
                    for (auto& o : ops) {
                        T t2 = t;
                        Map m2 = m;
                        std::string w2 = what;
                        apply(o, t2, m2, w2);
                        go(t2, m2, left - 1, w2);
                    }
                };
                T t;
                Map m;
                std::string what;
                apply(ops[first], t, m, what);
                apply(ops[second], t, m, what);
                go(t, m, depth - 2, what);
            });
        }
    }
}

// Many entries: growth and deletion patterns of the underlying tables.
static void large() {
    for (size_t n : {0ul, 1ul, 2ul, 15ul, 16ul, 17ul, 33ul, 257ul, 1000ul, 5000ul}) {
        for (size_t stride : {1ul, 3ul, 16ul, 4096ul}) {
            for (int mode = 0; mode < 3; ++mode) {
                mc::run([&] { return mc::str("large n=", n, " stride=", stride, " mode=", mode); }, [&] {
                    Map m;
                    T t;
                    if (mode == 0) {
                        t = T(T::Identity(n));
                        for (size_t i = 0; i < n; ++i) {
                            m[i] = i;
                        }
                    } else {
                        std::vector<E> e;
                        std::vector<I> in;
                        for (size_t i = 0; i < n; ++i) {
                            e.push_back(mode == 1 ? i * stride : ~(i * stride));
                            in.push_back(n - i);
                            m[e.back()] = in.back();
                        }
                        t.insert(e, in);
                    }
                    auto full = [&](const char* what) {
                        MC_CHECK(t.size() == m.size(), "content", what, " size ", t.size());
                        size_t k = 0;
                        for (auto p : t) {
                            auto it = m.find(p.first);
                            MC_CHECK(it != m.end() && it->second == p.second, "enumeration", what, " lists ", p.first);
                            ++k;
                        }
                        MC_CHECK(k == m.size(), "enumeration", what, " lists ", k);
                        for (auto [e, i] : m) {
                            MC_CHECK(t.get_internal(e) == i && t.get_external(i) == e, "content", what, " at ", e);
                        }
                        mc::evaluation();
                    };
                    full("built");
                    // remove every third, then reuse the slots for new identifiers in reverse
                    std::vector<E> gone;
                    std::vector<I> slots;
                    size_t k = 0;
                    for (auto [e, i] : m) {
                        if (k++ % 3 == 1) {
                            gone.push_back(e);
                            slots.push_back(i);
                        }
                    }
                    t.delete_external(gone);
                    for (auto e : gone) {
                        m.erase(e);
                        MC_CHECK(!t.has_external(e), "content", "removed ", e, " still there");
                    }
                    for (auto i : slots) {
                        MC_CHECK(!t.has_internal(i), "content", "removed slot ", i, " still there");
                    }
                    full("deleted");
                    std::reverse(slots.begin(), slots.end());
                    std::vector<E> fresh;
                    for (size_t i = 0; i < slots.size(); ++i) {
                        fresh.push_back((1ull << 40) + i);
                        m[fresh.back()] = slots[i];
                    }
                    t.insert(fresh, slots);
                    full("reused");
                    mc::ScratchDir dir;
                    svs::lib::save_to_disk(t, dir.path);
                    t = svs::lib::load_from_disk<T>(dir.path);
                    full("reloaded");
                    // remap all slots upwards, one by one
                    std::vector<I> order;
                    for (auto [e, i] : m) {
                        order.push_back(i);
                    }
                    for (I i : order) {
                        E e = t.get_external(i);
                        t.remap_internal_id(i, i + 100000);
                        m[e] = i + 100000;
                    }
                    full("remapped");
                    mc::state(mc::hash(mc::str(n, " ", stride, " ", mode)));
                    mc::transition(n);
                });
            }
        }
    }
}

static void body() {
    bool deep = mc::thorough();
    explore(deep ? 3 : 2);
    histories(deep ? 6 : 5);
    large();
}
MC_MAIN("C14", body)
