// C04: spin lock, reader/writer-protected values: every schedule within the bound.
#include "sched/vs.h"

#include "svs/lib/concurrency/readwrite_protected.h"
#include "svs/lib/spinlock.h"

// A value whose parts must belong together.
template <size_t N> struct Block {
    uint64_t w[N] = {};
    Block() = default;
    explicit Block(uint64_t x) {
        for (size_t i = 0; i < N; ++i) {
            w[i] = x * 1000 + i;
        }
    }
    // The stored value, or ~0 if it is a mixture.
    uint64_t id() const {
        uint64_t x = w[0] / 1000;
        for (size_t i = 0; i < N; ++i) {
            if (w[i] != x * 1000 + i) {
                return ~uint64_t(0);
            }
        }
        return x;
    }
    static Block make(uint64_t x) { return Block(x); }
};
struct Text {
    std::vector<uint64_t> v;
    std::string s;
    Text() = default;
    explicit Text(uint64_t x)
        : v(3 + x, x)
        , s(std::to_string(x) + std::string(20 + x, 'a' + char(x % 20))) {}
    uint64_t id() const {
        if (v.empty() && s.empty()) return 0;
        for (uint64_t x = 1; x < 12; ++x) {
            Text t(x);
            if (t.v == v && t.s == s) return x;
        }
        return ~uint64_t(0);
    }
    static Text make(uint64_t x) { return Text(x); }
};

using svs::SpinLock;
namespace lib = svs::lib;

// ops per thread: l lock-unlock, t try-lock (unlock if taken), i islocked
static void spin_case(const std::vector<std::string>& progs, int bound) {
    vs::Options o;
    o.bound = bound;
    int final_count = 0, want = 0;
    bool locked_after = false;
    vs::check(
        o,
        [&] {
            SpinLock lock;
            int inside = 0; // unsynchronised on purpose: only the lock protects it
            int count = 0;
            std::vector<int> taken(progs.size(), 0);
            auto critical = [&](size_t me) {
                VS_CHECK(inside == 0, "exclusion", "two threads hold the lock");
                inside = 1;
                ++count;
                ++taken[me];
                VS_CHECK(lock.islocked(), "state", "a held lock reports free");
                inside = 0;
            };
            auto work = [&](size_t me) {
                for (char c : progs[me]) {
                    if (c == 'l') {
                        std::lock_guard g(lock);
                        critical(me);
                    } else if (c == 't') {
                        if (lock.try_lock()) {
                            critical(me);
                            lock.unlock();
                        }
                    } else {
                        (void)lock.islocked();
                    }
                }
            };
            {
                std::vector<std::thread> ts;
                for (size_t i = 1; i < progs.size(); ++i) {
                    ts.emplace_back([&work, i] { work(i); });
                }
                work(0);
                for (auto& t : ts) {
                    t.join();
                }
            }
            final_count = count;
            want = 0;
            for (int k : taken) want += k;
            locked_after = lock.islocked();
            if (lock.try_lock()) {
                VS_CHECK(!lock.try_lock(), "exclusion", "try-lock succeeds on a held lock");
                lock.unlock();
            } else {
                VS_CHECK(false, "state", "a free lock cannot be taken");
            }
            int need = 0;
            for (size_t i = 0; i < progs.size(); ++i) {
                for (char c : progs[i]) need += c == 'l';
            }
            VS_CHECK(count >= need, "lost", "critical sections: ", count, " locks: ", need);
        },
        [&] {
            VS_CHECK(final_count == want, "lost", "updates under the lock were lost: ", final_count, " of ", want);
            VS_CHECK(!locked_after, "state", "the lock is held after all released it");
        }
    );
}

// ops: g get, s set(const&), m set(&&), c copy-construct from it, a assign a new object from it,
// A assign to it from another protected value, M move-assign to it, x move get out of a copy
template <typename T> static void rw_case(const std::vector<std::string>& progs, int bound) {
    vs::Options o;
    o.bound = bound;
    vs::check(
        o,
        [&] {
            lib::ReadWriteProtected<T> shared{T::make(1)};
            std::vector<std::thread> ts;
            auto known = [&](uint64_t id) {
                if (id == 1) return true;
                for (size_t i = 0; i < progs.size(); ++i) {
                    for (size_t k = 0; k < progs[i].size(); ++k) {
                        if (std::string("smAM").find(progs[i][k]) != std::string::npos && id == 2 + i * 3 + k) return true;
                    }
                }
                return false;
            };
            auto work = [&](size_t me) {
                uint64_t k = 0;
                for (char c : progs[me]) {
                    uint64_t fresh = 2 + me * 3 + k++;
                    uint64_t got = 1;
                    switch (c) {
                        case 'g': got = shared.get().id(); break;
                        case 's': {
                            T v = T::make(fresh);
                            shared.set(v);
                            VS_CHECK(v.id() == fresh, "source", "storing a copy changed the source");
                            break;
                        }
                        case 'm': shared.set(T::make(fresh)); break;
                        case 'c': {
                            lib::ReadWriteProtected<T> copy{shared};
                            got = copy.get().id();
                            break;
                        }
                        case 'a': {
                            lib::ReadWriteProtected<T> copy{T::make(9)};
                            auto& r = (copy = shared);
                            VS_CHECK(&r == &copy, "result", "assignment returned another object");
                            got = copy.get().id();
                            break;
                        }
                        case 'A': {
                            const lib::ReadWriteProtected<T> other{T::make(fresh)};
                            auto& r = (shared = other);
                            VS_CHECK(&r == &shared, "result", "assignment returned another object");
                            VS_CHECK(other.get().id() == fresh, "source", "assignment changed the source");
                            break;
                        }
                        case 'M': {
                            lib::ReadWriteProtected<T> other{T::make(fresh)};
                            auto& r = (shared = std::move(other));
                            VS_CHECK(&r == &shared, "result", "assignment returned another object");
                            break;
                        }
                        case 'x': {
                            lib::ReadWriteProtected<T> copy{shared};
                            lib::ReadWriteProtected<T> moved{std::move(copy)};
                            got = std::move(moved).get().id();
                            break;
                        }
                        default: break;
                    }
                    VS_CHECK(got != ~uint64_t(0), "torn", "a mixture of stored values was read");
                    VS_CHECK(known(got), "unknown", "a value was read that nobody stored: ", got);
                }
            };
            for (size_t i = 1; i < progs.size(); ++i) {
                ts.emplace_back([&work, i] { work(i); });
            }
            work(0);
            for (auto& t : ts) {
                t.join();
            }
            // Sequential now: the last value sticks.
            uint64_t last = shared.get().id();
            VS_CHECK(known(last), "unknown", "final value ", last);
            shared.set(T::make(8));
            VS_CHECK(shared.get().id() == 8, "lost", "a stored value was lost");
        },
        [] {}
    );
}

// One thread: every history of construction, copy, move and assignment over three slots.
static void value_history(const std::vector<size_t>& ops) {
    vs::Options o;
    o.bound = 0;
    vs::check(
        o,
        [&] {
            using P = lib::ReadWriteProtected<Text>;
            std::array<std::unique_ptr<P>, 3> p;
            std::array<uint64_t, 3> want{0, 0, 0};
            for (auto& x : p) x = std::make_unique<P>();
            uint64_t fresh = 1;
            for (size_t op : ops) {
                size_t a = op % 3, b = (op / 3) % 3, kind = op / 9;
                switch (kind) {
                    case 0:
                        p[a]->set(Text(fresh));
                        want[a] = fresh++;
                        break;
                    case 1:
                        *p[a] = static_cast<const P&>(*p[b]);
                        want[a] = want[b];
                        break;
                    case 2:
                        if (a == b) break;
                        *p[a] = std::move(*p[b]);
                        want[a] = want[b];
                        p[b]->set(Text(fresh)); // a moved-from value can be set again
                        want[b] = fresh++;
                        break;
                    case 3:
                        p[a] = std::make_unique<P>(static_cast<const P&>(*p[b]));
                        want[a] = want[b];
                        break;
                    case 4: {
                        auto q = std::make_unique<P>(std::move(*p[b]));
                        p[b] = std::make_unique<P>(Text(fresh));
                        auto w = want[b];
                        want[b] = fresh++;
                        p[a] = std::move(q);
                        want[a] = w;
                        break;
                    }
                    default: {
                        const Text t(fresh);
                        p[a] = std::make_unique<P>(t);
                        want[a] = fresh++;
                    }
                }
                for (size_t i = 0; i < 3; ++i) {
                    VS_CHECK(p[i]->get().id() == want[i], "value", "slot ", i, " holds ", p[i]->get().id(), " expected ", want[i]);
                }
            }
        },
        [] {}
    );
}

static void progs_of(const std::string& alphabet, size_t len, std::vector<std::string>& out) {
    mc::tuples(len, alphabet.size(), [&](const std::vector<size_t>& v) {
        std::string s;
        for (auto i : v) s += alphabet[i];
        out.push_back(s);
    });
}

static void body() {
    bool deep = mc::thorough();
    std::vector<std::string> p1, p2, p3;
    progs_of("lti", 1, p1);
    progs_of("lti", 2, p2);
    progs_of("lti", 3, p3);
    int b2 = deep ? 7 : 5, b3 = deep ? 4 : 3;
    auto two = deep ? p3 : p2;
    for (auto& a : p3) {
        for (auto& b : two) {
            mc::run([&] { return mc::str("spin ", a, "|", b, " bound=", b2); }, [&] { spin_case({a, b}, b2); });
        }
    }
    for (auto& a : p2) {
        for (auto& b : p2) {
            for (auto& c : deep ? p2 : p1) {
                mc::run([&] { return mc::str("spin ", a, "|", b, "|", c, " bound=", b3); }, [&] { spin_case({a, b, c}, b3); });
            }
        }
    }
    std::vector<std::string> q1, q2;
    progs_of("gsmcaAMx", 1, q1);
    progs_of("gsmcaAMx", 2, q2);
    for (auto& a : q2) {
        for (auto& b : deep ? q2 : q1) {
            mc::run([&] { return mc::str("rw block ", a, "|", b); }, [&] { rw_case<Block<5>>({a, b}, deep ? 6 : 4); });
            mc::run([&] { return mc::str("rw text ", a, "|", b); }, [&] { rw_case<Text>({a, b}, deep ? 4 : 3); });
        }
    }
    for (auto& a : q1) {
        for (auto& b : q1) {
            for (auto& c : q1) {
                mc::run([&] { return mc::str("rw block ", a, "|", b, "|", c); }, [&] { rw_case<Block<3>>({a, b, c}, deep ? 4 : 3); });
            }
        }
    }
    mc::tuples(2, 54, [&](const std::vector<size_t>& v) {
        mc::run([&] { return mc::str("values ", mc::list(v)); }, [&] { value_history(v); });
    });
    if (deep) {
        mc::tuples(3, 54, [&](const std::vector<size_t>& v) {
            mc::run([&] { return mc::str("values ", mc::list(v)); }, [&] { value_history(v); });
        });
    }
}

MC_MAIN("C04", body)
