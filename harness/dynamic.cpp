// C12 / C13: operation histories on the dynamic index. Every history of the alphabet up to the
// depth is executed on the real index; states (slots, graph, data, identifiers) are merged only
// when everything observable and everything internal that the public accessors show agrees.
#include "dynworld.h"

#ifndef PROP
#define PROP 12
#endif

#if PROP == 12
template <typename Dist> void explore(const Config& c, History& h, size_t depth, std::map<uint64_t, size_t>& seen) {
    auto where = [&] { return describe<Dist>(c, h); };
    World<Dist> w = [&] {
        try {
            // maintenance does not change any answer
            if (!h.empty() && h.back().kind == Compact) {
                History before(h.begin(), h.end() - 1);
                auto x = replay<Dist>(c, before);
                auto a = x.observe(false);
                x.apply(h.back());
                auto b = x.observe(false);
                MC_CHECK(a == b, "compact-changes", where(), ": answers before ", a, " and after ", b);
                return x;
            }
            return replay<Dist>(c, h);
        } catch (const mc::Failed&) { throw; } catch (const std::exception& e) {
            mc::fail("refused", where() + ": " + e.what());
        }
    }();
    w.check(where);
    mc::trace();
    auto key = w.hash();
    mc::state(mc::mix(key, mc::hash(c.str())));
    auto [it, fresh] = seen.try_emplace(key, depth);
    if (!fresh) {
        if (it->second >= depth) {
            return;
        }
        it->second = depth;
    }
    if (depth == 0) {
        return;
    }
    for (auto& op : w.enabled()) {
        h.push_back(op);
        explore<Dist>(c, h, depth - 1, seen);
        h.pop_back();
    }
}

template <typename Dist> void configs(const Config& c, size_t depth) {
    // one case per pair of first operations
    World<Dist> w(c);
    mc::run([&] { return describe<Dist>(c, {}) + " start"; }, [&] {
        World<Dist> x(c);
        x.check([&] { return describe<Dist>(c, {}); });
        mc::trace();
    });
    for (auto& a : w.enabled()) {
        World<Dist> x(c);
        try {
            x.apply(a);
        } catch (...) {
            mc::run([&] { return describe<Dist>(c, {a}); }, [&] { replay<Dist>(c, {a}); });
            continue;
        }
        for (auto& b : x.enabled()) {
            mc::run([&] { return describe<Dist>(c, {a, b}) + mc::str(" +", depth - 2); }, [&] {
                std::map<uint64_t, size_t> seen;
                History h{a};
                explore<Dist>(c, h, 0, seen);
                h.push_back(b);
                explore<Dist>(c, h, depth - 2, seen);
            });
        }
    }
}
#else
// Requests the index has to refuse.
struct Bad {
    std::string what;
    std::function<void(void*)> run;
};
template <typename Dist> std::vector<std::pair<std::string, std::function<void(World<Dist>&)>>> refusals(const World<Dist>& w) {
    std::vector<std::pair<std::string, std::function<void(World<Dist>&)>>> r;
    std::vector<size_t> present, absent;
    for (size_t u = 0; u < universe.size(); ++u) {
        (w.m.live.count(u) ? present : absent).push_back(universe[u]);
    }
    auto add = [&](std::string what, std::vector<size_t> ids, size_t npoints, size_t dims) {
        r.emplace_back(mc::str("add ", what, " ", mc::list(ids)), [=](World<Dist>& x) {
            Points p(npoints, Point(dims, 2.5f));
            x.idx->add_points(dataset(p, dims), ids);
        });
    };
    if (!present.empty()) {
        add("present id", {present[0]}, 1, 2);
    }
    if (!present.empty() && !absent.empty()) {
        add("absent then present", {absent[0], present.back()}, 2, 2);
        add("present then absent", {present[0], absent[0]}, 2, 2);
    }
    if (!absent.empty()) {
        add("twice", {absent[0], absent[0]}, 2, 2);
        add("too few points", {absent[0]}, 0, 2);
        add("too many points", {absent[0]}, 2, 2);
        add("too long vector", {absent[0]}, 1, 3);
        add("too short vector", {absent[0]}, 1, 1);
    }
    if (absent.size() >= 3) {
        add("repeated at the end", {absent[0], absent[1], absent[2], absent[0]}, 4, 2);
        add("too long vectors", {absent[2], absent[1], absent[0]}, 3, 4);
        add("no points", {absent[2], absent[1], absent[0]}, 0, 2);
    }
    auto del = [&](std::string what, std::vector<size_t> ids) {
        r.emplace_back(mc::str("delete ", what, " ", mc::list(ids)), [=](World<Dist>& x) { x.idx->delete_entries(ids); });
    };
    if (!absent.empty()) {
        del("absent id", {absent[0]});
    }
    if (!present.empty()) {
        del("repeated id", {present[0], present[0]});
    }
    if (present.size() >= 2) {
        del("repeated at the end", {present[0], present[1], present[0]});
        del("repeated before the last", {present[1], present[1], present[0]});
    }
    if (!absent.empty() && !present.empty()) {
        del("present then absent", {present[0], absent[0]});
        del("absent then present", {absent.back(), present[0]});
    }
    if (!present.empty() && absent.size() >= 2) {
        del("present between absent", {absent[0], present.back(), absent[1]});
    }
    return r;
}

template <typename Dist> void explore(const Config& c, History& h, size_t depth, std::map<uint64_t, size_t>& seen, const std::function<void(const History&)>& visit) {
    World<Dist> w = replay<Dist>(c, h);
    auto key = w.hash();
    auto [it, fresh] = seen.try_emplace(key, depth);
    if (!fresh) {
        if (it->second >= depth) {
            return;
        }
        it->second = depth;
    } else {
        mc::state(mc::mix(key, mc::hash(c.str())));
        visit(h);
    }
    if (depth == 0) {
        return;
    }
    for (auto& op : w.enabled()) {
        h.push_back(op);
        explore<Dist>(c, h, depth - 1, seen, visit);
        h.pop_back();
    }
}

template <typename Dist> void configs(const Config& c, size_t depth) {
    auto visit = [&](const History& h) {
        World<Dist> probe = replay<Dist>(c, h);
        auto before = probe.observe(true);
        auto bad = refusals(probe);
        // every operation that can follow, on the untouched index
        auto next = probe.enabled();
        std::vector<std::string> expected;
        for (auto& op : next) {
            auto x = replay<Dist>(c, h);
            x.apply(op);
            expected.push_back(x.observe(true));
        }
        for (size_t b = 0; b < bad.size(); ++b) {
            auto where = [&] { return mc::str(describe<Dist>(c, h), " then refused ", bad[b].first); };
            // all refusals are followed by all operations in the small cases
            for (size_t i = 0; i < next.size(); ++i) {
                auto x = replay<Dist>(c, h);
                bool threw = mc::throws([&] { bad[b].second(x); });
                mc::transition();
                MC_CHECK(threw, "accepted", where(), ": no error");
                if (i == 0) {
                    // the free slots may have become more; nothing else
                    x.m.slots.resize(std::max(x.m.slots.size(), x.idx->view_data().size()), v::SlotMetadata::Empty);
                    auto after = x.observe(false);
                    auto y = replay<Dist>(c, h);
                    MC_CHECK(after == y.observe(false), "changed", where(), ": before ", before, " after ", after);
                    x.check(where);
                }
                x.m.slots.resize(std::max(x.m.slots.size(), x.idx->view_data().size()), v::SlotMetadata::Empty);
                if (next[i].kind == Compact || next[i].kind == Consolidate || next[i].kind == Delete || next[i].kind == Add) {
                    // the same valid operation afterwards
                    x.apply(next[i]);
                    auto got = x.observe(false);
                    auto y = replay<Dist>(c, h);
                    y.apply(next[i]);
                    auto want = y.observe(false);
                    MC_CHECK(got == want, "later-behaviour", where(), " then ", next[i].str(), ": ", got, " instead of ", want);
                    x.check([&] { return where() + " then " + next[i].str(); });
                }
                mc::trace();
                mc::evaluation();
            }
        }
    };
    World<Dist> w(c);
    mc::run([&] { return describe<Dist>(c, {}) + " start"; }, [&] { visit({}); });
    for (auto& a : w.enabled()) {
        World<Dist> x = replay<Dist>(c, {a});
        for (auto& b : x.enabled()) {
            mc::run([&] { return describe<Dist>(c, {a, b}) + mc::str(" +", depth - 2); }, [&] {
                std::map<uint64_t, size_t> seen;
                visit({a});
                History h{a, b};
                explore<Dist>(c, h, depth - 2, seen, visit);
            });
        }
    }
}
#endif

static void body() {
    auto logger = svs::logging::get();
    svs::logging::set_level(svs::logging::Level::Off);
    bool deep = mc::thorough();
    using L2 = svs::distance::DistanceL2;
    using IP = svs::distance::DistanceIP;
    using Cos = svs::distance::DistanceCosineSimilarity;
#if PROP == 12
    size_t d = deep ? 6 : 4;
    configs<L2>({3, 8, 8, 16, 30, 1.2f, true, 1, 2}, d + 1);
    configs<L2>({1, 8, 7, 16, 30, 1.0f, false, 1, 1}, d + 1);
    configs<L2>({4, 2, 2, 4, 30, 1.2f, true, 1, 4}, d + 1);
    configs<L2>({4, 3, 2, 3, 4, 1.2f, false, 1, 1}, d + 1);
    configs<IP>({3, 8, 8, 16, 30, 0.95f, true, 1, 2}, d);
    configs<Cos>({3, 8, 6, 16, 30, 1.0f, true, 1, 2}, d);
    configs<L2>({3, 8, 8, 16, 30, 1.2f, true, 2, 2}, 2);
#else
    size_t d = deep ? 4 : 3;
    configs<L2>({2, 8, 8, 16, 30, 1.2f, true, 1, 2}, d);
    configs<L2>({3, 2, 2, 4, 30, 1.2f, false, 1, 1}, d);
    configs<IP>({2, 8, 8, 16, 30, 0.95f, true, 1, 4}, d);
#endif
}

MC_MAIN(PROP == 12 ? "C12" : "C13", body)
