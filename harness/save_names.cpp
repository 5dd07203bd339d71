// C22, the names of the files under one directory: asked for in every order, written at once or later,
// and by several threads under every schedule.
#include "sched/vs.h"

#include "svs/lib/saveload/save.h"

#include <fstream>

namespace fs = std::filesystem;
namespace lib = svs::lib;

static const std::vector<std::pair<std::string, std::string>> asks = {{"data", "svs"}, {"data", "bin"}, {"data_0", "svs"}, {"graph", "svs"}};

static std::string scratch;
struct Dir {
    fs::path path;
    Dir() {
        static size_t n = 0;
        path = scratch + "/d" + std::to_string(n++);
        fs::create_directory(path);
    }
    ~Dir() {
        std::error_code e;
        fs::remove_all(path, e);
    }
};
static void distinct(const std::vector<fs::path>& names, const fs::path& dir) {
    for (size_t i = 0; i < names.size(); ++i) {
        for (size_t j = 0; j < i; ++j) {
            VS_CHECK(names[i] != names[j], "same-name", "requests ", j, " and ", i, " both got ", names[i].filename().string());
        }
    }
    for (auto& n : names) {
        VS_CHECK(n.parent_path() == dir, "elsewhere", n.string(), " does not lie in the directory of the object");
    }
}
static std::string touch(const fs::path& p) {
    std::ofstream(p) << p.filename().string();
    return p.filename().string();
}

// Each request: what * 2 + written at once.
static void sequence(const std::vector<int>& requests, bool leftover) {
    Dir dir;
    if (leftover) {
        for (auto& n : {"data_0.svs", "data_1.svs", "graph_0.svs"}) {
            touch(dir.path / n);
        }
    }
    lib::SaveContext ctx(dir.path);
    std::vector<fs::path> names;
    for (int r : requests) {
        auto& [prefix, ext] = asks[r / 2];
        names.push_back(ctx.generate_name(prefix, ext));
        if (r % 2) {
            touch(names.back());
        }
        std::string file = names.back().filename().string();
        MC_CHECK(file.rfind(prefix, 0) == 0 && names.back().extension() == "." + ext, "name", "a request for ", prefix, " and ", ext, " got ", file);
        mc::transition();
    }
    for (size_t i = 0; i < names.size(); ++i) {
        for (size_t j = 0; j < i; ++j) {
            MC_CHECK(names[i] != names[j], "same-name", "requests ", j, " and ", i, " both got ", names[i].filename().string());
        }
        MC_CHECK(names[i].parent_path() == dir.path, "elsewhere", names[i].string(), " does not lie in the directory of the object");
        touch(names[i]);
    }
    for (auto& n : names) {
        std::string said;
        std::ifstream(n) >> said;
        MC_CHECK(said == n.filename().string(), "overwritten", n.filename().string(), " holds ", said);
    }
    mc::evaluation();
}

static void together(const std::vector<std::vector<int>>& programs, int bound) {
    vs::Options o;
    o.bound = bound;
    std::vector<fs::path> names;
    fs::path dir = "/nowhere/object";
    vs::check(
        o,
        [&] {
            names.clear();
            lib::SaveContext ctx(dir);
            std::vector<std::vector<fs::path>> got(programs.size());
            std::vector<std::thread> threads;
            for (size_t t = 0; t < programs.size(); ++t) {
                threads.emplace_back([&, t] {
                    for (int r : programs[t]) {
                        auto name = ctx.generate_name(asks[r].first, asks[r].second);
                        vs::Quiet q;
                        got[t].push_back(name);
                    }
                });
            }
            for (auto& t : threads) {
                t.join();
            }
            vs::Quiet q;
            for (auto& g : got) {
                names.insert(names.end(), g.begin(), g.end());
            }
        },
        [&] { distinct(names, dir); }
    );
}

static void body() {
    mc::ScratchDir own;
    scratch = own.path;
    size_t longest = mc::thorough() ? 5 : 4;
    std::vector<int> h;
    std::function<void()> go = [&] {
        if (!h.empty()) {
            for (bool leftover : {false, true}) {
                mc::run([&] { return mc::str("requests ", mc::list(h), leftover ? " in a used directory" : ""); }, [&] { sequence(h, leftover); });
            }
        }
        if (h.size() < longest) {
            for (int r = 0; r < int(2 * asks.size()); ++r) {
                h.push_back(r);
                go();
                h.pop_back();
            }
        }
    };
    go();
    int bound = mc::thorough() ? 4 : 3;
    std::vector<std::vector<int>> programs = {{0}, {2}, {0, 0}, {0, 2}, {2, 0}, {0, 0, 0}};
    for (size_t a = 0; a < programs.size(); ++a) {
        for (size_t b = a; b < programs.size(); ++b) {
            mc::run([&] { return mc::str("together ", mc::list(programs[a]), mc::list(programs[b])); }, [&] { together({programs[a], programs[b]}, bound); });
            mc::run([&] { return mc::str("together ", mc::list(programs[a]), mc::list(programs[b]), " and one"); }, [&] { together({programs[a], programs[b], {0}}, bound); });
        }
    }
}
MC_MAIN("C22", body)
