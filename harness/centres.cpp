// C31: means, entry points and k-means. Every small dataset over an alphabet with every selection,
// worker count and summation setting against exact arithmetic; every small training run against a
// plain re-computation of the mini-batches.
#include "kit.h"
#include "svs/core/kmeans.h"
#include "svs/core/logging.h"
#include "svs/core/medioid.h"
#include "svs/index/inverted/clustering.h"
#include "svs/index/vamana/extensions.h"

using namespace kit;
using std::string;
namespace lib = svs::lib;
using Pool = svs::threads::NativeThreadPool;

static Pool& pool(size_t n) {
    static std::map<size_t, std::unique_ptr<Pool>> pools;
    auto& p = pools[n];
    if (!p) {
        p = std::make_unique<Pool>(n);
    }
    return *p;
}

struct Setting {
    size_t threads, linear, batch;
    string str() const { return mc::str("threads ", threads, " threshold ", linear, " batch ", batch); }
};

// What the passed functor maps a vector to: twice its value plus one.
struct Twice {
    std::vector<double> store;
    const std::vector<double>& operator()(const auto& x) {
        store.clear();
        for (auto v : x) {
            store.push_back(2 * double(v) + 1);
        }
        return store;
    }
};

template <typename T, size_t E = svs::Dynamic> void means(const Points& pts, const std::vector<char>& in, const Setting& s) {
    auto data = dataset<T, E>(pts, 2);
    size_t d = pts[0].size(), n = pts.size(), m = std::count(in.begin(), in.end(), 1);
    auto pred = [&](size_t i) { return in.at(i) != 0; };
    svs::utils::PairwiseSumParameters params(s.linear, s.batch);
    std::vector<long double> sum(d), mean(d), var(d);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d && in[i]; ++j) {
            sum[j] += double(T(pts[i][j]));
        }
    }
    double scale = 0; // of the terms that are added up
    for (auto& p : pts) {
        for (auto x : p) {
            scale = std::max(scale, std::fabs(double(x)));
        }
    }
    auto where = [&] { return mc::str(show(pts), " selecting ", mc::list(in), " ", s.str()); };
    auto is = [&](const std::vector<double>& got, const std::vector<long double>& want, const char* what) {
        bool ok = got.size() == d;
        for (size_t j = 0; ok && j < d; ++j) {
            ok = std::fabs(got[j] - double(want[j])) <= 1e-12 * (1 + std::fabs(double(want[j])) + scale) * n;
        }
        MC_CHECK(ok, what, where(), " gave ", mc::list(got), " instead of ", mc::list(std::vector<double>(want.begin(), want.end())));
        mc::evaluation();
    };
    auto& p = pool(s.threads);
    bool all = m == n;
    if (m > 0) {
        for (size_t j = 0; j < d; ++j) {
            mean[j] = sum[j] / m;
        }
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < d && in[i]; ++j) {
                var[j] += (double(T(pts[i][j])) - mean[j]) * (double(T(pts[i][j])) - mean[j]) / m;
            }
        }
        auto got = svs::utils::compute_medioid(data, p, pred, lib::identity(), params);
        is(got, mean, "mean");
        if (all) {
            is(svs::utils::compute_medioid(data, p), mean, "mean");
        }
        is(svs::utils::op_pairwise(data, svs::utils::CountVariance(got), p, pred, lib::identity(), params), var, "variance");
        std::vector<long double> twice(mean);
        for (auto& x : twice) {
            x = 2 * x + 1;
        }
        is(svs::utils::compute_medioid(data, p, pred, Twice(), params), twice, "mapped-mean");
        mc::transition(3);
    }
    // The nearest of the selected vectors.
    std::vector<long double> dist(n, -1);
    long double best = -1;
    for (size_t i = 0; i < n; ++i) {
        if (in[i]) {
            dist[i] = 0;
            for (size_t j = 0; j < d; ++j) {
                dist[i] += (double(T(pts[i][j])) - mean[j]) * (double(T(pts[i][j])) - mean[j]);
            }
            best = best < 0 ? dist[i] : std::min(best, dist[i]);
        }
    }
    auto check = [&](size_t got, const char* what) {
        if (m == 0) {
            return;
        }
        MC_CHECK(got < n && in[got], what, where(), " gave ", got, ", which is not selected");
        MC_CHECK(!(best < 1e37) || dist[got] <= best * (1 + 1e-6) + 1e-9, what, where(), " gave ", got, " at ", double(dist[got]), " but the nearest is at ", double(best));
        mc::evaluation();
        mc::outcome(mc::mix(got, n));
    };
    check(svs::utils::find_medioid(data, p, pred, lib::identity(), params), "medioid");
    check(svs::utils::find_medioid(data, p, pred, Twice(), params), "mapped-medioid");
    check(svs::index::vamana::extensions::compute_entry_point(data, p, pred), "entry-point");
    if (all && s.linear == 1) {
        check(svs::utils::find_medioid(data, s.threads), "medioid");
        check(svs::index::vamana::extensions::compute_entry_point(data, p), "entry-point");
    }
    mc::transition(3);
    mc::trace();
}

static std::vector<Setting> settings(size_t n) {
    std::vector<Setting> r;
    for (size_t threads : {1, 2, 3}) {
        for (size_t linear : {size_t(0), size_t(1), size_t(2), size_t(3), size_t(1024)}) {
            for (size_t batch : {size_t(1), size_t(2), n > 3 ? n - 1 : size_t(3), size_t(1000000)}) {
                r.push_back({threads, linear, batch});
            }
        }
    }
    return r;
}

// Every dataset of n vectors over the alphabet, every selection, all settings in turn.
static void small(size_t n, size_t d) {
    const std::vector<float> alphabet = {0, 1, -3, 2.5f};
    size_t total = 1;
    for (size_t i = 0; i < n * d; ++i) {
        total *= alphabet.size();
    }
    auto all = settings(n);
    for (size_t base = 0; base < total; base += 64) {
        mc::run([&] { return mc::str("means of ", n, "x", d, " #", base); }, [&] {
            for (size_t code = base; code < std::min(base + 64, total); ++code) {
                Points pts(n, Point(d));
                size_t x = code;
                for (auto& p : pts) {
                    for (auto& c : p) {
                        c = alphabet[x % alphabet.size()];
                        x /= alphabet.size();
                    }
                }
                for (size_t bits = 0; bits < 1u << n; ++bits) {
                    std::vector<char> in(n);
                    for (size_t i = 0; i < n; ++i) {
                        in[i] = bits >> i & 1;
                    }
                    // Few with several workers here: they only take turns on the cores of all shards.
                    auto pick = [&](size_t x) {
                        auto r = all[x % all.size()];
                        r.threads = x % 64 == 0 ? r.threads : 1;
                        return r;
                    };
                    means<float>(pts, in, pick(code + bits * 7));
                    if (bits + 1 == 1u << n) {
                        means<float>(pts, in, pick(code * 3 + 1));
                        means<svs::Float16>(pts, in, pick(code * 5 + 2));
                        means<int8_t>(pts, in, pick(code * 11 + 3));
                    }
                }
                mc::state(mc::mix(code, n * 16 + d));
            }
        });
    }
}
// Longer ones: every setting for every length.
static void longer(size_t n) {
    mc::run([&] { return mc::str("means of ", n, " vectors"); }, [&] {
        auto all = settings(n);
        for (size_t t : {4, 7}) {
            all.push_back({t, 1, 1});
            all.push_back({t, 5, 3});
            all.push_back({t, 1024, 1000000});
        }
        Points pts(n, Point(3));
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < 3; ++j) {
                pts[i][j] = float(mc::mix(i + n * 100, j) % 101);
            }
        }
        for (auto& s : all) {
            for (int sel = 0; sel < 5; ++sel) {
                if (s.threads > 1 && sel > 1) {
                    continue;
                }
                std::vector<char> in(n, 1);
                for (size_t i = 0; i < n; ++i) {
                    in[i] = sel == 0 || (sel == 1 && i % 2) || (sel == 2 && i + 1 == n) || (sel == 3 && i == 0) || (sel == 4 && mc::mix(i, n) % 3 == 0);
                }
                means<float>(pts, in, s);
                means<uint8_t, 3>(pts, in, s);
            }
        }
        mc::state(mc::str("longer ", n));
    });
}
// Coordinates whose squares overflow single precision.
static void huge() {
    for (float x : {1e18f, 1e19f, 3e19f, 1e30f, 3e38f}) {
        mc::run([&] { return mc::str("huge ", x); }, [&] {
            for (auto& s : settings(5)) {
                for (auto& pts : std::vector<Points>{{{x, x}}, {{x, 0}, {-x, 0}}, {{x, 1}, {0, x}, {-x, 3}, {x, x}, {2, 2}}}) {
                    for (size_t bits = 1; bits < 1u << pts.size(); ++bits) {
                        std::vector<char> in(pts.size());
                        for (size_t i = 0; i < pts.size(); ++i) {
                            in[i] = bits >> i & 1;
                        }
                        means<float>(pts, in, s);
                    }
                }
            }
            mc::state(mc::str("huge", x));
        });
    }
}

// K-means -------------------------------------------------------------------------------------------
static Points rows(const svs::data::SimpleData<float>& c) {
    Points r;
    for (size_t i = 0; i < c.size(); ++i) {
        r.emplace_back(c.get_datum(i).begin(), c.get_datum(i).end());
    }
    return r;
}
// A mini-batch epoch; false where two centroids are equally near.
static bool epoch(const Points& pts, Points& c, std::vector<long>& counts, std::vector<long>& old, size_t batch) {
    bool unique = true;
    for (size_t start = 0; start < pts.size(); start += batch) {
        size_t stop = std::min(pts.size(), start + batch);
        std::vector<size_t> assigned;
        for (size_t i = start; i < stop; ++i) {
            size_t best = 0;
            for (size_t k = 1; k < c.size(); ++k) {
                if (truth(svs::DistanceL2(), pts[i], c[k]) < truth(svs::DistanceL2(), pts[i], c[best])) {
                    best = k;
                }
            }
            for (size_t k = 0; k < c.size(); ++k) {
                unique = unique && (k == best || !close(truth(svs::DistanceL2(), pts[i], c[k]), truth(svs::DistanceL2(), pts[i], c[best])) || c[k] == c[best]);
                // equal centroids: the first is taken by both
            }
            assigned.push_back(best);
        }
        for (size_t i = start; i < stop; ++i) {
            size_t a = assigned[i - start];
            ++old[a];
            ++counts[a];
            double lr = 1.0 / counts[a];
            for (size_t j = 0; j < c[a].size(); ++j) {
                c[a][j] = float((1 - lr) * c[a][j] + lr * pts[i][j]);
            }
        }
    }
    counts = old;
    std::fill(old.begin(), old.end(), 0);
    return unique;
}
template <typename T> void training(const Points& pts, size_t clusters, size_t batch, size_t epochs, size_t seed, size_t threads) {
    auto data = dataset<T>(pts);
    size_t d = pts[0].size();
    auto where = [&] { return mc::str(show(pts), " clusters ", clusters, " batch ", batch, " epochs ", epochs, " seed ", seed, " threads ", threads); };
    std::vector<Points> seen;
    svs::KMeansParameters p{clusters, batch, epochs, seed};
    auto watch = [&](const auto&, const auto& c, auto&&...) { seen.push_back(rows(c)); };
    mc::transition();
    if (clusters > pts.size()) {
        MC_CHECK(mc::throws([&] { svs::train_impl(p, data, pool(threads), watch); }), "too-many", where(), " was accepted");
        return;
    }
    auto result = svs::train_impl(p, data, pool(threads), watch);
    MC_CHECK(result.size() == clusters && result.dimensions() == d, "shape", where(), " gave ", result.size(), "x", result.dimensions());
    auto got = rows(result);
    float lo = 1e30f, hi = -1e30f;
    for (auto& x : pts) {
        for (auto v : x) {
            lo = std::min(lo, v);
            hi = std::max(hi, v);
        }
    }
    for (auto& c : got) {
        for (auto v : c) {
            MC_CHECK(std::isfinite(v) && v >= lo - 1e-3f && v <= hi + 1e-3f, "finite", where(), " gave ", show(got));
        }
    }
    MC_CHECK(seen.size() == epochs && (epochs == 0 || seen.back() == got), "epochs", where(), " had ", seen.size(), " epochs");
    // It starts from distinct vectors of the dataset.
    auto start = rows(svs::train_impl(svs::KMeansParameters{clusters, batch, 0, seed}, data, pool(1)));
    std::multiset<Point> pool_of(pts.begin(), pts.end());
    for (auto& c : start) {
        auto it = pool_of.find(c);
        MC_CHECK(it != pool_of.end(), "start", where(), " starts from ", show(start));
        pool_of.erase(it);
    }
    std::vector<long> counts(clusters), old(clusters);
    Points c = start;
    for (size_t e = 0; e < epochs; ++e) {
        if (!epoch(pts, c, counts, old, batch)) {
            mc::count("ties");
            break;
        }
        for (size_t k = 0; k < clusters; ++k) {
            for (size_t j = 0; j < d; ++j) {
                MC_CHECK(std::fabs(c[k][j] - seen[e][k][j]) <= 1e-3 * (1 + std::fabs(c[k][j])), "training", where(), " after epoch ", e, " has ", show(seen[e]), " instead of ", show(c));
            }
        }
        c = seen[e]; // no accumulated rounding
        mc::evaluation();
    }
    if (clusters == 0) {
        return;
    }
    // Error and nearest centroid of the result.
    double error = 0;
    for (auto& x : pts) {
        double best = 1e300;
        for (auto& k : got) {
            best = std::min(best, truth(svs::DistanceL2(), x, k));
        }
        error += best / pts.size();
        auto n = svs::find_nearest(lib::as_const_span(x), result);
        MC_CHECK(n.id() < clusters && close(n.distance(), best) && close(truth(svs::DistanceL2(), x, got[n.id()]), best), "nearest", where(), ": ", mc::list(x), " is assigned to ", n.id(), " of ", show(got));
    }
    double mse = svs::mean_squared_error(data, result, pool(threads));
    MC_CHECK(std::fabs(mse - error) <= 1e-4 * (1 + error), "error", where(), " has error ", error, " reported as ", mse);
    mc::outcome(mc::hash(show(got)));
    mc::trace();
}
static void trainings(const Points& alphabet, size_t n) {
    size_t total = 1;
    for (size_t i = 0; i < n; ++i) {
        total *= alphabet.size();
    }
    for (size_t code = 0; code < total; ++code) {
        mc::run([&] { return mc::str("training ", n, " of ", show(alphabet), " #", code); }, [&] {
            Points pts;
            for (size_t i = 0, x = code; i < n; ++i, x /= alphabet.size()) {
                pts.push_back(alphabet[x % alphabet.size()]);
            }
            for (size_t clusters = 0; clusters <= n + 2; ++clusters) {
                for (size_t batch = 1; batch <= n + 1; ++batch) {
                    for (size_t epochs : {0, 1, 3}) {
                        for (size_t seed = 0; seed < (epochs == 1 ? 12 : 3); ++seed) {
                            if (clusters == 0 && (epochs > 0 || seed > 0)) {
                                continue; // nothing to assign to
                            }
                            training<float>(pts, clusters, batch, epochs, seed * 977 + code, 1 + (seed == 1));
                        }
                    }
                }
            }
            MC_CHECK(mc::throws([&] { svs::train_impl(svs::KMeansParameters{1, 0, 1, 1}, dataset(pts), pool(1)); }), "batch", "a minibatch of nothing was accepted");
            mc::state(mc::str("training", n, show(alphabet), code));
        });
    }
}
// Long enough for more than one chunk of the parallel loops.
static void long_training(size_t n, size_t clusters, size_t batch) {
    mc::run([&] { return mc::str("training ", n, " into ", clusters, " batch ", batch); }, [&] {
        Points pts(n, Point(2));
        for (size_t i = 0; i < n; ++i) {
            for (size_t j = 0; j < 2; ++j) {
                pts[i][j] = float(mc::mix(i + n, j) % 199);
            }
        }
        for (size_t threads : {1, 2, 3}) {
            for (size_t seed = 0; seed < (threads == 1 ? 3 : 1); ++seed) {
                training<float>(pts, clusters, batch, 2, seed, threads);
                training<uint8_t>(pts, clusters, batch, 2, seed, threads);
            }
        }
        mc::state(mc::str("long", n, clusters, batch));
    });
}

static void selections() {
    for (size_t n = 1; n <= 12; ++n) {
        mc::run([&] { return mc::str("selections of ", n); }, [&] {
            for (size_t k = 0; k <= n + 2; ++k) {
                for (uint64_t seed = 0; seed < 50; ++seed) {
                    mc::transition();
                    if (k > n) {
                        MC_CHECK(mc::throws([&] { svs::index::inverted::randomly_select_centroids<uint32_t>(n, k, seed); }), "too-many", k, " of ", n, " was accepted");
                        continue;
                    }
                    auto v = svs::index::inverted::randomly_select_centroids<uint32_t>(n, k, seed);
                    MC_CHECK(v.size() == k && std::is_sorted(v.begin(), v.end()) && std::adjacent_find(v.begin(), v.end()) == v.end() && (k == 0 || v.back() < n), "selection", k, " of ", n, " seed ", seed, " gave ", mc::list(v));
                    MC_CHECK(v == svs::index::inverted::randomly_select_centroids<uint32_t>(n, k, seed), "selection", "the same seed gave another selection");
                    mc::outcome(mc::hash(mc::list(v)));
                    mc::evaluation();
                }
            }
            mc::state(mc::str("select", n));
            mc::trace();
        });
    }
}

static void body() {
    auto logger = svs::logging::get();
    svs::logging::set_level(logger, svs::logging::Level::Off);
    bool deep = mc::thorough();
    for (size_t n = 1; n <= (deep ? 4 : 3); ++n) {
        small(n, 1);
        small(n, 2);
    }
    if (!deep) {
        small(4, 1);
    } else {
        small(2, 3);
        small(6, 1);
    }
    for (size_t n = 4; n <= (deep ? 80 : 33); ++n) {
        if (deep || n <= 10 || n % 16 < 2 || n % 16 == 15) {
            longer(n);
        }
    }
    huge();
    const Points line = {{0}, {1}, {10}, {-4}}, plane = {{0, 0}, {1, 2}, {8, -3}};
    for (size_t n = 1; n <= (deep ? 5 : 4); ++n) {
        trainings(line, n);
        trainings(plane, n);
    }
    for (size_t n : {127, 128, 129, 256, 300, 513}) {
        for (size_t batch : {size_t(50), size_t(128), size_t(130), n}) {
            long_training(n, 3, batch);
            long_training(n, 7, batch);
        }
    }
    selections();
}
MC_MAIN("C31", body)
