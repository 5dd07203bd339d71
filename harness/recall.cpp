// C30: recall is the number of true neighbours among the considered results over the number
// considered. Every pair of ground-truth and result lists of a small alphabet, every list
// length, every pair of considered counts, as datasets, arrays, query results and views.
#include "mc.h"
#include "svs/core/data.h"
#include "svs/core/query_result.h"
#include "svs/core/recall.h"

#include <numeric>

using Lists = std::vector<std::vector<uint64_t>>;

template <typename T> svs::data::SimpleData<T> dataset(const Lists& l, size_t dims) {
    svs::data::SimpleData<T> d(l.size(), dims);
    for (size_t i = 0; i < l.size(); ++i) {
        std::vector<T> v(l[i].begin(), l[i].end());
        d.set_datum(i, std::span<const T>(v));
    }
    return d;
}
template <typename T> svs::Matrix<T> matrix(const Lists& l, size_t dims) {
    svs::Matrix<T> d(svs::make_dims(l.size(), dims));
    for (size_t i = 0; i < l.size(); ++i) {
        for (size_t j = 0; j < dims; ++j) {
            d.at(i, j) = T(l[i][j]);
        }
    }
    return d;
}
template <typename T> svs::QueryResult<T> query_result(const Lists& l, size_t dims) {
    svs::QueryResult<T> d(l.size(), dims);
    for (size_t i = 0; i < l.size(); ++i) {
        for (size_t j = 0; j < dims; ++j) {
            d.index(i, j) = T(l[i][j]);
            d.distance(i, j) = float(j);
        }
    }
    return d;
}

static size_t common(const std::vector<uint64_t>& a, size_t k, const std::vector<uint64_t>& b, size_t n) {
    size_t c = 0;
    for (size_t i = 0; i < k; ++i) {
        bool repeated = false, there = false;
        for (size_t j = 0; j < i; ++j) {
            repeated |= a[j] == a[i];
        }
        for (size_t j = 0; j < n; ++j) {
            there |= b[j] == a[i];
        }
        c += !repeated && there;
    }
    return c;
}

// Returns the recall or a negative number if the request was refused.
template <typename G, typename R> double ask(const G& g, const R& r, size_t k, size_t n) {
    double x = -1;
    if (mc::throws([&] { x = svs::k_recall_at_n(g, r, k, n); })) {
        return -1;
    }
    return x;
}

template <typename G, typename R>
void judge(const G& g, const R& r, const Lists& gl, const Lists& rl, size_t gd, size_t rd, const char* what) {
    for (size_t k = 0; k <= std::max(gd, rd) + 1; ++k) {
        for (size_t n = 0; n <= rd + 1; ++n) {
            size_t kk = k ? k : rd, nn = n ? n : rd;
            bool fine = gl.size() == rl.size() && kk <= nn && kk <= gd && nn <= rd;
            double got = ask(g, r, k, n);
            mc::evaluation();
            if (!fine) {
                MC_CHECK(got == -1, "refuse", what, ": recall(", k, ",", n, ") of lists of length ", gd, " (", gl.size(), ") and ", rd, " (", rl.size(), ") gave ", got);
                continue;
            }
            size_t c = 0;
            for (size_t i = 0; i < gl.size(); ++i) {
                c += common(gl[i], kk, rl[i], nn);
            }
            double want = double(c) / double(kk * gl.size());
            MC_CHECK(got >= 0, "refuse", what, ": recall(", k, ",", n, ") of lists of length ", gd, " and ", rd, " was refused");
            MC_CHECK(std::fabs(got - want) < 1e-12, "recall", what, ": recall(", k, ",", n, ") is ", got, " instead of ", want, " for ground truth ", mc::list(gl[0]), " and results ", mc::list(rl[0]));
            mc::outcome(mc::hash(mc::str(want)));
        }
    }
}

static void lists(size_t len, size_t alphabet, bool distinct, auto&& f) {
    std::vector<uint64_t> cur;
    auto go = [&](auto&& self) -> void {
        if (cur.size() == len) {
            f(cur);
            return;
        }
        for (uint64_t x = 0; x < alphabet; ++x) {
            if (distinct && std::find(cur.begin(), cur.end(), x) != cur.end()) {
                continue;
            }
            cur.push_back(x);
            self(self);
            cur.pop_back();
        }
    };
    go(go);
}

template <typename GT, typename RT> void all_forms(const Lists& gl, const Lists& rl, size_t gd, size_t rd) {
    auto gdata = dataset<GT>(gl, gd);
    auto rdata = dataset<RT>(rl, rd);
    auto gm = matrix<GT>(gl, gd);
    auto rm = matrix<RT>(rl, rd);
    auto rq = query_result<RT>(rl, rd);
    judge(gdata, rdata, gl, rl, gd, rd, "dataset, dataset");
    judge(gdata, rq, gl, rl, gd, rd, "dataset, query result");
    judge(gm, rm, gl, rl, gd, rd, "matrix, matrix");
    judge(gm, rq, gl, rl, gd, rd, "matrix, query result");
    judge(query_result<GT>(gl, gd), rq, gl, rl, gd, rd, "query result, query result");
    judge(gdata.cview(), rq.view(), gl, rl, gd, rd, "view, query result view");
}

int main(int argc, char** argv) {
    mc::init(argc, argv);
    size_t most = mc::thorough() ? 5 : 4;
    // One query, every pair of lists.
    for (size_t gd = 1; gd <= most; ++gd) {
        for (size_t rd = 1; rd <= most; ++rd) {
            lists(gd, 5, true, [&](const std::vector<uint64_t>& g) {
                // up to renaming of identifiers the ground truth is a prefix of 0,1,2,...; the
                // real lists are kept, but only increasing and decreasing ones.
                if (!std::is_sorted(g.begin(), g.end()) && !std::is_sorted(g.rbegin(), g.rend())) {
                    return;
                }
                mc::run([&] { return mc::str("ground truth ", mc::list(g), ", all results of length ", rd); }, [&] {
                    lists(rd, 5, false, [&](const std::vector<uint64_t>& r) {
                        auto rr = r;
                        for (auto& x : rr) {
                            if (x == 4) {
                                x = 0xFFFFFFFFu; // the filler of short answers
                            }
                        }
                        Lists gl{g}, rl{rr};
                        judge(dataset<uint32_t>(gl, gd), query_result<uint32_t>(rl, rd), gl, rl, gd, rd, "dataset, query result");
                        mc::transition();
                    });
                    mc::state(mc::hash(mc::str(mc::list(g), rd)));
                    mc::trace();
                });
            });
        }
    }
    // Several queries, every form, several element types.
    for (size_t q = 1; q <= 4; ++q) {
        for (size_t q2 = 1; q2 <= 4; ++q2) {
            for (size_t gd = 1; gd <= 3; ++gd) {
                for (size_t rd = 1; rd <= 3; ++rd) {
                    mc::run([&] { return mc::str(q, " and ", q2, " queries, lengths ", gd, " and ", rd); }, [&] {
                        for (uint64_t seed = 0; seed < 60; ++seed) {
                            Lists gl, rl;
                            for (size_t i = 0; i < q; ++i) {
                                gl.emplace_back();
                                for (size_t j = 0; j < gd; ++j) {
                                    gl.back().push_back((seed + 3 * i + 2 * j) % 7);
                                }
                            }
                            for (size_t i = 0; i < q2; ++i) {
                                rl.emplace_back();
                                for (size_t j = 0; j < rd; ++j) {
                                    rl.back().push_back((seed / 7 + 2 * i + (seed % 5) * j) % 7);
                                }
                            }
                            all_forms<uint32_t, uint32_t>(gl, rl, gd, rd);
                            all_forms<uint32_t, size_t>(gl, rl, gd, rd);
                            all_forms<uint64_t, uint32_t>(gl, rl, gd, rd);
                            all_forms<int32_t, size_t>(gl, rl, gd, rd);
                            all_forms<uint8_t, uint64_t>(gl, rl, gd, rd);
                            mc::transition(5);
                        }
                        mc::state(mc::hash(mc::str(q, q2, gd, rd)));
                        mc::trace();
                    });
                }
            }
        }
    }
    // Identifiers that agree only in their low halves are different.
    mc::run([] { return std::string("wide identifiers"); }, [] {
        std::vector<uint64_t> ids{0, 1, 255, 256, 257, 65535, 65536, 0x7FFFFFFF, 0x80000000u, 0xFFFFFFFFu};
        std::vector<uint64_t> wide = ids;
        for (auto x : ids) {
            wide.push_back(x + (uint64_t(1) << 32));
            wide.push_back(x + (uint64_t(1) << 40));
            wide.push_back(x + (uint64_t(1) << 63));
        }
        for (auto a : wide) {
            for (auto b : ids) {
                Lists gl{{a, 7}}, rl{{b, 9}};
                judge(dataset<uint64_t>(gl, 2), query_result<uint32_t>(rl, 2), gl, rl, 2, 2, "u64, u32");
                judge(matrix<uint32_t>(rl, 2), query_result<size_t>(gl, 2), rl, gl, 2, 2, "u32, u64");
                mc::transition();
            }
            for (auto b : wide) {
                Lists gl{{a, 7}}, rl{{b, 9}};
                judge(dataset<uint64_t>(gl, 2), query_result<size_t>(rl, 2), gl, rl, 2, 2, "u64, u64");
            }
        }
        mc::trace();
    });
    // Many neighbours and queries.
    for (size_t d : {10, 100, 1000}) {
        for (size_t q : {1, 7, 50}) {
            mc::run([&] { return mc::str(q, " queries of ", d, " neighbours"); }, [&] {
                for (size_t shift = 0; shift <= d; shift += d / 10) {
                    Lists gl, rl;
                    for (size_t i = 0; i < q; ++i) {
                        std::vector<uint64_t> g(d), r(d);
                        std::iota(g.begin(), g.end(), i);
                        for (size_t j = 0; j < d; ++j) {
                            r[j] = i + shift + (i % 2 ? j : d - 1 - j);
                        }
                        gl.push_back(g);
                        rl.push_back(r);
                    }
                    double got = ask(dataset<uint32_t>(gl, d), query_result<size_t>(rl, d), 0, 0);
                    MC_CHECK(std::fabs(got - double(d - shift) / double(d)) < 1e-12, "recall", "recall of lists overlapping in ", d - shift, " of ", d, " is ", got);
                    mc::evaluation();
                }
                mc::trace();
            });
        }
    }
    return mc::finish();
}
