// C32, several threads: every schedule of allocations and releases on a stand-in kernel that hands
// out a released address again at once.
#include "sched/vs.h"

static void* fake_mmap(void*, size_t, int, int, int, off_t);
static int fake_munmap(void*, size_t);
#define mmap fake_mmap
#define munmap fake_munmap
#include "svs/core/allocator.h"
#undef mmap
#undef munmap

struct Kernel {
    std::map<size_t, size_t> live; // address in 1 GB units (nothing is ever touched), size
    std::string error;
    unsigned refuse = 0; // page sizes that are refused: bit 0 1 GB, bit 1 2 MB
};
static Kernel kernel;
constexpr size_t base = size_t(1) << 40, unit = size_t(1) << 31;

static void* fake_mmap(void*, size_t n, int, int flags, int, off_t) {
    vs::point();
    vs::Quiet q;
    size_t page = (flags & MAP_HUGETLB) ? size_t(1) << ((size_t(flags) >> MAP_HUGE_SHIFT) & MAP_HUGE_MASK) : 4096;
    if ((page >> 30 && (kernel.refuse & 1)) || (page >> 21 == 1 && (kernel.refuse & 2))) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    size_t p = base;
    while (kernel.live.count(p)) {
        p += unit;
    }
    kernel.live[p] = (n + page - 1) / page * page;
    return reinterpret_cast<void*>(p);
}
static int fake_munmap(void* p, size_t n) {
    vs::point();
    vs::Quiet q;
    auto it = kernel.live.find(reinterpret_cast<size_t>(p));
    if (it == kernel.live.end()) {
        kernel.error = "an address was released that is not mapped";
        return 0;
    }
    if (it->second != n) {
        kernel.error = mc::str("a mapping of ", it->second, " bytes was released with ", n);
    }
    kernel.live.erase(it);
    return 0;
}

using svs::detail::GenericHugepageAllocator;

// Operations: digit: allocate that many MB; f: free the oldest own; F: free the oldest of the allocations
// made beforehand; t: look at the table
static void threads(const std::vector<std::string>& progs, unsigned refuse, int bound) {
    vs::Options o;
    o.bound = bound;
    std::string error;
    size_t left = 0, held = 0;
    vs::check(
        o,
        [&] {
            {
                vs::Quiet q;
                kernel = {};
                kernel.refuse = refuse;
            }
            std::vector<void*> early;
            for (auto& p : progs) {
                for (char c : p) {
                    if (c == 'F') {
                        early.push_back(GenericHugepageAllocator().allocate(5 << 20));
                    }
                }
            }
            std::vector<size_t> keeps(progs.size());
            auto work = [&](size_t me) {
                size_t next = 0;
                for (size_t i = 0; i < me; ++i) {
                    next += std::count(progs[i].begin(), progs[i].end(), 'F');
                }
                std::vector<std::pair<void*, size_t>> mine;
                for (char c : progs[me]) {
                    try {
                        if (c == 'f') {
                            auto p = mine.front().first;
                            mine.erase(mine.begin());
                            GenericHugepageAllocator::deallocate(p);
                        } else if (c == 'F') {
                            GenericHugepageAllocator::deallocate(early.at(next++));
                        } else if (c == 't') {
                            auto t = GenericHugepageAllocator::get_allocations();
                            for (auto& [p, n] : mine) {
                                auto it = t.find(p);
                                VS_CHECK(it != t.end() && it->second >= n, "table", "a live allocation is not in the table");
                            }
                        } else {
                            size_t n = size_t(c - '0') << 20;
                            auto p = GenericHugepageAllocator().allocate(n);
                            mine.push_back({p, n});
                            vs::Quiet q;
                            auto it = kernel.live.find(reinterpret_cast<size_t>(p));
                            VS_CHECK(it != kernel.live.end() && it->second >= n, "size", "an allocation is not backed by memory");
                        }
                    } catch (const std::exception& e) { VS_CHECK(false, "failed", "operation ", c, " of thread ", me, ": ", e.what()); }
                }
                for (auto& [p, n] : mine) {
                    try {
                        GenericHugepageAllocator::deallocate(p);
                    } catch (const std::exception& e) { VS_CHECK(false, "failed", "release of thread ", me, ": ", e.what()); }
                }
            };
            {
                std::vector<std::thread> ts;
                for (size_t i = 1; i < progs.size(); ++i) {
                    ts.emplace_back([&work, i] { work(i); });
                }
                work(0);
                for (auto& t : ts) {
                    t.join();
                }
            }
            held = GenericHugepageAllocator::get_allocations().size();
            vs::Quiet q;
            left = kernel.live.size();
            error = kernel.error;
        },
        [&] {
            VS_CHECK(error.empty(), "account", error);
            VS_CHECK(left == 0 && held == 0, "leak", left, " mappings and ", held, " entries are left");
        }
    );
}

static void body() {
    int bound = mc::thorough() ? 4 : 3;
    std::vector<std::string> progs = {"1", "1f", "13", "1f3", "1ft", "F", "F1", "1F", "Ft1", "13ff", "1f1f"};
    for (size_t a = 0; a < progs.size(); ++a) {
        for (size_t b = a; b < progs.size(); ++b) {
            for (unsigned refuse : {0, 1, 3}) {
                mc::run([&] { return mc::str("threads ", progs[a], " ", progs[b], " refuse ", refuse); }, [&] { threads({progs[a], progs[b]}, refuse, bound); });
            }
            for (auto& c : {"1f3", "F1"}) {
                mc::run([&] { return mc::str("threads ", progs[a], " ", progs[b], " ", c); }, [&] { threads({progs[a], progs[b], c}, 3, bound); });
            }
        }
    }
}
MC_MAIN("C32", body)
