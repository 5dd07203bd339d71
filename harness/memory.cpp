// C32: memory. Every short history of allocations and mappings on a stand-in for the kernel's
// memory calls that may refuse any of them, and that accounts for every byte.
#include "kit.h"
#include "svs/core/allocator.h"
#include "svs/core/logging.h"
#include "svs/lib/threads/threadlocal.h"

#include <cstdarg>

using namespace kit;
using std::string;
namespace lib = svs::lib;
namespace fs = std::filesystem;

extern "C" {
void* __real_mmap(void*, size_t, int, int, int, off_t);
int __real_munmap(void*, size_t);
int __real_open(const char*, int, ...);
int __real_close(int);
off_t __real_lseek(int, off_t, int);
ssize_t __real_write(int, const void*, size_t);
}

// The faults of one execution: all combinations are enumerated depth first.
struct Faults {
    std::vector<std::pair<int, int>> path;
    size_t pos = 0, limit = 0;
    bool on = false;
    bool refuse() {
        if (!on || pos >= limit) {
            return false;
        }
        if (pos == path.size()) {
            path.push_back({0, 2});
        }
        return path[pos++].first != 0;
    }
    bool next() {
        while (!path.empty() && path.back().first == 1) {
            path.pop_back();
        }
        if (path.empty()) {
            return false;
        }
        path.back().first = 1;
        return true;
    }
    string str() const {
        string s;
        for (size_t i = 0; i < pos; ++i) {
            s += path[i].first ? 'x' : '.';
        }
        return s.empty() ? "none" : s;
    }
};
static Faults faults;

struct Map {
    size_t n, page;
    int prot, flags;
};
struct Kernel {
    bool on = false;
    char* arena = nullptr;
    size_t size = size_t(1) << 38;
    std::map<char*, Map> live;
    std::set<int> files;
    size_t calls = 0, refused = 0, all_small_refused = 0;
    string error;
    long fail_new = -1; // this many more allocations of ordinary memory succeed
    bool inside = false;
    void reset() {
        if (!arena) {
            arena = static_cast<char*>(__real_mmap(nullptr, size, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
            MC_CHECK(arena != MAP_FAILED, "harness", "no room for the arena");
            size_t g = size_t(1) << 30;
            arena = reinterpret_cast<char*>((reinterpret_cast<size_t>(arena) + g - 1) / g * g);
            size -= g;
        }
        on = false;
        for (auto& [p, n] : svs::detail::GenericHugepageAllocator::get_allocations()) {
            try {
                svs::detail::GenericHugepageAllocator::deallocate(p); // left by a failed case
            } catch (const std::exception&) {}
            __real_mmap(p, n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        }
        for (auto& [p, m] : live) {
            __real_mmap(p, m.n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
        }
        live.clear();
        files.clear();
        error.clear();
        calls = refused = 0;
        fail_new = -1;
        on = true;
    }
};
static Kernel kernel;
struct Inside {
    bool old = kernel.inside;
    Inside() { kernel.inside = true; }
    ~Inside() { kernel.inside = old; }
};

static bool deny_new() {
    if (!kernel.on || kernel.inside || kernel.fail_new < 0) {
        return false;
    }
    return kernel.fail_new-- == 0;
}
// Sizes and alignments handed to the ordinary memory functions must agree.
struct Head {
    size_t n, align, magic;
    void* base;
};
static void* take(size_t n, size_t align) {
    if (n > (size_t(1) << 40) || deny_new()) {
        throw std::bad_alloc();
    }
    size_t room = (sizeof(Head) + align - 1) / align * align;
    void* base = nullptr;
    if (posix_memalign(&base, std::max(align, size_t(16)), room + n) != 0) {
        throw std::bad_alloc();
    }
    char* p = static_cast<char*>(base) + room;
    Head h{n, align, 0x5157, base};
    std::memcpy(p - sizeof(Head), &h, sizeof(h));
    return p;
}
static void give(void* p, size_t n, size_t align) {
    if (!p) {
        return;
    }
    Head h;
    std::memcpy(&h, static_cast<char*>(p) - sizeof(Head), sizeof(h));
    if (kernel.on && !kernel.inside && kernel.error.empty() && ((n != size_t(-1) && n != h.n) || align != h.align)) {
        Inside in;
        kernel.error = mc::str("memory of ", h.n, " bytes aligned to ", h.align, " was returned as ", n, " bytes aligned to ", align);
    }
    std::free(h.base);
}
static constexpr size_t usual = __STDCPP_DEFAULT_NEW_ALIGNMENT__;
void* operator new(size_t n) { return take(n, usual); }
void* operator new[](size_t n) { return take(n, usual); }
void* operator new(size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void* operator new[](size_t n, std::align_val_t a) { return take(n, size_t(a)); }
void operator delete(void* p) noexcept { give(p, -1, usual); }
void operator delete[](void* p) noexcept { give(p, -1, usual); }
void operator delete(void* p, size_t n) noexcept { give(p, n, usual); }
void operator delete[](void* p, size_t n) noexcept { give(p, n, usual); }
void operator delete(void* p, std::align_val_t a) noexcept { give(p, -1, size_t(a)); }
void operator delete[](void* p, std::align_val_t a) noexcept { give(p, -1, size_t(a)); }
void operator delete(void* p, size_t n, std::align_val_t a) noexcept { give(p, n, size_t(a)); }
void operator delete[](void* p, size_t n, std::align_val_t a) noexcept { give(p, n, size_t(a)); }

extern "C" {
void* __wrap_mmap(void* addr, size_t n, int prot, int flags, int fd, off_t off) {
    if (!kernel.on) {
        return __real_mmap(addr, n, prot, flags, fd, off);
    }
    Inside in;
    ++kernel.calls;
    size_t page = 4096;
    if (flags & MAP_HUGETLB) {
        size_t shift = (size_t(flags) >> MAP_HUGE_SHIFT) & MAP_HUGE_MASK;
        page = size_t(1) << (shift ? shift : 21);
    }
    if (n == 0 || addr != nullptr || n > kernel.size) {
        errno = n > kernel.size ? ENOMEM : EINVAL;
        return MAP_FAILED;
    }
    if (faults.refuse()) {
        ++kernel.refused;
        errno = ENOMEM;
        return MAP_FAILED;
    }
    n = (n + page - 1) / page * page;
    char* p = kernel.arena;
    auto up = [&](char* x) { return kernel.arena + (size_t(x - kernel.arena) + page - 1) / page * page; };
    for (auto& [q, m] : kernel.live) {
        if (q >= p + n) {
            break;
        }
        p = up(std::max(p, q + m.n));
    }
    if (p + n > kernel.arena + kernel.size) {
        errno = ENOMEM;
        return MAP_FAILED;
    }
    int real = (flags & (MAP_SHARED | MAP_PRIVATE | MAP_ANONYMOUS)) | MAP_FIXED | MAP_NORESERVE;
    if (__real_mmap(p, n, prot, real, fd, off) == MAP_FAILED) {
        return MAP_FAILED;
    }
    kernel.live[p] = {n, page, prot, flags};
    return p;
}
int __wrap_munmap(void* p, size_t n) {
    if (!kernel.on) {
        return __real_munmap(p, n);
    }
    Inside in;
    ++kernel.calls;
    auto it = kernel.live.find(static_cast<char*>(p));
    if (it == kernel.live.end()) {
        kernel.error = "an address that is not mapped was unmapped";
        return 0; // as the kernel does
    }
    auto& m = it->second;
    if (n == 0 || (m.page > 4096 && n % m.page != 0)) {
        errno = EINVAL;
        return -1;
    }
    n = (n + 4095) / 4096 * 4096;
    if (n != m.n) {
        kernel.error = mc::str("a mapping of ", m.n, " bytes was unmapped with ", n);
    }
    __real_mmap(p, m.n, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED, -1, 0);
    kernel.live.erase(it);
    return 0;
}
int __wrap_open(const char* path, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    int mode = (flags & O_CREAT) ? va_arg(ap, int) : 0;
    va_end(ap);
    if (!kernel.on) {
        return __real_open(path, flags, mode);
    }
    Inside in;
    if (faults.refuse()) {
        errno = EMFILE;
        return -1;
    }
    int fd = __real_open(path, flags, mode);
    if (fd >= 0) {
        kernel.files.insert(fd);
    }
    return fd;
}
int __wrap_close(int fd) {
    if (kernel.on) {
        Inside in;
        if (!kernel.files.erase(fd)) {
            kernel.error = mc::str("file ", fd, " was closed but is not open");
            return -1;
        }
    }
    return __real_close(fd);
}
off_t __wrap_lseek(int fd, off_t off, int whence) {
    if (kernel.on && faults.refuse()) {
        errno = EINVAL;
        return -1;
    }
    return __real_lseek(fd, off, whence);
}
ssize_t __wrap_write(int fd, const void* p, size_t n) {
    if (kernel.on && faults.refuse()) {
        errno = ENOSPC;
        return -1;
    }
    return __real_write(fd, p, n);
}
}

static auto table() { return svs::detail::GenericHugepageAllocator::get_allocations(); }

// The allocator's table and the kernel agree.
static void agree(const string& where) {
    Inside in;
    MC_CHECK(kernel.error.empty(), "account", where, ": ", kernel.error);
    auto t = table();
    MC_CHECK(t.size() == kernel.live.size(), "account", where, ": the table has ", t.size(), " entries for ", kernel.live.size(), " mappings");
    for (auto& [p, m] : kernel.live) {
        auto it = t.find(static_cast<void*>(p));
        MC_CHECK(it != t.end() && it->second == m.n, "account", where, ": a mapping of ", m.n, " bytes is not in the table");
    }
    mc::evaluation();
}
static void none_left(const string& where) {
    Inside in;
    MC_CHECK(kernel.error.empty(), "account", where, ": ", kernel.error);
    MC_CHECK(kernel.live.empty(), "leak", where, ": ", kernel.live.size(), " mappings are left");
    MC_CHECK(kernel.files.empty(), "leak", where, ": ", kernel.files.size(), " files are left open");
}
// Run `f` under every combination of up to `limit` faults (refusals at the first `limit` calls).
template <typename F> static void all_faults(size_t limit, F&& f) {
    faults = {};
    faults.limit = limit;
    do {
        kernel.reset();
        faults.pos = 0;
        struct Off {
            ~Off() {
                faults.on = false;
                kernel.on = false;
            }
        } off;
        faults.on = true;
        f();
        mc::trace();
        mc::outcome(faults.str());
    } while (faults.next());
}

// Is this memory writable for the kernel too (no fault is taken)?
static bool writable(void* p) {
    static int zero = __real_open("/dev/zero", O_RDONLY);
    return ::read(zero, p, 1) == 1;
}

// Allocator histories -------------------------------------------------------------------------------
struct Live {
    char* p;
    size_t n;
    unsigned char tag;
};
// Fill the ends of an allocation, check them.
static void paint(const Live& x) {
    size_t k = std::min<size_t>(x.n, 64);
    std::memset(x.p, x.tag, k);
    std::memset(x.p + x.n - k, x.tag, k);
    if (x.n > 4096) {
        x.p[x.n / 2] = char(x.tag);
    }
}
static bool painted(const Live& x) {
    size_t k = std::min<size_t>(x.n, 64);
    for (size_t i = 0; i < k; ++i) {
        if ((unsigned char)x.p[i] != x.tag || (unsigned char)x.p[x.n - k + i] != x.tag) {
            return false;
        }
    }
    return x.n <= 4096 || (unsigned char)x.p[x.n / 2] == x.tag;
}

struct Op {
    int kind; // 0 allocate, 1 free (the k-th live one), 2 free something unknown
    size_t n = 0;
    bool force = false;
    string str() const { return kind == 0 ? mc::str(force ? "F" : "A", n) : kind == 1 ? mc::str("free", n) : "freeunknown"; }
};
static string show(const std::vector<Op>& ops) {
    string s;
    for (auto& o : ops) {
        s += o.str() + " ";
    }
    return s;
}
template <typename T> static void history(const std::vector<Op>& ops, long fail_new) {
    auto where = [&] { return mc::str(show(ops), "elements of ", sizeof(T), " refusals ", faults.str(), " ordinary memory ", fail_new); };
    std::vector<Live> live;
    unsigned char tag = 1;
    kernel.fail_new = fail_new;
    for (auto& o : ops) {
        mc::transition();
        size_t refused = kernel.refused;
        if (o.kind == 0) {
            svs::HugepageAllocator<T> a = o.force ? svs::HugepageAllocator<T>(true) : svs::HugepageAllocator<T>();
            svs::HugepageAllocator<char> other(a);
            svs::HugepageAllocator<T> again(other); // the setting survives rebinding
            T* p = nullptr;
            bool threw = false;
            long before = kernel.fail_new;
            try {
                p = again.allocate(o.n);
            } catch (const std::exception&) {
                threw = true;
            }
            Inside in;
            bool denied = before >= 0 && kernel.fail_new < 0;
            size_t r = kernel.refused - refused;
            if (threw) {
                MC_CHECK(r == (o.force ? 2 : 3) || denied || o.n > (size_t(1) << 36), "refused", where(), ": ", o.str(), " failed after ", r, " refusals");
            } else {
                Live x{reinterpret_cast<char*>(p), std::max<size_t>(o.n * sizeof(T), 0), tag++};
                MC_CHECK(p != nullptr && reinterpret_cast<size_t>(p) % std::max<size_t>(alignof(T), 64) == 0, "alignment", where(), ": ", o.str(), " gave ", p);
                MC_CHECK(o.n <= size_t(-1) / sizeof(T), "size", where(), ": ", o.str(), " of ", sizeof(T), " bytes each succeeded");
                auto it = kernel.live.upper_bound(x.p);
                bool ok = it != kernel.live.begin();
                if (ok) {
                    --it;
                    ok = x.p + x.n <= it->first + it->second.n && (it->second.prot & PROT_WRITE) && (it->second.prot & PROT_READ) && (it->second.flags & MAP_ANONYMOUS) && (it->second.flags & MAP_PRIVATE);
                    MC_CHECK(!o.force || it->second.page > 4096, "force", where(), ": ", o.str(), " got ordinary pages");
                }
                MC_CHECK(ok, "size", where(), ": ", o.str(), " is not inside usable memory");
                for (auto& y : live) {
                    MC_CHECK(x.p + x.n <= y.p || y.p + y.n <= x.p || x.n == 0 || y.n == 0, "overlap", where(), ": ", o.str(), " overlaps another one");
                    MC_CHECK(x.p != y.p, "overlap", where(), ": ", o.str(), " has the address of another one");
                }
                if (x.n) {
                    paint(x);
                }
                live.push_back(x);
            }
        } else if (o.kind == 1) {
            if (o.n >= live.size()) {
                continue;
            }
            auto x = live[o.n];
            MC_CHECK(x.n == 0 || painted(x), "content", where(), ": memory changed before ", o.str());
            try {
                svs::HugepageAllocator<T>().deallocate(reinterpret_cast<T*>(x.p), x.n / sizeof(T));
            } catch (const std::exception& e) { mc::fail("free", where() + ": " + o.str() + " failed: " + e.what()); }
            Inside in;
            live.erase(live.begin() + o.n);
            for (auto& y : live) {
                MC_CHECK(y.n == 0 || painted(y), "content", where(), ": memory changed after ", o.str());
            }
        } else {
            char here;
            size_t calls = kernel.calls;
            MC_CHECK(mc::throws([&] { svs::HugepageAllocator<T>().deallocate(&here, 1); }), "unknown", where(), ": an unknown pointer was released");
            MC_CHECK(kernel.calls == calls, "unknown", where(), ": an unknown pointer reached the kernel");
        }
        string w;
        {
            Inside in;
            w = where();
        }
        agree(w);
        Inside in;
        mc::state(mc::mix(kernel.live.size(), mc::hash(faults.str())));
    }
    kernel.fail_new = -1;
    Inside in;
    for (auto& x : live) {
        svs::HugepageAllocator<T>().deallocate(reinterpret_cast<T*>(x.p), x.n / sizeof(T));
    }
    none_left(where());
}
template <typename T> static void histories(size_t depth, const std::vector<size_t>& sizes, bool ordinary) {
    std::vector<Op> alphabet;
    for (auto n : sizes) {
        alphabet.push_back({0, n, false});
        alphabet.push_back({0, n, true});
    }
    for (size_t k = 0; k + 1 < depth; ++k) {
        alphabet.push_back({1, k});
    }
    alphabet.push_back({2});
    std::vector<size_t> at(depth, 0);
    while (true) {
        std::vector<Op> ops;
        for (auto x : at) {
            ops.push_back(alphabet[x]);
        }
        size_t live = 0;
        bool sense = true;
        for (auto& o : ops) {
            live += o.kind == 0;
            sense = sense && (o.kind != 1 || o.n < live);
            live -= o.kind == 1;
        }
        if (sense) {
            mc::run([&] { return mc::str("allocate ", sizeof(T), ": ", show(ops), ordinary ? "ordinary" : ""); }, [&] {
                if (!ordinary) {
                    all_faults(12, [&] { history<T>(ops, -1); });
                } else {
                    for (long k = 0; k < 12; ++k) {
                        all_faults(1, [&] { history<T>(ops, k); });
                    }
                }
            });
        }
        size_t i = 0;
        while (i < depth && ++at[i] == alphabet.size()) {
            at[i++] = 0;
        }
        if (i == depth) {
            break;
        }
    }
}

// Containers on top of it -----------------------------------------------------------------------------
// A slot is known (its rows are those of `rows`), or only fit to be assigned or destroyed.
template <typename D> struct Slot {
    std::optional<D> d;
    bool known = false;
    size_t n = 0, tag = 0;
};
template <typename D> static typename D::element_type value(size_t tag, size_t i, size_t j) { return typename D::element_type((tag * 31 + i * 7 + j) % 120); }
template <typename D> static D build(size_t n, size_t d, size_t tag) {
    D x(n, d);
    std::vector<typename D::element_type> row(d);
    for (size_t i = 0; i < n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            row[j] = value<D>(tag, i, j);
        }
        x.set_datum(i, std::span<const typename D::element_type>(row));
    }
    return x;
}
template <typename D> static void same(const Slot<D>& s, size_t d, const string& where) {
    if (!s.d || !s.known) {
        return;
    }
    Inside in;
    MC_CHECK(s.d->size() == s.n && s.d->dimensions() == d, "content", where, ": the size is ", s.d->size(), " instead of ", s.n);
    for (size_t i = 0; i < s.n; ++i) {
        for (size_t j = 0; j < d; ++j) {
            MC_CHECK(s.d->get_datum(i)[j] == value<D>(s.tag, i, j), "content", where, ": row ", i, " is not what was stored");
        }
    }
    mc::evaluation();
}
// ops: digit pairs; kinds below
template <typename D, bool Resize> static void containers(const char* name, const std::vector<size_t>& sizes, size_t d, size_t depth) {
    // n: new (size k), c: copy-construct from the other, m: move-construct from the other, C: copy-assign,
    // M: move-assign, s: swap, x: destroy, r: resize to size k
    std::vector<string> alphabet;
    for (char slot : {'0', '1'}) {
        for (size_t k = 0; k < sizes.size(); ++k) {
            alphabet.push_back(string("n") + slot + char('0' + k));
            if (Resize) {
                alphabet.push_back(string("r") + slot + char('0' + k));
            }
        }
        for (char o : {'c', 'm', 'C', 'M', 'x'}) {
            alphabet.push_back(string(1, o) + slot);
        }
    }
    alphabet.push_back("s");
    std::vector<size_t> at(depth, 0);
    while (true) {
        bool starts = alphabet[at[0]][0] == 'n';
        if (starts) {
            mc::run([&] {
                string s = name;
                for (auto a : at) {
                    s += " " + alphabet[a];
                }
                return s;
            }, [&] {
                all_faults(depth > 3 ? 4 : 6, [&] {
                    std::array<Slot<D>, 2> slots;
                    size_t tag = 0;
                    string sofar;
                    for (auto a : at) {
                        auto& op = alphabet[a];
                        {
                            Inside in;
                            sofar += " " + op;
                        }
                        mc::transition();
                        size_t which = op.size() > 1 ? op[1] - '0' : 0;
                        auto &x = slots[which], &y = slots[1 - which];
                        size_t n = op.size() > 2 ? sizes[op[2] - '0'] : 0;
                        size_t refused = kernel.refused;
                        auto assigned = [&] { std::tie(x.known, x.n, x.tag) = std::tuple(true, y.n, y.tag); };
                        bool threw = false;
                        try {
                            switch (op[0]) {
                                case 'n':
                                    x.d.reset();
                                    ++tag;
                                    x.d.emplace(build<D>(n, d, tag));
                                    std::tie(x.known, x.n, x.tag) = std::tuple(true, n, tag);
                                    break;
                                case 'c':
                                    x.d.reset();
                                    if (y.d && y.known) {
                                        x.d.emplace(*y.d);
                                        assigned();
                                    }
                                    break;
                                case 'm':
                                    x.d.reset();
                                    if (y.d && y.known) {
                                        x.d.emplace(std::move(*y.d));
                                        assigned();
                                        y.known = false;
                                    }
                                    break;
                                case 'C':
                                    if (x.d && y.d && y.known) {
                                        x.known = false;
                                        *x.d = *y.d;
                                        assigned();
                                    }
                                    break;
                                case 'M':
                                    if (x.d && y.d && y.known) {
                                        x.known = false;
                                        *x.d = std::move(*y.d);
                                        assigned();
                                        y.known = false;
                                    }
                                    break;
                                case 's':
                                    if (x.d && y.d) {
                                        std::swap(*x.d, *y.d);
                                        std::swap(x.known, y.known);
                                        std::swap(x.n, y.n);
                                        std::swap(x.tag, y.tag);
                                    }
                                    break;
                                case 'r':
                                    if constexpr (Resize) {
                                        if (x.d && x.known) {
                                            bool grows = n > x.n;
                                            x.known = false;
                                            x.d->resize(n);
                                            x.n = n;
                                            x.known = !grows; // the new rows are arbitrary
                                            if (grows) {
                                                ++tag;
                                                auto fresh = build<svs::data::SimpleData<typename D::element_type>>(n, d, tag);
                                                for (size_t i = 0; i < n; ++i) {
                                                    x.d->set_datum(i, fresh.get_datum(i));
                                                }
                                                x.known = true;
                                                x.tag = tag;
                                            }
                                        }
                                    }
                                    break;
                                default: x.d.reset();
                            }
                        } catch (const std::exception&) { threw = true; }
                        Inside in;
                        MC_CHECK(!threw || kernel.refused > refused, "refused", sofar, " failed without a refusal; refusals ", faults.str());
                        auto where = mc::str(name, sofar, " refusals ", faults.str());
                        agree(where);
                        same(slots[0], d, where);
                        same(slots[1], d, where);
                        mc::state(mc::mix(mc::hash(sofar), mc::hash(faults.str())));
                    }
                    slots = {};
                    none_left(sofar);
                });
            });
        }
        size_t i = 0;
        while (i < depth && ++at[i] == alphabet.size()) {
            at[i++] = 0;
        }
        if (i == depth) {
            break;
        }
    }
}

// Ordinary allocators -----------------------------------------------------------------------------------
template <typename A> static void ordinary(const char* name, size_t align) {
    using T = typename A::value_type;
    mc::run([&] { return string("ordinary ") + name; }, [&] {
        kernel.reset();
        struct Off {
            ~Off() { kernel.on = false; }
        } off;
        std::vector<Live> live;
        A a;
        for (size_t n : {0, 1, 2, 3, 5, 7, 8, 15, 16, 17, 63, 64, 65, 127, 128, 129, 1000, 4097}) {
            T* p = a.allocate(n);
            Inside in;
            Live x{reinterpret_cast<char*>(p), n * sizeof(T), (unsigned char)(n + 1)};
            MC_CHECK(reinterpret_cast<size_t>(p) % align == 0, "alignment", name, ": ", n, " elements at ", static_cast<void*>(p));
            for (auto& y : live) {
                MC_CHECK(x.p + x.n <= y.p || y.p + y.n <= x.p, "overlap", name, ": ", n, " elements overlap others");
            }
            if (n) {
                paint(x);
            }
            live.push_back(x);
            mc::transition();
        }
        for (size_t i = 0; i < live.size(); ++i) {
            auto& x = live[(i * 7) % live.size()];
            MC_CHECK(x.n == 0 || painted(x), "content", name, ": changed");
            a.deallocate(reinterpret_cast<T*>(x.p), x.n / sizeof(T));
            MC_CHECK(kernel.error.empty(), "account", name, ": ", kernel.error);
            mc::evaluation();
        }
        for (size_t n : {size_t(-1), size_t(-1) / sizeof(T), size_t(-1) / sizeof(T) + 1, size_t(-1) / sizeof(T) + 2, size_t(-1) / sizeof(T) - 30, size_t(1) << 62}) {
            if (n < (size_t(1) << 50)) {
                continue; // wrapped around
            }
            bool got = false;
            T* p = nullptr;
            try {
                p = a.allocate(n);
                got = true;
            } catch (const std::exception&) {}
            MC_CHECK(!got, "size", name, ": ", n, " elements of ", sizeof(T), " bytes were allocated at ", static_cast<void*>(p));
            mc::evaluation();
        }
        // Growing and shrinking containers.
        if constexpr (requires { a == a; })
        for (size_t n : {0, 1, 3, 64}) {
            std::vector<T, A> v(n), w(v), z(std::move(w));
            v.resize(2 * n + 1);
            w = v;
            v.shrink_to_fit();
            z = std::move(v);
            std::swap(w, z);
        }
        MC_CHECK(kernel.error.empty(), "account", name, ": ", kernel.error);
        mc::state(name);
        mc::trace();
    });
}
template <typename T> static void per_thread(const char* name) {
    mc::run([&] { return string("per-thread values ") + name; }, [&] {
        for (size_t n = 1; n <= 9; ++n) {
            for (size_t to = 0; to <= 9; ++to) {
                kernel.reset();
                struct Off {
                    ~Off() { kernel.on = false; }
                } off;
                {
                    svs::threads::SequentialTLS<T> a(T{}, n);
                    a.resize(to);
                    size_t m = std::max<size_t>(to, 1);
                    MC_CHECK(a.size() == m, "size", name, ": ", n, " resized to ", to, " has ", a.size());
                    auto b = a;
                    auto c = std::move(a);
                    a = svs::threads::SequentialTLS<T>(b);
                    for (auto* x : {&b, &c, &a}) {
                        MC_CHECK(x->size() == m, "size", name, ": a copy has ", x->size());
                        char* last = nullptr;
                        size_t seen = 0;
                        x->visit([&](T& v) {
                            char* p = reinterpret_cast<char*>(&v);
                            MC_CHECK(reinterpret_cast<size_t>(p) % 64 == 0 && (!last || p >= last + 64), "overlap", name, ": values of two threads share a cache line");
                            last = p;
                            MC_CHECK(&v == &x->at(seen) && &v == &(*x)[seen], "size", name, ": another order");
                            ++seen;
                        });
                        MC_CHECK(seen == m, "size", name, ": ", seen, " of ", m, " were visited");
                        MC_CHECK(mc::throws([&] { x->at(m); }), "size", name, ": access beyond the end");
                        mc::transition();
                    }
                }
                Inside in;
                MC_CHECK(kernel.error.empty(), "account", name, ": ", kernel.error);
                mc::evaluation();
            }
        }
        mc::state(string("tls") + name);
        mc::trace();
    });
}

// Files ---------------------------------------------------------------------------------------------------
static fs::path here() {
    auto p = fs::path(mc::ex().scratch) / mc::str("memory.", ::getpid());
    fs::create_directories(p);
    return p;
}
static char pattern(size_t i) { return char(i * 131 + (i >> 8) + 1); }
static void put(const fs::path& p, size_t n) {
    std::ofstream f(p, std::ios::binary);
    string s(n, 0);
    for (size_t i = 0; i < n; ++i) {
        s[i] = pattern(i);
    }
    f.write(s.data(), n);
}
static string get(const fs::path& p) {
    std::ifstream f(p, std::ios::binary);
    return {std::istreambuf_iterator<char>(f), {}};
}
static void file_cases() {
    using M = svs::MemoryMapper;
    const std::vector<long> contents = {-2, -1, 0, 1, 4095, 4096, 4097, 10000}; // directory, absent
    for (auto perm : {M::ReadOnly, M::ReadWrite}) {
        for (auto policy : {M::MustUseExisting, M::MustCreate, M::MayCreate}) {
            for (long have : contents) {
                for (size_t want : {0, 1, 2, 4095, 4096, 4097, 8192, 10000, 10001}) {
                    mc::run([&] { return mc::str("file perm ", int(perm), " policy ", int(policy), " has ", have, " map ", want); }, [&] {
                        all_faults(5, [&] {
                            kernel.on = false;
                            auto dir = here();
                            auto path = dir / "f";
                            fs::remove_all(path);
                            if (have == -2) {
                                fs::create_directory(path);
                            } else if (have >= 0) {
                                put(path, have);
                            }
                            auto where = [&] { return mc::str("permission ", int(perm), " policy ", int(policy), " file ", have, " bytes, mapping ", want, " refusals ", faults.str()); };
                            M mapper(perm, policy);
                            MC_CHECK(mapper.permission() == perm && mapper.policy() == policy, "accessors", where());
                            kernel.on = true;
                            svs::MMapPtr<void> ptr;
                            bool threw = false;
                            try {
                                ptr = mapper.mmap(path, lib::Bytes(want));
                            } catch (const std::exception&) { threw = true; }
                            kernel.on = false;
                            mc::transition();
                            string f = faults.str();
                            // The repositioning before the mapping may fail without harm.
                            bool refused = f.find('x') != string::npos;
                            bool fine = want > 0 && have != -2 && (have == -1 ? policy != M::MustUseExisting : policy != M::MustCreate && want <= size_t(have));
                            MC_CHECK(kernel.error.empty(), "account", where(), ": ", kernel.error);
                            MC_CHECK(kernel.files.empty(), "leak", where(), ": a file is left open");
                            MC_CHECK(fine || threw, "policy", where(), " was accepted");
                            MC_CHECK(!threw || !fine || refused, "policy", where(), " was refused");
                            if (threw) {
                                MC_CHECK(kernel.live.empty(), "leak", where(), ": a mapping is left");
                                if (have >= 0) {
                                    MC_CHECK(long(fs::file_size(path)) == have, "content", where(), ": a refused file changed");
                                }
                                if (!refused) {
                                    MC_CHECK((have == -1) == !fs::exists(path), "policy", where(), ": a refused file was created");
                                }
                                fs::remove_all(dir);
                                return;
                            }
                            MC_CHECK(kernel.live.size() == 1 && ptr.base() == kernel.live.begin()->first && ptr.data() == ptr.base() && ptr.size() == want && bool(ptr), "mapping", where(), ": size ", ptr.size());
                            auto& m = kernel.live.begin()->second;
                            MC_CHECK(m.n >= want && (m.flags & MAP_SHARED), "mapping", where(), ": the mapping has ", m.n, " bytes");
                            auto* bytes = static_cast<char*>(ptr.data());
                            for (size_t i = 0; i < want; ++i) {
                                MC_CHECK(bytes[i] == (have == -1 ? 0 : pattern(i)), "content", where(), ": byte ", i);
                            }
                            MC_CHECK(have != -1 || fs::file_size(path) == want, "content", where(), ": the file has ", fs::file_size(path), " bytes");
                            bool w = writable(bytes);
                            MC_CHECK(w == (perm == M::ReadWrite), "permission", where(), ": the mapping is ", w ? "" : "not ", "writable");
                            string expect = have == -1 ? string(want, 0) : get(path);
                            if (w) {
                                for (size_t i : {size_t(0), want / 2, want - 1}) {
                                    bytes[i] = char(i + 77);
                                    expect[i] = char(i + 77);
                                }
                            }
                            kernel.on = true;
                            ptr.unmap();
                            kernel.on = false;
                            MC_CHECK(!ptr && ptr.base() == nullptr && ptr.size() == 0, "mapping", where(), ": not empty after unmapping");
                            none_left(where());
                            MC_CHECK(get(path) == expect, "content", where(), ": the file's content");
                            fs::remove_all(dir);
                            mc::evaluation();
                        });
                        mc::state(mc::str(int(perm), int(policy), have, want));
                    });
                }
            }
        }
    }
}
// Pointers to mappings: map, move, release in every order.
static void pointer_histories(size_t depth) {
    // p: new mapping in slot, a: assign from the other, c: build from the other, u: unmap, z: assign empty, o: set the offset, v: through an untyped pointer
    std::vector<string> alphabet;
    for (char slot : {'0', '1'}) {
        for (char o : {'p', 'a', 'c', 'u', 'z', 'o', 'v'}) {
            alphabet.push_back(string(1, o) + slot);
        }
    }
    std::vector<size_t> at(depth, 0);
    while (true) {
        mc::run([&] {
            string s = "pointers";
            for (auto a : at) {
                s += " " + alphabet[a];
            }
            return s;
        }, [&] {
            auto dir = here();
            auto path = dir / "g";
            put(path, 9000);
            kernel.reset();
            struct Off {
                ~Off() { kernel.on = false; }
            } off;
            svs::MemoryMapper mapper;
            using P = svs::MMapPtr<int32_t>;
            {
                std::array<std::unique_ptr<P>, 2> p = {std::make_unique<P>(), std::make_unique<P>(nullptr)};
                struct Model {
                    void* base = nullptr;
                    size_t n = 0, offset = 0;
                };
                std::array<Model, 2> model;
                string sofar = "pointers";
                size_t bytes = 4096;
                for (auto a : at) {
                    auto& op = alphabet[a];
                    sofar += " " + op;
                    size_t i = op[1] - '0';
                    std::map<char*, Map> before = kernel.live;
                    auto fresh = [&] {
                        for (auto& [q, m] : kernel.live) {
                            if (!before.count(q) && q != model[1 - i].base) {
                                return static_cast<void*>(q);
                            }
                        }
                        return kernel.live.empty() ? nullptr : static_cast<void*>(nullptr);
                    };
                    switch (op[0]) {
                        case 'p':
                        case 'v': {
                            bytes = bytes == 4096 ? 9000 : 4096;
                            auto untyped = mapper.mmap(path, lib::Bytes(bytes));
                            auto* base = fresh();
                            if (op[0] == 'p') {
                                *p[i] = P(std::move(untyped));
                            } else {
                                svs::MMapPtr<void> second(std::move(untyped));
                                MC_CHECK(!untyped && untyped.size() == 0, "ownership", sofar, ": the source still owns");
                                svs::MMapPtr<void> third;
                                third = std::move(second);
                                p[i] = std::make_unique<P>(std::move(third));
                                MC_CHECK(!second && !third, "ownership", sofar, ": the source still owns");
                            }
                            MC_CHECK(!untyped && untyped.data() == nullptr && untyped.base() == nullptr, "ownership", sofar, ": the source still owns");
                            model[i] = {base, bytes, 0};
                            break;
                        }
                        case 'a':
                            *p[i] = std::move(*p[1 - i]);
                            model[i] = std::exchange(model[1 - i], {});
                            break;
                        case 'c': {
                            auto q = std::make_unique<P>(std::move(*p[1 - i]));
                            p[i] = std::move(q);
                            model[i] = std::exchange(model[1 - i], {});
                            break;
                        }
                        case 'u':
                            p[i]->unmap();
                            model[i] = {};
                            break;
                        case 'z':
                            *p[i] = P(nullptr);
                            model[i] = {};
                            break;
                        default:
                            if (model[i].base) {
                                model[i].offset = 1024;
                                p[i]->setoffset(1024);
                            }
                    }
                    mc::transition();
                    MC_CHECK(kernel.error.empty(), "account", sofar, ": ", kernel.error);
                    size_t live = 0;
                    for (size_t k : {0, 1}) {
                        auto& m = model[k];
                        auto& x = *p[k];
                        live += m.base != nullptr;
                        const auto& cx = x;
                        MC_CHECK(x.base() == m.base && cx.base() == m.base && x.size() == m.n && bool(x) == (m.base != nullptr), "ownership", sofar, ": pointer ", k);
                        if (m.base) {
                            MC_CHECK(reinterpret_cast<char*>(x.data()) == static_cast<char*>(m.base) + m.offset && cx.data() == x.data(), "offset", sofar, ": pointer ", k);
                            MC_CHECK(kernel.live.count(static_cast<char*>(m.base)), "ownership", sofar, ": pointer ", k, " is not mapped");
                            int32_t v = *x.data();
                            char want[4] = {pattern(m.offset), pattern(m.offset + 1), pattern(m.offset + 2), pattern(m.offset + 3)};
                            MC_CHECK(std::memcmp(&v, want, 4) == 0, "content", sofar, ": pointer ", k);
                        }
                    }
                    MC_CHECK((*p[0] == *p[1]) == (!model[0].base && !model[1].base), "equality", sofar);
                    MC_CHECK(kernel.live.size() == live, "leak", sofar, ": ", kernel.live.size(), " mappings for ", live, " pointers");
                    mc::state(sofar);
                    mc::evaluation();
                }
            }
            none_left("pointers");
            kernel.on = false;
            fs::remove_all(dir);
            mc::trace();
        });
        size_t i = 0;
        while (i < depth && ++at[i] == alphabet.size()) {
            at[i++] = 0;
        }
        if (i == depth) {
            break;
        }
    }
}

static void body() {
    auto logger = svs::logging::get();
    svs::logging::set_level(logger, svs::logging::Level::Off);
    bool deep = mc::thorough();
    struct Odd {
        char x[3];
    };
    histories<uint32_t>(4, {0, 1, 1025, 524289}, false);
    histories<uint64_t>(2, {0, 511, 512, 513, 262143, 262144, 262145, (size_t(1) << 27) - 1, (size_t(1) << 27) + 1, (size_t(1) << 61) + 1, size_t(1) << 61, size_t(-1), (size_t(1) << 61) - 1}, false);
    histories<Odd>(2, {1, 1365, 1366, 699051, size_t(-1) / 3 + 2}, false);
    histories<uint32_t>(deep ? 3 : 2, {1, 524289}, true);
    using H = svs::HugepageAllocator<float>;
    containers<svs::data::SimpleData<float, svs::Dynamic, H>, false>("dataset", {0, 3, 1100}, 2, deep ? 4 : 3);
    containers<svs::data::SimpleData<int8_t, 3, svs::HugepageAllocator<int8_t>>, false>("fixed dataset", {1, 5}, 3, 3);
    using B = svs::data::Blocked<H>;
    struct Block : svs::data::SimpleData<float, svs::Dynamic, B> {
        using base = svs::data::SimpleData<float, svs::Dynamic, B>;
        Block(size_t n, size_t d)
            : base(n, d, B(svs::data::BlockingParameters{.blocksize_bytes = lib::PowerOfTwo(5)})) {}
    };
    containers<Block, true>("blocked dataset", {0, 3, 9}, 2, deep ? 4 : 3);
    ordinary<lib::Allocator<char>>("bytes", 1);
    ordinary<lib::Allocator<double>>("doubles", 8);
    ordinary<lib::Allocator<Odd>>("triples", 1);
    struct alignas(128) Wide {
        char x[200];
    };
    ordinary<lib::Allocator<Wide>>("wide", 128);
    ordinary<svs::threads::CacheAlignedAllocator<char>>("aligned bytes", 64);
    ordinary<svs::threads::CacheAlignedAllocator<double>>("aligned doubles", 64);
    ordinary<svs::threads::CacheAlignedAllocator<Odd>>("aligned triples", 64);
    ordinary<svs::threads::AlignedAllocator<float, 4096>>("page-aligned floats", 4096);
    ordinary<svs::threads::AlignedAllocator<Wide, 256>>("aligned wide", 256);
    per_thread<int>("numbers");
    per_thread<std::vector<int>>("vectors");
    per_thread<Wide>("wide");
    per_thread<std::array<char, 65>>("65 bytes");
    file_cases();
    pointer_histories(deep ? 5 : 4);
}
MC_MAIN("C32", body)
