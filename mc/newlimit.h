// Under the address sanitizer an oversized `operator new` ends the process instead of throwing.
// These replacements restore the standard behaviour for checks that read damaged sizes.
#pragma once
#include <cstdlib>
#include <new>

inline void* mc_limited_new(std::size_t n, std::size_t align) {
    if (n > (std::size_t(1) << 30)) {
        throw std::bad_alloc();
    }
    void* p = nullptr;
    if (::posix_memalign(&p, align < sizeof(void*) ? sizeof(void*) : align, n ? n : 1) != 0) {
        throw std::bad_alloc();
    }
    return p;
}
void* operator new(std::size_t n) { return mc_limited_new(n, 16); }
void* operator new[](std::size_t n) { return mc_limited_new(n, 16); }
void* operator new(std::size_t n, std::align_val_t a) { return mc_limited_new(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return mc_limited_new(n, std::size_t(a)); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t) noexcept { std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::align_val_t) noexcept { std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { std::free(p); }
