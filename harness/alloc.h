// Replacement of operator new that counts live and peak bytes and refuses to exceed a cap (std::bad_alloc), so that
// memory use can be measured and a file that declares absurd sizes cannot exhaust the machine. Include in one
// translation unit of a harness.
#pragma once
#include <malloc.h>

#include <atomic>
#include <cstdlib>
#include <new>

namespace alloc {
inline std::atomic<size_t>& live()
{
    static std::atomic<size_t> v{0};
    return v;
}
inline std::atomic<size_t>& peak()
{
    static std::atomic<size_t> v{0};
    return v;
}
inline std::atomic<size_t>& cap()
{
    static std::atomic<size_t> v{SIZE_MAX};
    return v;
}
inline void reset_peak() { peak() = live().load(); }

// Faults: the allocations of a call are counted, and some of them fail.
struct Fault
{
    bool on = false;
    size_t count = 0; // allocations so far
    size_t first = SIZE_MAX, last = 0; // those that fail
};
inline Fault& fault()
{
    static Fault f;
    return f;
}

inline void* get(size_t n)
{
    Fault& f = fault();
    if (f.on) {
        const size_t i = f.count++;
        if (i >= f.first && i <= f.last) return nullptr;
    }
    if (n > cap() || live() + n > cap()) return nullptr;
    void* p = malloc(n ? n : 1);
    if (!p) return nullptr;
    size_t l = live() += malloc_usable_size(p);
    size_t k = peak();
    while (k < l && !peak().compare_exchange_weak(k, l)) {
    }
    return p;
}
inline void put(void* p)
{
    if (!p) return;
    live() -= malloc_usable_size(p);
    free(p);
}
} // namespace alloc

__attribute__((noinline)) void* operator new(size_t n)
{
    void* p = alloc::get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
__attribute__((noinline)) void* operator new[](size_t n)
{
    void* p = alloc::get(n);
    if (!p) throw std::bad_alloc();
    return p;
}
__attribute__((noinline)) void* operator new(size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
__attribute__((noinline)) void* operator new[](size_t n, const std::nothrow_t&) noexcept { return alloc::get(n); }
__attribute__((noinline)) void operator delete(void* p) noexcept { alloc::put(p); }
__attribute__((noinline)) void operator delete[](void* p) noexcept { alloc::put(p); }
__attribute__((noinline)) void operator delete(void* p, size_t) noexcept { alloc::put(p); }
__attribute__((noinline)) void operator delete[](void* p, size_t) noexcept { alloc::put(p); }
__attribute__((noinline)) void operator delete(void* p, const std::nothrow_t&) noexcept { alloc::put(p); }
__attribute__((noinline)) void operator delete[](void* p, const std::nothrow_t&) noexcept { alloc::put(p); }
