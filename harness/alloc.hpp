// Allocation under control: every allocation made while armed is numbered, the chosen ones fail, and
// ones above a limit fail.  Covers operator new in all forms and the C functions called from code of
// the library (headers included); link with
//   -Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=posix_memalign,--wrap=aligned_alloc,--wrap=free
// Include in exactly one source of a harness.
#pragma once
#include <atomic>
#include <cerrno>
#include <cstddef>
#include <cstdlib>
#include <new>
#include <execinfo.h>

extern "C"
{
void * __real_malloc(size_t); void * __real_calloc(size_t, size_t); void * __real_realloc(void *, size_t);
int __real_posix_memalign(void **, size_t, size_t); void * __real_aligned_alloc(size_t, size_t); void __real_free(void *);
}

namespace oom
{
inline std::atomic<long> live{0};           // blocks in use
inline std::atomic<long> seen{0};           // allocations since arming
inline std::atomic<long> failed{0};         // ... of which failed
inline std::atomic<size_t> largest{0};      // largest request since arming
inline std::atomic<bool> armed{false};
inline long fail_at = 0;                    // the number of the first allocation to fail; 0: none
inline long fail_to = 0;                    // and of the last one
inline size_t limit = SIZE_MAX;             // greater ones fail
inline bool (*spare)() = nullptr;           // says whether the current allocation is one that is not to fail

inline bool refuse(size_t n)
{
    if (!armed.load(std::memory_order_relaxed)) return false;
    long const k = ++seen;
    for (size_t l = largest; n > l && !largest.compare_exchange_weak(l, n); ) { }
    bool r = n > limit;
    if (!r && fail_at && k >= fail_at && k <= fail_to)
    {
        armed = false; r = !spare || !spare(); armed = true;
    }
    if (r) ++failed;
    if (r && getenv("VF_OOM_TRACE")) { armed = false; void * at[60]; backtrace_symbols_fd(at, backtrace(at, 60), 2); armed = true; }
    return r;
}
inline void arm(long from = 0, long to = 0, size_t most = SIZE_MAX) { fail_at = from; fail_to = to; limit = most; seen = 0; failed = 0; largest = 0; armed = true; }
inline void disarm() { armed = false; }
inline void * got(void * p) { if (p) ++live; return p; }
inline void * take(size_t n, size_t al)
{
    if (refuse(n)) return nullptr;
    void * p = nullptr;
    if (al <= alignof (std::max_align_t)) p = __real_malloc(n ? n : 1);
    else if (__real_posix_memalign(&p, al, n)) p = nullptr;
    return got(p);
}
inline void * must(size_t n, size_t al) { if (auto p = take(n, al)) return p; throw std::bad_alloc(); }
inline void give(void * p) { if (p) { --live; __real_free(p); } }
}

extern "C"
{
void * __wrap_malloc(size_t n) { return oom::refuse(n) ? nullptr : oom::got(__real_malloc(n)); }
void * __wrap_calloc(size_t n, size_t m) { return oom::refuse(n * m) ? nullptr : oom::got(__real_calloc(n, m)); }
void * __wrap_realloc(void * p, size_t n)
{
    if (oom::refuse(n)) return nullptr;
    void * q = __real_realloc(p, n);
    if (!p && q) ++oom::live;
    return q;
}
int __wrap_posix_memalign(void ** p, size_t a, size_t n)
{
    if (oom::refuse(n)) return ENOMEM;
    int const r = __real_posix_memalign(p, a, n);
    if (!r && *p) ++oom::live;
    return r;
}
void * __wrap_aligned_alloc(size_t a, size_t n) { return oom::refuse(n) ? nullptr : oom::got(__real_aligned_alloc(a, n)); }
void __wrap_free(void * p) { oom::give(p); }
}

void * operator new(size_t n) { return oom::must(n, 1); }
void * operator new[](size_t n) { return oom::must(n, 1); }
void * operator new(size_t n, std::nothrow_t const &) noexcept { return oom::take(n, 1); }
void * operator new[](size_t n, std::nothrow_t const &) noexcept { return oom::take(n, 1); }
void * operator new(size_t n, std::align_val_t a) { return oom::must(n, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a) { return oom::must(n, (size_t)a); }
void * operator new(size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return oom::take(n, (size_t)a); }
void * operator new[](size_t n, std::align_val_t a, std::nothrow_t const &) noexcept { return oom::take(n, (size_t)a); }
void operator delete(void * p) noexcept { oom::give(p); }
void operator delete[](void * p) noexcept { oom::give(p); }
void operator delete(void * p, size_t) noexcept { oom::give(p); }
void operator delete[](void * p, size_t) noexcept { oom::give(p); }
void operator delete(void * p, std::nothrow_t const &) noexcept { oom::give(p); }
void operator delete[](void * p, std::nothrow_t const &) noexcept { oom::give(p); }
void operator delete(void * p, std::align_val_t) noexcept { oom::give(p); }
void operator delete[](void * p, std::align_val_t) noexcept { oom::give(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { oom::give(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { oom::give(p); }
void operator delete(void * p, std::align_val_t, std::nothrow_t const &) noexcept { oom::give(p); }
void operator delete[](void * p, std::align_val_t, std::nothrow_t const &) noexcept { oom::give(p); }
