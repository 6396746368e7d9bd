// Memory-access tracing of code compiled with -fsanitize=kernel-address: every load and store of the code under test
// calls rw::access(), at every size (vector registers included).
#pragma once
#include "mc.hpp"

namespace rw
{
// set by the harness; called before every access of instrumented code
inline void (*hook)(uintptr_t a, size_t n, bool write) = nullptr;
// set by the harness; told about every block the code under test allocates
inline void (*on_alloc)(void* p, size_t n) = nullptr;
} // namespace rw

#ifdef RW_DEFINE
extern "C"
{
#define RW_CB(N)                                                                                                        \
    void __asan_load##N##_noabort(uintptr_t a)                                                                          \
    {                                                                                                                   \
        if (rw::hook)                                                                                                   \
            rw::hook(a, N, false);                                                                                      \
    }                                                                                                                   \
    void __asan_store##N##_noabort(uintptr_t a)                                                                         \
    {                                                                                                                   \
        if (rw::hook)                                                                                                   \
            rw::hook(a, N, true);                                                                                       \
    }
    RW_CB(1) RW_CB(2) RW_CB(4) RW_CB(8) RW_CB(16)
    void __asan_loadN_noabort(uintptr_t a, size_t n)
    {
        if (rw::hook)
            rw::hook(a, n, false);
    }
    void __asan_storeN_noabort(uintptr_t a, size_t n)
    {
        if (rw::hook)
            rw::hook(a, n, true);
    }
    void* __asan_memcpy(void* d, const void* s, size_t n)
    {
        if (rw::hook && n)
            rw::hook((uintptr_t)s, n, false), rw::hook((uintptr_t)d, n, true);
        return memcpy(d, s, n);
    }
    void* __asan_memmove(void* d, const void* s, size_t n)
    {
        if (rw::hook && n)
            rw::hook((uintptr_t)s, n, false), rw::hook((uintptr_t)d, n, true);
        return memmove(d, s, n);
    }
    void* __asan_memset(void* d, int v, size_t n)
    {
        if (rw::hook && n)
            rw::hook((uintptr_t)d, n, true);
        return memset(d, v, n);
    }
    void __asan_handle_no_return() {}
    void* __real_malloc(size_t n);
    void* __wrap_malloc(size_t n)
    {
        void* p = __real_malloc(n);
        if (rw::on_alloc && p)
            rw::on_alloc(p, n);
        return p;
    }
}
#endif
