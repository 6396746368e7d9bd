// C13: the aligned, reference-counted allocator, from C++ and through the C interface. The system allocator underneath is
// replaced by one whose results take every misalignment, and fail, as the engine chooses.
#include <kfr/base.hpp>
#include <kfr/capi.h>
#include "util.hpp"
using namespace kfr;

struct Sys
{
    bool on = false;
    std::vector<size_t> mis; // offsets the next results take modulo the alignment under test
    size_t next = 0;
    int fail_at = -1, calls = 0;
    size_t last_size = 0;
    std::map<void*, std::pair<void*, size_t>> live; // handed out -> (real block, size)
    std::string bad;
};
static Sys sys_;
static size_t g_align = 64, g_mis = 0;
extern "C"
{
    void* __real_malloc(size_t n);
    void __real_free(void* p);
    void* __wrap_malloc(size_t n)
    {
        if (!sys_.on)
            return __real_malloc(n);
        sys_.on = false;
        void* r = nullptr;
        sys_.last_size = n;
        if (sys_.calls++ != sys_.fail_at && n < (size_t(1) << 40))
        {
            // the first 16-byte aligned address that is `mis` modulo the alignment
            char* real   = (char*)__real_malloc(n + 2 * g_align + 32);
            size_t a     = std::max<size_t>(g_align, 16);
            uintptr_t b  = ((uintptr_t)real + a - 1) / a * a + g_mis;
            char* p      = (char*)b;
            memset(real, 0x5A, p - real);
            memset(p, 0xCD, n);
            memset(p + n, 0x5B, real + n + 2 * g_align + 32 - (p + n));
            r = p;
            sys_.live[p] = { real, n };
        }
        sys_.on = true;
        return r;
    }
    void __wrap_free(void* p)
    {
        if (!p)
            return;
        bool was = sys_.on;
        sys_.on  = false;
        auto it  = sys_.live.find(p);
        if (it != sys_.live.end())
        {
            char *real = (char*)it->second.first, *q = (char*)p;
            size_t n   = it->second.second;
            for (char* s = real; s < q; s++)
                if (*s != 0x5A)
                    sys_.bad = "the bytes before a block were changed";
            for (char* s = q + n; s < real + n + 2 * g_align + 32; s++)
                if (*s != 0x5B)
                    sys_.bad = "the bytes after a block were changed";
            sys_.live.erase(it);
            __real_free(real);
        }
        else if (was)
            sys_.bad = "a pointer that was not allocated, or is already free, is freed";
        else
            __real_free(p);
        sys_.on = was;
    }
}
struct On
{
    On() { sys_.on = true; }
    ~On() { sys_.on = false; }
};
static void reset()
{
    sys_.on      = false;
    sys_.calls   = 0;
    sys_.fail_at = -1;
    sys_.live.clear();
    sys_.bad.clear();
}
static void verdict(mc::Ctx& c)
{
    sys_.on = false;
    MC_CHECK(c, sys_.bad.empty(), "%s", sys_.bad.c_str());
}
static unsigned char pat(size_t i, int s) { return (unsigned char)(i * 7 + s * 31 + 1); }

// through which interface
static void* api_alloc(int api, size_t n, size_t a)
{
    On on;
    switch (api)
    {
    case 0:
        return details::aligned_malloc(n, a);
    case 1:
        return kfr_allocate_aligned(n, a);
    case 2:
        return aligned_allocate<void>(n, a);
    case 3:
        return a == 64 ? kfr_allocate(n) : kfr_allocate_aligned(n, a);
    default:
        return a == 64 ? (void*)aligned_allocate<u8>(n) : (void*)aligned_allocate<u8>(n, a);
    }
}
static void* api_realloc(int api, void* p, size_t n, size_t a)
{
    On on;
    if (api == 0)
        return details::aligned_reallocate(p, n, a);
    if (api == 3 && a == 64)
        return kfr_reallocate(p, n);
    return kfr_reallocate_aligned(p, n, a);
}
static void api_free(int api, void* p)
{
    On on;
    if (api == 0)
        details::aligned_free(p);
    else if (api == 1)
        kfr_deallocate(p);
    else if (api == 2)
        aligned_deallocate((u8*)p);
    else
        kfr_release(p);
}
static void api_ref(int api, void* p)
{
    On on;
    if (api & 1)
        kfr_add_ref(p);
    else
        details::aligned_add_ref(p);
}
static size_t api_size(int api, void* p) { return api & 1 ? kfr_allocated_size(p) : details::aligned_size(p); }

static void params(mc::Ctx& c, int la)
{
    size_t a = size_t(1) << la;
    reset();
    g_align = a;
    std::vector<size_t> miss;
    for (size_t m = 0; m < std::max<size_t>(a, 16); m += 16)
        if (m < 256 || m + 256 >= a || (m & (m - 16)) == 0 || mc::thorough())
            miss.push_back(m);
    g_mis   = c.pick(miss, "malloc misaligned by");
    int api = c.choose(5, "interface");
    for (size_t n : { 0, 1, 2, 3, 7, 8, 15, 16, 17, 31, 63, 64, 65, 100, 4095, 70000 })
    {
        void* p = api_alloc(api, n, a);
        verdict(c);
        MC_CHECK(c, p, "a request for %zu bytes aligned to %zu is refused", n, a);
        MC_CHECK(c, (uintptr_t)p % a == 0, "block of %zu bytes is not aligned to %zu", n, a);
        size_t sz = api_size(api, p);
        MC_CHECK(c, sz == n || (sz > n && api != 0 && api != 1 && api != 3), "block of %zu bytes reports %zu", n, sz);
        MC_CHECK(c, sys_.live.size() == 1, "%zu system blocks for one allocation", sys_.live.size());
        auto& l = *sys_.live.begin();
        MC_CHECK(c, (char*)p >= l.first && (char*)p + sz <= (char*)l.first + l.second.second, "block of %zu (%zu) bytes exceeds its system block", n, a);
        memset(p, 0x3C, sz);
        MC_CHECK(c, api_size(api, p) == sz, "the size is lost when the block is filled");
        api_free(api, p);
        verdict(c);
        MC_CHECK(c, sys_.live.empty(), "the system block is not returned");
        c.eval();
        c.op();
    }
    c.outcome(mc::hash_mix(la, g_mis));
}

// requests that cannot be met
static void impossible(mc::Ctx& c, uint64_t root)
{
    reset();
    g_align = 64, g_mis = 16;
    int api = c.choose(5, "interface");
    size_t a;
    std::vector<size_t> sizes;
    if (root < 16)
    {
        a = size_t(1) << root;
        for (size_t k = 0; k < a + 40; k += (k < 200 || k + 100 > a ? 1 : 97))
            sizes.push_back(SIZE_MAX - k);
        for (int b = 40; b < 64; b++)
            for (long d = -2; d <= 2; d++)
                sizes.push_back((size_t(1) << b) + d);
    }
    else
    {
        a     = std::vector<size_t>{ 0, 65536, 131072, size_t(1) << 32, size_t(1) << 63 }[root - 16];
        sizes = { 0, 1, 64, 1000 };
        if (api == 2 || api == 4)
            api = 0; // the C++ call takes the alignment as a compile-time promise
    }
    for (size_t n : sizes)
    {
        void* p = api_alloc(api, n, a);
        verdict(c);
        MC_CHECK(c, !p, "%zu bytes (SIZE_MAX-%zu) aligned to %zu: handed out from a system block of %zu bytes", n, SIZE_MAX - n, a, sys_.last_size);
        MC_CHECK(c, sys_.live.empty(), "a refused request keeps memory");
        aligned_deallocate(static_cast<double*>(p)); // releasing nothing does nothing, like free()
        c.eval();
    }
    // element counts whose size in bytes does not fit
    if (root < 16)
        for (long d = -3; d <= 40; d++)
        {
            {
                On on;
                double* q = aligned_allocate<double>(SIZE_MAX / 8 + d, a);
                sys_.on   = false;
                MC_CHECK(c, !q, "%zu doubles are handed out", (size_t)(SIZE_MAX / 8 + d));
            }
            {
                On on;
                double* q = aligned_allocate<double>(SIZE_MAX / 8 + d);
                sys_.on   = false;
                MC_CHECK(c, !q, "%zu doubles are handed out", (size_t)(SIZE_MAX / 8 + d));
            }
        }
    c.outcome(mc::hash_mix(root, api));
}

// histories with every malloc failure point
struct Blk
{
    void* p = nullptr;
    size_t n, a;
    int refs, pat_;
};
static void history(mc::Ctx& c, int depth, bool fail)
{
    reset();
    g_align = 256;
    g_mis   = 16;
    int api = c.choose(2, "C++|C") * 3;
    sys_.fail_at = fail ? c.choose(depth, "malloc fails at call") : -1;
    Blk b[2];
    int stamp = 0;
    auto fill = [&](Blk& x) {
        x.pat_ = ++stamp;
        for (size_t i = 0; i < x.n; i++)
            ((unsigned char*)x.p)[i] = pat(i, x.pat_);
    };
    auto verify = [&](const char* when) {
        verdict(c);
        size_t live = 0;
        for (auto& x : b)
            if (x.p)
            {
                live++;
                MC_CHECK(c, api_size(api, x.p) == x.n, "%s: a block of %zu bytes reports %zu", when, x.n, api_size(api, x.p));
                MC_CHECK(c, details::aligned_header(x.p)->references() == (unsigned)x.refs, "%s: owner count is %u, %d own the block",
                         when, (unsigned)details::aligned_header(x.p)->references(), x.refs);
                for (size_t i = 0; i < x.n; i++)
                    MC_CHECK(c, ((unsigned char*)x.p)[i] == pat(i, x.pat_), "%s: byte %zu of %zu changed", when, i, x.n);
            }
        MC_CHECK(c, sys_.live.size() == live, "%s: %zu system blocks held for %zu live ones", when, sys_.live.size(), live);
        c.eval();
    };
    static const size_t sizes[] = { 1, 40, 200 }, aligns[] = { 1, 64, 256 };
    for (int s = 0; s < depth; s++)
    {
        int which = c.choose(2, "block");
        Blk& x    = b[which];
        if (which == 1 && !b[0].p && !x.p && s == 0)
            return; // symmetric
        int op   = c.choose(x.p ? 4 : 2, x.p ? "realloc|retain|release|realloc to nothing" : "alloc|realloc of null");
        bool will_fail;
        c.op();
        if (!x.p)
        {
            size_t n  = c.pick(std::vector<size_t>{ 1, 40, 200 }, "bytes"), a = c.pick(std::vector<size_t>{ 64, 1, 256 }, "alignment");
            will_fail = sys_.calls == sys_.fail_at;
            void* p   = op == 0 ? api_alloc(api, n, a) : api_realloc(api, nullptr, n, a);
            MC_CHECK(c, (p == nullptr) == will_fail, will_fail ? "memory from a failed allocation" : "request refused");
            if (p)
            {
                MC_CHECK(c, (uintptr_t)p % a == 0, "not aligned to %zu", a);
                x = { p, n, a, 1, 0 };
                fill(x);
            }
            verify("after allocating");
        }
        else if (op == 0)
        {
            size_t n  = c.pick(std::vector<size_t>{ 1, 40, 200 }, "bytes"), a = c.pick(std::vector<size_t>{ 64, 1, 256 }, "alignment");
            will_fail = sys_.calls == sys_.fail_at;
            // other owners keep the old block: track it as the harness's own until they let go
            Blk old   = x;
            void* p   = api_realloc(api, x.p, n, a);
            verdict(c);
            MC_CHECK(c, (p == nullptr) == will_fail, will_fail ? "memory from a failed reallocation" : "reallocation refused");
            if (p)
            {
                MC_CHECK(c, (uintptr_t)p % a == 0, "reallocated block not aligned to %zu", a);
                for (size_t i = 0; i < std::min(n, old.n); i++)
                    MC_CHECK(c, ((unsigned char*)p)[i] == pat(i, old.pat_), "reallocating from %zu to %zu bytes loses byte %zu", old.n, n, i);
                if (p != old.p && old.refs > 1)
                {
                    // remaining owners of the old block
                    for (size_t i = 0; i < old.n; i++)
                        MC_CHECK(c, ((unsigned char*)old.p)[i] == pat(i, old.pat_), "reallocation by one owner disturbs the others");
                    for (int k = 1; k < old.refs; k++)
                        api_free(api, old.p);
                }
                x = { p, n, a, 1, 0 };
                fill(x);
            }
            verify("after reallocating");
        }
        else if (op == 1)
        {
            api_ref(api, x.p);
            x.refs++;
            verify("after retaining");
        }
        else if (op == 2)
        {
            api_free(api, x.p);
            if (--x.refs == 0)
                x.p = nullptr;
            verify("after releasing");
        }
        else
        {
            void* p = api_realloc(api, x.p, 0, 64);
            MC_CHECK(c, p == nullptr, "reallocation to nothing returns a block");
            if (--x.refs == 0)
                x.p = nullptr;
            verify("after reallocating to nothing");
        }
    }
    for (auto& x : b)
        while (x.p)
        {
            api_free(api, x.p);
            if (--x.refs == 0)
                x.p = nullptr;
        }
    verify("at the end");
    MC_CHECK(c, sys_.live.empty(), "memory remains allocated");
    c.outcome(stamp);
}

// owners built on the allocator: vectors and owning arrays
static void owners(mc::Ctx& c, int depth)
{
    reset();
    g_align = 64, g_mis = c.choose(4, "malloc misaligned by 16*") * 16;
    std::vector<double> m[2];
    {
        univector<double> v[2];
        autofree<float> f[2];
        size_t fn[2] = { 0, 0 };
        for (int s = 0; s < depth; s++)
        {
            int op = c.choose(6, "resize|copy|move|owner alloc|owner move|clear");
            int i  = c.choose(2, "which");
            c.op();
            std::vector<double> keep;
            {
                size_t n = op == 0 || op == 3 ? c.pick(std::vector<size_t>{ 1, 8, 33 }, "n") : 0;
                On on;
                switch (op)
                {
                case 0:
                    v[i].resize(n, 1.5);
                    sys_.on = false;
                    m[i].resize(n, 1.5);
                    for (size_t k = 0; k < n; k++)
                        v[i][k] = m[i][k] = k + s;
                    break;
                case 1:
                    v[i] = v[1 - i];
                    sys_.on = false;
                    m[i] = m[1 - i];
                    break;
                case 2:
                    v[i] = std::move(v[1 - i]);
                    v[1 - i].clear();
                    sys_.on = false;
                    m[i] = std::move(m[1 - i]);
                    m[1 - i].clear();
                    break;
                case 3:
                    f[i]  = autofree<float>(n);
                    fn[i] = n;
                    for (size_t k = 0; k < n; k++)
                        f[i][k] = k + 0.5f;
                    break;
                case 4:
                    f[i]      = std::move(f[1 - i]);
                    fn[i]     = fn[1 - i];
                    fn[1 - i] = 0;
                    break;
                case 5:
                    v[i] = univector<double>();
                    sys_.on = false;
                    m[i].clear();
                    break;
                }
                sys_.on = false;
            }
            verdict(c);
            for (int j = 0; j < 2; j++)
            {
                MC_CHECK(c, v[j].size() == m[j].size(), "vector has %zu elements, expected %zu", v[j].size(), m[j].size());
                MC_CHECK(c, (uintptr_t)v[j].data() % 64 == 0, "vector storage is not 64-byte aligned");
                for (size_t k = 0; k < m[j].size(); k++)
                    MC_CHECK(c, v[j][k] == m[j][k], "vector element %zu", k);
                MC_CHECK(c, (fn[j] > 0) == (f[j].data() != nullptr), "owner holds %s", fn[j] ? "nothing" : "memory");
                for (size_t k = 0; k < fn[j]; k++)
                    MC_CHECK(c, f[j][k] == k + 0.5f, "owned element %zu", k);
            }
            c.eval();
        }
        sys_.on = true;
    }
    verdict(c);
    MC_CHECK(c, sys_.live.empty(), "%zu system blocks are not returned", sys_.live.size());
    c.outcome(m[0].size() * 64 + m[1].size());
}

void mc_register()
{
    bool th = mc::thorough();
    mc::add("params", 16, [](mc::Ctx& c, uint64_t r) { params(c, (int)r); });
    mc::add("impossible", 21, [](mc::Ctx& c, uint64_t r) { impossible(c, r); });
    mc::add("history", 1, [th](mc::Ctx& c, uint64_t) { history(c, th ? 5 : 4, false); });
    mc::add("history_fail", 1, [th](mc::Ctx& c, uint64_t) { history(c, th ? 5 : 4, true); });
    mc::add("owners", 1, [th](mc::Ctx& c, uint64_t) { owners(c, th ? 5 : 4); });
}
MC_MAIN()
