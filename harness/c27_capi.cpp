// C27: the C interface, called as a C program would, against independent definitions.
#include <kfr/capi.h>
#include "mc.hpp"
#include "util.hpp"
#include <complex>
#include <new>
using mc::Ctx;
using LD = long double;
using cd = std::complex<double>;

// the system allocator, failing when asked to
static bool g_watch = false;
static long g_calls = 0, g_fail = -1, g_live = 0;
extern "C"
{
    void* __real_malloc(size_t n);
    void __real_free(void* p);
    void* __wrap_malloc(size_t n)
    {
        if (!g_watch)
            return __real_malloc(n);
        if (g_calls++ == g_fail)
            return nullptr;
        g_live++;
        return __real_malloc(n);
    }
    void __wrap_free(void* p)
    {
        if (g_watch && p)
            g_live--;
        __real_free(p);
    }
}
void* operator new(size_t n)
{
    void* p = __wrap_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
struct Watch
{
    Watch(long fail = -1) { g_calls = 0, g_live = 0, g_fail = fail, g_watch = true; }
    ~Watch() { g_watch = false, g_fail = -1; }
};

template <typename T>
struct C;
#define SET(T, S, Z, P)                                                                                                                                                                                          \
    template <>                                                                                                                                                                                                  \
    struct C<T>                                                                                                                                                                                                  \
    {                                                                                                                                                                                                            \
        using plan                        = KFR_DFT_PLAN_##P;                                                                                                                                                    \
        using rplan                       = KFR_DFT_REAL_PLAN_##P;                                                                                                                                               \
        using cplan                       = KFR_DCT_PLAN_##P;                                                                                                                                                    \
        using fplan                       = KFR_FILTER_##P;                                                                                                                                                      \
        using cx                          = Z;                                                                                                                                                                   \
        static constexpr auto create      = kfr_dft_create_plan_##S;                                                                                                                                             \
        static constexpr auto create2     = kfr_dft_create_2d_plan_##S;                                                                                                                                          \
        static constexpr auto create3     = kfr_dft_create_3d_plan_##S;                                                                                                                                          \
        static constexpr auto createm     = kfr_dft_create_md_plan_##S;                                                                                                                                          \
        static constexpr auto size        = kfr_dft_get_size_##S;                                                                                                                                                \
        static constexpr auto temp        = kfr_dft_get_temp_size_##S;                                                                                                                                           \
        static constexpr auto exec        = kfr_dft_execute_##S;                                                                                                                                                 \
        static constexpr auto inv         = kfr_dft_execute_inverse_##S;                                                                                                                                         \
        static constexpr auto del         = kfr_dft_delete_plan_##S;                                                                                                                                             \
        static constexpr auto rcreate     = kfr_dft_real_create_plan_##S;                                                                                                                                        \
        static constexpr auto rcreate2    = kfr_dft_real_create_2d_plan_##S;                                                                                                                                     \
        static constexpr auto rcreate3    = kfr_dft_real_create_3d_plan_##S;                                                                                                                                     \
        static constexpr auto rcreatem    = kfr_dft_real_create_md_plan_##S;                                                                                                                                     \
        static constexpr auto rsize       = kfr_dft_real_get_size_##S;                                                                                                                                           \
        static constexpr auto rtemp       = kfr_dft_real_get_temp_size_##S;                                                                                                                                      \
        static constexpr auto rexec       = kfr_dft_real_execute_##S;                                                                                                                                            \
        static constexpr auto rinv        = kfr_dft_real_execute_inverse_##S;                                                                                                                                    \
        static constexpr auto rdel        = kfr_dft_real_delete_plan_##S;                                                                                                                                        \
        static constexpr auto ccreate     = kfr_dct_create_plan_##S;                                                                                                                                             \
        static constexpr auto csize       = kfr_dct_get_size_##S;                                                                                                                                                \
        static constexpr auto ctemp       = kfr_dct_get_temp_size_##S;                                                                                                                                           \
        static constexpr auto cexec       = kfr_dct_execute_##S;                                                                                                                                                 \
        static constexpr auto cinv        = kfr_dct_execute_inverse_##S;                                                                                                                                         \
        static constexpr auto cdel        = kfr_dct_delete_plan_##S;                                                                                                                                             \
        static constexpr auto fir         = kfr_filter_create_fir_plan_##S;                                                                                                                                      \
        static constexpr auto convolution = kfr_filter_create_convolution_plan_##S;                                                                                                                              \
        static constexpr auto iir         = kfr_filter_create_iir_plan_##S;                                                                                                                                      \
        static constexpr auto process     = kfr_filter_process_##S;                                                                                                                                              \
        static constexpr auto reset       = kfr_filter_reset_##S;                                                                                                                                                \
        static constexpr auto fdel        = kfr_filter_delete_plan_##S;                                                                                                                                          \
    };
SET(float, f32, kfr_c32, F32)
SET(double, f64, kfr_c64, F64)

static bool quiet() { return *kfr_last_error() == 0; }
template <typename T>
static double eps(size_t n)
{
    return (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * (20 + 10 * std::log2(n + 1.0)) * std::sqrt((double)n);
}
using Shape = std::vector<unsigned>;
static size_t product(const Shape& s)
{
    size_t p = 1;
    for (auto v : s)
        p *= v;
    return p;
}
static std::vector<cd> transform(std::vector<cd> x, const Shape& s, int sign)
{
    size_t inner = 1;
    for (size_t a = s.size(); a-- > 0; inner *= s[a])
    {
        const size_t n = s[a], outer = x.size() / (n * inner);
        std::vector<cd> w(n), line(n);
        for (size_t i = 0; i < n; i++)
            w[i] = cd(std::polar(1.0L, sign * 2 * 3.14159265358979323846264338L * i / n));
        for (size_t o = 0; o < outer; o++)
            for (size_t i = 0; i < inner; i++)
            {
                for (size_t k = 0; k < n; k++)
                {
                    cd t = 0;
                    for (size_t j = 0; j < n; j++)
                        t += x[(o * n + j) * inner + i] * w[j * k % n];
                    line[k] = t;
                }
                for (size_t k = 0; k < n; k++)
                    x[(o * n + k) * inner + i] = line[k];
            }
    }
    return x;
}
template <typename T>
static T sample(size_t i)
{
    return (T)((double)((i * 2654435761u >> 7) % 257) / 128 - 1);
}
// the scratch the plan asks for, and not a byte more
struct Scratch
{
    mcu::Buf<uint8_t> b;
    uint8_t* p;
    Scratch(size_t n, bool null) : b(null ? 0 : n, 0), p(null ? nullptr : b.data()) { }
};
template <typename T>
static __attribute__((noinline)) void same(Ctx& c, const char* what, const std::complex<T>* got, const cd* want, size_t n, double tol)
{
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, std::abs(cd(got[i]) - want[i]) <= tol, "%s: value %zu of %zu is (%.9g, %.9g), expected (%.9g, %.9g)", what, i, n, (double)got[i].real(), (double)got[i].imag(), want[i].real(), want[i].imag());
}
template <typename T>
static void complex_plan(Ctx& c, typename C<T>::plan* p, const Shape& s)
{
    const size_t n = product(s);
    MC_CHECK(c, p && quiet(), "no plan: %s", kfr_last_error());
    MC_CHECK(c, C<T>::size(p) == n, "a plan for %zu reports %zu", n, C<T>::size(p));
    std::vector<cd> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = { sample<T>(i), sample<T>(i + 1000) };
    const bool null = c.flip("null scratch"), place = c.flip("in place"), inverse = c.flip("inverse");
    Scratch t(C<T>::temp(p), null);
    mcu::Buf<std::complex<T>> in(n, 0), out(n, 0);
    for (size_t i = 0; i < n; i++)
        in.data()[i] = { (T)x[i].real(), (T)x[i].imag() }, out.data()[i] = 99;
    auto* o = place ? in.data() : out.data();
    (inverse ? C<T>::inv : C<T>::exec)(p, (typename C<T>::cx*)o, (const typename C<T>::cx*)in.data(), t.p);
    MC_CHECK(c, quiet(), "error: %s", kfr_last_error());
    const auto want = transform(x, s, inverse ? 1 : -1);
    same<T>(c, inverse ? "inverse transform" : "transform", o, want.data(), n, eps<T>(n));
    if (!place)
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, cd(in.data()[i]) == x[i], "the input is changed");
    MC_CHECK(c, in.canaries_ok() && out.canaries_ok() && t.b.canaries_ok(), "memory around a buffer is changed");
    C<T>::del(p);
    MC_CHECK(c, quiet(), "error on deletion: %s", kfr_last_error());
    c.op(6), c.eval(), c.outcome(mc::hash_mix(n * 8 + null * 4 + place * 2 + inverse, s.size() * 100 + s[0]));
}
template <typename T>
static void real_plan(Ctx& c, typename C<T>::rplan* p, const Shape& s, KFR_DFT_PACK_FORMAT fmt, bool enough)
{
    const size_t n = product(s), last = s.back(), rows = n / last;
    const bool md = s.size() > 1;
    MC_CHECK(c, p && quiet(), "no plan: %s", kfr_last_error());
    MC_CHECK(c, C<T>::rsize(p) == n, "a plan for %zu reports %zu", n, C<T>::rsize(p));
    const size_t half = fmt == Perm && !md ? last / 2 : last / 2 + 1, m = half * rows;
    std::vector<cd> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = sample<T>(i);
    const auto full = transform(x, s, -1);
    std::vector<cd> want;
    for (size_t r = 0; r < rows; r++)
        for (size_t i = 0; i < half; i++)
            want.push_back(full[r * last + i]);
    if (fmt == Perm && !md)
        want[0] = { want[0].real(), full[last / 2].real() };
    const bool null = c.flip("null scratch"), inverse = c.flip("inverse");
    Scratch t(C<T>::rtemp(p), null);
    if (!inverse)
    {
        mcu::Buf<T> in(n, 0);
        mcu::Buf<std::complex<T>> out(m, 0);
        for (size_t i = 0; i < n; i++)
            in.data()[i] = (T)x[i].real();
        C<T>::rexec(p, (typename C<T>::cx*)out.data(), in.data(), t.p);
        MC_CHECK(c, quiet(), "error: %s", kfr_last_error());
        same<T>(c, "real transform", out.data(), want.data(), m, eps<T>(n));
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, in.data()[i] == (T)x[i].real(), "the input is changed");
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok() && t.b.canaries_ok(), "memory around a buffer is changed");
    }
    else
    {
        mcu::Buf<std::complex<T>> in(m, 0);
        mcu::Buf<T> out(md && enough ? m * 2 : n, 0);
        for (size_t i = 0; i < m; i++)
            in.data()[i] = { (T)want[i].real(), (T)want[i].imag() };
        C<T>::rinv(p, out.data(), (const typename C<T>::cx*)in.data(), t.p);
        MC_CHECK(c, quiet(), "error: %s", kfr_last_error());
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, std::fabs(out.data()[i] - x[i].real() * n) <= eps<T>(n) * n, "inverse real transform: value %zu of %zu is %.9g, expected %.9g", i, n, (double)out.data()[i], x[i].real() * n);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok() && t.b.canaries_ok(), "memory around a buffer is changed");
    }
    C<T>::rdel(p);
    MC_CHECK(c, quiet(), "error on deletion: %s", kfr_last_error());
    c.op(6), c.eval(), c.outcome(mc::hash_mix(n * 8 + null * 4 + inverse, s.size() * 100 + s[0] + 1000 * fmt));
}
template <typename T>
static void lines(Ctx& c, uint64_t root)
{
    c.key("dft %s", sizeof(T) == 4 ? "f32" : "f64");
    complex_plan<T>(c, C<T>::create(root + 1), { (unsigned)root + 1 });
}
template <typename T>
static void real_lines(Ctx& c, uint64_t root)
{
    c.key("real dft %s", sizeof(T) == 4 ? "f32" : "f64");
    const unsigned n = (root + 1) * 2;
    const auto f     = c.flip("format") ? CCs : Perm;
    real_plan<T>(c, C<T>::rcreate(n, f), { n }, f, false);
}
template <typename T>
static void shapes(Ctx& c, uint64_t root)
{
    static const unsigned D[] = { 1, 2, 3, 4, 6, 9 };
    c.key("md dft %s", sizeof(T) == 4 ? "f32" : "f64");
    Shape s;
    const size_t dims = root % 4 + 1;
    for (size_t i = 0; i < dims; i++)
        s.push_back(D[c.choose(dims > 2 ? 3 : 6, "side")]);
    const bool generic = dims == 1 || dims == 4 || c.flip("interface");
    if (root / 4 == 0)
        complex_plan<T>(c, generic ? C<T>::createm(dims, s.data()) : dims == 2 ? C<T>::create2(s[0], s[1]) : C<T>::create3(s[0], s[1], s[2]), s);
    else
    {
        s.back() *= 2;
        const bool enough = c.flip("enough");
        if (dims == 1)
            return;
        real_plan<T>(c, generic ? C<T>::rcreatem(dims, s.data(), enough) : dims == 2 ? C<T>::rcreate2(s[0], s[1], enough) : C<T>::rcreate3(s[0], s[1], s[2], enough), s, CCs, enough);
    }
}
template <typename T>
static void cosines(Ctx& c, uint64_t root)
{
    c.key("dct %s", sizeof(T) == 4 ? "f32" : "f64");
    const size_t n = (root + 1) * 2;
    auto* p        = C<T>::ccreate(n);
    MC_CHECK(c, p && quiet(), "no plan: %s", kfr_last_error());
    MC_CHECK(c, C<T>::csize(p) == n, "a plan for %zu reports %zu", n, C<T>::csize(p));
    const bool null = c.flip("null scratch"), inverse = c.flip("inverse");
    Scratch t(C<T>::ctemp(p), null);
    mcu::Buf<T> in(n, 0), out(n, 0);
    for (size_t i = 0; i < n; i++)
        in.data()[i] = sample<T>(i);
    (inverse ? C<T>::cinv : C<T>::cexec)(p, out.data(), in.data(), t.p);
    MC_CHECK(c, quiet(), "error: %s", kfr_last_error());
    for (size_t k = 0; k < n; k++)
    {
        LD w = inverse ? in.data()[0] / 2 : 0;
        for (size_t i = inverse; i < n; i++)
            w += sample<T>(i) * cosl(3.14159265358979323846264338L / n * (inverse ? i * (k + 0.5L) : (i + 0.5L) * k));
        MC_CHECK(c, fabsl(out.data()[k] - w) <= 2 * eps<T>(n), "%s: value %zu of %zu is %.9g, expected %.9Lg", inverse ? "inverse dct" : "dct", k, n, (double)out.data()[k], w);
        MC_CHECK(c, in.data()[k] == sample<T>(k), "the input is changed");
    }
    MC_CHECK(c, in.canaries_ok() && out.canaries_ok() && t.b.canaries_ok(), "memory around a buffer is changed");
    C<T>::cdel(p);
    c.op(5), c.eval(), c.outcome(n * 4 + null * 2 + inverse);
}

// ------------------------------------------------------------------------------------------- filters
static const char* FILTERS[] = { "fir", "convolution", "iir" };
template <typename T>
static void filters(Ctx& c, uint64_t root)
{
    const int kind = root % 3;
    const size_t order = root / 3;
    c.key("%s %s", FILTERS[kind], sizeof(T) == 4 ? "f32" : "f64");
    static const size_t TAPS[] = { 1, 2, 3, 5, 8, 17, 40 }, SOS[] = { 1, 2, 3, 4, 5, 8, 11 };
    const size_t n = kind == 2 ? SOS[order] : TAPS[order];
    std::vector<T> k(kind == 2 ? n * 6 : n);
    for (size_t i = 0; i < n; i++)
        if (kind == 2)
        {
            const double r[] = { 1, 0.25 * (i % 3) - 0.5, 0.125, 0.5, 0.25, 0.25 };
            for (int j = 0; j < 6; j++)
                k[i * 6 + j] = (T)r[j];
        }
        else
            k[i] = sample<T>(i * 3 + 1);
    const size_t block = c.pick(std::vector<size_t>{ 0, 4, 8 }, "block size");
    if (kind != 1 && block)
        return;
    auto* p = kind == 0 ? C<T>::fir(k.data(), n) : kind == 1 ? C<T>::convolution(k.data(), n, block) : C<T>::iir(k.data(), n);
    MC_CHECK(c, p && quiet(), "no plan: %s", kfr_last_error());
    std::fill(k.begin(), k.end(), T(7)); // the coefficients are copied
    std::vector<double> h, x, s1(n), s2(n);
    for (size_t i = 0; kind != 2 && i < n; i++)
        h.push_back(sample<T>(i * 3 + 1));
    uint64_t id = root * 10 + block;
    const size_t steps = mc::tier(3, 5);
    size_t total = 0;
    for (size_t step = 0; step < steps; step++)
    {
        static const size_t L[] = { 0, 1, 3, 4, 7, 8, 33 };
        const int what = c.choose(9, "call");
        id = mc::hash_mix(id, what);
        c.op();
        if (what == 8)
        {
            C<T>::reset(p);
            MC_CHECK(c, quiet(), "error on reset: %s", kfr_last_error());
            x.clear(), std::fill(s1.begin(), s1.end(), 0), std::fill(s2.begin(), s2.end(), 0);
            continue;
        }
        const bool place = what == 7 || step % 2;
        const size_t m   = what == 7 ? 16 : L[what];
        mcu::Buf<T> in(m, 1), out(m, 1);
        std::vector<double> w(m);
        for (size_t i = 0; i < m; i++)
        {
            double v = in.data()[i] = sample<T>(total++ * 5);
            if (kind == 2)
                for (size_t j = 0; j < n; j++)
                {
                    const double b1 = 0.25, b2 = 0.25, b0 = 0.5, a1 = 0.25 * (j % 3) - 0.5, a2 = 0.125;
                    const double y = b0 * v + s1[j];
                    s1[j] = b1 * v - a1 * y + s2[j], s2[j] = b2 * v - a2 * y;
                    v = y;
                }
            else
            {
                x.push_back(v), v = 0;
                for (size_t j = 0; j < n && j < x.size(); j++)
                    v += h[j] * x[x.size() - 1 - j];
            }
            w[i] = v;
        }
        C<T>::process(p, place ? in.data() : out.data(), in.data(), m);
        MC_CHECK(c, quiet(), "error: %s", kfr_last_error());
        for (size_t i = 0; i < m; i++)
            MC_CHECK(c, std::fabs((place ? in : out).data()[i] - w[i]) <= (sizeof(T) == 4 ? 1e-5 : 1e-13) * (n + 2), "%s filter of %zu: output %zu of block %zu is %.9g, expected %.9g", FILTERS[kind], n, i, step, (double)(place ? in : out).data()[i], w[i]);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "memory around a buffer is changed");
        c.eval();
    }
    C<T>::fdel(p);
    c.outcome(id);
}

// ------------------------------------------------------------------------------------------- requests that cannot be met, and exhausted memory
template <typename T>
static void deletes(Ctx& c)
{
    C<T>::del(nullptr), C<T>::rdel(nullptr), C<T>::cdel(nullptr), C<T>::fdel(nullptr);
    MC_CHECK(c, quiet(), "deleting nothing is an error: %s", kfr_last_error());
}
template <typename T>
static void refusals(Ctx& c, uint64_t root)
{
    c.key("refusals");
    const unsigned sh2[] = { 4, (unsigned)root * 2 + 1 };
    std::vector<T> k(6 * 200, T(0.25));
    void* p = nullptr;
    const int what = c.choose(4, "request");
    switch (what)
    {
    case 0: p = C<T>::rcreate(root * 2 + 1, c.flip("format") ? CCs : Perm); break;
    case 1: p = C<T>::rcreatem(2, sh2, c.flip("enough")); break;
    case 2: p = C<T>::rcreate2(4, root * 2 + 1, c.flip("enough")); break;
    default: p = C<T>::iir(k.data(), 65 + root); break;
    }
    MC_CHECK(c, !p, "a request that cannot be met gives an object");
    MC_CHECK(c, !quiet() && strlen(kfr_last_error()) < 256, "a refused request leaves no error text");
    auto* good = C<T>::create(8);
    MC_CHECK(c, good && quiet(), "the error text stays after the next success");
    C<T>::del(good);
    deletes<T>(c);
    c.op(4), c.eval(), c.outcome(root * 10 + what);
}
// nothing asked for: refused, or an object that does nothing
template <typename T>
static void empties(Ctx& c, uint64_t root)
{
    static const char* N[] = { "dft", "real dft", "dct", "fir", "convolution", "iir", "md dft" };
    c.key("empty %s", N[root]);
    T one[12] = { 1, 2, 3, 4, 5, 6 }, out[12] = {};
    using cx = typename C<T>::cx;
    const unsigned sh[2] = { 0, 0 };
    bool got = false;
    if (root == 0)
    {
        auto* p = C<T>::create(0);
        if ((got = p))
            C<T>::exec(p, (cx*)out, (const cx*)one, nullptr);
        got ? C<T>::del(p) : void();
    }
    else if (root == 1)
    {
        auto* p = C<T>::rcreate(0, CCs);
        got     = p;
        got ? C<T>::rdel(p) : void();
    }
    else if (root == 2)
    {
        auto* p = C<T>::ccreate(0);
        if ((got = p))
            C<T>::cexec(p, out, one, nullptr);
        got ? C<T>::cdel(p) : void();
    }
    else if (root == 6)
    {
        auto* p = C<T>::createm(c.choose(3, "dimensions"), sh);
        got     = p;
        got ? C<T>::del(p) : void();
    }
    else
    {
        auto* p = root == 3 ? C<T>::fir(one, 0) : root == 4 ? C<T>::convolution(one, 0, 4) : C<T>::iir(one, 0);
        if ((got = p))
        {
            C<T>::process(p, out, one, 6);
            C<T>::reset(p);
            for (int i = 0; i < 6 && root != 5; i++)
                MC_CHECK(c, out[i] == 0, "a filter without taps gives %g", (double)out[i]);
        }
        got ? C<T>::fdel(p) : void();
    }
    MC_CHECK(c, got || !quiet(), "a refused request leaves no error text");
    c.op(), c.eval(), c.outcome(root * 2 + got);
}
static const char* OBJECTS[] = { "dft", "dft with remainder", "2d dft", "md dft", "real dft", "real 3d dft", "real md dft", "dct", "fir", "convolution", "iir" };
template <typename T>
static void memory(Ctx& c, uint64_t root)
{
    c.key("memory %s %s", OBJECTS[root], sizeof(T) == 4 ? "f32" : "f64");
    T taps[48];
    for (int i = 0; i < 48; i++)
        taps[i] = T(0.25) / (i + 1);
    const unsigned sh[] = { 6, 4, 10 };
    auto make = [&]() -> void* {
        switch (root)
        {
        case 0: return C<T>::create(64);
        case 1: return C<T>::create(97 * 2);
        case 2: return C<T>::create2(5, 8);
        case 3: return C<T>::createm(3, sh);
        case 4: return C<T>::rcreate(30, CCs);
        case 5: return C<T>::rcreate3(6, 4, 10, true);
        case 6: return C<T>::rcreatem(3, sh, false);
        case 7: return C<T>::ccreate(26);
        case 8: return C<T>::fir(taps, 48);
        case 9: return C<T>::convolution(taps, 48, 8);
        default: return C<T>::iir(taps, 8);
        }
    };
    auto drop = [&](void* p) {
        if (root < 4)
            C<T>::del((typename C<T>::plan*)p);
        else if (root < 7)
            C<T>::rdel((typename C<T>::rplan*)p);
        else if (root == 7)
            C<T>::cdel((typename C<T>::cplan*)p);
        else
            C<T>::fdel((typename C<T>::fplan*)p);
    };
    // the shared tables some objects keep are made first
    drop(make());
    long calls = 0;
    {
        Watch w;
        void* p = make();
        const bool ok = p && quiet();
        calls   = g_calls;
        drop(p);
        g_watch = false;
        MC_CHECK(c, ok, "no object: %s", kfr_last_error());
        MC_CHECK(c, g_live == 0, "%ld blocks stay after deletion", g_live);
    }
    MC_CHECK(c, calls > 0, "nothing is allocated");
    const long at = c.choose((int)calls, "failing allocation");
    void* p;
    bool silent;
    {
        Watch w(at);
        p       = make();
        silent  = quiet();
        g_watch = false;
    }
    MC_CHECK(c, !p, "an object is made although allocation %ld of %ld failed", at, calls);
    MC_CHECK(c, !silent, "no error text although allocation %ld of %ld failed", at, calls);
    MC_CHECK(c, g_live == 0 || p, "%ld blocks stay after a failed creation", g_live);
    p = make();
    MC_CHECK(c, p && quiet(), "nothing can be made after a failure: %s", kfr_last_error());
    drop(p);
    c.op(calls), c.eval(), c.outcome(root * 1000 + at);
}
// the scratch allocated inside a call
template <typename T>
static void scratch(Ctx& c, uint64_t root)
{
    c.key("scratch %s", sizeof(T) == 4 ? "f32" : "f64");
    static const char* N[] = { "dft", "inverse dft", "2d dft", "real dft", "inverse real dft", "real 2d dft", "inverse real 2d dft", "dct", "inverse dct" };
    std::vector<T> in(20000, T(0.5)), out(20000, T(0));
    typename C<T>::plan* p   = nullptr;
    typename C<T>::rplan* r  = nullptr;
    typename C<T>::cplan* d  = nullptr;
    using cx                 = typename C<T>::cx;
    const size_t n           = 2310;
    if (root < 2)
        p = C<T>::create(n + 13);
    else if (root == 2)
        p = C<T>::create2(66, 67);
    else if (root < 5)
        r = C<T>::rcreate(n + 26, CCs);
    else if (root < 7)
        r = C<T>::rcreate2(67, 66, true);
    else
        d = C<T>::ccreate(n + 26);
    MC_CHECK(c, p || r || d, "no plan: %s", kfr_last_error());
    auto run = [&]() {
        switch (root)
        {
        case 0:
        case 2: C<T>::exec(p, (cx*)out.data(), (const cx*)in.data(), nullptr); break;
        case 1: C<T>::inv(p, (cx*)out.data(), (const cx*)in.data(), nullptr); break;
        case 3:
        case 5: C<T>::rexec(r, (cx*)out.data(), in.data(), nullptr); break;
        case 4:
        case 6: C<T>::rinv(r, out.data(), (const cx*)in.data(), nullptr); break;
        case 7: C<T>::cexec(d, out.data(), in.data(), nullptr); break;
        default: C<T>::cinv(d, out.data(), in.data(), nullptr); break;
        }
    };
    run();
    const auto want = out;
    long calls;
    {
        Watch w;
        run();
        calls = g_calls;
    }
    MC_CHECK(c, quiet() && g_live == 0, "%s: %ld blocks stay allocated", N[root], g_live);
    if (calls)
    {
        const long at = c.choose((int)calls, "failing allocation");
        bool silent;
        {
            Watch w(at);
            run();
            silent = quiet();
        }
        MC_CHECK(c, !silent, "%s: no error although allocation %ld of %ld failed", N[root], at, calls);
        MC_CHECK(c, g_live == 0, "%s: %ld blocks stay allocated after a failure", N[root], g_live);
    }
    std::fill(out.begin(), out.end(), T(0));
    run();
    MC_CHECK(c, quiet() && out == want, "%s: a different result after a failure", N[root]);
    C<T>::del(p), C<T>::rdel(r), C<T>::cdel(d);
    c.op(4), c.eval(), c.outcome(root);
}
// memory through the C interface: every allocation, growth, shrinkage and alignment, shared or not
static void blocks(Ctx& c, uint64_t root)
{
    static const std::vector<size_t> A = { 0, 8, 16, 64, 128, 256, 1024, 4096 };
    const size_t a = A[root % A.size()], n = root / A.size() * 37 + 1; // 0: the default alignment
    auto aligned   = [](void* p, size_t a) { return (uintptr_t)p % (a ? a : 64) == 0; };
    auto fill      = [](void* p, size_t n, int k) {
        for (size_t i = 0; i < n; i++)
            ((uint8_t*)p)[i] = (uint8_t)(i * 7 + k);
    };
    auto same = [](void* p, size_t n, int k) {
        for (size_t i = 0; i < n; i++)
            if (((uint8_t*)p)[i] != (uint8_t)(i * 7 + k))
                return false;
        return true;
    };
    const size_t b = c.pick(A, "new alignment"), m = c.pick(std::vector<size_t>{ n, 1, n + 1, 2 * n, n / 2 + 1, 5000, 0 }, "new size");
    const bool from_null = c.flip("from null"), shared = !from_null && c.flip("shared");
    c.key("blocks %zu to %zu bytes, alignment %zu to %zu%s", n, m, a, b, shared ? ", shared" : "");
    {
    Watch w;
    void* p         = from_null ? nullptr : a ? kfr_allocate_aligned(n, a) : kfr_allocate(n);
    if (!from_null)
    {
        MC_CHECK(c, p && aligned(p, a), "%p is not aligned", p);
        MC_CHECK(c, kfr_allocated_size(p) == n, "size %zu", kfr_allocated_size(p));
        fill(p, n, 1);
        if (shared)
            MC_CHECK(c, kfr_add_ref(p) == p, "add_ref returns another block");
    }
    void* q = b ? kfr_reallocate_aligned(p, m, b) : kfr_reallocate(p, m);
    if (m)
    {
        MC_CHECK(c, q && aligned(q, b), "%p is not aligned", q);
        MC_CHECK(c, kfr_allocated_size(q) == m, "size %zu", kfr_allocated_size(q));
        MC_CHECK(c, from_null || same(q, std::min(n, m), 1), "the contents are lost");
        if (shared)
        {
            fill(q, m, 2);
            MC_CHECK(c, kfr_allocated_size(p) == n && same(p, n, 1), "the other owner's block changed");
        }
        fill(q, m, 3);
        kfr_deallocate(q);
    }
    else
        MC_CHECK(c, !q, "a block of no bytes");
    if (shared)
        kfr_release(p);
    }
    MC_CHECK(c, g_live == 0, "%ld blocks left", g_live);
    c.op(4), c.eval(), c.outcome(mc::hash_mix(n * 8 + shared, m * 5000 + a + b));
}
void mc_register()
{
    mc::add("blocks", 8 * mc::tier(40, 200), blocks);
#define BOTH(n, r, f)                                                                                                                                                                                            \
    mc::add(n " f32", r, f<float>);                                                                                                                                                                              \
    mc::add(n " f64", r, f<double>);
    BOTH("dft", mc::tier(130, 600), lines)
    BOTH("real dft", mc::tier(66, 300), real_lines)
    BOTH("shapes", 8, shapes)
    BOTH("dct", mc::tier(40, 200), cosines)
    BOTH("filters", 21, filters)
    BOTH("refusals", 20, refusals)
    BOTH("empty", 7, empties)
    BOTH("memory", 11, memory)
    BOTH("scratch", 9, scratch)
}
MC_MAIN()
