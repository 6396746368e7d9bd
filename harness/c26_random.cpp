// C26: random numbers.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
using namespace kfr;
using mc::Ctx;

// ------------------------------------------------------------------------------------------- the generator, restated
struct Model
{
    uint32_t v[4];
    void next()
    {
        static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
        uint8_t b[16], r[16];
        for (int i = 0; i < 4; i++)
        {
            uint32_t x = v[i] * mul[i] + add[i];
            memcpy(b + 4 * i, &x, 4);
        }
        for (int i = 0; i < 16; i++)
            r[(i + 3) % 16] = b[i]; // rotated three bytes up
        memcpy(v, r, 16);
    }
    void bits(uint8_t* out, size_t n)
    {
        if (n <= 16)
        {
            next();
            memcpy(out, v, n);
            return;
        }
        size_t p = 1;
        while (p * 2 <= n - 1)
            p *= 2;
        bits(out, p);
        bits(out + p, n - p);
    }
};
static random_state state_of(const Model& m)
{
    random_state s;
    s.v = portable_vec<u32, 4>{ m.v[0], m.v[1], m.v[2], m.v[3] };
    return s;
}
static bool same(const random_state& s, const Model& m) { return memcmp(&s, m.v, 16) == 0; }
// the state from which the next 16 bytes are `want`
static random_state before(const uint8_t* want)
{
    static const uint32_t mul[4] = { 214013u, 17405u, 214013u, 69069u }, add[4] = { 2531011u, 10395331u, 13737667u, 1u };
    uint8_t b[16];
    for (int i = 0; i < 16; i++)
        b[i] = want[(i + 3) % 16];
    Model m;
    for (int i = 0; i < 4; i++)
    {
        uint32_t x;
        memcpy(&x, b + 4 * i, 4);
        uint32_t inv = mul[i]; // Newton
        for (int k = 0; k < 5; k++)
            inv *= 2 - mul[i] * inv;
        m.v[i] = (x - add[i]) * inv;
    }
    return state_of(m);
}

template <size_t N>
static CMT_NOINLINE void draw_bits(Ctx& c, random_state& s, Model& m)
{
    uint8_t e[N];
    m.bits(e, N);
    vec<u8, N> g = random_bits<N>(s);
    for (size_t i = 0; i < N; i++)
        MC_CHECK(c, g[i] == e[i], "byte %zu of %zu is %u, expected %u", i, N, (unsigned)g[i], e[i]);
}
template <typename T, size_t N>
static CMT_NOINLINE void draw_uniform(Ctx& c, random_state& s, Model& m)
{
    uint8_t e[N * sizeof(T)];
    m.bits(e, sizeof e);
    vec<T, N> g = random_uniform<T, N>(s);
    for (size_t i = 0; i < N; i++)
    {
        T want;
        if constexpr (std::is_same_v<T, f32>)
        {
            uint32_t u;
            memcpy(&u, e + 4 * i, 4);
            want = (float)(u & 0x7fffff) / 8388608.f;
        }
        else if constexpr (std::is_same_v<T, f64>)
        {
            uint64_t u;
            memcpy(&u, e + 8 * i, 8);
            want = (double)(u & 0xfffffffffffffull) / 4503599627370496.0;
        }
        else
            memcpy(&want, e + sizeof(T) * i, sizeof(T));
        MC_CHECK(c, g[i] == want, "number %zu of %zu is %.17g, expected %.17g", i, N, (double)g[i], (double)want);
    }
}
static void sequences(Ctx& c, uint64_t root)
{
    static const uint32_t W[] = { 0, 1, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0x12345678u };
    c.key("sequence");
    uint32_t x[4] = { W[root % 6], W[root / 6 % 6], W[root / 36 % 6], W[root / 216 % 6] };
    Model m;
    memcpy(m.v, x, 16);
    m.next();
    random_state s = c.choose(2, "four words|two words") ? random_init(x[0] | (u64)x[1] << 32, x[2] | (u64)x[3] << 32) : random_init(x[0], x[1], x[2], x[3]);
    MC_CHECK(c, same(s, m), "the initial state differs");
    const int depth = mc::tier(2, 3);
    for (int i = 0; i < depth; i++)
    {
        random_state copy = s;
        switch (c.choose(20, "draw"))
        {
        case 0: draw_bits<1>(c, s, m); break;
        case 1: draw_bits<3>(c, s, m); break;
        case 2: draw_bits<8>(c, s, m); break;
        case 3: draw_bits<16>(c, s, m); break;
        case 4: draw_bits<17>(c, s, m); break;
        case 5: draw_bits<32>(c, s, m); break;
        case 6: draw_bits<48>(c, s, m); break;
        case 7: draw_bits<64>(c, s, m); break;
        case 8: draw_bits<128>(c, s, m); break;
        case 9: draw_uniform<u8, 7>(c, s, m); break;
        case 10: draw_uniform<i16, 5>(c, s, m); break;
        case 11: draw_uniform<u32, 16>(c, s, m); break;
        case 12: draw_uniform<i64, 3>(c, s, m); break;
        case 13: draw_uniform<f32, 1>(c, s, m); break;
        case 14: draw_uniform<f32, 3>(c, s, m); break;
        case 15: draw_uniform<f32, 8>(c, s, m); break;
        case 16: draw_uniform<f32, 16>(c, s, m); break;
        case 17: draw_uniform<f64, 1>(c, s, m); break;
        case 18: draw_uniform<f64, 5>(c, s, m); break;
        default: draw_uniform<f64, 8>(c, s, m); break;
        }
        c.op();
        MC_CHECK(c, same(s, m), "the state differs after the draw");
        MC_CHECK(c, memcmp(&copy, &s, 16) != 0, "the draw does not advance the state");
    }
    c.outcome(mc::hash_bytes(m.v, 16));
    c.eval();
}
static void init(Ctx& c, uint64_t)
{
    c.key("random_init");
    // seeding from the clock only has to give a usable state
    random_state s = random_init();
    float f        = random_uniform<f32, 1>(s)[0];
    MC_CHECK(c, f >= 0 && f < 1, "uniform number %g", (double)f);
    c.op(), c.outcome(1);
}

// ------------------------------------------------------------------------------------------- ranges: every raw value
struct FR
{
    double lo, hi;
};
template <typename T>
static const std::vector<FR>& float_ranges()
{
    const T e          = std::numeric_limits<T>::epsilon();
    static std::vector<FR> r = { { 0, 1 },       { -1, 1 },         { 0, 1 + (double)e }, { 1, 1 + (double)e },           { 1, 1 + 2 * (double)e }, { 100, 103 },
                                 { -3, -2 },     { 1e6, 1e6 + 1 },  { 0, 1e-30 },         { -1e30, 1e30 },                { 16777216, 16777220 },   { -0.1, 0.3 },
                                 { -1, 1e-9 },   { 0.1, 0.7 },      { -1e-3, 1e5 },       { 0, std::numeric_limits<T>::denorm_min() * 8.0 } };
    return r;
}
// one chunk of 2^15 of the 2^23 mantissas
static void float_range32(Ctx& c, uint64_t root)
{
    const auto& R = float_ranges<f32>();
    c.key("range f32");
    const FR r   = R[root % R.size()];
    const f32 lo = (f32)r.lo, hi = (f32)r.hi;
    const int chunks = mc::tier(16, 256);
    const uint32_t chunk = (uint32_t)c.choose(chunks, "mantissas"), step = mc::tier(16, 1);
    f32 prev = lo;
    uint64_t h = 1;
    for (uint32_t k = 0; k < (1u << 15); k += 4)
    {
        uint32_t u[4];
        for (uint32_t i = 0; i < 4; i++)
        {
            u[i] = ((chunk << 15) + k + i) * step;
            if (mc::tier(1, 0) && (k + i == 0x7fff) && chunk == 15)
                u[i] = 0x7fffff;
            u[i] |= (k & 8 ? 0xff800000u : 0); // these bits must not matter
        }
        random_state s = before((const uint8_t*)u);
        vec<f32, 4> g  = random_range<4>(s, lo, hi);
        for (int i = 0; i < 4; i++)
        {
            if (!(g[i] >= lo && g[i] < hi))
                c.fail("mantissa 0x%x of [%.9g, %.9g) gives %.9g", u[i] & 0x7fffff, (double)lo, (double)hi, (double)g[i]);
            const double e = (double)lo + ((double)hi - lo) * ((u[i] & 0x7fffff) / 8388608.0);
            const double tol = std::max({ std::fabs((double)lo), std::fabs((double)hi), std::fabs((double)hi - lo) }) * 2.4e-7 + 1e-44;
            // within rounding of the exact value (a value that would round up to the end may be put anywhere in the range)
            if (std::fabs(g[i] - e) > tol && !((f32)e == hi))
                c.fail("mantissa 0x%x of [%.9g, %.9g) gives %.9g, expected %.9g", u[i] & 0x7fffff, (double)lo, (double)hi, (double)g[i], e);
        }
    }
    c.op(1 << 13), c.eval(1 << 15), c.outcome(root);
    (void)prev, (void)h;
}
static void float_range64(Ctx& c, uint64_t root)
{
    const auto& R = float_ranges<f64>();
    c.key("range f64");
    const FR r = R[root];
    // mantissas with every pattern in the top and bottom ten bits
    const uint64_t top = c.choose(1024, "top bits"), mid = c.choose(2, "middle bits");
    for (uint64_t bot = 0; bot < 1024; bot += 2)
    {
        uint64_t u[2];
        for (uint64_t i = 0; i < 2; i++)
            u[i] = top << 42 | (mid ? 0xffffffffull << 10 : 0) | (bot + i) | (bot & 4 ? 0xfffull << 52 : 0);
        random_state s = before((const uint8_t*)u);
        vec<f64, 2> g  = random_range<2>(s, r.lo, r.hi);
        for (int i = 0; i < 2; i++)
        {
            if (!(g[i] >= r.lo && g[i] < r.hi))
                c.fail("mantissa 0x%llx of [%.17g, %.17g) gives %.17g", (unsigned long long)u[i], r.lo, r.hi, g[i]);
            const long double e = r.lo + ((long double)r.hi - r.lo) * ((u[i] & 0xfffffffffffffull) / 4503599627370496.0L);
            if (fabsl(g[i] - e) > std::max(std::fabs(r.lo), std::fabs(r.hi)) * 6e-16 + 1e-322 && !((double)e == r.hi))
                c.fail("mantissa 0x%llx of [%.17g, %.17g) gives %.17g, expected %.17Lg", (unsigned long long)u[i], r.lo, r.hi, g[i], e);
        }
    }
    c.op(512), c.eval(1024), c.outcome(root);
}
// every raw value of an 8- or 16-bit type
template <typename T>
static void int_range(Ctx& c, uint64_t root)
{
    using L           = std::numeric_limits<T>;
    constexpr int raw = 1 << (8 * sizeof(T));
    constexpr int N   = 16 / sizeof(T);
    c.key("range %s%zu", std::is_signed_v<T> ? "i" : "u", 8 * sizeof(T));
    int lo, hi;
    if (sizeof(T) == 1)
    {
        lo = (int)L::min() + (int)root;
        if (lo >= L::max())
            return;
        hi = lo + 1 + c.choose((int)L::max() - lo, "size");
    }
    else
    {
        static const int lows[] = { 0, 1, 2, 1000, 32000 }, sizes[] = { 1, 2, 3, 7, 100, 255, 256, 257, 1000, 32767, 32768, 40000, 65534, 65535 };
        lo = (int)L::min() + lows[root % 5];
        if (root >= 5)
            lo = -(std::is_signed_v<T> ? 5 : -5);
        hi = lo + sizes[c.choose(14, "size")];
        if (hi > L::max())
            return;
    }
    const unsigned span = (unsigned)(hi - lo);
    std::vector<uint32_t> seen(span);
    for (int k = 0; k < raw; k += N)
    {
        T u[N];
        for (int i = 0; i < N; i++)
            u[i] = (T)(k + i);
        random_state s = before((const uint8_t*)u);
        vec<T, N> g    = random_range<N, T>(s, (T)lo, (T)hi);
        for (int i = 0; i < N; i++)
        {
            if (!(g[i] >= lo && g[i] < hi))
                c.fail("raw value %d of [%d, %d) gives %d", k + i, lo, hi, (int)g[i]);
            seen[(unsigned)(g[i] - lo)]++;
        }
    }
    for (unsigned i = 0; i < span; i++)
        if (seen[i] < raw / span || seen[i] > raw / span + 1)
            c.fail("%d of [%d, %d) is returned for %u of the %d raw values", lo + (int)i, lo, hi, seen[i], raw);
    c.op(raw / N), c.eval(raw), c.outcome(mc::hash_mix((uint64_t)lo + 99999, (uint64_t)hi + 99999));
}
template <typename T>
static void wide_range(Ctx& c, uint64_t)
{
    using L = std::numeric_limits<T>;
    using U = std::make_unsigned_t<T>;
    c.key("range %s%zu", std::is_signed_v<T> ? "i" : "u", 8 * sizeof(T));
    static const T ends[] = { L::min(), (T)(L::min() + 1), (T)(L::min() / 2), (T)-7, (T)0, (T)1, (T)10, (T)1000003, (T)(L::max() / 3), (T)(L::max() / 2 + 1), (T)(L::max() - 1), L::max() };
    const T lo = ends[c.choose(12, "min")], hi = ends[c.choose(12, "max")];
    if (!(lo < hi))
        return;
    const U span         = (U)hi - (U)lo;
    constexpr int N      = 16 / sizeof(T);
    const unsigned __int128 two = (unsigned __int128)1 << (8 * sizeof(T));
    // the raw values around which a uniform mapping changes value, and the ends
    std::vector<U> raws = { 0, 1, (U)~(U)0, (U)(~(U)0 - 1), (U)(two / 2), (U)(two / 2 - 1) };
    for (U k : { (U)1, (U)2, (U)(span / 3), (U)(span / 2), (U)(span - 1) })
        for (int d = -1; d <= 1; d++)
            raws.push_back((U)((two * k) / span + d));
    for (int b = 0; b < (int)(8 * sizeof(T)); b++)
        raws.push_back((U)1 << b), raws.push_back(((U)1 << b) - 1);
    std::sort(raws.begin(), raws.end());
    raws.erase(std::unique(raws.begin(), raws.end()), raws.end());
    while (raws.size() % N)
        raws.push_back(raws.back());
    std::vector<T> out;
    for (size_t k = 0; k < raws.size(); k += N)
    {
        random_state s = before((const uint8_t*)&raws[k]);
        vec<T, N> g    = random_range<N, T>(s, lo, hi);
        for (int i = 0; i < N; i++)
        {
            out.push_back(g[i]);
            MC_CHECK(c, g[i] >= lo && g[i] < hi, "raw value 0x%llx of [%lld, %lld) gives %lld", (unsigned long long)raws[k + i], (long long)lo, (long long)hi, (long long)g[i]);
        }
    }
    bool first = false, last = false;
    for (T x : out)
        first |= x == lo, last |= x == (T)(hi - 1);
    MC_CHECK(c, first && last, "the ends of [%lld, %lld) are never returned", (long long)lo, (long long)hi);
    // distinct values spread over the whole range: the raw values half the range apart give values half the range apart
    T a = 0, b = 0;
    for (size_t i = 0; i < raws.size(); i++)
    {
        if (raws[i] == 0)
            a = out[i];
        if (raws[i] == (U)(two / 2))
            b = out[i];
    }
    const U d = a < b ? (U)b - (U)a : (U)a - (U)b;
    MC_CHECK(c, d >= span / 2 - (span > 1) && d <= span / 2 + 1, "raw values half the range apart give %lld and %lld of [%lld, %lld)", (long long)a, (long long)b, (long long)lo, (long long)hi);
    c.op(raws.size() / N), c.eval(raws.size()), c.outcome(mc::hash_mix((uint64_t)lo, (uint64_t)hi));
}

// ------------------------------------------------------------------------------------------- normal numbers
template <typename T>
static void normal_pair(T u0, T u1, T mu, T sigma, T* z)
{
    uint8_t w[16] = {};
    if constexpr (sizeof(T) == 4)
    {
        uint32_t a[4] = { (uint32_t)(u0 * 8388608.0), (uint32_t)(u1 * 8388608.0), 1, 2 };
        memcpy(w, a, 16);
    }
    else
    {
        uint64_t a[2] = { (uint64_t)(u0 * 4503599627370496.0), (uint64_t)(u1 * 4503599627370496.0) };
        memcpy(w, a, 16);
    }
    random_state s = before(w);
    vec<T, 2> g    = random_normal<2, T>(s, mu, sigma);
    z[0] = g[0], z[1] = g[1];
}
// every value of one uniform number (all 2^23; a sixteenth and both ends in the quick tier) is finite and scaled right
static void normal_finite(Ctx& c, uint64_t root)
{
    c.key("normal f32");
    const uint32_t chunk = (uint32_t)c.choose(mc::tier(16, 256), "mantissas"), step = mc::tier(16, 1);
    const f32 mu = root % 2 ? 10.f : 0.f, sigma = root % 2 ? 0.5f : 1.f;
    static const f32 other[] = { 0.f, 0.25f, 0.3f, 0.75f, 1 - 1.f / 8388608 };
    const f32 v = other[root / 4];
    double worst = 0;
    for (uint32_t k = 0; k < (1u << 15); k++)
    {
        uint32_t u = ((chunk << 15) + k) * step;
        if (step > 1 && chunk == 15 && k == 0x7fff)
            u = 0x7fffff;
        const f32 x = u / 8388608.f;
        f32 z[2];
        root / 2 % 2 ? normal_pair(v, x, mu, sigma, z) : normal_pair(x, v, mu, sigma, z);
        for (int i = 0; i < 2; i++)
        {
            if (!std::isfinite(z[i]) || std::fabs((z[i] - mu) / sigma) > 5.7)
                c.fail("uniform numbers %.9g, %.9g give %g", (double)(root / 2 % 2 ? v : x), (double)(root / 2 % 2 ? x : v), (double)z[i]);
            worst = std::max(worst, (double)std::fabs((z[i] - mu) / sigma));
        }
    }
    c.op(1 << 15), c.eval(1 << 15), c.outcome(root);
}
static void normal_finite64(Ctx& c, uint64_t root)
{
    c.key("normal f64");
    static const uint64_t M[] = { 0, 1, 2, 0xfffffffffffffull, 0xffffffffffffeull, 0x8000000000000ull, 0x7ffffffffffffull, 0x4000000000000ull, 0x123456789abcdull, 0xc000000000000ull };
    const f64 a = M[root] / 4503599627370496.0, b = M[c.choose(10, "second")] / 4503599627370496.0;
    f64 z[2];
    normal_pair(a, b, 0.0, 1.0, z);
    for (int i = 0; i < 2; i++)
        MC_CHECK(c, std::isfinite(z[i]) && std::fabs(z[i]) < 8.6, "uniform numbers %.17g, %.17g give %g", a, b, z[i]);
    f64 y[2];
    normal_pair(a, b, 3.0, 2.0, y);
    for (int i = 0; i < 2; i++)
        MC_CHECK(c, std::fabs(y[i] - (3 + 2 * z[i])) < 1e-13, "mean 3 and deviation 2 turn %.17g into %.17g", z[i], y[i]);
    c.op(2), c.eval(), c.outcome(root);
}
// over a full grid of pairs of uniform numbers the distribution is the normal one
template <typename T>
static void normal_law(Ctx& c, uint64_t)
{
    c.key("normal law");
    const int G = 256;
    double m[5] = {};
    int below[33] = {};
    double corr = 0;
    for (int i = 0; i < G; i++)
        for (int j = 0; j < G; j++)
        {
            T z[2];
            normal_pair<T>((T)(i + 0.5) / G, (T)(j + 0.5) / G, 0, 1, z);
            corr += z[0] * z[1];
            for (int k = 0; k < 2; k++)
            {
                double p = 1;
                for (double& q : m)
                    q += p, p *= z[k];
                for (int b = 0; b <= 32; b++)
                    below[b] += z[k] < (b - 16) / 5.0;
            }
        }
    for (double& q : m)
        q /= 2.0 * G * G;
    MC_CHECK(c, std::fabs(m[1]) < 0.01 && std::fabs(m[2] - 1) < 0.02 && std::fabs(m[3]) < 0.05 && std::fabs(m[4] - 3) < 0.25, "moments %g %g %g %g", m[1], m[2], m[3], m[4]);
    MC_CHECK(c, std::fabs(corr / (G * G)) < 0.01, "the two numbers are correlated: %g", corr / (G * G));
    for (int b = 0; b <= 32; b++)
    {
        const double want = 0.5 * std::erfc(-(b - 16) / 5.0 / std::sqrt(2.0)), got = below[b] / (2.0 * G * G);
        MC_CHECK(c, std::fabs(want - got) < 0.005, "%g of the numbers are below %g, expected %g", got, (b - 16) / 5.0, want);
    }
    c.op(G * G), c.eval(G * G), c.outcome(sizeof(T));
}

// ------------------------------------------------------------------------------------------- expressions: forked and shared states
template <typename T>
using Out = std::vector<T>;
template <typename T, typename E>
static Out<T> read(const E& e, size_t n)
{
    univector<T> v(n, T(-77));
    v = truncate(e, n);
    return Out<T>(v.begin(), v.end());
}
template <typename T, int Kind>
struct Gen
{
    static auto value(const random_state& s)
    {
        if constexpr (Kind == 0)
            return gen_random_uniform<T>(s);
        else if constexpr (Kind == 1)
            return gen_random_range<T>(s, T(-5), T(20));
        else
            return gen_random_normal<T>(s, T(2), T(-1));
    }
    static auto ref(random_state& s)
    {
        if constexpr (Kind == 0)
            return gen_random_uniform<T>(std::ref(s));
        else if constexpr (Kind == 1)
            return gen_random_range<T>(std::ref(s), T(-5), T(20));
        else
            return gen_random_normal<T>(std::ref(s), T(2), T(-1));
    }
    static const char* name() { return Kind == 0 ? "uniform" : Kind == 1 ? "range" : "normal"; }
    static bool valid(T x)
    {
        if constexpr (Kind == 0)
            return std::is_integral_v<T> || (x >= T(0) && x < T(1));
        else if constexpr (Kind == 1)
            return x >= T(-5) && x < T(20);
        else
            return std::isfinite(x);
    }
};
template <typename T, int Kind>
static void expressions(Ctx& c, uint64_t root)
{
    using G = Gen<T, Kind>;
    c.key("gen_random_%s", G::name());
    // what n elements read from a state are, and the state after: by a handle of its own
    auto step = [&](random_state& s, size_t n) {
        auto e = G::ref(s);
        return read<T>(e, n);
    };
    random_state shared = random_init(1, 2, 3, (u32)root + 4);
    const random_state seed = shared;
    random_state model_shared = shared, model_v1 = shared, model_v2 = shared;
    auto v1 = G::value(shared);
    auto v2 = v1; // a fork
    auto r1 = G::ref(shared);
    auto r2 = r1;
    const std::vector<long> L = { 1, 3, 8, 33 };
    uint64_t h = 1;
    bool moved = false;
    const int depth = mc::tier(4, 5);
    for (int i = 0; i < depth; i++)
    {
        const int op   = c.choose(6, "v1|v2|r1|r2|v2=v1|new from shared");
        const size_t n = op < 4 ? (size_t)c.pick(L, "count") : 0;
        Out<T> got, want;
        c.op();
        switch (op)
        {
        case 0: got = read<T>(v1, n), want = step(model_v1, n); break;
        case 1: got = read<T>(v2, n), want = step(model_v2, n); break;
        case 2: got = read<T>(r1, n), want = step(model_shared, n), moved = true; break;
        case 3: got = read<T>(r2, n), want = step(model_shared, n), moved = true; break;
        case 4:
        {
            auto v3 = v1; // copies go their own way from here
            random_state m = model_v1;
            got = read<T>(v3, 5), want = step(m, 5);
            break;
        }
        default:
        {
            auto v3 = G::value(shared);
            random_state m = model_shared;
            got = read<T>(v3, 5), want = step(m, 5);
        }
        }
        for (size_t k = 0; k < got.size(); k++)
        {
            MC_CHECK(c, G::valid(got[k]), "element %zu is %g", k, (double)got[k]);
            MC_CHECK(c, got[k] == want[k], "element %zu of %zu is %.9g, a state with the same history gives %.9g", k, got.size(), (double)got[k], (double)want[k]);
        }
        MC_CHECK(c, memcmp(&shared, &model_shared, 16) == 0, "the shared state is not where its readers left it");
        h = mc::hash_mix(h, mc::hash_bytes(got.data(), got.size() * sizeof(T)));
        c.eval(got.size());
    }
    MC_CHECK(c, moved == (memcmp(&seed, &shared, 16) != 0), "a shared state is %s", moved ? "not advanced by reading" : "changed by reading copies");
    // and numbers do vary
    random_state s = seed;
    auto a = step(s, 16);
    bool varies = false;
    for (T x : a)
        varies |= x != a[0];
    MC_CHECK(c, varies, "sixteen numbers are all %g", (double)a[0]);
    c.outcome(h);
}
template <typename T>
static void clock_seeded(Ctx& c, uint64_t)
{
    c.key("clock-seeded expressions");
    auto u = read<T>(gen_random_uniform<T>(), 40);
    auto r = read<T>(gen_random_range<T>(T(3), T(9)), 40);
    auto n = read<T>(gen_random_normal<T>(), 40);
    for (int i = 0; i < 40; i++)
        MC_CHECK(c, u[i] >= 0 && u[i] < 1 && r[i] >= 3 && r[i] < 9 && std::isfinite(n[i]), "element %d: uniform %g, range %g, normal %g", i, (double)u[i], (double)r[i], (double)n[i]);
    bool varies = false;
    for (T x : u)
        varies |= x != u[0];
    MC_CHECK(c, varies, "forty uniform numbers are all %g", (double)u[0]);
    c.op(3), c.outcome(sizeof(T));
}

void mc_register()
{
    mc::add("sequence", 1296, sequences);
    mc::add("init", 1, init);
    mc::add("range f32", 16, float_range32);
    mc::add("range f64", 16, float_range64);
    mc::add("range u8", 256, int_range<u8>);
    mc::add("range i8", 256, int_range<i8>);
    mc::add("range u16", 6, int_range<u16>);
    mc::add("range i16", 6, int_range<i16>);
    mc::add("range u32", 1, wide_range<u32>);
    mc::add("range i32", 1, wide_range<i32>);
    mc::add("range u64", 1, wide_range<u64>);
    mc::add("range i64", 1, wide_range<i64>);
    mc::add("normal f32", 20, normal_finite);
    mc::add("normal f64", 10, normal_finite64);
    mc::add("law f32", 1, normal_law<f32>);
    mc::add("law f64", 1, normal_law<f64>);
    mc::add("uniform expression f32", 2, expressions<f32, 0>);
    mc::add("uniform expression f64", 2, expressions<f64, 0>);
    mc::add("uniform expression i16", 2, expressions<i16, 0>);
    mc::add("range expression f32", 2, expressions<f32, 1>);
    mc::add("range expression f64", 2, expressions<f64, 1>);
    mc::add("range expression i32", 2, expressions<i32, 1>);
    mc::add("normal expression f32", 2, expressions<f32, 2>);
    mc::add("normal expression f64", 2, expressions<f64, 2>);
    mc::add("clock f32", 1, clock_seeded<f32>);
    mc::add("clock f64", 1, clock_seeded<f64>);
}
MC_MAIN()
