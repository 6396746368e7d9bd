// C22: sample format conversion: exact rounding, saturation, invertibility, whole buffers.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/base/conversion.hpp>
using namespace kfr;
using mc::Ctx;
typedef long double ld;
typedef __int128 i128;

template <class T>
constexpr bool is_int = !std::is_floating_point_v<T>;
template <class T>
constexpr int bits = sizeof(T) * 8;
template <class T>
static const char* tname()
{
    if (std::is_same_v<T, i8>) return "i8";
    if (std::is_same_v<T, i16>) return "i16";
    if (std::is_same_v<T, i24>) return "i24";
    if (std::is_same_v<T, i32>) return "i32";
    if (std::is_same_v<T, i64>) return "i64";
    if (std::is_same_v<T, f32>) return "f32";
    return "f64";
}
template <class T>
static T make(i64 v)
{
    if constexpr (std::is_same_v<T, i24>)
        return i24((i32)v);
    else
        return (T)v;
}
template <class T>
static i64 toint(const T& v)
{
    if constexpr (std::is_same_v<T, i24>)
        return v.as_int();
    else
        return (i64)v;
}
template <class T>
static constexpr i64 smax() // full scale of an integer format
{
    return bits<T> == 64 ? std::numeric_limits<i64>::max() : ((i64)1 << (bits<T> - 1)) - 1;
}
template <class T>
static ld scale_of()
{
    if constexpr (is_int<T>)
        return (ld)smax<T>();
    else
        return 1;
}
// Integer formats a floating-point format can hold: 24 significant bits and 53
template <class Ti, class Tm>
constexpr bool holds = is_int<Ti> && (std::is_same_v<Tm, f32>   ? bits<Ti> <= 24
                                      : std::is_same_v<Tm, f64> ? bits<Ti> <= 32
                                                                : bits<Tm> >= bits<Ti>);
// Relative accuracy to expect: that of single precision when neither side has more than 24 significant bits
template <class To, class Ti>
constexpr double accuracy()
{
    constexpr bool lo_i = std::is_same_v<Ti, f32> || (is_int<Ti> && bits<Ti> <= 24);
    constexpr bool lo_o = std::is_same_v<To, f32> || (is_int<To> && bits<To> <= 24);
    return lo_i && lo_o ? 0x1p-22 : std::is_same_v<To, f32> ? 0x1p-23 : 0x1p-50;
}

[[noreturn]] static CMT_NOINLINE void bad(Ctx& c, const char* key, const std::string& m)
{
    c.key("%s", key);
    c.fail("%s", m.c_str());
}
struct Acc
{
    uint64_t n = 0;
};
template <class To, class Ti>
static CMT_NOINLINE void check_one(Ctx& c, const Ti& in, Acc& a)
{
    const ld x = is_int<Ti> ? (ld)toint(in) : (ld)(f64)in;
    ld e       = x / scale_of<Ti>() * scale_of<To>(); // exact up to 64 bits
    const To r = convert_sample<To>(in);
    const ld S = scale_of<To>();
    a.n++;
    if constexpr (is_int<To>)
    {
        const bool sat = e > S || e < -S;
        const ld cl    = e > S ? S : e < -S ? -S : e;
        const ld got   = (ld)toint(r);
        // the value one below negative full scale may be kept or saturated
        ld tol = 0.5L + fabsl(cl) * accuracy<To, Ti>();
        if (fabsl(got - cl) > tol && !(sat && e < 0 && got >= -S - 1 && got <= -S))
            bad(c, "rounding", mc::fmt("%s %.17Lg -> %s gives %.20Lg, exact %.20Lg", tname<Ti>(), x, tname<To>(), got, e));
        if (got != 0 && ((got < 0) != (x < 0)))
            bad(c, "sign", mc::fmt("%s %.17Lg -> %s gives %.20Lg", tname<Ti>(), x, tname<To>(), got));
    }
    else
    {
        const ld got = (ld)r;
        if (fabsl(e) <= 1 && fabsl(got - e) > fabsl(e) * accuracy<To, Ti>() + 0x1p-149L)
            bad(c, "value", mc::fmt("%s %.17Lg -> %s gives %.20Lg, exact %.20Lg", tname<Ti>(), x, tname<To>(), got, e));
        // beyond full scale a float may saturate or pass, but nothing else
        if (fabsl(e) > 1 && !((got >= 1 && e > 0 && got <= e * (1 + 0x1p-22L)) || (got <= -1 && e < 0 && got >= e * (1 + 0x1p-22L))))
            bad(c, "overscale", mc::fmt("%s %.17Lg -> %s gives %.20Lg", tname<Ti>(), x, tname<To>(), got));
    }
    // there and back
    if constexpr (holds<Ti, To>)
    {
        const i64 v = toint(in), back = toint(convert_sample<Ti>(r));
        const i64 want = v < -smax<Ti>() ? -smax<Ti>() : v;
        if (back != want && back != v)
            bad(c, "roundtrip", mc::fmt("%s %lld -> %s -> %s gives %lld", tname<Ti>(), (long long)v, tname<To>(), tname<Ti>(), (long long)back));
    }
}
template <class Ti>
static void check_all_out(Ctx& c, const Ti& in, Acc& a)
{
    check_one<i8>(c, in, a), check_one<i16>(c, in, a), check_one<i24>(c, in, a), check_one<i32>(c, in, a), check_one<i64>(c, in, a);
    check_one<f32>(c, in, a), check_one<f64>(c, in, a);
}
template <class To, class Ti>
static To conv_or_same(const Ti& v)
{
    return convert_sample<To>(v);
}

// ---- every 8-, 16- and 24-bit sample, structured wider ones --------------------------------------------------------------
static std::vector<i64> wide_values(int nbits)
{
    std::vector<i64> v;
    const i64 mx = nbits == 64 ? std::numeric_limits<i64>::max() : ((i64)1 << (nbits - 1)) - 1, mn = -mx - 1;
    auto add = [&](i128 x)
    {
        for (int d = -2; d <= 2; d++)
            for (int s = 0; s < 2; s++)
            {
                i128 y = (s ? -x : x) + d;
                if (y >= mn && y <= mx)
                    v.push_back((i64)y);
            }
    };
    for (int a = 0; a < nbits; a++)
        for (int b = 0; b <= a; b++)
            add(((i128)1 << a) | ((i128)1 << b)), add(((i128)1 << a) - ((i128)1 << b));
    // the neighbourhood of every value that is a half step of a narrower format
    for (int nb : { 8, 16 })
    {
        const i128 s = ((i128)1 << (nb - 1)) - 1;
        for (i128 k = 0; k < s; k += nb == 8 ? 1 : 97)
            add(((2 * k + 1) * (i128)mx) / (2 * s)), add(k * (i128)mx / s);
    }
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}
template <class Ti>
static void ints(Ctx& c, const std::vector<i64>& vals)
{
    Acc a;
    for (i64 v : vals)
        check_all_out(c, make<Ti>(v), a);
    c.eval(a.n), c.op(a.n);
    c.outcome(mc::hash_bytes(vals.data(), vals.size() * 8, bits<Ti>));
}
static std::vector<i64> range(i64 a, i64 b)
{
    std::vector<i64> v;
    for (i64 i = a; i <= b; i++)
        v.push_back(i);
    return v;
}

// ---- floats: every single-precision pattern with few mantissa bits, and the steps of every integer format -----------------
template <class F>
static void floats(Ctx& c, const std::vector<F>& vals)
{
    Acc a;
    for (F v : vals)
        check_all_out(c, v, a);
    c.eval(a.n), c.op(a.n);
    c.outcome(mc::hash_bytes(vals.data(), vals.size() * sizeof(F), sizeof(F)));
}
static bool same(f32 a, f32 b) { return a == b; }
// monotone over a dense run of single-precision values
template <class To>
static void dense_run(Ctx& c, u32 from, u32 step, u32 count)
{
    auto val = [](u32 b)
    {
        f32 f;
        memcpy(&f, &b, 4);
        return f;
    };
    i64 prev = toint(convert_sample<To>(val(from)));
    for (u32 i = 1; i < count; i++)
    {
        const f32 f = val(from + i * step);
        const i64 p = toint(convert_sample<To>(f)), q = toint(convert_sample<To>(-f));
        if (p < prev)
            bad(c, "monotone", mc::fmt("f32 -> %s: %.9g gives %lld, a smaller value gives %lld", tname<To>(), f, (long long)p, (long long)prev));
        if (p != -q && !(p == smax<To>() && q == -p - 1))
            bad(c, "symmetric", mc::fmt("f32 -> %s: %.9g gives %lld, its negative %lld", tname<To>(), f, (long long)p, (long long)q));
        prev = p;
    }
    c.eval(2 * count), c.op(2 * count);
    c.outcome(mc::hash_mix(from, bits<To>));
}

// ---- buffers --------------------------------------------------------------------------------------------------------------
template <class T>
static T sample(size_t i)
{
    if constexpr (is_int<T>)
    {
        const i64 m = smax<T>();
        const int k = (int)(i % 7);
        return make<T>(k == 0   ? m
                       : k == 1 ? -m
                       : k == 2 ? m / 3 + (i64)i
                       : k == 3 ? -m / 5 - (i64)i
                                : (i64)(i % 100) - 50);
    }
    else
        return (T)(i % 11 == 0 ? 1.5 : i % 13 == 0 ? -2.25 : mcu::uval(i, 3));
}
template <class T>
static bool eq(const T& a, const T& b)
{
    return !memcmp(&a, &b, sizeof(T));
}
template <class To, class Ti>
static void buffers(Ctx& c, size_t nmax, size_t chmax)
{
    constexpr audio_sample_type to = audio_sample_traits<To>::type, ti = audio_sample_traits<Ti>::type;
    c.key("%s-%s", tname<Ti>(), tname<To>());
    MC_CHECK(c, audio_sample_sizeof(to) == sizeof(To) && audio_sample_bit_depth(ti) == 8 * sizeof(Ti), "size of the format is wrong");
    for (size_t n = 0; n <= nmax; n++)
        for (size_t mis = 0; mis < 2; mis++)
        {
            mcu::Buf<Ti> in(n, mis);
            for (size_t i = 0; i < n; i++)
                in[i] = sample<Ti>(i);
            for (int iface = 0; iface < 3; iface++)
            {
                mcu::Buf<To> out(n, 1 - mis);
                if (iface == 0)
                    convert(out.data(), in.data(), n);
                else if (iface == 1)
                    convert(out.data(), (const void*)in.data(), ti, n);
                else
                    convert((void*)out.data(), to, in.data(), n);
                MC_CHECK(c, out.canaries_ok(), "convert of %zu wrote before the buffer", n);
                for (size_t i = 0; i < n; i++)
                    MC_CHECK(c, eq(out[i], conv_or_same<To>(in[i])), "convert (interface %d) of %zu: sample %zu differs from the sample converted alone",
                             iface, n, i);
                c.eval(n), c.op(1);
            }
        }
    for (size_t ch = 1; ch <= chmax; ch++)
        for (size_t n = 0; n <= nmax / 2; n++)
        {
            mcu::Buf<Ti> in(n * ch, ch % 2);
            for (size_t i = 0; i < n * ch; i++)
                in[i] = sample<Ti>(i);
            std::vector<std::unique_ptr<mcu::Buf<To>>> o;
            std::vector<To*> po;
            for (size_t k = 0; k < ch; k++)
                o.emplace_back(new mcu::Buf<To>(n, k % 2)), po.push_back(o.back()->data());
            deinterleave(po.data(), in.data(), ch, n);
            for (size_t k = 0; k < ch; k++)
            {
                MC_CHECK(c, o[k]->canaries_ok(), "deinterleave wrote before a channel");
                for (size_t i = 0; i < n; i++)
                    MC_CHECK(c, eq((*o[k])[i], conv_or_same<To>(in[i * ch + k])), "deinterleave of %zux%zu: channel %zu sample %zu", ch, n, k, i);
            }
            std::vector<std::unique_ptr<mcu::Buf<Ti>>> q;
            std::vector<const Ti*> pq;
            for (size_t k = 0; k < ch; k++)
            {
                q.emplace_back(new mcu::Buf<Ti>(n, k % 2)), pq.push_back(q.back()->data());
                for (size_t i = 0; i < n; i++)
                    (*q[k])[i] = in[i * ch + k];
            }
            mcu::Buf<To> out(n * ch, 1);
            interleave(out.data(), pq.data(), ch, n);
            MC_CHECK(c, out.canaries_ok(), "interleave wrote before the buffer");
            for (size_t i = 0; i < n * ch; i++)
                MC_CHECK(c, eq(out[i], conv_or_same<To>(in[i])), "interleave of %zux%zu: sample %zu", ch, n, i);
            c.eval(2 * n * ch), c.op(2);
        }
    c.outcome((int)to * 100 + (int)ti);
}
template <class To, class Ti>
static void unknown(Ctx& c)
{
    // an unknown format converts nothing
    mcu::Buf<Ti> in(4);
    mcu::Buf<To> out(4);
    for (size_t i = 0; i < 4; i++)
        in[i] = sample<Ti>(i);
    mcu::Buf<To> ref(4);
    convert(out.data(), (const void*)in.data(), audio_sample_type::unknown, 4);
    convert((void*)out.data(), audio_sample_type::unknown, in.data(), 4);
    MC_CHECK(c, !memcmp(out.data(), ref.data(), 4 * sizeof(To)), "converting from or to the unknown format writes samples");
    c.eval(2), c.op(2), c.outcome(1);
}
template <class Fn>
static void with_type(int t, Fn fn)
{
    switch (t)
    {
    case 0: return fn((i8*)0);
    case 1: return fn((i16*)0);
    case 2: return fn((i24*)0);
    case 3: return fn((i32*)0);
    case 4: return fn((i64*)0);
    case 5: return fn((f32*)0);
    default: return fn((f64*)0);
    }
}

void mc_register()
{
    mc::add("samples8", 1, [](Ctx& c, uint64_t) { ints<i8>(c, range(-128, 127)); }, 60);
    mc::add("samples16", 1, [](Ctx& c, uint64_t) { ints<i16>(c, range(-32768, 32767)); }, 60);
    mc::add("samples24", 64,
            [](Ctx& c, uint64_t r)
            {
                // quick: every 16th block of 4096 values; thorough: all 2^24
                for (int blk = 0; blk < 64; blk++)
                {
                    const i64 a = -8388608 + (i64)(r * 64 + blk) * 4096;
                    if (mc::thorough() || blk % 16 == 0 || r == 0 || r == 31 || r == 32 || r == 63)
                        ints<i24>(c, range(a, a + 4095));
                }
            },
            300);
    mc::add("samples32", 1, [](Ctx& c, uint64_t) { ints<i32>(c, wide_values(32)); }, 60);
    mc::add("samples64", 1, [](Ctx& c, uint64_t) { ints<i64>(c, wide_values(64)); }, 60);
    mc::add("float32", 256,
            [](Ctx& c, uint64_t r)
            {
                // every exponent and sign with the upper mantissa bits enumerated
                const int mb = mc::tier(12, 18);
                std::vector<f32> v;
                for (u32 e2 = 0; e2 < 2; e2++)
                    for (u32 m = 0; m < (1u << mb); m++)
                        for (u32 low : { 0u, (1u << (23 - mb)) - 1 })
                        {
                            const u32 b = (e2 << 31) | ((u32)r << 23) | (m << (23 - mb)) | low;
                            f32 f;
                            memcpy(&f, &b, 4);
                            if (f == f && std::fabs(f) < 1e30f)
                                v.push_back(f);
                        }
                if (r < 255)
                    floats(c, v);
                else
                    c.eval(1), c.outcome(0), c.op(1);
            },
            120);
    mc::add("halfsteps", 6,
            [](Ctx& c, uint64_t r)
            {
                // around every half step of an 8- or 16-bit format, and of a 24-bit one on a grid
                std::vector<f32> v;
                std::vector<f64> w;
                const int nb  = r % 3 == 0 ? 8 : r % 3 == 1 ? 16 : 24;
                const i64 S   = ((i64)1 << (nb - 1)) - 1;
                const i64 stp = nb == 24 ? mc::tier(1021, 127) : 1;
                for (i64 k = 0; k <= S; k += stp)
                    for (int h = 0; h < 2; h++)
                    {
                        const double x = (k + 0.5 * h) / (double)S;
                        if (r < 3)
                        {
                            f32 f = (f32)x;
                            for (f32 g : { std::nextafter(f, 0.f), f, std::nextafter(f, 2.f) })
                                v.push_back(g), v.push_back(-g);
                        }
                        else
                            for (f64 g : { std::nextafter(x, 0.), x, std::nextafter(x, 2.) })
                                w.push_back(g), w.push_back(-g);
                    }
                r < 3 ? floats(c, v) : floats(c, w);
            },
            120);
    mc::add("float64", 128,
            [](Ctx& c, uint64_t r)
            {
                std::vector<f64> v;
                const int mb = mc::tier(8, 12);
                for (int e = (int)r - 96; e < (int)r - 95; e++)
                    for (u32 m = 0; m < (1u << mb); m++)
                        for (u64 low : { 0ull, 1ull, (1ull << (52 - mb)) - 1 })
                            for (int s = 0; s < 2; s++)
                            {
                                const u64 b = ((u64)s << 63) | ((u64)(e + 1023) << 52) | ((u64)m << (52 - mb)) | low;
                                f64 f;
                                memcpy(&f, &b, 8);
                                v.push_back(f);
                            }
                floats(c, v);
            },
            60);
    mc::add("monotone", 32,
            [](Ctx& c, uint64_t r)
            {
                // the floats from 2^-28 to 2 in equal runs; thorough: every one of them for 16 bits
                const u32 from = (99u << 23) + (u32)r * (29u << 18), n = mc::tier(1u << 16, 29u << 18), step = (29u << 18) / n;
                dense_run<i16>(c, from, step, n);
                dense_run<i8>(c, from, std::max(1u, step), std::min(n, 1u << 20));
                dense_run<i24>(c, from, std::max(1u, step), std::min(n, 1u << 20));
                dense_run<i32>(c, from, std::max(1u, step), std::min(n, 1u << 20));
                dense_run<i64>(c, from, std::max(1u, step), std::min(n, 1u << 20));
            },
            300);
    mc::add("buffers", 49,
            [](Ctx& c, uint64_t r)
            {
                with_type((int)(r / 7),
                          [&](auto* a)
                          {
                              with_type((int)(r % 7),
                                        [&](auto* b)
                                        {
                                            using Ti = std::remove_pointer_t<decltype(a)>;
                                            using To = std::remove_pointer_t<decltype(b)>;
                                            buffers<To, Ti>(c, mc::tier(40, 140), mc::tier(6, 17));
                                            unknown<To, Ti>(c);
                                        });
                          });
            },
            120);
    mc::add("univectors", 1,
            [](Ctx& c, uint64_t)
            {
                for (size_t ch = 1; ch <= 5; ch++)
                    for (size_t n = 0; n <= 20; n++)
                    {
                        univector2d<i16> in;
                        for (size_t k = 0; k < ch; k++)
                        {
                            univector<i16> x(n);
                            for (size_t i = 0; i < n; i++)
                                x[i] = (i16)(k * 1000 + i);
                            in.push_back(x);
                        }
                        univector<i16> il = interleave(in);
                        MC_CHECK(c, il.size() == n * ch, "interleave of %zux%zu has %zu samples", ch, n, il.size());
                        univector<f32> ilf(n * ch);
                        interleave(ilf, in);
                        univector2d<i16> back;
                        for (size_t k = 0; k < ch; k++)
                            back.push_back(univector<i16>(n, (i16)-1));
                        deinterleave(back, il);
                        for (size_t k = 0; k < ch; k++)
                            for (size_t i = 0; i < n; i++)
                            {
                                MC_CHECK(c, il[i * ch + k] == in[k][i], "interleave of %zux%zu: channel %zu sample %zu", ch, n, k, i);
                                MC_CHECK(c, same(ilf[i * ch + k], convert_sample<f32>(in[k][i])), "converting interleave of %zux%zu: channel %zu sample %zu", ch, n, k, i);
                                MC_CHECK(c, back[k][i] == in[k][i], "deinterleave of %zux%zu: channel %zu sample %zu", ch, n, k, i);
                            }
                        c.eval(3 * n * ch), c.op(3);
                    }
                c.outcome(1);
            },
            30);
}
MC_MAIN()
