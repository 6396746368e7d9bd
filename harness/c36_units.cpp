// C36: channel mixing, unit conversions and weighting curves.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/dsp/mixdown.hpp>
#include <kfr/dsp/units.hpp>
#include <kfr/dsp/weighting.hpp>
using namespace kfr;
using mc::Ctx;

// ------------------------------------------------------------------------------------------- mixing
template <typename T>
static CMT_NOINLINE void same(Ctx& c, const T* got, size_t n, const std::vector<double>& want, const char* what)
{
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, got[i] == (T)want[i], "%s: frame %zu of %zu is %g, expected %g", what, i, n, (double)got[i], want[i]);
    c.eval(n);
}
template <typename T>
static void mix(Ctx& c, uint64_t root)
{
    const size_t n = root;
    c.key("mixdown %s", sizeof(T) == 4 ? "f32" : "f64");
    const int count = 2 + c.choose(4, "channels - 2"), pattern = c.choose(3, "data");
    std::vector<univector<T>> v;
    std::vector<double> want(n);
    for (int k = 0; k < count; k++)
    {
        v.push_back(univector<T>(n));
        for (size_t i = 0; i < n; i++)
        {
            v[k][i] = (T)(pattern == 0 ? (double)((int)(mc::hash_mix(i, k) % 2001) - 1000) : pattern == 1 ? (double)((i + 1) << (k * 3)) : (i % count == (size_t)k ? 77.0 : 0.0));
            want[i] += v[k][i];
        }
    }
    // whole or in two blocks
    mcu::Buf<T> out(n, 0);
    const size_t cut = n ? c.choose((int)n, "first block") : 0;
    auto run = [&](auto&& e) {
        auto o = make_univector(out.data(), n);
        if (!cut)
            o = e;
        else
        {
            o.slice(0, cut) = slice(e, 0, cut);
            o.slice(cut)    = slice(e, cut, n - cut);
        }
    };
    if (count == 2)
        run(mixdown(v[0], v[1]));
    else if (count == 3)
        run(mixdown(v[0], v[1], v[2]));
    else if (count == 4)
        run(mixdown(v[0], v[1], v[2], v[3]));
    else
        run(mixdown(v[0], v[1], v[2], v[3], v[4]));
    same(c, out.data(), n, want, "mixdown");
    MC_CHECK(c, out.canaries_ok(), "mixdown writes outside");
    c.op(), c.outcome(mc::hash_mix(n, count * 8 + pattern));
}
template <typename T>
static void stereo(Ctx& c, uint64_t root)
{
    const size_t n = root;
    c.key("mixdown_stereo %s", sizeof(T) == 4 ? "f32" : "f64");
    f64x2x2 m;
    double a, b, d, e;
    const int k = c.choose(4, "sum-difference|half sum|swap|any");
    if (k == 0)
        m = matrix_sum_diff(), a = 1, b = 1, d = 1, e = -1;
    else if (k == 1)
        m = matrix_halfsum_halfdiff(), a = .5, b = .5, d = .5, e = -.5;
    else if (k == 2)
        a = 0, b = 1, d = 1, e = 0, m = f64x2x2{ f64x2{ 0, 1 }, f64x2{ 1, 0 } };
    else
    {
        a = c.choose(7, "ll") - 3, b = c.choose(7, "lr") - 3, d = c.choose(7, "rl") - 3, e = c.choose(7, "rr") - 3;
        m = f64x2x2{ f64x2{ a, b }, f64x2{ d, e } };
    }
    univector<T> l(n), r(n);
    std::vector<double> wl(n), wr(n);
    for (size_t i = 0; i < n; i++)
    {
        l[i] = (T)((int)(mc::hash_mix(i, 1) % 2001) - 1000), r[i] = (T)((int)(mc::hash_mix(i, 2) % 2001) - 1000);
        wl[i] = a * l[i] + b * r[i], wr[i] = d * l[i] + e * r[i];
    }
    auto x = mixdown_stereo(l, r, m);
    univector<vec<f64, 2>> out(n);
    out = x;
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, out[i][0] == wl[i] && out[i][1] == wr[i], "frame %zu of %zu is (%g, %g), expected (%g, %g)", i, n, out[i][0], out[i][1], wl[i], wr[i]);
    if (k < 2)
    {
        // and back: sum/difference undoes half sum/half difference
        univector<f64> p(n), q(n);
        for (size_t i = 0; i < n; i++)
            p[i] = out[i][0], q[i] = out[i][1];
        univector<vec<f64, 2>> back(n);
        back = mixdown_stereo(p, q, k == 0 ? matrix_halfsum_halfdiff() : matrix_sum_diff());
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, back[i][0] == l[i] && back[i][1] == r[i], "frame %zu of %zu comes back as (%g, %g), was (%g, %g)", i, n, back[i][0], back[i][1], (double)l[i], (double)r[i]);
    }
    c.op(), c.eval(n), c.outcome(mc::hash_mix(n, mc::hash_mix((uint64_t)(a * 100 + b * 10 + 50), (uint64_t)(d * 100 + e * 10 + 50))));
}

// ------------------------------------------------------------------------------------------- units
using LD_ = long double;
static LD_ ref(int k, LD_ x)
{
    switch (k)
    {
    case 0: return 20 * log10l(fabsl(x));
    case 1: return powl(10, x / 20);
    case 2: return 10 * log10l(fabsl(x));
    case 3: return powl(10, x / 10);
    case 4: return 440 * powl(2, (x - 69) / 12);
    default: return 69 + 12 * log2l(x / 440);
    }
}
static const char* NAME[] = { "amp_to_dB", "dB_to_amp", "power_to_dB", "dB_to_power", "note_to_hertz", "hertz_to_note" };
template <typename X>
static CMT_NOINLINE X call(int k, const X& x)
{
    switch (k)
    {
    case 0: return amp_to_dB(x);
    case 1: return dB_to_amp(x);
    case 2: return power_to_dB(x);
    case 3: return dB_to_power(x);
    case 4: return note_to_hertz(x);
    default: return hertz_to_note(x);
    }
}
template <typename T>
static CMT_NOINLINE void expression(int k, T* out, const T* in, size_t n)
{
    auto x = make_univector(in, n);
    auto y = make_univector(out, n);
    switch (k)
    {
    case 0: y = amp_to_dB(x); break;
    case 1: y = dB_to_amp(x); break;
    case 2: y = power_to_dB(x); break;
    case 3: y = dB_to_power(x); break;
    case 4: y = note_to_hertz(x); break;
    default: y = hertz_to_note(x); break;
    }
}
template <typename T>
static CMT_NOINLINE void judge(Ctx& c, int k, T x, T y)
{
    constexpr LD_ eps = std::numeric_limits<T>::epsilon();
    const LD_ want = ref(k, x);
    if (k == 1 || k == 3 || k == 4)
    {
        // an exponential: the error of the argument counts
        if (want > std::numeric_limits<T>::max() || want < std::numeric_limits<T>::min())
            return;
        const LD_ tol = want * eps * (16 + 2 * fabsl(logl(want)));
        MC_CHECK(c, fabsl(y - want) <= tol, "%s(%.9g) is %.9g, expected %.9Lg", NAME[k], (double)x, (double)y, want);
    }
    else
    {
        const LD_ tol = (fabsl(want) + 60) * eps * 8;
        MC_CHECK(c, fabsl(y - want) <= tol || want == y, "%s(%.9g) is %.9g, expected %.9Lg", NAME[k], (double)x, (double)y, want);
    }
}
// every argument on a grid: root = part of the grid
template <typename T>
static void grid(int k, uint64_t part, std::vector<T>& x)
{
    if (k == 1 || k == 3)
        for (int i = 0; i < 2000; i++)
            x.push_back((T)((int)part * 2000 + i - 20000) / (T)(sizeof(T) == 4 ? 64 : 16)); // +-312 dB, +-1250 dB
    else if (k == 4)
        for (int i = 0; i < 2000; i++)
            x.push_back((T)((int)part * 2000 + i - 20000) / (T)16);
    else
    {
        // every binade, a grid of mantissas
        const int lo = sizeof(T) == 4 ? -126 : -1022, hi = sizeof(T) == 4 ? 127 : 1023;
        for (int e = lo; e <= hi; e++)
            for (int m = 0; m < 32; m++)
            {
                const T v = (T)std::ldexp(1.0 + (m + 32.0 * part) / (32.0 * 20), e);
                x.push_back(v);
                if (k != 5)
                    x.push_back(-v);
            }
    }
}
template <typename T>
static void units(Ctx& c, uint64_t root)
{
    const int k = root % 6;
    const uint64_t part = root / 6;
    c.key("%s %s", NAME[k], sizeof(T) == 4 ? "f32" : "f64");
    std::vector<T> x;
    grid(k, part, x);
    const size_t n = x.size();
    std::vector<T> y(n);
    // one value at a time, vectors or expressions: the same values
    const int how = c.choose(4, "scalar|vec 4|vec 7|expression");
    if (how == 0)
        for (size_t i = 0; i < n; i++)
            y[i] = call<T>(k, x[i]);
    else if (how == 1)
        for (size_t i = 0; i + 4 <= n; i += 4)
            write(y.data() + i, call<vec<T, 4>>(k, read<4>(x.data() + i)));
    else if (how == 2)
        for (size_t i = 0; i + 7 <= n; i += 7)
            write(y.data() + i, call<vec<T, 7>>(k, read<7>(x.data() + i)));
    else
        expression<T>(k, y.data(), x.data(), n);
    const size_t m = how == 1 ? n / 4 * 4 : how == 2 ? n / 7 * 7 : n;
    for (size_t i = 0; i < m; i++)
        judge<T>(c, k, x[i], y[i]);
    c.op(), c.eval(m), c.outcome(mc::hash_mix(root, n));
}
// there and back
template <typename T>
static void inverse(Ctx& c, uint64_t root)
{
    const int k = root % 6;
    const uint64_t part = root / 6;
    constexpr LD_ eps = std::numeric_limits<T>::epsilon();
    c.key("inverse of %s %s", NAME[k], sizeof(T) == 4 ? "f32" : "f64");
    const int j = k ^ 1;
    std::vector<T> x;
    grid(k, part, x);
    const LD_ big = std::numeric_limits<T>::max(), small = std::numeric_limits<T>::min();
    for (T v : x)
    {
        const LD_ want = ref(k, v);
        if ((k == 1 || k == 3 || k == 4) && (want > big || want < small))
            continue;
        const T y = call<T>(k, v), z = call<T>(j, y);
        const LD_ w = fabs(v);
        if (k == 0 || k == 2 || k == 5)
            MC_CHECK(c, fabsl(z - w) <= w * eps * (32 + 8 * fabsl(logl(w))), "%s(%s(%.9g)) is %.9g", NAME[j], NAME[k], (double)v, (double)z);
        else
            MC_CHECK(c, fabsl(z - (LD_)v) <= (fabsl((LD_)v) + 60) * eps * 16, "%s(%s(%.9g)) is %.9g", NAME[j], NAME[k], (double)v, (double)z);
        c.eval();
    }
    c.op(), c.outcome(mc::hash_mix(root, 3));
}
// the ends of the scales, in every lane
template <typename T>
static void ends(Ctx& c, uint64_t root)
{
    c.key("ends %s", sizeof(T) == 4 ? "f32" : "f64");
    const T inf = std::numeric_limits<T>::infinity();
    struct Row
    {
        int k;
        T x, y;
    };
    static const Row R[] = { { 0, 0, -inf }, { 0, -T(0), -inf }, { 1, -inf, 0 }, { 2, 0, -inf }, { 2, -T(0), -inf }, { 3, -inf, 0 }, { 0, 1, 0 }, { 1, 0, 1 }, { 2, 1, 0 }, { 3, 0, 1 }, { 5, 0, -inf }, { 4, -inf, 0 } };
    const Row& r = R[root];
    const int lane = c.choose(8, "lane"), how = c.choose(2, "vec|expression");
    T in[8], out[8];
    for (int i = 0; i < 8; i++)
        in[i] = T(i + 3);
    in[lane] = r.x;
    if (how)
        expression<T>(r.k, out, in, 8);
    else
        write(out, call<vec<T, 8>>(r.k, read<8>(in)));
    for (int i = 0; i < 8; i++)
        if (i == lane)
            MC_CHECK(c, out[i] == r.y, "%s(%g) is %g in lane %d, expected %g", NAME[r.k], (double)r.x, (double)out[i], i, (double)r.y);
        else
            judge<T>(c, r.k, in[i], out[i]);
    const T s = call<T>(r.k, r.x);
    MC_CHECK(c, s == r.y, "%s(%g) is %g, expected %g", NAME[r.k], (double)r.x, (double)s, (double)r.y);
    c.op(), c.eval(8), c.outcome(mc::hash_mix(root, lane));
}
// other tunings
template <typename T>
static void tuning(Ctx& c, uint64_t root)
{
    c.key("tuning %s", sizeof(T) == 4 ? "f32" : "f64");
    const T tn = (T)c.pick({ 69, 60, 0, 57 }, "note"), th = (T)c.pick({ 440, 432, 27, 1000 }, "hertz");
    for (int i = 0; i <= 160; i++)
    {
        const T note = (T)((int)root * 10 - 20 + i / 16.0);
        const LD_ want = th * powl(2, ((LD_)note - tn) / 12);
        const T h = intrinsics::note_to_hertz(note, tn, th);
        constexpr LD_ eps = std::numeric_limits<T>::epsilon();
        MC_CHECK(c, fabsl(h - want) <= want * eps * 64, "note %g tuned to %g at %g Hz is %.9g Hz, expected %.9Lg", (double)note, (double)tn, (double)th, (double)h, want);
        const T back = intrinsics::hertz_to_note((T)want, tn, th);
        MC_CHECK(c, fabsl(back - (LD_)note) <= (fabsl((LD_)note) + 200) * eps * 16, "%.9Lg Hz tuned to %g at %g Hz is note %.9g, expected %.9g", want, (double)tn, (double)th, (double)back, (double)note);
        c.eval(2);
    }
    c.op(), c.outcome(mc::hash_mix(root, (uint64_t)(tn * 10000 + th)));
}

// ------------------------------------------------------------------------------------------- weighting curves
static LD_ curve(int k, LD_ f)
{
    const LD_ f2 = f * f, a = 20.6L * 20.6L, d = 12200.0L * 12200.0L;
    auto raw = [&](LD_ f2) {
        if (k == 0)
            return d * f2 * f2 / ((f2 + a) * sqrtl((f2 + 107.7L * 107.7L) * (f2 + 737.9L * 737.9L)) * (f2 + d));
        if (k == 1)
            return d * f2 * sqrtl(f2) / ((f2 + a) * sqrtl(f2 + 158.5L * 158.5L) * (f2 + d));
        return d * f2 / ((f2 + a) * (f2 + d));
    };
    return raw(f2) / raw(1e6L);
}
template <typename T>
static void weighting(Ctx& c, uint64_t root)
{
    c.key("weighting %s", sizeof(T) == 4 ? "f32" : "f64");
    const int k = root % 3, how = c.choose(2, "scalar|expression");
    const size_t n = 1 + c.choose(40, "count - 1");
    std::vector<T> f(n), y(n);
    for (size_t i = 0; i < n; i++)
        f[i] = (T)(10.0 * std::pow(2.0, (i * 41 + root) % 440 / 40.0));
    auto x = make_univector(f.data(), n);
    auto o = make_univector(y.data(), n);
    if (how)
    {
        if (k == 0)
            o = aweighting(x);
        else if (k == 1)
            o = bweighting(x);
        else
            o = cweighting(x);
    }
    else
        for (size_t i = 0; i < n; i++)
            y[i] = k == 0 ? aweighting(f[i]) : k == 1 ? bweighting(f[i]) : cweighting(f[i]);
    for (size_t i = 0; i < n; i++)
    {
        const LD_ want = curve(k, f[i]);
        MC_CHECK(c, fabsl(y[i] - want) <= want * 1e-4L, "weight %c at %g Hz is %.9g, expected %.9Lg", 'A' + k, (double)f[i], (double)y[i], want);
    }
    c.op(), c.eval(n), c.outcome(mc::hash_mix(root, n));
}
void mc_register()
{
    const uint64_t L = mc::tier(40, 80);
    mc::add("mixdown f32", L, mix<f32>);
    mc::add("mixdown f64", L, mix<f64>);
    mc::add("mixdown_stereo f32", mc::tier(20, 40), stereo<f32>);
    mc::add("mixdown_stereo f64", mc::tier(20, 40), stereo<f64>);
    mc::add("units f32", 120, units<f32>);
    mc::add("units f64", 120, units<f64>);
    mc::add("inverse f32", 120, inverse<f32>);
    mc::add("inverse f64", 120, inverse<f64>);
    mc::add("ends f32", 12, ends<f32>);
    mc::add("ends f64", 12, ends<f64>);
    mc::add("tuning f32", 16, tuning<f32>);
    mc::add("tuning f64", 16, tuning<f64>);
    mc::add("weighting f32", 60, weighting<f32>);
    mc::add("weighting f64", 60, weighting<f64>);
}
MC_MAIN()
