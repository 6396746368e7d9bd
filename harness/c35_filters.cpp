// C35: designed recursive filters have the response of their prototype at every frequency and are stable.
#include "mc.hpp"
#include "util.hpp"
#include <complex>
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include <kfr/dsp/biquad_design.hpp>
#include <kfr/dsp/iir.hpp>
#include <kfr/dsp/iir_design.hpp>
#include <kfr/math.hpp>
using namespace kfr;
using mc::Ctx;
using LD = long double;
using CL = std::complex<long double>;
static const LD PI = acosl(-1.0L);

// response of a section at a frequency and the uncertainty which one rounding error in each coefficient leaves
struct Response
{
    CL h = 1;
    LD rel = 0, abs = 0;
};
template <typename T>
static void apply(Response& r, const biquad_section<T>& s, LD f)
{
    const CL z = std::polar(1.0L, -2 * PI * f), num = (LD)s.b0 + z * ((LD)s.b1 + z * (LD)s.b2), den = 1.0L + z * ((LD)s.a1 + z * (LD)s.a2);
    const LD b = fabsl(s.b0) + fabsl(s.b1) + fabsl(s.b2), a = 1 + fabsl(s.a1) + fabsl(s.a2);
    r.abs = r.abs * std::abs(num / den) + std::abs(r.h) * b / std::abs(den);
    r.h *= num / den;
    r.rel += a / std::abs(den);
}
template <typename T>
static bool stable(const biquad_section<T>& s)
{
    return s.a0 == 1 && fabsl((LD)s.a2) < 1 && fabsl((LD)s.a1) < 1 + (LD)s.a2;
}

// ------------------------------------------------------------------------------------------- single sections
static const double FREQ[] = { 0.25, 0.1, 0.01, 0.001, 0.17, 0.33, 0.4, 0.45, 0.49 };
static const double QS[]   = { 0.70710678118654752, 0.5, 1, 4, 30, 0.1 };
static const double GAIN[] = { 0, 6, -6, 0.5, -0.5, 24, -24, 3 };
enum Section { ALLPASS, LOWPASS, HIGHPASS, BANDPASS, NOTCH, PEAK, LOWSHELF, HIGHSHELF };
static const char* const SECTION[] = { "biquad_allpass", "biquad_lowpass", "biquad_highpass", "biquad_bandpass", "biquad_notch", "biquad_peak", "biquad_lowshelf", "biquad_highshelf" };
template <typename T>
static void sections(Ctx& c, uint64_t root)
{
    const Section kind = (Section)(root % 8);
    c.key("%s %s", SECTION[kind], sizeof(T) == 4 ? "f32" : "f64");
    const T f0   = (T)(root / 8 < 9 ? FREQ[root / 8] : (root / 8 - 8) / (mc::tier(40, 200) + 0.0) / 2);
    const T q    = kind >= LOWSHELF ? T(1) : (T)QS[c.choose(6, "Q")];
    const T gain = kind < PEAK ? T(0) : (T)GAIN[c.choose(8, "gain")];
    biquad_section<T> s;
    switch (kind)
    {
    case ALLPASS: s = biquad_allpass<T>(f0, q); break;
    case LOWPASS: s = biquad_lowpass<T>(f0, q); break;
    case HIGHPASS: s = biquad_highpass<T>(f0, q); break;
    case BANDPASS: s = biquad_bandpass<T>(f0, q); break;
    case NOTCH: s = biquad_notch<T>(f0, q); break;
    case PEAK: s = biquad_peak<T>(f0, q, gain); break;
    case LOWSHELF: s = biquad_lowshelf<T>(f0, gain); break;
    case HIGHSHELF: s = biquad_highshelf<T>(f0, gain); break;
    }
    if (!stable(s))
        c.fail("%s(%g, Q %g, %g dB) is not a stable normalised section: a = %g %g %g", SECTION[kind], (double)f0, (double)q, (double)gain, (double)s.a0, (double)s.a1, (double)s.a2);
    const LD eps = std::numeric_limits<T>::epsilon(), V = powl(10, fabsl(gain) / 20), k0 = tanl(PI * f0), Q = q;
    for (int i = 0; i < 64; i++)
    {
        const LD f  = i == 63 ? (LD)f0 : i / 126.0L;
        const CL S  = CL(0, tanl(PI * f) / k0), S2 = S * S;
        const CL band = S2 + S / Q + 1.0L;
        CL want;
        switch (kind)
        {
        case ALLPASS: want = (S2 - S / Q + 1.0L) / band; break;
        case LOWPASS: want = 1.0L / band; break;
        case HIGHPASS: want = S2 / band; break;
        case BANDPASS: want = S / Q / band; break;
        case NOTCH: want = (S2 + 1.0L) / band; break;
        case PEAK: want = (S2 + S * V / Q + 1.0L) / band; break;
        case LOWSHELF: want = (S2 + sqrtl(2 * V) * S + V) / (S2 + sqrtl(2) * S + 1.0L); break;
        case HIGHSHELF: want = (V * S2 + sqrtl(2 * V) * S + 1.0L) / (S2 + sqrtl(2) * S + 1.0L); break;
        }
        if (gain < 0)
            want = 1.0L / want;
        Response r;
        apply(r, s, f);
        const LD tol = eps * 24 * (1 + 2 * PI * f0 / sinl(2 * PI * f0)) * (r.rel * std::abs(r.h) + r.abs);
        if (!(std::abs(r.h - want) <= tol) && tol < 0.1)
            c.fail("%s(%g, Q %g, %g dB) at frequency %Lg: response (%.9Lg, %.9Lg), expected (%.9Lg, %.9Lg), error %.3Lg, allowed %.3Lg", SECTION[kind], (double)f0, (double)q, (double)gain, f,
                   r.h.real(), r.h.imag(), want.real(), want.imag(), std::abs(r.h - want), tol);
    }
    c.op(), c.eval(64), c.outcome(mc::hash_mix(root, (uint64_t)(q * 1000) * 1000 + (int)(gain * 2) + 500));
}

// ------------------------------------------------------------------------------------------- classical filters
enum Proto { BUTTER, CHEBY1, CHEBY2, BESSEL };
enum Band { LOW, HIGH, BAND, STOP };
static const char* const PROTO[] = { "butterworth", "chebyshev1", "chebyshev2", "bessel" };
static const char* const BANDS[] = { "iir_lowpass", "iir_highpass", "iir_bandpass", "iir_bandstop" };
static const double RIPPLE[4][4] = { { 0, 0, 0, 0 }, { 1, 0.1, 3, 0.01 }, { 40, 20, 3, 80 }, { 0, 0, 0, 0 } };
static LD cheb(int n, LD x) { return fabsl(x) <= 1 ? cosl(n * acosl(x)) : (x < 0 && n % 2 ? -1 : 1) * coshl(n * acoshl(fabsl(x))); }
// squared magnitude of the low-pass prototype
static LD power(Proto p, int n, LD rp, LD x)
{
    x = fabsl(x);
    switch (p)
    {
    case BUTTER: return 1 / (1 + powl(x, 2 * n));
    case CHEBY1: {
        const LD e2 = powl(10, rp / 10) - 1, t = cheb(n, x);
        return 1 / (1 + e2 * t * t);
    }
    case CHEBY2: {
        const LD e2 = 1 / (powl(10, rp / 10) - 1), t = cheb(n, 1 / x);
        return x == 0 ? 1 : 1 / (1 + 1 / (e2 * t * t));
    }
    default: {
        // reverse Bessel polynomial, scaled to the same asymptote as Butterworth's
        std::vector<LD> a(n + 1);
        a[n] = 1;
        for (int k = n; k > 0; k--) // a_(k-1) = a_k (2n-k+1) k / (2 (n-k+1))
            a[k - 1] = a[k] * (2 * n - k + 1) * k / (2.0L * (n - k + 1));
        const CL s = CL(0, x * powl(a[0], 1.0L / n));
        CL v       = 0;
        for (int k = n; k >= 0; k--)
            v = v * s + a[k] / a[0];
        return 1 / std::norm(v);
    }
    }
}
template <typename T>
static zpk<T> proto(Proto p, int n, T r)
{
    return p == BUTTER ? butterworth<T>(n) : p == CHEBY1 ? chebyshev1<T>(n, r) : p == CHEBY2 ? chebyshev2<T>(n, r) : bessel<T>(n);
}
template <typename T>
static void filters(Ctx& c, uint64_t root)
{
    const int n   = root + 1;
    const Proto p = (Proto)c.choose(4, "prototype");
    const Band b  = (Band)c.choose(4, "band");
    c.key("%s %s %s %d", PROTO[p], BANDS[b], sizeof(T) == 4 ? "f32" : "f64", n);
    const T rp = (T)RIPPLE[p][p == CHEBY1 || p == CHEBY2 ? c.choose(4, "ripple") : 0];
    static const double LO[] = { 0.1, 0.01, 0.25, 0.4, 0.47 };
    const int i1 = c.choose(5, "frequency");
    const T fs   = (T)c.pick(std::vector<double>{ 48000, 2, 1 }, "sample rate");
    T f1 = (T)LO[i1] * fs, f2 = 0;
    if (b >= BAND)
    {
        static const double PAIRS[5][2] = { { 0.1, 0.2 }, { 0.01, 0.45 }, { 0.2, 0.3 }, { 0.05, 0.4 }, { 0.4, 0.48 } };
        f1 = (T)PAIRS[i1][0] * fs, f2 = (T)PAIRS[i1][1] * fs;
    }
    const zpk<T> a = proto<T>(p, n, rp);
    const zpk<T> d = b == LOW ? iir_lowpass(a, f1, fs) : b == HIGH ? iir_highpass(a, f1, fs) : b == BAND ? iir_bandpass(a, f1, f2, fs) : iir_bandstop(a, f1, f2, fs);
    const iir_params<T> sos = to_sos(d);
    const size_t order      = b >= BAND ? 2 * n : n;
    char what[200];
    snprintf(what, sizeof(what), "%s of a %s prototype of order %d, %g dB, band %g..%g of %g", BANDS[b], PROTO[p], n, (double)rp, (double)f1, (double)f2, (double)fs);
    MC_CHECK(c, d.p.size() == order, "%s has %zu poles", what, d.p.size());
    if (sos.size() != (order + 1) / 2)
        c.fail("%s has %zu sections", what, sos.size());
    const LD eps = std::numeric_limits<T>::epsilon();
    const LD k1 = tanl(PI * (LD)f1 / fs), k2 = tanl(PI * (LD)f2 / fs);
    // a real pole that splits into two loses the digits by which they differ
    LD split = 0;
    if (b >= BAND)
        for (const complex<T>& v : a.p)
        {
            const LD m = std::hypot((LD)v.real(), (LD)v.imag());
            split      = fmaxl(split, (k2 - k1) / sqrtl(k1 * k2) / 2 * (b == BAND ? m : 1 / m));
        }
    const LD de = eps * (128 + 24 * split * split);
    if (de > 0.01L) // nothing is left of the poles
        return;
    for (size_t i = 0; i < sos.size(); i++)
        if (!stable(sos[i]))
            c.fail("%s: section %zu of %zu is not stable: a = %.9g %.9g %.9g", what, i, sos.size(), (double)sos[i].a0, (double)sos[i].a1, (double)sos[i].a2);
    if (fabsl(d.k) < std::numeric_limits<T>::min()) // the overall gain is not representable
        return;
    for (int i = 0; i < 41; i++)
    {
        const LD f = (i + 0.25L) / 83, k = tanl(PI * f);
        LD x       = k / k1;
        if (b == HIGH)
            x = k1 / k;
        if (b == BAND)
            x = (k * k - k1 * k2) / (k * (k2 - k1));
        if (b == STOP)
            x = k * (k2 - k1) / (k1 * k2 - k * k);
        const LD want = sqrtl(power(p, n, rp, x));
        // a few rounding errors in the band edges
        LD edge = 0;
        for (LD m : { 1 - de, 1 + de })
            edge = fmaxl(edge, fabsl(sqrtl(power(p, n, rp, x * m)) - want));
        Response r;
        for (size_t j = 0; j < sos.size(); j++)
            apply(r, sos[j], f);
        const LD got = std::abs(r.h), tol = eps * 32 * ((r.rel + 4 * n) * fmaxl(got, want) + r.abs) + edge * n;
        if (!(fabsl(got - want) <= tol) && tol < 0.1)
            c.fail("%s: gain at %Lg is %.9Lg, expected %.9Lg, error %.3Lg, allowed %.3Lg", what, f * fs, got, want, fabsl(got - want), tol);
        if (tol < 0.1)
            c.eval();
    }
    c.op(), c.outcome(mc::hash_mix(root * 16 + p * 4 + b, i1 * 1000 + (int)(rp * 10) + (int)fs));
}

// a filter with poles and zeros given directly keeps its response when split into sections
template <typename T>
static void splitting(Ctx& c, uint64_t root)
{
    c.key("to_sos %s", sizeof(T) == 4 ? "f32" : "f64");
    static const CL P[] = { { 0.5L, 0 }, { -0.25L, 0 }, { 0.75L, 0 }, { 0.5L, 0.5L }, { -0.25L, 0.625L }, { 0.125L, 0.875L }, { 0, 0.5L } };
    static const CL Z[] = { { -1, 0 }, { 1, 0 }, { 0.25L, 0 }, { 0, 1 }, { 0.5L, 0.75L }, { -0.75L, 0.5L } };
    zpk<T> d;
    std::vector<CL> ps, zs;
    auto add = [&](univector<complex<T>>& to, std::vector<CL>& ref, CL v) {
        to.push_back(complex<T>(v.real(), v.imag())), ref.push_back(v);
        if (v.imag() != 0)
            to.push_back(complex<T>(v.real(), -v.imag())), ref.push_back(std::conj(v));
    };
    for (int i = 0; i < 7; i++)
        if (root >> i & 1)
            add(d.p, ps, P[i]);
    for (int i = 0; i < 6; i++)
        if (c.flip("zero"))
            add(d.z, zs, Z[i]);
    d.k = T(0.375);
    const int order = c.choose(3, "order of the lists");
    if (order == 1)
        std::reverse(d.p.begin(), d.p.end());
    if (order == 2)
        std::reverse(d.z.begin(), d.z.end()), std::rotate(d.p.begin(), d.p.begin() + d.p.size() / 2, d.p.end());
    const iir_params<T> sos = to_sos(d);
    // padding makes every section second order: the result may be delayed as a whole, which to_sos does by putting the missing zeros at the origin
    const size_t len = std::max(ps.size(), zs.size());
    MC_CHECK(c, sos.size() == std::max<size_t>(1, (len + 1) / 2), "%zu poles and %zu zeros make %zu sections", ps.size(), zs.size(), sos.size());
    const LD eps = std::numeric_limits<T>::epsilon();
    for (int i = 0; i < 24; i++)
    {
        const LD f = (i + 0.5L) / 49;
        const CL z = std::polar(1.0L, 2 * PI * f);
        CL want    = (LD)d.k;
        for (CL v : zs)
            want *= 1.0L - v / z;
        for (CL v : ps)
            want /= 1.0L - v / z;
        Response r;
        for (size_t j = 0; j < sos.size(); j++)
            apply(r, sos[j], f);
        const LD tol = eps * 16 * (r.rel * std::abs(want) + r.abs);
        if (!(std::abs(r.h - want) <= tol))
            c.fail("sections of %zu poles and %zu zeros (poles %x): response at %Lg is (%.9Lg, %.9Lg), expected (%.9Lg, %.9Lg), allowed error %.3Lg", ps.size(), zs.size(), (unsigned)root, f,
                   r.h.real(), r.h.imag(), want.real(), want.imag(), tol);
    }
    c.op(), c.eval(24), c.outcome(mc::hash_mix(root, d.z.size() * 3 + order));
}

template <typename T>
static void all(const std::string& t)
{
    mc::add("sections/" + t, 8 * (9 + mc::tier(38, 198)), sections<T>);
    mc::add("filters/" + t, 24, filters<T>);
    mc::add("splitting/" + t, 128, splitting<T>);
}
void mc_register()
{
    all<float>("f32");
    all<double>("f64");
}
MC_MAIN()
