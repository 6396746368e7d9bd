// C30: window functions and windowed-sinc filter design follow their formulas at every length.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/dsp/fir_design.hpp>
#include <kfr/dsp/window.hpp>
#include <kfr/math.hpp>
using namespace kfr;
using mc::Ctx;
using LD = long double;
static const LD PI = acosl(-1.0L);

static LD i0(LD x)
{
    LD s = 1, t = 1;
    for (int k = 1; k < 200 && t > s * 1e-22L; k++)
        s += t *= (x / 2 / k) * (x / 2 / k);
    return s;
}
static LD sincl(LD x) { return fabsl(x) < 1e-12L ? 1 : sinl(x) / x; }

enum Axis { UNIT, SYM, OPEN, OPEN2 }; // 0..1, -1..1, -1..1 without the end points (two conventions)
struct Win
{
    const char* name;
    window_type type;
    Axis axis;
    LD (*f)(LD t, LD arg);
    std::vector<double> args;
};
static const std::vector<Win> WINS = {
    { "rectangular", window_type::rectangular, UNIT, [](LD, LD) -> LD { return 1; }, { 0 } },
    { "triangular", window_type::triangular, OPEN2, [](LD t, LD) -> LD { return 1 - fabsl(t); }, { 0 } },
    { "bartlett", window_type::bartlett, SYM, [](LD t, LD) -> LD { return 1 - fabsl(t); }, { 0 } },
    { "cosine", window_type::cosine, UNIT, [](LD t, LD) -> LD { return sinl(PI * t); }, { 0 } },
    { "cosine_np", window_type::cosine_np, OPEN, [](LD t, LD) -> LD { return cosl(PI / 2 * t); }, { 0 } },
    { "hann", window_type::hann, UNIT, [](LD t, LD) -> LD { return (1 - cosl(2 * PI * t)) / 2; }, { 0 } },
    { "bartlett_hann", window_type::bartlett_hann, UNIT, [](LD t, LD) -> LD { return 0.62L - 0.48L * fabsl(t - 0.5L) + 0.38L * cosl(2 * PI * (t - 0.5L)); }, { 0 } },
    { "hamming", window_type::hamming, UNIT, [](LD t, LD a) -> LD { return a - (1 - a) * cosl(2 * PI * t); }, { 0.54, 0.5, 0.7, 1 } },
    { "bohman", window_type::bohman, SYM, [](LD t, LD) -> LD { t = fabsl(t); return (1 - t) * cosl(PI * t) + sinl(PI * t) / PI; }, { 0 } },
    { "blackman", window_type::blackman, UNIT, [](LD t, LD a) -> LD { return (1 - a) / 2 - cosl(2 * PI * t) / 2 + a / 2 * cosl(4 * PI * t); }, { 0.16, 0, 0.3 } },
    { "blackman_harris", window_type::blackman_harris, UNIT, [](LD t, LD) -> LD { t *= 2 * PI; return 0.35875L - 0.48829L * cosl(t) + 0.14128L * cosl(2 * t) - 0.01168L * cosl(3 * t); }, { 0 } },
    { "kaiser", window_type::kaiser, SYM, [](LD t, LD b) -> LD { return i0(b * sqrtl(fmaxl(0, 1 - t * t))) / i0(b); }, { 0.5, 0, 3, 8, 14 } },
    { "flattop", window_type::flattop, UNIT, [](LD t, LD) -> LD { t *= 2 * PI; return 0.21557895L - 0.41663158L * cosl(t) + 0.277263158L * cosl(2 * t) - 0.083578947L * cosl(3 * t) + 0.006947368L * cosl(4 * t); }, { 0 } },
    { "gaussian", window_type::gaussian, OPEN, [](LD t, LD a) -> LD { return expl(-0.5L * a * t * a * t); }, { 2.5, 1, 5 } },
    { "lanczos", window_type::lanczos, SYM, [](LD t, LD) -> LD { return sincl(PI * t); }, { 0 } },
    { "planck_taper", window_type::planck_taper, SYM, [](LD t, LD e) -> LD {
         const LD x = (1 - fabsl(t)) / (2 * e);
         return x <= 0 ? 0 : x >= 1 ? 1 : 1 / (1 + expl(1 / x - 1 / (1 - x))); }, { 0.25, 0.1, 0.5 } },
    { "tukey", window_type::tukey, SYM, [](LD t, LD a) -> LD {
         const LD x = (1 - fabsl(t)) / a;
         return x <= 0 ? 0 : x >= 1 ? 1 : (1 - cosl(PI * x)) / 2; }, { 0.5, 0.1, 1 } },
};
// abscissa of value i of a window of n values: a periodic window is the symmetric one of n + 1 values without the last
static LD abscissa(const Win& w, size_t n, bool periodic, size_t i)
{
    const LD m = n + periodic;
    switch (w.axis)
    {
    case UNIT: return i / (m - 1);
    case SYM: return (2 * i - (m - 1)) / (m - 1);
    case OPEN: return (2 * i - (m - 1)) / m;
    default: return (2 * i - (m - 1)) / (size_t(m) % 2 ? m + 1 : m);
    }
}
template <typename T>
struct Bound
{
    LD value, tol;
    Bound(const Win& w, LD arg, LD t)
    {
        const LD eps = std::numeric_limits<T>::epsilon(), d = 12 * eps;
        value        = w.f(t, arg);
        tol          = 24 * eps + fmaxl(fabsl(w.f(t + d, arg) - value), fabsl(w.f(t - d, arg) - value));
    }
};
template <typename T>
static void judge(Ctx& c, const Win& w, double arg, size_t n, bool periodic, size_t i, T got, const char* how)
{
    const Bound<T> b(w, T(arg), abscissa(w, n, periodic, i));
    if (!(fabsl(got - b.value) <= b.tol))
        c.fail("%s %s window of %zu values%s (parameter %g), value %zu is %.9g, expected %.9Lg, error %.3Lg, allowed %.3Lg, %s", periodic ? "periodic" : "symmetric", w.name, n,
               sizeof(T) == 4 ? "" : " (double)", arg, i, (double)got, b.value, fabsl(got - b.value), b.tol, how);
}
template <typename T, typename F>
static void with(const Win& w, size_t n, double arg, window_symmetry s, const F& f)
{
    cswitch(cvals_t<window_type, window_type::rectangular, window_type::triangular, window_type::bartlett, window_type::cosine, window_type::hann, window_type::bartlett_hann,
                    window_type::hamming, window_type::bohman, window_type::blackman, window_type::blackman_harris, window_type::kaiser, window_type::flattop, window_type::gaussian,
                    window_type::lanczos, window_type::cosine_np, window_type::planck_taper, window_type::tukey>(),
            w.type, [&](auto type) { f(window(n, type, T(arg), s, ctype_t<T>())); });
}

// every length; by type name, by handle, in one pass or in pieces
template <typename T>
static void lengths(Ctx& c, uint64_t root)
{
    const Win& w = WINS[root % WINS.size()];
    c.key("%s %s", w.name, sizeof(T) == 4 ? "f32" : "f64");
    const double arg    = c.pick(w.args, "parameter");
    const bool periodic = c.flip("periodic");
    const size_t n      = 2 + c.choose(mc::tier(200, 1500), "length");
    const auto s        = periodic ? window_symmetry::periodic : window_symmetry::symmetric;
    univector<T> u;
    with<T>(w, n, arg, s, [&](const auto& e) {
        MC_CHECK(c, e.size() == n, "size() is %zu of %zu", e.size(), n);
        u = render(e);
    });
    MC_CHECK(c, u.size() == n, "%s window of %zu values renders to %zu", w.name, n, u.size());
    for (size_t i = 0; i < n; i++)
        judge(c, w, arg, n, periodic, i, u[i], "rendered");
    univector<T> v = render(window(n, w.type, T(arg), s, ctype_t<T>()));
    MC_CHECK(c, v.size() == n, "handle of a %s window of %zu values renders to %zu", w.name, n, v.size());
    for (size_t i = 0; i < n; i++)
        judge(c, w, arg, n, periodic, i, v[i], "through a handle");
    // applied to a signal in two pieces, cut anywhere
    const size_t cut = 1 + (n * 5 + root) % (n - 1);
    univector<T> x(n, T(1));
    with<T>(w, n, arg, s, [&](const auto& e) {
        x.slice(0, cut) = x.slice(0, cut) * slice(e, 0, cut);
        x.slice(cut)    = x.slice(cut) * slice(e, cut, n - cut);
    });
    for (size_t i = 0; i < n; i++)
        judge(c, w, arg, n, periodic, i, x[i], "applied in two pieces");
    c.op(4), c.eval(3 * n), c.outcome(mc::hash_mix(root, n * 10 + periodic + 100000 * (uint64_t)(arg * 100)));
}

// every read width at every position
template <typename T>
static void reads(Ctx& c, uint64_t root)
{
    const Win& w = WINS[root % WINS.size()];
    c.key("%s %s reads", w.name, sizeof(T) == 4 ? "f32" : "f64");
    const double arg    = w.args[0];
    const bool periodic = c.flip("periodic");
    const size_t n      = 2 + c.choose(mc::tier(40, 70), "length");
    with<T>(w, n, arg, periodic ? window_symmetry::periodic : window_symmetry::symmetric, [&](const auto& e) {
        auto go = [&](auto k) {
            constexpr size_t N = decltype(k)::value;
            for (size_t i = 0; i + N <= n; i++)
            {
                const vec<T, N> x = get_elements(e, shape<1>(i), axis_params_v<0, N>);
                for (size_t j = 0; j < N; j++)
                    judge(c, w, arg, n, periodic, i + j, T(x[j]), "read in vectors");
                c.eval(N);
            }
        };
        go(csize<1>), go(csize<2>), go(csize<3>), go(csize<4>), go(csize<8>), go(csize<16>), go(csize<32>);
    });
    c.op(7), c.outcome(mc::hash_mix(root, n * 2 + periodic));
}

// the convenience functions pass their parameters on
template <typename T>
static void helpers(Ctx& c, uint64_t root)
{
    const size_t n = root + 2;
    c.key("helpers %s", sizeof(T) == 4 ? "f32" : "f64");
    const ctype_t<T> t{};
    const auto P = window_symmetry::periodic, S = window_symmetry::symmetric;
    auto test = [&](window_type type, double arg, bool periodic, const univector<T>& u) {
        for (const Win& w : WINS)
            if (w.type == type)
                for (size_t i = 0; i < n; i++)
                    judge(c, w, arg, n, periodic, i, u[i], "through its function");
        MC_CHECK(c, u.size() == n, "a window of %zu values renders to %zu", n, u.size());
        c.op(), c.eval(n);
    };
    using W = window_type;
    test(W::rectangular, 0, false, render(window_rectangular(n, t)));
    test(W::triangular, 0, false, render(window_triangular(n, t)));
    test(W::bartlett, 0, false, render(window_bartlett(n, t)));
    test(W::cosine, 0, false, render(window_cosine(n, t)));
    test(W::cosine_np, 0, false, render(window_cosine_np(n, t)));
    test(W::hann, 0, false, render(window_hann(n, t)));
    test(W::bartlett_hann, 0, false, render(window_bartlett_hann(n, t)));
    test(W::hamming, 0.6, false, render(window_hamming(n, 0.6, t)));
    test(W::hamming, 0.54, false, render(window_hamming(n, 0.54, t)));
    test(W::bohman, 0, false, render(window_bohman(n, t)));
    test(W::blackman, 0.2, false, render(window_blackman(n, 0.2, S, t)));
    test(W::blackman, 0.16, true, render(window_blackman(n, 0.16, P, t)));
    test(W::blackman_harris, 0, false, render(window_blackman_harris(n, S, t)));
    test(W::blackman_harris, 0, true, render(window_blackman_harris(n, P, t)));
    test(W::kaiser, 5, false, render(window_kaiser(n, 5, t)));
    test(W::flattop, 0, false, render(window_flattop(n, t)));
    test(W::gaussian, 3, false, render(window_gaussian(n, 3, t)));
    test(W::lanczos, 0, false, render(window_lanczos(n, t)));
    test(W::planck_taper, 0.2, false, render(window_planck_taper(n, 0.2, S, t)));
    test(W::planck_taper, 0.2, true, render(window_planck_taper(n, 0.2, P, t)));
    test(W::tukey, 0.3, false, render(window_tukey(n, 0.3, S, t)));
    test(W::tukey, 0.3, true, render(window_tukey(n, 0.3, P, t)));
    c.outcome(n);
}

// ------------------------------------------------------------------------------------------- windowed-sinc design
enum Kind { LOW, HIGH, BAND, STOP };
static const char* const KINDS[] = { "low-pass", "high-pass", "band-pass", "band-stop" };
template <typename T>
static void design(Ctx& c, uint64_t root)
{
    const size_t n  = root + 1;
    const Kind kind = (Kind)c.choose(4, "kind");
    c.key("%s design %s", KINDS[kind], sizeof(T) == 4 ? "f32" : "f64");
    // only filters of odd length can pass the highest frequency
    if ((kind == HIGH || kind == STOP) && n % 2 == 0)
    {
        c.outcome(0);
        return;
    }
    static const double CUT[] = { 0.25, 0.1, 0.01, 0.15, 0.35, 0.45, 0.5 };
    const size_t i1           = c.choose(kind == LOW || kind == HIGH ? 7 : 5, "frequency");
    const double f1 = CUT[i1], f2 = f1 + (0.5 - f1) * (kind < BAND ? 0 : c.flip("wide") ? 0.8 : 0.2);
    static const window_type TYPES[] = { window_type::kaiser, window_type::hann, window_type::rectangular, window_type::hamming };
    const size_t iw                  = c.choose(4, "window");
    const double arg                 = iw == 0 ? 6 : iw == 3 ? 0.54 : 0;
    const bool norm                  = c.flip("normalise");
    const bool ref                   = c.flip("by reference");
    const Win* w                     = nullptr;
    for (const Win& x : WINS)
        if (x.type == TYPES[iw])
            w = &x;
    if (n < 2 || (iw == 1 && n < 4 && norm)) // windows of one value are not specified; Hann's of two and three vanish or are a point
    {
        c.outcome(0);
        return;
    }
    univector<T> u(n, T(777));
    const expression_handle<T> h = to_handle(window(n, TYPES[iw], T(arg), window_symmetry::symmetric, ctype_t<T>()));
    auto run                     = [&](auto&& taps) {
        switch (kind)
        {
        case LOW: fir_lowpass(taps, T(f1), h, norm); break;
        case HIGH: fir_highpass(taps, T(f1), h, norm); break;
        case BAND: fir_bandpass(taps, T(f1), T(f2), h, norm); break;
        case STOP: fir_bandstop(taps, T(f1), T(f2), h, norm); break;
        }
    };
    if (ref)
        run(u.slice());
    else
        run(u);
    const LD a = T(f1), b = T(f2), eps = std::numeric_limits<T>::epsilon();
    std::vector<LD> want(n), tol(n);
    LD sum = 0, err = 0;
    for (size_t i = 0; i < n; i++)
    {
        const LD k = i - (n - 1) / 2.0L, delta = k == 0 ? 1 : 0;
        const LD lo = 2 * a * sincl(2 * PI * a * k), hi = 2 * b * sincl(2 * PI * b * k);
        const Bound<T> win(*w, T(arg), abscissa(*w, n, false, i));
        const LD ideal = kind == LOW ? lo : kind == HIGH ? delta - lo : kind == BAND ? hi - lo : delta - hi + lo;
        want[i]        = ideal * win.value;
        // the argument of the sinc is known to a few rounding errors of the largest argument
        tol[i] = eps * (16 + 4 * PI * n * (kind == LOW || kind == HIGH ? a : b)) * (2 * b + 2 * a) + fabsl(ideal) * win.tol;
        if (k == 0)
            tol[i] += 4 * eps;
        sum += want[i], err += tol[i];
    }
    LD scale = 1, rel = 0;
    if (norm)
    {
        const LD s = sum + (kind == HIGH || kind == BAND ? 1 : 0);
        if (fabsl(s) < 0.05L) // nothing to normalise
        {
            c.outcome(0);
            return;
        }
        scale = 1 / s, rel = err / fabsl(s) + 16 * eps;
    }
    LD dc = 0, dctol = 0;
    for (size_t i = 0; i < n; i++)
    {
        const LD t = fabsl(scale) * tol[i] + fabsl(scale * want[i]) * rel;
        if (!(fabsl(u[i] - scale * want[i]) <= t))
            c.fail("%s filter of %zu taps, %g..%g, %s window, %snormalised: tap %zu is %.9g, expected %.9Lg, error %.3Lg, allowed %.3Lg", KINDS[kind], n, f1, f2, w->name, norm ? "" : "not ",
                   i, (double)u[i], scale * want[i], fabsl(u[i] - scale * want[i]), t);
        dc += u[i], dctol += eps * (8 + n / 8.0L) * fabsl(u[i]);
    }
    if (norm && (kind == LOW || kind == STOP))
        MC_CHECK(c, fabsl(dc - 1) <= dctol + 8 * eps, "normalised %s filter of %zu taps, %g..%g, %s window: gain at zero frequency is 1%+Lg", KINDS[kind], n, f1, f2, w->name, dc - 1);
    c.op(), c.eval(n), c.outcome(mc::hash_mix(root, kind * 1000 + i1 * 100 + iw * 10 + norm * 2 + ref));
}

template <typename T>
static void all(const std::string& t)
{
    mc::add("lengths/" + t, WINS.size(), lengths<T>);
    mc::add("reads/" + t, WINS.size(), reads<T>);
    mc::add("helpers/" + t, mc::tier(200, 800), helpers<T>);
    mc::add("design/" + t, mc::tier(100, 400), design<T>);
}
void mc_register()
{
    all<float>("f32");
    all<double>("f64");
}
MC_MAIN()
