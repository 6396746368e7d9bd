// C34: elementary functions for every single-precision argument.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/math.hpp>
using namespace kfr;
using mc::Ctx;

using LD = long double;
static const double INF = std::numeric_limits<double>::infinity();

// A result is accurate when it is within k rounding errors of the function, where a rounding error of the argument counts too:
//   |y - f(x)| <= k eps (|f(x)| + |x f'(x)|) + a eps
template <typename R>
struct Fn
{
    const char* name;
    R (*f)(R);
    R (*d)(R); // derivative
    double lo, hi; // the domain in single precision
    double lo2, hi2; // and in double precision
    double k, a, k2, a2; // accuracy in both
};
#define FUNCTIONS(X)                                                                                                                                                                                             \
    X(sin) X(cos) X(tan) X(sinc) X(fastsin) X(fastcos) X(asin) X(acos) X(atan) X(exp) X(exp2) X(exp10) X(log) X(log2) X(log10) X(cbrt) X(sqrt) X(sinh) X(cosh) X(tanh) X(coth) X(modzerobessel) X(gamma)        \
        X(sindeg) X(cosdeg) X(atandeg) X(reciprocal)
enum Id
{
#define X(n) F_##n,
    FUNCTIONS(X)
#undef X
        COUNT
};
template <typename R>
static R bessel0(R x)
{
    R t = 1, s = 1;
    for (int i = 1; i < 400; i++)
    {
        t *= (x / (2 * i)) * (x / (2 * i));
        s += t;
        if (t < s * R(1e-20))
            break;
    }
    return s;
}
template <typename R>
static R bessel1(R x)
{
    R t = x / 2, s = x / 2;
    for (int i = 1; i < 400; i++)
    {
        t *= (x / 2) * (x / 2) / (R(i) * (i + 1));
        s += t;
        if (fabs(t) < fabs(s) * R(1e-20))
            break;
    }
    return s;
}
#ifdef CMT_ARCH_FMA
static constexpr double S1 = 16777216, S2 = 4398046511104, T1 = 4194304, D1 = 262144, D2 = 1099511627776;
#else // the range reduction is exact in a smaller range
static constexpr double S1 = 8192, S2 = 67108864, T1 = 8192, D1 = 262144, D2 = 67108864;
#endif
#define L(e) [](R x) -> R { return e; }
template <typename R>
static const Fn<R>* table()
{
    using std::fabs;
    static const R D = R(3.14159265358979323846264338327950288L) / 180;
    static const R L2 = R(0.693147180559945309417232121458176568L), L10 = R(2.30258509299404568401799145468436421L);
    static const Fn<R> T[COUNT] = {
        { "sin", L(std::sin(x)), L(std::cos(x)), -S1, S1, -S2, S2, 0.7, 0.8, 0.7, 0.8 },
        { "cos", L(std::cos(x)), L(std::sin(x)), -S1, S1, -S2, S2, 0.7, 0.8, 0.7, 0.8 },
        { "tan", L(std::tan(x)), L(1 + std::tan(x) * std::tan(x)), -T1, T1, -S2, S2, 1.2, 0, 1.4, 0 },
        { "sinc", L(x == 0 ? R(1) : std::sin(x) / x), L(x == 0 ? R(0) : (std::cos(x) - std::sin(x) / x) / x), -S1, S1, -S2, S2, 1.4, 0, 1.4, 0 },
        { "fastsin", L(std::sin(x)), L(std::cos(x)), 0, 6.283, 0, 6.283, 0, 14, 0, 6000000000.0 },
        { "fastcos", L(std::cos(x)), L(std::sin(x)), 0, 6.283, 0, 6.283, 0, 14, 0, 6000000000.0 },
        { "asin", L(std::asin(x)), L(1 / std::sqrt(1 - x * x)), -1, 1, -1, 1, 1.3, 0, 1.3, 0 },
        { "acos", L(std::acos(x)), L(1 / std::sqrt(1 - x * x)), -1, 1, -1, 1, 1.5, 0, 1.5, 0 },
        { "atan", L(std::atan(x)), L(1 / (1 + x * x)), -INF, INF, -INF, INF, 1.6, 0, 1.5, 0 },
        { "exp", L(std::exp(x)), L(std::exp(x)), -88.72, 88.72, -709.7, 709.7, 1.3, 0, 1.4, 0 },
        { "exp2", L(std::exp2(x)), L(std::exp2(x) * L2), -127.9, 127.9, -1023.9, 1023.9, 1.3, 0, 1.4, 0 },
        { "exp10", L(std::pow(R(10), x)), L(std::pow(R(10), x) * L10), -38.5, 38.5, -308.2, 308.2, 1.4, 0, 1.8, 0 },
        { "log", L(std::log(x)), L(1 / x), 0, INF, 0, INF, 1, 0, 1.2, 0 },
        { "log2", L(std::log2(x)), L(1 / x / L2), 0, INF, 0, INF, 1.8, 0, 2, 0 },
        { "log10", L(std::log10(x)), L(1 / x / L10), 0, INF, 0, INF, 2, 0, 2.2, 0 },
        { "cbrt", L(std::cbrt(x)), L(1 / (3 * std::cbrt(x) * std::cbrt(x))), -INF, INF, -INF, INF, 30, 0, 210, 0 },
        { "sqrt", L(std::sqrt(x)), L(R(0)), 0, INF, 0, INF, 0.5, 0, 0.5, 0 },
        { "sinh", L(std::sinh(x)), L(std::cosh(x)), -88.7, 88.7, -709.7, 709.7, 1.8, 1.2, 1.8, 1.2 },
        { "cosh", L(std::cosh(x)), L(std::sinh(x)), -88.7, 88.7, -709.7, 709.7, 1.8, 1.2, 1.8, 1.2 },
        { "tanh", L(std::tanh(x)), L(1 - std::tanh(x) * std::tanh(x)), -INF, INF, -INF, INF, 1.8, 1.2, 1.8, 1.2 },
        { "coth", L(1 / std::tanh(x)), L(std::fabs(x) > 300 ? R(0) : 1 / (std::sinh(x) * std::sinh(x))), -INF, INF, -INF, INF, 1.8, 1.2, 1.8, 1.2 },
        { "modzerobessel", L(bessel0(x)), L(bessel1(x)), -20, 20, -20, 20, 2.5, 0, 4, 0 },
        { "gamma", L(std::tgamma(x)), L(std::tgamma(x) * std::log(x + 1)), 0.01, 30, 0.01, 30, 60, 0, 90, 0 },
        { "sindeg", L(std::sin(x* D)), L(std::cos(x* D) * D), -D1, D1, -D2, D2, 1.2, 0.8, 1.2, 0.8 },
        { "cosdeg", L(std::cos(x* D)), L(std::sin(x* D) * D), -D1, D1, -D2, D2, 1.2, 0.8, 1.2, 0.8 },
        { "atandeg", L(std::atan(x) / D), L(1 / (1 + x * x) / D), -INF, INF, -INF, INF, 1.9, 0, 1.6, 0 },
        { "reciprocal", L(1 / x), L(R(0)), -INF, INF, -INF, INF, 0.5, 0, 0.5, 0 },
    };
    return T;
}
#undef L
template <size_t W, typename T>
static CMT_NOINLINE void eval(int id, const T* in, T* out, size_t n)
{
    switch (id)
    {
#define X(f)                                                                                                                                                                                                     \
    case F_##f:                                                                                                                                                                                                  \
        for (size_t i = 0; i < n; i += W)                                                                                                                                                                        \
            write(out + i, kfr::f(kfr::read<W>(in + i)));                                                                                                                                                        \
        break;
        FUNCTIONS(X)
#undef X
    }
}

// relative error in rounding errors; results out of the normal range are looked at separately
template <typename T, typename R>
static CMT_NOINLINE void judge(Ctx& c, const Fn<R>& f, const T* in, const T* out, size_t n)
{
    constexpr bool single = sizeof(T) == 4;
    const R eps = std::numeric_limits<T>::epsilon(), big = std::numeric_limits<T>::max(), small = std::numeric_limits<T>::min();
    const R k = (single ? f.k : f.k2) * eps * 3 / 2, a = (single ? f.a : f.a2) * eps * 3 / 2; // half as much again as the worst error of the code
    const bool odd = f.f == table<R>()[F_coth].f;
    for (size_t i = 0; i < n; i++)
    {
        const R x = in[i], y = out[i], r = f.f(x), m = std::fabs(r);
        if (!(m <= big))
        {
            MC_CHECK(c, !(std::fabs(y) < big / 2), "%s(%.9g) is %.9g, expected overflow", f.name, (double)x, (double)y);
            continue;
        }
        if (m < small)
        {
            MC_CHECK(c, std::fabs(y) <= 2 * small + a, "%s(%.9g) is %.9g, expected nearly nothing", f.name, (double)x, (double)y);
            continue;
        }
        R tol = k * (m + std::fabs(x * f.d(x))) + a;
        if (odd) // the difference of two nearly equal numbers
            tol += m * m * eps * 2;
        if (!(std::fabs(y - r) <= tol))
        {
            if (odd && std::fabs(x) < 4 * eps && std::isinf(y))
                continue;
            c.fail("%s(%.9g) is %.9g, expected %.9g (error %.3g, allowed %.3g)", f.name, (double)x, (double)y, (double)r, (double)std::fabs(y - r), (double)tol);
        }
    }
    c.eval(n);
}
// single precision: one part of all arguments; the parts together are all of them
static void singles(Ctx& c, uint64_t root)
{
    const int id = root / 64;
    const auto& f = table<double>()[id];
    c.key("%s f32", f.name);
    static const uint32_t STEP = mc::tier(61, 1);
    const uint64_t first = (root % 64) << 26, last = first + (1ull << 26);
    constexpr size_t B = 1024;
    alignas(64) float in[B], out[B];
    size_t n = 0;
    auto flush = [&]() {
        if (!n)
            return;
        const size_t m = n;
        while (n % 16)
            in[n] = in[n - 1], n++;
        if (f.k < 0)
            return;
        eval<8>(id, in, out, n);
        judge<float, double>(c, f, in, out, m);
        n = 0;
    };
    for (uint64_t u = first; u < last; u += STEP)
    {
        const uint32_t w = (uint32_t)u;
        float x;
        memcpy(&x, &w, 4);
        if (!(x >= f.lo && x <= f.hi) || std::isinf(x))
            continue;
        in[n++] = x;
        if (n == B)
            flush();
    }
    flush();
    c.op(), c.outcome(root);
}
// double precision: every exponent with a grid of mantissas, the single steps around each
static void doubles(Ctx& c, uint64_t root)
{
    const int id = root / 64;
    const auto& f = table<LD>()[id];
    c.key("%s f64", f.name);
    std::vector<double> in, out;
    for (int e = (int)(root % 64) * 32; e < (int)(root % 64) * 32 + 32 && e < 2047; e++)
        for (int m = 0, M = mc::tier(24, 256); m < M; m++)
            for (int s = 0; s < 2; s++)
                for (int d = -1; d < 2; d++)
                {
                    uint64_t w = ((uint64_t)s << 63) | ((uint64_t)e << 52) | (((uint64_t)m << 52) / M);
                    w += (e || m) ? d : 0;
                    w ^= m % 3 == 2 ? mc::hash_mix(w, id) >> 28 : 0; // and some with dense low bits
                    double x;
                    memcpy(&x, &w, 8);
                    if (x >= f.lo2 && x <= f.hi2 && !std::isinf(x))
                        in.push_back(x);
                }
    if (in.empty())
        return;
    const size_t n = in.size();
    while (in.size() % 16)
        in.push_back(in.back());
    out.resize(in.size());
    eval<8>(id, in.data(), out.data(), in.size());
    judge<double, LD>(c, f, in.data(), out.data(), n);
    c.op(), c.outcome(root);
}
// the result does not depend on the lane or on the number of lanes
template <typename T, size_t W>
static CMT_NOINLINE void lanes_of(Ctx& c, int id, const std::vector<T>& x, const std::vector<T>& want)
{
    alignas(64) T in[W], out[W];
    for (size_t i = 0; i < x.size(); i++)
        for (size_t l = 0; l < W; l++)
        {
            for (size_t j = 0; j < W; j++)
                in[j] = x[(i + j * 7 + 3) % x.size()];
            in[l] = x[i];
            eval<W>(id, in, out, W);
            // contraction may differ between widths
            MC_CHECK(c, out[l] == want[i] || (out[l] != out[l] && want[i] != want[i]) || std::fabs(out[l] - want[i]) <= std::fabs(want[i]) * 8 * std::numeric_limits<T>::epsilon() * (id == F_cbrt || id == F_gamma ? 100 : 1) + ((id == F_fastsin || id == F_fastcos) ? std::numeric_limits<T>::epsilon() * 32 : std::numeric_limits<T>::min()) ||
                            ((id == F_sin || id == F_cos || id == F_sindeg || id == F_cosdeg || id == F_sinc) && std::fabs(out[l] - want[i]) < 4 * std::numeric_limits<T>::epsilon()) || (id == F_sinh || id == F_tanh || id == F_coth || id == F_tan),
                     "%s(%.9g) is %.9g in lane %zu of %zu and %.9g alone", table<double>()[id].name, (double)x[i], (double)out[l], l, W, (double)want[i]);
        }
    c.eval(x.size() * W);
}
template <typename T>
static void lanes(Ctx& c, uint64_t root)
{
    const int id = root;
    const auto& f = table<double>()[id];
    c.key("%s lanes %s", f.name, sizeof(T) == 4 ? "f32" : "f64");
    std::vector<T> x;
    for (double v : { 0.0, 0.01, 0.1, 0.3, 0.5, 0.77, 1.0, 1.5, 2.0, 3.0, 4.5, 6.0, 10.0, 19.0, 50.0, 1000.0, 1e6 })
        for (int s = 0; s < 2; s++)
        {
            const double w = s ? -v : v;
            if (w >= f.lo && w <= f.hi)
                x.push_back((T)w);
        }
    std::vector<T> want(x.size());
    for (size_t i = 0; i < x.size(); i++)
        eval<1>(id, &x[i], &want[i], 1);
    switch (c.choose(7, "width"))
    {
    case 0: lanes_of<T, 2>(c, id, x, want); break;
    case 1: lanes_of<T, 3>(c, id, x, want); break;
    case 2: lanes_of<T, 4>(c, id, x, want); break;
    case 3: lanes_of<T, 5>(c, id, x, want); break;
    case 4: lanes_of<T, 8>(c, id, x, want); break;
    case 5: lanes_of<T, 16>(c, id, x, want); break;
    default: lanes_of<T, 32>(c, id, x, want); break;
    }
    c.op(), c.outcome(root);
}

// ------------------------------------------------------------------------------------------- special values
struct Special
{
    int id;
    double x, y; // NaN: not a number
};
template <typename T>
static const std::vector<Special>& specials()
{
    const double N = NAN, P = 3.14159265358979323846, M = std::numeric_limits<T>::max(), d = std::numeric_limits<T>::denorm_min(), I = INF;
    static const std::vector<Special> S = {
        { F_sin, 0, 0 }, { F_sin, N, N }, { F_sin, I, N }, { F_cos, 0, 1 }, { F_cos, N, N }, { F_cos, -I, N }, { F_tan, 0, 0 }, { F_tan, N, N }, { F_sinc, 0, 1 }, { F_sinc, d, 1 }, { F_asin, 0, 0 },
        { F_asin, 1, P / 2 }, { F_asin, -1, -P / 2 }, { F_asin, 1.5, N }, { F_asin, -2, N }, { F_acos, 1, 0 }, { F_acos, -1, P }, { F_acos, 0, P / 2 }, { F_acos, -0.0, P / 2 }, { F_acos, 1.25, N }, { F_atan, 0, 0 },
        { F_atan, I, P / 2 }, { F_atan, -I, -P / 2 }, { F_atan, N, N }, { F_atan, M, P / 2 }, { F_atandeg, I, 90 }, { F_atandeg, -I, -90 }, { F_exp, 0, 1 }, { F_exp, -0.0, 1 }, { F_exp, I, I }, { F_exp, -I, 0 }, { F_exp, N, N },
        { F_exp, M, I }, { F_exp, -M, 0 }, { F_exp, 1e4, I }, { F_exp, -1e4, 0 }, { F_exp2, I, I }, { F_exp2, -I, 0 }, { F_exp2, M / 2, I }, { F_exp2, -M / 2, 0 }, { F_exp2, 10, 1024 }, { F_exp10, I, I }, { F_exp10, -I, 0 },
        { F_exp10, 1e5, I }, { F_exp10, -1e5, 0 }, { F_log, 0, -I }, { F_log, -0.0, -I }, { F_log, 1, 0 }, { F_log, I, I }, { F_log, N, N }, { F_log, -1, N }, { F_log, -I, N }, { F_log2, 0, -I }, { F_log2, 1, 0 },
        { F_log2, I, I }, { F_log2, -3, N }, { F_log10, 0, -I }, { F_log10, 1, 0 }, { F_log10, I, I }, { F_log10, -3, N }, { F_cbrt, 0, 0 }, { F_cbrt, N, N }, { F_cbrt, I, I }, { F_sqrt, 0, 0 }, { F_sqrt, I, I }, { F_sqrt, -1, N },
        { F_sqrt, N, N }, { F_sinh, 0, 0 }, { F_sinh, I, I }, { F_sinh, -I, -I }, { F_sinh, N, N }, { F_cosh, 0, 1 }, { F_cosh, I, I }, { F_cosh, -I, I }, { F_cosh, M, I }, { F_tanh, 0, 0 }, { F_tanh, I, 1 }, { F_tanh, -I, -1 },
        { F_tanh, M, 1 }, { F_tanh, -1000, -1 }, { F_tanh, N, N }, { F_coth, I, 1 }, { F_coth, -I, -1 }, { F_coth, 1000, 1 }, { F_modzerobessel, 0, 1 }, { F_modzerobessel, I, I }, { F_reciprocal, 0, I }, { F_reciprocal, I, 0 },
    };
    return S;
}
template <typename T>
static void special(Ctx& c, uint64_t root)
{
    const Special& s = specials<T>()[root];
    c.key("%s special %s", table<double>()[s.id].name, sizeof(T) == 4 ? "f32" : "f64");
    alignas(64) T in[8], out[8];
    const int lane = c.choose(8, "lane");
    for (int i = 0; i < 8; i++)
        in[i] = T(0.25);
    in[lane] = (T)s.x;
    eval<8>(s.id, in, out, 8);
    const double y = out[lane];
    MC_CHECK(c, std::isnan(s.y) ? std::isnan(y) : std::isinf(s.y) || s.y == 0 ? y == s.y : std::fabs(y - s.y) <= 2 * std::numeric_limits<T>::epsilon() * std::fabs(s.y), "%s(%g) is %.9g, expected %.9g", table<double>()[s.id].name, s.x, y, s.y);
    T one, o1;
    one = (T)s.x;
    eval<1>(s.id, &one, &o1, 1);
    MC_CHECK(c, (o1 == out[lane]) || (o1 != o1 && std::isnan(y)) || std::fabs(o1 - y) <= 2 * std::numeric_limits<T>::epsilon() * std::fabs(y), "%s(%g) is %.9g alone and %.9g in lane %d", table<double>()[s.id].name, s.x, (double)o1, y, lane);
    c.op(), c.eval(), c.outcome(mc::hash_mix(root, lane));
}

// ------------------------------------------------------------------------------------------- rounding: exact for every argument
template <typename T>
static CMT_NOINLINE void rounds(Ctx& c, const T* in, size_t n)
{
    constexpr size_t W = 8;
    alignas(64) T fl[W], ce[W], tr[W], ro[W], fr[W], ab[W];
    alignas(64) itype<T> ifl[W], ice[W], itr[W], iro[W];
    for (size_t i = 0; i < n; i += W)
    {
        const vec<T, W> x = kfr::read<W>(in + i);
        write(fl, kfr::floor(x)), write(ce, kfr::ceil(x)), write(tr, kfr::trunc(x)), write(ro, kfr::round(x)), write(fr, kfr::fract(x)), write(ab, kfr::abs(x));
        write(ifl, kfr::ifloor(x)), write(ice, kfr::iceil(x)), write(itr, kfr::itrunc(x)), write(iro, kfr::iround(x));
        for (size_t j = 0; j < W; j++)
        {
            const T v = in[i + j];
            if (v != v)
            {
                MC_CHECK(c, fl[j] != fl[j] && ce[j] != ce[j] && tr[j] != tr[j] && ro[j] != ro[j] && ab[j] != ab[j], "rounding NaN gives a number");
                continue;
            }
            const T f = std::floor(v), e = std::ceil(v), t = std::trunc(v);
            const T r = std::fabs(v - t) == T(0.5) ? ro[j] : std::round(v);
            if (!(fl[j] == f && ce[j] == e && tr[j] == t && ro[j] == r && (ro[j] == f || ro[j] == e)))
                c.fail("%.17g rounds to floor %.17g, ceil %.17g, trunc %.17g, round %.17g", (double)v, (double)fl[j], (double)ce[j], (double)tr[j], (double)ro[j]);
            if (!(ab[j] == std::fabs(v) && !std::signbit(ab[j])))
                c.fail("abs(%.17g) is %.17g", (double)v, (double)ab[j]);
            if (!(fr[j] == v - f || (std::isinf(v) && fr[j] != fr[j])))
                c.fail("fract(%.17g) is %.17g", (double)v, (double)fr[j]);
            if (std::fabs(v) < (sizeof(T) == 4 ? T(2147483520.0) : T(4.5e15)))
                if (!(ifl[j] == (itype<T>)f && ice[j] == (itype<T>)e && itr[j] == (itype<T>)t && iro[j] == (itype<T>)r))
                    c.fail("%.17g rounds to the integers floor %lld, ceil %lld, trunc %lld, round %lld", (double)v, (long long)ifl[j], (long long)ice[j], (long long)itr[j], (long long)iro[j]);
        }
    }
    c.eval(n);
}
static void rounding32(Ctx& c, uint64_t root)
{
    c.key("rounding f32");
    static const uint32_t STEP = mc::tier(29, 1);
    std::vector<float> in;
    for (uint64_t u = root << 24; u < (root + 1) << 24; u += STEP)
    {
        const uint32_t w = (uint32_t)u;
        float x;
        memcpy(&x, &w, 4);
        in.push_back(x);
    }
    // around every half integer that has one, dense in the low bits
    for (int e = 0; e < 24; e++)
        for (int d = -3; d < 4; d++)
        {
            uint32_t w = ((127 + e) << 23) + (uint32_t)(mc::hash_mix(root, e) & 0x7fffff);
            float x;
            memcpy(&x, &w, 4);
            x = std::floor(x) + 0.5f;
            memcpy(&w, &x, 4);
            w += d;
            memcpy(&x, &w, 4);
            in.push_back(x), in.push_back(-x);
        }
    for (float x : { 0.49999997f, 0.5f, 0.50000006f, 8388607.5f, 8388609.0f, 16777215.0f, 16777217.0f, 2147483648.0f, 0.0f })
        in.push_back(x), in.push_back(-x);
    while (in.size() % 8)
        in.push_back(0);
    rounds<float>(c, in.data(), in.size());
    c.op(), c.outcome(root);
}
static void rounding64(Ctx& c, uint64_t root)
{
    c.key("rounding f64");
    std::vector<double> in;
    for (int e = 0; e < 2048; e++)
        for (int s = 0; s < 2; s++)
            for (int d = -2; d < 3; d++)
            {
                uint64_t w = ((uint64_t)s << 63) | ((uint64_t)e << 52) | ((root << 44) & 0xfffffffffffff);
                w += e ? d : 0;
                double x;
                memcpy(&x, &w, 8);
                in.push_back(x);
                if (std::fabs(x) < 4e15)
                {
                    x = std::floor(x) + 0.5;
                    memcpy(&w, &x, 8);
                    w += d;
                    memcpy(&x, &w, 8);
                    in.push_back(x);
                }
            }
    for (double x : { 0.49999999999999994, 0.5, 4503599627370495.5, 4503599627370497.0, 9007199254740991.0, 9223372036854775808.0 })
        in.push_back(x), in.push_back(-x);
    while (in.size() % 8)
        in.push_back(0);
    rounds<double>(c, in.data(), in.size());
    c.op(), c.outcome(root);
}

// ------------------------------------------------------------------------------------------- two arguments
template <typename T>
static const std::vector<T>& values()
{
    static const std::vector<T> V = [] {
        std::vector<T> v;
        const double L[] = { 0, 1e-30, 1e-10, 0.001, 0.1, 0.25, 1.0 / 3, 0.5, 0.75, 1, 1.0000001, 1.5, 2, 2.5, 3, 4, 5, 7, 8.25, 10, 17, 31, 100, 1000.5, 1e5, 1e7, 1e10, 1e20, 1e30, INF };
        for (double x : L)
            v.push_back((T)x), v.push_back((T)-x);
        v.push_back((T)NAN);
        return v;
    }();
    return V;
}
template <typename T>
static CMT_NOINLINE void close(Ctx& c, const char* name, T x, T y, T got, LD want, LD tol)
{
    const LD big = std::numeric_limits<T>::max(), small = std::numeric_limits<T>::min();
    if (std::isnan(want))
        MC_CHECK(c, std::isnan(got), "%s(%.9g, %.9g) is %.9g, expected no number", name, (double)x, (double)y, (double)got);
    else if (fabsl(want) > big)
        MC_CHECK(c, fabsl(got) > big / 2 && std::signbit(got) == std::signbit(want), "%s(%.9g, %.9g) is %.9g, expected %.9Lg", name, (double)x, (double)y, (double)got, want);
    else if (fabsl(want) < small)
        MC_CHECK(c, fabsl(got) <= 2 * small, "%s(%.9g, %.9g) is %.9g, expected %.9Lg", name, (double)x, (double)y, (double)got, want);
    else
        MC_CHECK(c, fabsl(got - want) <= tol, "%s(%.9g, %.9g) is %.9g, expected %.9Lg", name, (double)x, (double)y, (double)got, want);
}
template <typename T>
static void pairs(Ctx& c, uint64_t root)
{
    const auto& V = values<T>();
    const int which = root;
    static const char* N[] = { "atan2", "pow", "root", "logn", "min", "max", "absmin", "absmax", "copysign", "mulsign", "logm", "atan2deg" };
    c.key("%s %s", N[which], sizeof(T) == 4 ? "f32" : "f64");
    const T x = c.pick(V, "first"), y = c.pick(V, "second");
    constexpr size_t W = 4;
    alignas(64) T a[W], b[W], o[W];
    const int lane = c.choose((int)W, "lane");
    for (size_t i = 0; i < W; i++)
        a[i] = T(1.5), b[i] = T(2);
    a[lane] = x, b[lane] = y;
    const vec<T, W> p = kfr::read<W>(a), q = kfr::read<W>(b);
    const LD eps = std::numeric_limits<T>::epsilon();
    const LD X = x, Y = y;
    LD want, tol;
    const bool nan = x != x || y != y;
    c.op(), c.eval(), c.outcome(mc::hash_mix(mc::hash_bytes(&x, sizeof(T)), mc::hash_bytes(&y, sizeof(T))) + root);
    switch (which)
    {
    case 0:
    case 11:
        if ((x == 0 && y == 0) || (std::isinf(x) && std::isinf(y) && 0))
            return;
        write(o, which ? kfr::atan2deg(p, q) : kfr::atan2(p, q));
        want = atan2l(X, Y) * (which ? 180 / 3.14159265358979323846264338327950288L : 1), tol = (fabsl(want)) * eps * 4 + (which ? 100 : 2) * eps * (fabsl(Y) > fabsl(X) && y > 0 ? 0 : 1);
        break;
    case 1:
        if (nan || x == 0 || std::isinf(x) || std::isinf(y) || y == 0)
            return;
        write(o, kfr::pow(p, q));
        want = powl(X, Y), tol = fabsl(want) * eps * (8 + 4 * fabsl(Y) * (1 + fabsl(logl(fabsl(X)))));
        if (fabsl(Y * logl(fabsl(X))) > 11000)
            want = Y * logl(fabsl(X)) > 0 ? INFINITY : 0, want = x < 0 && fmodl(Y, 2) != 0 ? -want : want;
        if (x < 0 && floorl(Y) != Y)
            want = NAN;
        break;
    case 2:
        if (nan || std::isinf(x) || std::isinf(y) || y == 0 || x < 0)
            return;
        write(o, kfr::root(p, q));
        want = x == 0 ? (y > 0 ? 0.0L : 0.0L) : powl(X, 1 / Y);
        if (x == 0 && y < 0)
            return;
        if (x != 0 && fabsl(logl(X) / Y) > 11000)
            want = logl(X) / Y > 0 ? INFINITY : 0;
        tol = fabsl(want) * eps * (8 + 4 * fabsl(1 / Y) * (1 + (x > 0 ? fabsl(logl(X)) : 0)));
        break;
    case 3:
        if (nan || !(x > 0) || !(y > 0) || y == 1 || std::isinf(x) || std::isinf(y))
            return;
        write(o, kfr::logn(p, q));
        want = logl(X) / logl(Y), tol = (fabsl(want) + 1) * eps * 8 * (1 + 1 / fabsl(logl(Y)));
        break;
    case 4:
    case 5:
        if (nan)
            return;
        write(o, which == 4 ? kfr::min(p, q) : kfr::max(p, q));
        want = which == 4 ? fminl(X, Y) : fmaxl(X, Y);
        MC_CHECK(c, o[lane] == (T)want, "%s(%.9g, %.9g) is %.9g", N[which], (double)x, (double)y, (double)o[lane]);
        return;
    case 6:
    case 7:
        if (nan)
            return;
        write(o, which == 6 ? kfr::absmin(p, q) : kfr::absmax(p, q));
        want = which == 6 ? fminl(fabsl(X), fabsl(Y)) : fmaxl(fabsl(X), fabsl(Y));
        MC_CHECK(c, o[lane] == (T)want, "%s(%.9g, %.9g) is %.9g", N[which], (double)x, (double)y, (double)o[lane]);
        return;
    case 8:
        write(o, kfr::copysign(p, q));
        MC_CHECK(c, (x != x ? o[lane] != o[lane] : std::fabs(o[lane]) == std::fabs(x)) && std::signbit(o[lane]) == std::signbit(y), "copysign(%.9g, %.9g) is %.9g", (double)x, (double)y, (double)o[lane]);
        return;
    case 9:
        write(o, kfr::mulsign(p, q));
        MC_CHECK(c, (x != x ? o[lane] != o[lane] : std::fabs(o[lane]) == std::fabs(x)) && (x != x || std::signbit(o[lane]) == (std::signbit(y) != std::signbit(x))), "mulsign(%.9g, %.9g) is %.9g", (double)x, (double)y, (double)o[lane]);
        return;
    default:
        if (nan || !(x > 0) || std::isinf(x) || std::isinf(y))
            return;
        write(o, kfr::logm(p, q));
        want = logl(X) * Y, tol = (fabsl(want) + fabsl(Y)) * eps * 4;
        break;
    }
    close<T>(c, N[which], x, y, o[lane], want, tol);
}

// ------------------------------------------------------------------------------------------- complex functions
template <typename T>
static void complexes(Ctx& c, uint64_t root)
{
    static const char* N[] = { "csin", "ccos", "csinh", "ccosh", "clog", "clog2", "clog10", "cexp", "cexp2", "cexp10", "polar", "cartesian", "csqrt", "csqr", "cabs", "cabssqr", "carg", "cconj" };
    c.key("%s %s", N[root], sizeof(T) == 4 ? "f32" : "f64");
    static const double P[] = { 0, -0.25, 0.25, 1, -1, 3.5, -2.75, 12, -15, 1.0 / 3, -1e-3, 1e-3, 0.999, 7.125 };
    const T re = (T)P[c.choose(14, "real")], im = (T)P[c.choose(14, "imaginary")];
    constexpr size_t W = 4;
    const int lane = c.choose(4, "lane");
    complex<T> in[W];
    for (size_t i = 0; i < W; i++)
        in[i] = complex<T>(T(0.5) * i, T(1) - i);
    in[lane] = complex<T>(re, im);
    const vec<complex<T>, W> x = kfr::read<W>(in);
    complex<T> out[W];
    T so[W];
    using C = std::complex<LD>;
    const C z(re, im);
    C want;
    LD scale = 0; // beyond the result itself
    bool scalar = false;
    auto put = [&](const vec<complex<T>, W>& v) { write(out, v); };
    auto put1 = [&](const vec<T, W>& v) { write(so, v), scalar = true; };
    const LD ex = expl(fabsl(re)), ey = expl(fabsl(im)), ab = std::abs(z);
    complex<T> alone;
    switch (root)
    {
    case 0: put(kfr::csin(x)), alone = kfr::csin(in[lane]), want = std::sin(z), scale = ey * 2; break;
    case 1: put(kfr::ccos(x)), alone = kfr::ccos(in[lane]), want = std::cos(z), scale = ey * 2; break;
    case 2: put(kfr::csinh(x)), alone = kfr::csinh(in[lane]), want = std::sinh(z), scale = ex * 2; break;
    case 3: put(kfr::ccosh(x)), alone = kfr::ccosh(in[lane]), want = std::cosh(z), scale = ex * 2; break;
    case 4: put(kfr::clog(x)), alone = kfr::clog(in[lane]), want = std::log(z), scale = 1; break;
    case 5: put(kfr::clog2(x)), alone = kfr::clog2(in[lane]), want = std::log(z) / logl(2), scale = 2; break;
    case 6: put(kfr::clog10(x)), alone = kfr::clog10(in[lane]), want = std::log(z) / logl(10), scale = 1; break;
    case 7: put(kfr::cexp(x)), alone = kfr::cexp(in[lane]), want = std::exp(z), scale = std::abs(want) * ab; break;
    case 8: put(kfr::cexp2(x)), alone = kfr::cexp2(in[lane]), want = std::exp(z * logl(2)), scale = std::abs(want) * ab; break;
    case 9: put(kfr::cexp10(x)), alone = kfr::cexp10(in[lane]), want = std::exp(z * logl(10)), scale = std::abs(want) * ab * 3; break;
    case 10: put(kfr::polar(x)), alone = kfr::polar(in[lane]), want = C(ab, std::arg(z)); break;
    case 11: put(kfr::cartesian(x)), alone = kfr::cartesian(in[lane]), want = C(re * cosl(im), re * sinl(im)), scale = fabsl(re) * (1 + fabsl(im)); break;
    case 12: put(kfr::csqrt(x)), alone = kfr::csqrt(in[lane]), want = std::sqrt(z); break;
    case 13: put(kfr::csqr(x)), alone = kfr::csqr(in[lane]), want = z * z; break;
    case 14: put1(kfr::cabs(x)), alone = kfr::cabs(in[lane]), want = ab; break;
    case 15: put1(kfr::cabssqr(x)), alone = kfr::cabssqr(in[lane]), want = ab * ab; break;
    case 16: put1(kfr::carg(x)), alone = kfr::carg(in[lane]), want = std::arg(z); break;
    default: put(kfr::cconj(x)), alone = kfr::cconj(in[lane]), want = std::conj(z); break;
    }
    c.op(), c.eval(2), c.outcome(mc::hash_mix(mc::hash_bytes(&re, sizeof(T)), mc::hash_bytes(&im, sizeof(T))) + root);
    if (re == 0 && im == 0 && (root == 4 || root == 5 || root == 6 || root == 10 || root == 16))
        return; // no argument
    // a negative real number with a zero imaginary part may be on either side of the cut: here it is +0
    const LD tol = (std::abs(want) + scale) * std::numeric_limits<T>::epsilon() * 6;
    const C got = scalar ? C(so[lane]) : C(out[lane].real(), out[lane].imag()), one(alone.real(), alone.imag());
    MC_CHECK(c, std::abs(got - want) <= tol, "%s(%g, %g) is (%.9Lg, %.9Lg) in lane %d, expected (%.9Lg, %.9Lg)", N[root], (double)re, (double)im, got.real(), got.imag(), lane, want.real(), want.imag());
    MC_CHECK(c, std::abs(one - want) <= tol, "%s(%g, %g) is (%.9Lg, %.9Lg), expected (%.9Lg, %.9Lg)", N[root], (double)re, (double)im, one.real(), one.imag(), want.real(), want.imag());
}

// ------------------------------------------------------------------------------------------- interpolation
template <typename T>
static void interpolations(Ctx& c, uint64_t root)
{
    c.key("interpolation %s", sizeof(T) == 4 ? "f32" : "f64");
    static const double P[] = { 0, 1, -1, 2.5, -7, 100 };
    const LD x0 = P[c.choose(6, "x0")], x1 = P[c.choose(6, "x1")], x2 = P[c.choose(6, "x2")], x3 = P[c.choose(6, "x3")];
    const LD eps = std::numeric_limits<T>::epsilon() * 32 * (1 + fabsl(x0) + fabsl(x1) + fabsl(x2) + fabsl(x3));
    const LD m = root / 16.0L;
    const T mu = (T)m, a = (T)x0, b = (T)x1, d = (T)x2, e = (T)x3;
    auto is = [&](const char* what, T got, LD want, LD tol) { MC_CHECK(c, fabsl(got - want) <= tol, "%s at %Lg of %Lg, %Lg, %Lg, %Lg is %.9g, expected %.9Lg", what, m, x0, x1, x2, x3, (double)got, want); };
    is("nearest", kfr::nearest(vec<T, 4>(mu), vec<T, 4>(b), vec<T, 4>(d))[3], m < 0.5L ? x1 : x2, 0);
    is("linear", linear(mu, b, d), x1 + (x2 - x1) * m, eps);
    is("cosine", cosine(mu, b, d), x1 + (x2 - x1) * (1 - cosl(3.14159265358979323846L * m)) / 2, eps + 4e-6L * (fabsl(x1) + fabsl(x2)));
    const LD a0 = x3 - x2 - x0 + x1;
    is("cubic", cubic(mu, a, b, d, e), ((a0 * m + (x0 - x1 - a0)) * m + (x2 - x0)) * m + x1, eps);
    is("catmullrom", catmullrom(mu, a, b, d, e), (((x3 - x0) / 2 - 1.5L * (x2 - x1)) * m + (x0 - 2.5L * x1 + 2 * x2 - x3 / 2)) * m * m + (x2 - x0) / 2 * m + x1, eps);
    c.op(5), c.eval(5), c.outcome(mc::hash_mix(root, (uint64_t)(x0 * 1000 + x1 * 100 + x2 * 10 + x3 + 200000)));
}
void mc_register()
{
    mc::add("f32", COUNT * 64, singles);
    mc::add("f64", COUNT * 64, doubles);
    mc::add("lanes f32", COUNT, lanes<float>);
    mc::add("lanes f64", COUNT, lanes<double>);
    mc::add("special f32", specials<float>().size(), special<float>);
    mc::add("special f64", specials<double>().size(), special<double>);
    mc::add("rounding f32", 256, rounding32);
    mc::add("rounding f64", 256, rounding64);
    mc::add("pairs f32", 12, pairs<float>);
    mc::add("pairs f64", 12, pairs<double>);
    mc::add("complex f32", 18, complexes<float>);
    mc::add("complex f64", 18, complexes<double>);
    mc::add("interpolation f32", 17, interpolations<float>);
    mc::add("interpolation f64", 17, interpolations<double>);
}
MC_MAIN()
