// C31: generators return the n-th value of their formula however they are read.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/dsp/oscillators.hpp>
#include <kfr/dsp/special.hpp>
#include <kfr/math.hpp>
using namespace kfr;
using mc::Ctx;
using LD = long double;

// ------------------------------------------------------------------------------------------- stateful generators
static const double STEPS[]  = { 0.0, 0.125, 0.3, 1.0, -0.7, 2.5 };
static const double STARTS[] = { 0.0, 1.0, -2.25 };

// value and derivative-like scale of n-th value
template <typename T>
struct Linear
{
    using V = T;
    static auto make(T s, T d) { return gen_linear(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return s + d * n; }
    static LD tol(LD s, LD d, size_t n) { return (fabsl(s) + fabsl(d) * (n + 64)) * (1 + n / 4.0L); }
    static constexpr const char* name = "linear";
};
template <typename T>
struct Exp
{
    using V = T;
    static auto make(T s, T d) { return gen_exp(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return expl(s + d * n); }
    static LD tol(LD s, LD d, size_t n) { return expl(s + d * n) * (8 + 4 * fabsl(s) + 70 * fabsl(d) + n * (4 + 2 * fabsl(d)) + n * expl(-fabsl(d)) * (d < 0 ? expl(-d * 16) / 4 : 0)); }
    static constexpr const char* name = "exp";
};
template <typename T>
struct Exp2
{
    using V = T;
    static auto make(T s, T d) { return gen_exp2(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return exp2l(s + d * n); }
    static LD tol(LD s, LD d, size_t n) { return Exp<T>::tol(s * logl(2), d * logl(2), n); }
    static constexpr const char* name = "exp2";
};
template <typename T>
struct Expj
{
    using V = complex<T>;
    static auto make(T s, T d) { return gen_expj(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return std::polar(1.0L, s + d * n); }
    static LD tol(LD s, LD d, size_t n) { return 4 + fabsl(s) + fabsl(d) * (n + 64) + 6 * n; }
    static constexpr const char* name = "expj";
};
template <typename T>
struct Sin
{
    using V = T;
    static auto make(T s, T d) { return gen_sin(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return sinl(s + d * n); }
    static LD tol(LD s, LD d, size_t n) { return Expj<T>::tol(s, d, n); }
    static constexpr const char* name = "sin";
};
template <typename T>
struct CosSin
{
    using V = T;
    static auto make(T s, T d) { return gen_cossin(s, d); }
    static std::complex<LD> at(LD s, LD d, size_t n) { return n % 2 ? sinl(s + d * (n / 2)) : cosl(s + d * (n / 2)); }
    static LD tol(LD s, LD d, size_t n) { return Expj<T>::tol(s, d, n); }
    static constexpr const char* name = "cossin";
};
template <typename V>
static std::complex<LD> num(V v)
{
    if constexpr (is_complex<V>)
        return { v.real(), v.imag() };
    else
        return { (LD)v, 0 };
}
static const size_t WIDTHS[] = { 1, 2, 4, 8, 16, 32, 3, 5 };
template <typename G, typename V>
static CMT_NOINLINE void take(const G& g, size_t w, V* out, size_t index)
{
    auto go = [&](auto n) {
        constexpr size_t N = decltype(n)::value;
        write(out, get_elements(g, shape<1>(index), axis_params_v<0, N>));
    };
    switch (w)
    {
    case 1: go(csize<1>); break;
    case 2: go(csize<2>); break;
    case 3: go(csize<3>); break;
    case 4: go(csize<4>); break;
    case 5: go(csize<5>); break;
    case 8: go(csize<8>); break;
    case 16: go(csize<16>); break;
    default: go(csize<32>); break;
    }
}
template <template <typename> class Gen, typename T>
static CMT_NOINLINE void compare(Ctx& c, LD s, LD d, const typename Gen<T>::V* got, size_t first, size_t n, const char* how)
{
    const LD eps = std::numeric_limits<T>::epsilon();
    for (size_t i = 0; i < n; i++)
    {
        const auto want = Gen<T>::at(s, d, first + i), g = num(got[i]);
        const LD tol = Gen<T>::tol(s, d, first + i) * eps;
        if (std::abs(want) > std::numeric_limits<T>::max() / 2 || std::abs(want) < std::numeric_limits<T>::min() * 1e6)
            continue;
        if (!(std::abs(g - want) <= tol))
            c.fail("gen_%s(%Lg, %Lg): value %zu is (%.9Lg, %.9Lg), expected (%.9Lg, %.9Lg), error %.3Lg, allowed %.3Lg, %s", Gen<T>::name, s, d, first + i, g.real(), g.imag(), want.real(), want.imag(), std::abs(g - want), tol, how);
    }
    c.eval(n);
}
template <template <typename> class Gen, typename T>
static void stateful(Ctx& c, uint64_t root)
{
    using V = typename Gen<T>::V;
    const T s = (T)STARTS[root % 3], d = (T)STEPS[root / 3 % 6];
    c.key("gen_%s %s", Gen<T>::name, sizeof(T) == 4 ? "f32" : "f64");
    const auto g = Gen<T>::make(s, d);
    V buf[64];
    size_t pos = 0;
    uint64_t h = root;
    // any sequence of reads, of any width; a restart at any point
    const size_t len = mc::tier(4, 6);
    size_t base = 0;
    T from = s;
    for (size_t i = 0; i < len; i++)
    {
        const int w = c.choose(i == len / 2 ? 9 : 8, "width");
        if (w == 8)
        {
            from = s + T(0.5), base = pos;
            g.resync(V(from));
            h = mc::hash_mix(h, w);
            continue;
        }
        take(g, WIDTHS[w], buf, pos);
        compare<Gen, T>(c, from, d, buf, pos - base, WIDTHS[w], "in vectors");
        pos += WIDTHS[w];
        h = mc::hash_mix(h, w);
        c.op();
    }
    c.outcome(h);
}

// long runs in blocks of one size after an odd start: through assignment, expressions and vectors
template <template <typename> class Gen, typename T>
static void runs(Ctx& c, uint64_t root)
{
    using V = typename Gen<T>::V;
    const T s = (T)STARTS[root % 3], d = (T)STEPS[root / 3 % 6];
    c.key("gen_%s %s long", Gen<T>::name, sizeof(T) == 4 ? "f32" : "f64");
    const auto g = Gen<T>::make(s, d);
    const size_t head = c.choose(mc::tier(9, 20), "first block"), block = 1 + c.choose(mc::tier(24, 40), "block");
    const int how = c.choose(3, "how");
    const size_t total = mc::tier(400, 2000);
    univector<V> one(head + block);
    auto read = [&](size_t n) {
        if (how == 0)
            one.slice(0, n) = g;
        else if (how == 1)
            one.slice(0, n) = g * T(2), one.slice(0, n) = one.slice(0, n) / T(2);
        else
            one.slice(0, n) = truncate(g, n);
    };
    read(head);
    compare<Gen, T>(c, s, d, one.data(), 0, head, "first block");
    for (size_t pos = head; pos < total; pos += block)
    {
        read(block);
        compare<Gen, T>(c, s, d, one.data(), pos, block, "in blocks");
        c.op();
    }
    c.outcome(root * 100000 + head * 1000 + block * 10 + how);
}

// ------------------------------------------------------------------------------------------- counters and linspaces: any index
template <typename T>
static void counters(Ctx& c, uint64_t root)
{
    c.key("counter");
    const T s = (T)(std::is_floating_point_v<T> ? STARTS[root % 3] * 4 : 7 * (int)(root % 3)), d = (T)(root / 3 % 5) * (std::is_signed_v<T> && root / 15 % 2 ? -1 : 1);
    const auto e = counter(s, d);
    const size_t first = c.pick(std::vector<size_t>{ 0, 1, 2, 3, 5, 8, 31, 64, 1000, 65535, 1u << 20 }, "index");
    T buf[64];
    for (size_t w : WIDTHS)
    {
        take(e, w, buf, first);
        for (size_t i = 0; i < w; i++)
            MC_CHECK(c, buf[i] == T(s + T(first + i) * d), "counter(%g, %g) at %zu is %g", (double)s, (double)d, first + i, (double)buf[i]);
    }
    univector<T> u(37);
    const auto e1 = counter(s);
    u = e1;
    for (size_t i = 0; i < 37; i++)
        MC_CHECK(c, u[i] == T(s + T(i)), "counter(%g) at %zu is %g", (double)s, i, (double)u[i]);
    // two and three dimensions
    const size_t n0 = 1 + c.choose(5, "rows"), n1 = 1 + c.choose(11, "columns");
    tensor<T, 2> m(shape<2>(n0, n1));
    m = counter(s, T(10), d);
    for (size_t i = 0; i < n0; i++)
        for (size_t j = 0; j < n1; j++)
            MC_CHECK(c, m(i, j) == T(s + T(10) * T(i) + d * T(j)), "counter(%g, 10, %g) at %zu, %zu is %g", (double)s, (double)d, i, j, (double)m(i, j));
    c.op(3), c.eval(60), c.outcome(mc::hash_mix(root, first * 1000 + n0 * 20 + n1));
}
template <typename T>
static void linspaces(Ctx& c, uint64_t root)
{
    c.key("linspace %s", sizeof(T) == 4 ? "f32" : "f64");
    const size_t n = root + 1;
    static const double E[] = { 0, 1, -3, 100, 0.1 };
    const T a = (T)E[c.choose(5, "from")], b = (T)E[c.choose(5, "to")];
    const bool end = c.flip("endpoint");
    const LD eps = std::numeric_limits<T>::epsilon() * 4 * (fabsl(a) + fabsl(b));
    const size_t off = c.choose(4, "offset");
    const LD den = end ? (n > 1 ? n - 1 : 1) : n;
    auto at = [&](size_t i) { return (LD)a + ((LD)b - a) * i / den; };
    T buf[64];
    const auto e = linspace<T>(a, b, n, end);
    const size_t first = off == 3 ? n / 2 : off;
    for (size_t w : WIDTHS)
    {
        take(e, w, buf, first);
        for (size_t i = 0; i < w; i++)
            MC_CHECK(c, fabsl(buf[i] - at(first + i)) <= eps * (1 + (first + i) / den), "linspace(%g, %g, %zu, %d) at %zu is %.9g, expected %.9Lg", (double)a, (double)b, n, end, first + i, (double)buf[i], at(first + i));
    }
    const auto t = linspace<T, false, true>(a, b, n, end);
    univector<T> u = t;
    MC_CHECK(c, u.size() == n, "a linspace of %zu has %zu values", n, u.size());
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, fabsl(u[i] - at(i)) <= eps, "linspace(%g, %g, %zu, %d) at %zu is %.9g, expected %.9Lg", (double)a, (double)b, n, end, i, (double)u[i], at(i));
    MC_CHECK(c, u[0] == a, "linspace starts at %.9g", (double)u[0]);
    if (n > 1)
    {
        univector<T> v = symmlinspace<T, false, true>(a, n);
        MC_CHECK(c, v.size() == n, "size");
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, fabsl(v[i] + a - 2 * (LD)a * i / (n - 1)) <= 2 * eps, "symmlinspace(%g, %zu) at %zu is %.9g", (double)a, n, i, (double)v[i]);
    }
    c.op(3), c.eval(n), c.outcome(mc::hash_mix(root, (uint64_t)(a * 10 + b) + end * 1000 + off * 10000));
}

// ------------------------------------------------------------------------------------------- oscillators
static const char* OSC[] = { "rawsine", "sinenorm", "sine", "rawsquare", "squarenorm", "square", "rawsawtooth", "sawtoothnorm", "sawtooth", "isawtoothnorm", "isawtooth", "rawtriangle", "trianglenorm", "triangle" };
static LD shape_of(int f, LD x)
{
    const LD p = x - floorl(x);
    if (f < 3)
        return sinl(2 * 3.14159265358979323846264338L * p);
    if (f < 6)
        return p < 0.5L ? 1 : -1;
    if (f < 9)
        return 1 - 2 * p;
    if (f < 11)
        return 2 * ((x + 0.5L) - floorl(x + 0.5L)) - 1;
    const LD q = f == 11 ? p : (x + 0.25L) - floorl(x + 0.25L);
    return 1 - fabsl(4 * q - 2);
}
template <typename X>
static auto oscillate(int f, const X& x)
{
    switch (f)
    {
    case 0: return rawsine(x);
    case 1: return sinenorm(x);
    case 2: return sine(x);
    case 3: return rawsquare(x);
    case 4: return squarenorm(x);
    case 5: return square(x);
    case 6: return rawsawtooth(x);
    case 7: return sawtoothnorm(x);
    case 8: return sawtooth(x);
    case 9: return isawtoothnorm(x);
    case 10: return isawtooth(x);
    case 11: return rawtriangle(x);
    case 12: return trianglenorm(x);
    default: return triangle(x);
    }
}
template <typename T>
static void evaluated(int f, univector<T>& o, const univector<T>& x)
{
    switch (f)
    {
    case 0: o = rawsine(x); break;
    case 1: o = sinenorm(x); break;
    case 2: o = sine(x); break;
    case 3: o = rawsquare(x); break;
    case 4: o = squarenorm(x); break;
    case 5: o = square(x); break;
    case 6: o = rawsawtooth(x); break;
    case 7: o = sawtoothnorm(x); break;
    case 8: o = sawtooth(x); break;
    case 9: o = isawtoothnorm(x); break;
    case 10: o = isawtooth(x); break;
    case 11: o = rawtriangle(x); break;
    case 12: o = trianglenorm(x); break;
    default: o = triangle(x); break;
    }
}
template <typename T>
static void oscillators(Ctx& c, uint64_t root)
{
    const int f = root;
    c.key("%s", OSC[f]);
    const bool raw = f == 0 || f == 3 || f == 6 || f == 11, rad = f == 2 || f == 5 || f == 8 || f == 10 || f == 13;
    const bool jumps = f > 2 && f < 11;
    const LD eps = f < 3 ? 3e-6L : std::numeric_limits<T>::epsilon() * 8;
    const int chunk = c.choose(8, "part");
    univector<T> x, want;
    for (int i = 0; i < 521; i++)
    {
        // steps of 1/64 of a turn, over several turns unless the argument must be one
        int k = i + chunk * 521 - 2084;
        if (raw)
            k = ((k % 64) + 64) % 64;
        T v = T(k) / 64;
        const LD turn = v;
        if (rad && jumps && (k % 32 == 0))
            continue; // radians cannot say exactly where the jump is
        x.push_back(rad ? T(turn * 2 * 3.14159265358979323846264338L) : v);
        want.push_back((T)shape_of(f, turn));
    }
    const LD tol = eps + (rad ? 64 * std::numeric_limits<T>::epsilon() * 8 : 0) + (f < 3 ? 64 * std::numeric_limits<T>::epsilon() : 0);
    univector<T> o(x.size());
    evaluated(f, o, x);
    for (size_t i = 0; i < x.size(); i++)
    {
        const T alone = oscillate(f, x[i]);
        const vec<T, 4> p = oscillate(f, vec<T, 4>(T(0.25), x[i], T(0.5), x[i]));
        MC_CHECK(c, fabsl(o[i] - want[i]) <= tol, "%s(%.9g) is %.9g, expected %.9g", OSC[f], (double)x[i], (double)o[i], (double)want[i]);
        MC_CHECK(c, fabsl(alone - want[i]) <= tol, "%s(%.9g) is %.9g alone, expected %.9g", OSC[f], (double)x[i], (double)alone, (double)want[i]);
        MC_CHECK(c, fabsl(p[1] - want[i]) <= tol && fabsl(p[3] - want[i]) <= tol, "%s(%.9g) is %.9g in a vector, expected %.9g", OSC[f], (double)x[i], (double)p[1], (double)want[i]);
    }
    // driven by a phasor
    if (raw)
    {
        univector<T> y(200);
        const T fr = T(1 + chunk), sr = 64, ph = T(chunk % 4) / 8;
        switch (f)
        {
        case 0: y = rawsine(phasor<T>(fr, sr, ph)); break;
        case 3: y = rawsquare(phasor<T>(fr, sr, ph)); break;
        case 6: y = rawsawtooth(phasor<T>(fr, sr, ph)); break;
        default: y = rawtriangle(phasor<T>(fr, sr, ph)); break;
        }
        for (size_t i = 0; i < 200; i++)
            MC_CHECK(c, fabsl(y[i] - shape_of(f, ph + i * fr / (LD)sr)) <= tol, "%s of a phasor(%g, %g, %g) at %zu is %.9g", OSC[f], (double)fr, (double)sr, (double)ph, i, (double)y[i]);
    }
    c.op(), c.eval(x.size() * 3), c.outcome(root * 8 + chunk);
}

// ------------------------------------------------------------------------------------------- sweeps and the impulse
template <typename T>
static void sweeps(Ctx& c, uint64_t root)
{
    c.key("sweeps %s", sizeof(T) == 4 ? "f32" : "f64");
    const size_t n = root + 1;
    const T magn = (T)c.pick(std::vector<double>{ 1, 0.5, -3 }, "amplitude");
    const LD pi = 3.14159265358979323846264338L;
    univector<T> a = jaehne<T>(magn, n), b = swept<T>(magn, n);
    MC_CHECK(c, a.size() == n && b.size() == n, "a sweep of %zu has %zu and %zu values", n, a.size(), b.size());
    const LD tol = fabsl(magn) * std::numeric_limits<T>::epsilon() * 8 * (4 + n);
    for (size_t i = 0; i < n; i++)
    {
        const LD ja = sinl(pi / 2 * i * i / n) * magn, sw = sinl(pi / 4 * powl((LD)i * i / ((LD)n * n), 2) * n) * magn;
        MC_CHECK(c, fabsl(a[i] - ja) <= tol, "jaehne(%g, %zu) at %zu is %.9g, expected %.9Lg", (double)magn, n, i, (double)a[i], ja);
        MC_CHECK(c, fabsl(b[i] - sw) <= tol, "swept(%g, %zu) at %zu is %.9g, expected %.9Lg", (double)magn, n, i, (double)b[i], sw);
    }
    univector<T> u(n, T(7));
    u = unitimpulse<T>();
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, u[i] == (i ? 0 : 1), "unitimpulse at %zu of %zu is %g", i, n, (double)u[i]);
    c.op(3), c.eval(3 * n), c.outcome(root * 10 + (int)(magn * 2));
}
void mc_register()
{
    const size_t S = 18;
#define GEN(G)                                                                                                                                                                                                   \
    mc::add("read " #G " f32", S, stateful<G, float>);                                                                                                                                                           \
    mc::add("read " #G " f64", S, stateful<G, double>);                                                                                                                                                          \
    mc::add("run " #G " f32", S, runs<G, float>);                                                                                                                                                                \
    mc::add("run " #G " f64", S, runs<G, double>);
    GEN(Linear) GEN(Exp) GEN(Exp2) GEN(Expj) GEN(Sin) GEN(CosSin)
    mc::add("counter f32", 30, counters<float>);
    mc::add("counter f64", 30, counters<double>);
    mc::add("counter i32", 30, counters<int32_t>);
    mc::add("counter u8", 15, counters<uint8_t>);
    mc::add("counter i64", 30, counters<int64_t>);
    mc::add("linspace f32", mc::tier(40, 100), linspaces<float>);
    mc::add("linspace f64", mc::tier(40, 100), linspaces<double>);
    mc::add("oscillators f32", 14, oscillators<float>);
    mc::add("oscillators f64", 14, oscillators<double>);
    mc::add("sweeps f32", mc::tier(80, 300), sweeps<float>);
    mc::add("sweeps f64", mc::tier(80, 300), sweeps<double>);
}
MC_MAIN()
