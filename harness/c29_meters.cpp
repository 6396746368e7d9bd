// C29: single-frequency analyser and loudness meter.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/dsp/ebu.hpp>
#include <kfr/dsp/goertzel.hpp>
using namespace kfr;
using mc::Ctx;

// ------------------------------------------------------------------------------------------- Goertzel
template <typename T>
static T sig(int kind, size_t i, size_t n)
{
    switch (kind)
    {
    case 0: return T((int)(mc::hash_mix(i, 7) % 33) - 16) / T(16);
    case 1: return i == n / 3 ? T(1) : T(0);
    case 2: return T(1);
    default: return i % 2 ? T(-1) : T(1);
    }
}
template <typename T>
static CMT_NOINLINE void judge(Ctx& c, complex<T> got, const std::vector<T>& x, long double w, const char* what)
{
    long double re = 0, im = 0, mag = 0;
    const size_t n = x.size();
    for (size_t i = 0; i < n; i++)
    {
        const long double a = w * (long double)(n - 1 - i);
        re += x[i] * cosl(a), im += x[i] * sinl(a), mag += fabsl((long double)x[i]);
    }
    // rounding of the recurrence grows like 1/sin(w)
    const long double s = std::max(fabsl(sinl(w)), 1e-3L);
    const long double tol = (mag + 1) * (long double)std::numeric_limits<T>::epsilon() * (8 + 2 * n) / s;
    MC_CHECK(c, fabsl(got.real() - re) <= tol && fabsl(got.imag() - im) <= tol, "%s: %zu samples at %.17Lg rad give (%.12g, %.12g), expected (%.12Lg, %.12Lg)", what, n, w, (double)got.real(),
             (double)got.imag(), re, im);
}
static const double OM[] = { 0.0, 0.1, 0.5, 1.0, 1.5707963267948966, 2.0, 2.5, 3.0, 3.141592653589793, 0.7853981633974483, 6.0 };
template <typename T, size_t W>
static CMT_NOINLINE void parallel(Ctx& c, const std::vector<T>& x, int first, const char* what)
{
    complex<T> r[W];
    T om[W];
    for (size_t k = 0; k < W; k++)
        r[k] = complex<T>(-9, -9), om[k] = (T)OM[(first + k * 3) % 11];
    if (c.choose(2, "whole|in pieces"))
    {
        auto g = goertzel(r, om);
        size_t i = 0, len = 1;
        while (i < x.size())
        {
            const size_t n = std::min(len, x.size() - i);
            process(g, make_univector(x.data() + i, n)); // continues
            i += n, len = len % 5 + 2;
        }
    }
    else
        process(goertzel(r, om), make_univector(x.data(), x.size()));
    for (size_t k = 0; k < W; k++)
        judge<T>(c, r[k], x, (long double)om[k], what);
    c.op();
}
template <typename T>
static void goertzels(Ctx& c, uint64_t root)
{
    const size_t n = root;
    c.key("goertzel %s", sizeof(T) == 4 ? "f32" : "f64");
    const int kind = c.choose(4, "signal"), o = c.choose(11, "frequency");
    std::vector<T> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = sig<T>(kind, i, n);
    switch (c.choose(6, "one|one in pieces|2|3|4|8 frequencies"))
    {
    case 0:
    {
        complex<T> r(-9, -9);
        process(goertzel(r, (T)OM[o]), make_univector(x.data(), n));
        judge<T>(c, r, x, (long double)(T)OM[o], "one");
        break;
    }
    case 1:
    {
        // every way of feeding the first four pieces
        complex<T> r(-9, -9);
        {
            auto g   = goertzel(r, (T)OM[o]);
            size_t i = 0;
            while (i < n)
            {
                const size_t m = std::min<size_t>(n - i, i < (size_t)mc::tier(8, 12) ? 1 + c.choose((int)std::min<size_t>(n - i, 4), "piece") : 13);
                process(g, make_univector(x.data() + i, m));
                i += m;
            }
        }
        judge<T>(c, r, x, (long double)(T)OM[o], "in pieces");
        break;
    }
    case 2: parallel<T, 2>(c, x, o, "2 frequencies"); break;
    case 3: parallel<T, 3>(c, x, o, "3 frequencies"); break;
    case 4: parallel<T, 4>(c, x, o, "4 frequencies"); break;
    default: parallel<T, 8>(c, x, o, "8 frequencies"); break;
    }
    c.op(), c.eval(), c.outcome(mc::hash_mix(n, kind * 16 + o));
}

// ------------------------------------------------------------------------------------------- loudness, restated
struct Biquad
{
    double b0, b1, b2, a1, a2, s1 = 0, s2 = 0;
    double operator()(double x)
    {
        const double y = b0 * x + s1;
        s1 = b1 * x - a1 * y + s2, s2 = b2 * x - a2 * y;
        return y;
    }
};
struct Meter
{
    int rate, factor;
    size_t packet;
    struct Chan
    {
        Biquad f[2];
        double weight;
        std::vector<double> sums; // every packet since the last reset
    };
    std::vector<Chan> ch;
    std::vector<double> m, s; // gated blocks
    bool running = true, need_reset = false;
    Meter(int rate, const std::vector<Speaker>& sp, int factor) : rate(rate), factor(factor), packet(rate / 10 / factor)
    {
        // shelf of +4 dB at 1681.81 Hz, high-pass at 38.11 Hz with Q 0.5
        for (Speaker k : sp)
        {
            Chan c;
            auto p  = biquad_highshelf<f64>(1681.81 / rate, 4.0);
            auto q  = biquad_highpass<f64>(38.1106678246655 / rate, 0.5);
            c.f[0]  = { p.b0 / p.a0, p.b1 / p.a0, p.b2 / p.a0, p.a1 / p.a0, p.a2 / p.a0 };
            c.f[1]  = { 1, -2, 1, q.a1 / q.a0, q.a2 / q.a0 }; // the standard's numerator
            c.weight = k == Speaker::Lfe || k == Speaker::Lfe2 ? 0.0 : k == Speaker::LeftSurround || k == Speaker::RightSurround ? std::pow(10.0, 0.15) : 1.0;
            ch.push_back(c);
        }
    }
    double window(size_t packets) const
    {
        double t = 0;
        for (const Chan& c : ch)
        {
            double e = 0;
            for (size_t i = 0; i < packets && i < c.sums.size(); i++)
                e += c.sums[c.sums.size() - 1 - i];
            t += c.weight * e / (packets * packet);
        }
        return t;
    }
    static double loud(double e) { return 10 * std::log10(e) - 0.691; }
    void process(const std::vector<std::vector<double>>& x)
    {
        if (need_reset)
        {
            need_reset = false;
            m.clear(), s.clear();
            for (Chan& c : ch)
                c.sums.clear();
        }
        for (size_t k = 0; k < ch.size(); k++)
        {
            double e = 0;
            for (double v : x[k])
            {
                const double y = ch[k].f[1](ch[k].f[0](v));
                e += y * y;
            }
            ch[k].sums.push_back(e);
        }
        if (running)
        {
            const double a = window(4 * factor), b = window(30 * factor);
            if (loud(a) >= -70)
                m.push_back(a);
            if (loud(b) >= -70)
                s.push_back(b);
        }
    }
    double integrated() const
    {
        if (m.empty())
            return -INFINITY;
        double t = 0;
        for (double v : m)
            t += v;
        const double gate = loud(t / m.size()) - 10;
        double z          = 0;
        int n             = 0;
        for (double v : m)
            if (loud(v) >= gate)
                z += v, n++;
        return n ? loud(z / n) : -INFINITY;
    }
    void range(double& lo, double& hi) const
    {
        lo = hi = -70;
        if (s.size() < 2)
            return;
        double t = 0;
        for (double v : s)
            t += v;
        const double gate = loud(t / s.size()) - 20;
        std::vector<double> k;
        for (double v : s)
            if (loud(v) > gate)
                k.push_back(v);
        if (k.size() < 2)
            return;
        std::sort(k.begin(), k.end());
        lo = loud(k[(size_t)std::llround((k.size() - 1) * 0.10)]);
        hi = loud(k[(size_t)std::llround((k.size() - 1) * 0.95)]);
    }
};
struct Config
{
    int rate, factor;
    std::vector<Speaker> sp;
};
static const std::vector<Config>& configs()
{
    static std::vector<Config> C = {
        { 4000, 1, { Speaker::Mono } },
        { 4000, 6, { Speaker::Left, Speaker::Right } },
        { 8000, 3, { Speaker::Left, Speaker::Right, Speaker::Center, Speaker::Lfe, Speaker::LeftSurround, Speaker::RightSurround } },
        { 8000, 2, { Speaker::Lfe2, Speaker::RightSurround } },
        { 4410, 4, { Speaker::Center, Speaker::LeftSurround, Speaker::Lfe } },
        { 6000, 5, { Speaker::Right } },
    };
    return C;
}
// packet contents: the signal continues over packets
static double content(int kind, uint64_t n, size_t ch)
{
    switch (kind)
    {
    case 0: return 0;
    case 1: return 0.5 * std::sin(0.7 * n + ch);
    case 2: return 0.02 * std::cos(1.1 * n + 2.0 * ch);
    case 3: return 1e-5 * std::sin(0.9 * n);
    default: return (double)((int)(mc::hash_mix(n, ch) % 2001) - 1000) / 8000 * (1 + ch);
    }
}
template <typename T>
struct Pair
{
    Meter ref;
    ebu_r128<T> dut;
    uint64_t n = 0;
    Pair(const Config& k) : ref(k.rate, k.sp, k.factor), dut(k.rate, k.sp, k.factor) {}
    void packet(int kind, int how)
    {
        std::vector<std::vector<double>> x(ref.ch.size(), std::vector<double>(ref.packet));
        std::vector<univector<T>> v(ref.ch.size());
        for (size_t c = 0; c < x.size(); c++)
        {
            v[c].resize(ref.packet);
            for (size_t i = 0; i < ref.packet; i++)
                v[c][i] = (T)content(kind, n + i, c), x[c][i] = v[c][i];
        }
        n += ref.packet;
        ref.process(x);
        if (how == 0)
            dut.process_packet(v);
        else if (how == 1)
        {
            std::vector<univector_ref<T>> r;
            for (auto& u : v)
                r.push_back(u.ref());
            dut.process_packet(r);
        }
        else if (v.size() == 1)
            dut.process_packet(std::initializer_list<univector_dyn<T>>{ v[0] });
        else if (v.size() == 2)
            dut.process_packet(std::initializer_list<univector_ref<T>>{ v[0].ref(), v[1].ref() });
        else
            dut.process_packet(v);
    }
    CMT_NOINLINE void compare(Ctx& c)
    {
        T m, s, i, lo, hi;
        dut.get_values(m, s, i, lo, hi);
        double rl, rh;
        ref.range(rl, rh);
        auto one = [&](const char* what, double got, double want, double floor) {
            // far below the audible, single precision has only noise
            if (want < floor && got < floor)
                return;
            MC_CHECK(c, got == want || std::fabs(got - want) < (sizeof(T) == 4 ? 0.02 : 1e-7), "%s is %.9g, expected %.9g", what, got, want);
        };
        const double floor = sizeof(T) == 4 ? -100 : -200;
        one("momentary loudness", m, Meter::loud(ref.window(4 * ref.factor)), floor);
        one("short-term loudness", s, Meter::loud(ref.window(30 * ref.factor)), floor);
        one("integrated loudness", i, ref.integrated(), -INFINITY);
        one("low end of the range", lo, rl, -INFINITY);
        one("high end of the range", hi, rh, -INFINITY);
        c.eval(5);
    }
};
template <typename T>
static void loudness(Ctx& c, uint64_t root)
{
    const Config& k = configs()[root % configs().size()];
    c.key("loudness %s", sizeof(T) == 4 ? "f32" : "f64");
    Pair<T> p(k);
    MC_CHECK(c, p.dut.packet_size() == p.ref.packet && p.dut.sample_rate() == k.rate && p.dut.count() == k.sp.size(), "the meter reports packets of %zu, rate %d, %zu channels", p.dut.packet_size(),
             p.dut.sample_rate(), p.dut.count());
    for (size_t i = 0; i < k.sp.size(); i++)
        MC_CHECK(c, p.dut[i].get_speaker() == k.sp[i], "channel %zu has another speaker", i);
    // some history first: nothing, the momentary window, the short-term window and around them
    const int before = (int)c.pick({ 0, 4 * k.factor - 1, 4 * k.factor + 1, 30 * k.factor + 1 }, "packets before");
    const int kind   = before ? c.choose(2, "content") + 1 : 1;
    for (int i = 0; i < before; i++)
        p.packet(i % 3 == 2 ? 4 : kind, 0);
    const int depth = mc::tier(before > 30 ? 2 : sizeof(T) == 4 || before ? 3 : 4, before > 30 ? 4 : 5);
    for (int i = 0; i < depth; i++)
    {
        const int op = c.choose(9, "silence|loud|soft|inaudible|noise|stop|start|reset|query");
        c.op();
        if (op < 5)
            p.packet(op, i % 3);
        else if (op == 5)
            p.dut.stop(), p.ref.running = false;
        else if (op == 6)
            p.dut.start(), p.ref.running = true;
        else if (op == 7)
        {
            p.dut.reset(), p.ref.need_reset = true;
            const int next = c.choose(4, "then a packet of");
            p.packet(next == 0 ? 0 : next == 1 ? 1 : next == 2 ? 3 : 4, 0);
            p.compare(c);
        }
        else
            p.compare(c);
    }
    p.compare(c);
    p.compare(c);
    c.outcome(mc::hash_mix((uint64_t)(p.ref.integrated() * 1000), (uint64_t)(p.ref.window(4 * k.factor) * 1e9)));
}
// long programmes: the range over many levels
template <typename T>
static void programme(Ctx& c, uint64_t root)
{
    const Config& k = configs()[root % configs().size()];
    c.key("programme %s", sizeof(T) == 4 ? "f32" : "f64");
    Pair<T> p(k);
    for (int part = 0; part < 3; part++)
    {
        const int kind = c.choose(5, "content"), len = (int)c.pick({ 1, 7, 45 }, "packets");
        for (int i = 0; i < len; i++)
        {
            p.packet(kind, 0);
            c.op();
            if (i % 9 == 3)
                p.compare(c);
        }
    }
    p.compare(c);
    c.outcome(mc::hash_mix((uint64_t)(p.ref.integrated() * 1000), root));
}
// the weighting filter is the standard's
static void weighting(Ctx& c, uint64_t)
{
    c.key("weighting");
    const int rate = 48000;
    // published for 48 kHz
    auto mag = [](const double* b, const double* a, double w) {
        std::complex<double> z = std::polar(1.0, -w);
        return std::abs((b[0] + b[1] * z + b[2] * z * z) / (1.0 + a[0] * z + a[1] * z * z));
    };
    static const double B1[] = { 1.53512485958697, -2.69169618940638, 1.19839281085285 }, A1[] = { -1.69065929318241, 0.73248077421585 }, B2[] = { 1, -2, 1 },
                        A2[] = { -1.99004745483398, 0.99007225036621 };
    static const double F[]  = { 20, 40, 100, 500, 997, 1500, 1682, 2000, 4000, 8000, 15000, 20000 };
    const double f = F[c.choose(12, "frequency")], w = 2 * M_PI * f / rate;
    const double want = 20 * std::log10(mag(B1, A1, w) * mag(B2, A2, w));
    // steady-state gain of the meter: a sine long enough for the momentary window to forget the start
    ebu_r128<f64> m(rate, { Speaker::Mono });
    uint64_t n = 0;
    f64 a = 0, b, i, lo, hi;
    for (int k = 0; k < 20; k++)
    {
        univector<f64> x(m.packet_size());
        for (auto& v : x)
            v = std::sqrt(2.0) * std::sin(w * n++);
        m.process_packet(std::initializer_list<univector_dyn<f64>>{ x });
    }
    m.get_values(a, b, i, lo, hi);
    MC_CHECK(c, std::fabs(a + 0.691 - want) < 0.06, "the weighting at %g Hz is %.4f dB, the standard's %.4f dB", f, a + 0.691, want);
    c.op(20), c.eval(), c.outcome((uint64_t)f);
}
static void misuse(Ctx& c, uint64_t)
{
    c.key("misuse");
    const int k = c.choose(4, "case");
    bool thrown = false;
    try
    {
        if (k == 0)
            ebu_r128<f32> m(48000, {});
        else if (k == 1)
            ebu_r128<f32> m(0, { Speaker::Mono });
        else if (k == 2)
            ebu_r128<f32> m(48000, { Speaker::Mono }, 0);
        else
            ebu_r128<f32> m(48000, { Speaker::Mono }, 7);
    }
    catch (const std::exception&)
    {
        thrown = true;
    }
    MC_CHECK(c, thrown, "an impossible meter is made");
    c.op(), c.outcome(k);
}
void mc_register()
{
    mc::add("goertzel f32", mc::tier(20, 40), goertzels<f32>);
    mc::add("goertzel f64", mc::tier(20, 40), goertzels<f64>);
    mc::add("loudness f32", 2, loudness<f32>);
    mc::add("loudness f64", 6, loudness<f64>);
    mc::add("programme f64", mc::tier(3, 6), programme<f64>);
    mc::add("programme f32", mc::tier(1, 6), programme<f32>);
    mc::add("weighting", 1, weighting);
    mc::add("misuse", 1, misuse);
}
MC_MAIN()
