// C09: sample-rate conversion against the direct polyphase sum, for every sequence of pull, push and skip calls.
#include <kfr/base.hpp>
#include <kfr/dsp/sample_rate_conversion.hpp>
#include "util.hpp"
#include <sys/mman.h>
using namespace kfr;
using mcu::ival;
using cd = std::complex<double>;
using Q  = sample_rate_conversion_quality;

template <class T>
T mk(double re, double im)
{
    if constexpr (std::is_floating_point_v<T>)
        return T(re);
    else
        return T(re, im);
}
template <class T>
cd tocd(const T& v)
{
    if constexpr (std::is_floating_point_v<T>)
        return cd(v, 0);
    else
        return cd(v.real(), v.imag());
}
struct Cfg
{
    Q q;
    int64_t L, M;
};
static int64_t fdiv(int64_t a, int64_t b) { return a >= 0 ? a / b : -((-a + b - 1) / b); }

// prototype low-pass as documented: Kaiser-windowed sinc, normalised to the interpolation factor
static std::vector<double> prototype(Q q, int64_t L, int64_t M, double scale, double cutoff)
{
    double att   = ((int)q - 3) * 20.0;
    int64_t D    = int64_t(1) << ((int)q + 1), taps = D * L;
    double beta  = att > 50 ? 0.1102 * (att - 8.7) : att >= 21 ? 0.5842 * std::pow(att - 21, 0.4) + 0.07886 * (att - 21) : 0;
    double width = ((beta / 0.1102 + 8.7) - 8) / (D - 1) / 2.285;
    double fc    = (cutoff - width / (4 * M_PI)) / std::max(L, M);
    std::vector<double> h(taps);
    double sum = 0;
    auto i0    = [](double x) {
        double s = 1, t = 1;
        for (int k = 1; k < 200; k++)
        {
            t *= x * x / (4.0 * k * k);
            s += t;
            if (t < 1e-18 * s)
                break;
        }
        return s;
    };
    for (int64_t j = 0; j < taps; j++)
    {
        double a = (j - taps / 2) * fc * 2 * M_PI, u = 2.0 * j / (taps - 1) - 1;
        h[j] = (a == 0 ? 1 : std::sin(a) / a) * i0(beta * std::sqrt(std::max(0.0, 1 - u * u))) / i0(beta);
        sum += h[j];
    }
    for (auto& v : h)
        v *= L * scale / sum;
    return h;
}

// impulse response as installed, in time order: phase p, tap k is h[k*L+p]
template <class T>
std::vector<cd> installed(const samplerate_converter<T>& s)
{
    std::vector<cd> h(s.taps);
    for (int64_t p = 0; p < s.interpolation_factor; p++)
        for (int64_t k = 0; k < s.depth; k++)
            h[k * s.interpolation_factor + p] = tocd(s.filter[p * s.depth + k]);
    return h;
}
// output i: the convolution of the zero-stuffed input with h (time reversed) at intermediate position i*M
template <class X>
cd sample(const std::vector<cd>& h, int64_t L, int64_t M, int64_t i, X&& x)
{
    cd s          = 0;
    int64_t m     = i * M, taps = (int64_t)h.size();
    int64_t first = fdiv(m - taps + L, L); // first input at or after m-taps+1
    for (int64_t n = std::max<int64_t>(first, 0); n * L <= m; n++)
        s += h[n * L - (m - taps + 1)] * x(n);
    return s;
}

template <class T>
// far > 0: the stream is first advanced by that many outputs of silence
void histories(mc::Ctx& c, const Cfg& g, int depth, bool small, int64_t far = 0)
{
    const bool sgl = std::is_same_v<subtype<T>, float>;
    auto x0        = [](int64_t n) { return cd(ival(n, 1), std::is_floating_point_v<T> ? 0 : ival(n, 2)); };
    c.log("quality %d ratio %lld/%lld", (int)g.q, (long long)g.L, (long long)g.M);
    samplerate_converter<T> s(g.q, g.L, g.M);
    const int64_t L = s.interpolation_factor, M = s.decimation_factor;
    static thread_local std::map<std::tuple<int, int64_t, int64_t>, std::pair<std::vector<cd>, std::map<int64_t, cd>>> cache;
    auto& model = cache[{ (int)g.q, g.L, g.M }];
    if (model.first.empty())
        model.first = installed(s);
    auto& h   = model.first;
    std::vector<int64_t> sizes = { 1, 0, 2, 3, 7, (int64_t)(s.depth * L / M) + 1, 2 * s.depth + 3 };
    if (small)
        sizes = { 1, 2, 40 };
    if (far)
        sizes = { 1, 33 };
    int64_t op = 0, ip = 0; // outputs produced and inputs consumed so far
    if (far)
    {
        // silence: a large mapping of zeros of which only the end is read
        static const size_t region = size_t(1) << 31;
        static void* zeros_at      = mmap(nullptr, region, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (zeros_at == MAP_FAILED)
            c.infra("cannot map the silent input");
        const int64_t cap = (int64_t)(region / sizeof(T)) / (M / L + 1) - 1000;
        c.log("after %lld outputs of silence", (long long)far);
        c.key("far");
        while (op < far)
        {
            int64_t k = std::min(cap, far - op), need = s.input_size_for_output(k);
            int64_t e = fdiv((op + k - 1) * M, L) + 1 - ip;
            MC_CHECK(c, need >= e && need <= e + (M + L - 1) / L, "after %lld outputs and %lld inputs, %lld outputs ask for %lld inputs instead of %lld",
                     (long long)op, (long long)ip, (long long)k, (long long)need, (long long)e);
            size_t used = s.skip(k, univector_ref<const T>((const T*)zeros_at, need));
            MC_CHECK(c, (int64_t)used == need, "skip consumed %zu inputs, asked for %lld", used, (long long)need);
            op += k, ip += need;
            c.op();
        }
    }
    const int64_t quiet = far ? ip : 0;
    auto x              = [&, quiet](int64_t n) { return n < quiet ? cd(0) : x0(n); };
    auto want = [&](int64_t i) {
        if (far)
            return sample(h, L, M, i, x);
        auto it = model.second.find(i);
        if (it == model.second.end())
            it = model.second.emplace(i, sample(h, L, M, i, x0)).first;
        return it->second;
    };
    double tol = (sgl ? 4e-6 : 1e-14) * 40 * std::sqrt((double)s.depth);
    for (int step = 0; step < depth; step++)
    {
        int mode  = c.choose(4, "pull|pull from larger buffer|push|skip");
        int64_t k = c.pick(sizes, "size");
        c.op();
        c.key("mode%d", mode);
        int64_t outs = k, need, have;
        if (mode == 2)
        {
            have = k;
            outs = s.output_size_for_input(k);
            MC_CHECK(c, outs >= 0, "output_size_for_input(%lld) is %lld", (long long)k, (long long)outs);
            need = s.input_size_for_output(outs);
            MC_CHECK(c, need <= k,
                     "%lld outputs are said to be available from %lld inputs but %lld inputs are asked for to produce them "
                     "(at input %lld, output %lld)",
                     (long long)outs, (long long)k, (long long)need, (long long)ip, (long long)op);
            MC_CHECK(c, L < M || need == k, "of %lld inputs pushed while upsampling only %lld would be consumed", (long long)k,
                     (long long)need);
            MC_CHECK(c, s.input_size_for_output(outs + 1) > k, "%lld inputs suffice for %lld outputs, but only %lld are reported",
                     (long long)k, (long long)outs + 1, (long long)outs);
        }
        else
        {
            need = s.input_size_for_output(outs);
            MC_CHECK(c, need >= 0, "input_size_for_output(%lld) is %lld", (long long)outs, (long long)need);
            have = mode == 1 ? need + 37 : need;
        }
        // the outputs asked for must be computable from what was asked for, and never from more than one extra step
        if (outs)
        {
            int64_t last = fdiv((op + outs - 1) * M, L); // newest input sample the last output depends on
            MC_CHECK(c, ip + need > last, "asks for %lld inputs (%lld before) but output %lld depends on input %lld",
                     (long long)need, (long long)ip, (long long)(op + outs - 1), (long long)last);
            MC_CHECK(c, ip + need <= last + (M + L - 1) / L, "asks for %lld inputs, reaching %lld, while the output depends on %lld",
                     (long long)need, (long long)(ip + need), (long long)last);
        }
        mcu::Buf<T> in(have), out(outs);
        for (int64_t i = 0; i < have; i++)
            in[i] = i < need || mode == 2 ? mk<T>(x(ip + i).real(), x(ip + i).imag()) : mk<T>(NAN, NAN);
        univector_ref<const T> iref(const_cast<const T*>(in.data()), have);
        size_t used;
        if (mode == 3)
            used = s.skip(outs, iref);
        else
        {
            auto oref = make_univector(out.data(), outs);
            used      = s.process(oref, iref);
        }
        MC_CHECK(c, (int64_t)used == need, "consumed %zu inputs, asked for %lld", used, (long long)need);
        if (mode != 3)
        {
            for (int64_t i = 0; i < outs; i++)
            {
                cd w = want(op + i);
                if (!(std::abs(tocd(out[i]) - w) <= tol))
                    c.fail("output %lld (offset %lld of a call of %lld) is (%.9g,%.9g), the interpolation gives (%.9g,%.9g)",
                           (long long)(op + i), (long long)i, (long long)outs, tocd(out[i]).real(), tocd(out[i]).imag(), w.real(),
                           w.imag());
            }
            c.eval(outs);
            c.outcome(mcu::digest(out.data(), outs, op));
        }
        ip += need;
        op += outs;
    }
}

// the installed filter follows the design formula; unit gain at DC, unit slope with the reported delay, pass-band tone
template <class T>
void design(mc::Ctx& c, const Cfg& g)
{
    const bool sgl = std::is_same_v<subtype<T>, float>;
    static const std::pair<double, double> sc[] = { { 1, 0.5 }, { 2.5, 0.5 }, { 1, 0.4 } };
    auto [scale, cutoff]                        = sc[c.choose(3, "scale/cutoff")];
    c.log("quality %d ratio %lld/%lld scale %g cutoff %g", (int)g.q, (long long)g.L, (long long)g.M, scale, cutoff);
    samplerate_converter<T> s(g.q, g.L, g.M, subtype<T>(scale), subtype<T>(cutoff));
    int64_t gc = std::__gcd(g.L, g.M), L = g.L / gc, M = g.M / gc;
    MC_CHECK(c, s.interpolation_factor == L && s.decimation_factor == M, "factors %lld/%lld", (long long)s.interpolation_factor,
             (long long)s.decimation_factor);
    int64_t D = int64_t(1) << ((int)g.q + 1);
    MC_CHECK(c, s.depth == D && s.taps == D * L && (int64_t)s.filter.size() == D * L && (int64_t)s.delay.size() == D,
             "depth %lld taps %lld", (long long)s.depth, (long long)s.taps);
    auto h = installed(s);
    auto p = prototype(g.q, L, M, scale, cutoff);
    for (size_t i = 0; i < p.size(); i++)
        if (!(std::abs(h[i] - p[i]) <= (sgl ? 2e-4 : 1e-8) * scale))
            c.fail("tap %zu of %zu is %.9g, the design gives %.9g", i, p.size(), h[i].real(), p[i]);
    c.op();
    c.eval(p.size());
    MC_CHECK(c, std::fabs(s.get_fractional_delay() - (D * L - 1) * 0.5 / M) < 1e-9 &&
                    s.get_delay() == (size_t)((D * L - 1) / (2 * M)),
             "reported delay %g", s.get_fractional_delay());
    // steady state: constant, ramp and tone
    double rip  = std::pow(10.0, -(((int)g.q - 3) * 20.0) / 20) * 1.2 + (sgl ? 2e-4 : 1e-7);
    int64_t n   = std::min<int64_t>(D * L / M + 200, 20000);
    double tone = 0.1 * std::min(1.0, (double)L / M); // cycles per input sample
    int64_t in  = s.input_size_for_output(n + 64);
    for (int kind = 0; kind < 3; kind++)
    {
        if (kind == 1 && cutoff != 0.5)
            continue;
        samplerate_converter<T> r(g.q, g.L, g.M, subtype<T>(scale), subtype<T>(cutoff));
        auto sig = [&](double t) { return kind == 0 ? 1.0 : kind == 1 ? t / D : std::sin(2 * M_PI * tone * t + 0.3); };
        univector<T> xi(in), yo(n + 64);
        for (int64_t i = 0; i < in; i++)
            xi[i] = mk<T>(sig(i), 0);
        r.process(yo, xi);
        double delay = s.get_fractional_delay() * M / L; // in input samples
        double k     = kind == 1 ? 2 * rip + 1.0 / D : kind == 2 ? 2 * rip + 2 * M_PI * tone / L + 0.02 : rip;
        for (int64_t i = n; i < n + 64; i++)
        {
            if ((double)i * M / L < D + 2)
                continue;
            double w = scale * sig((double)i * M / L - delay);
            if (!(std::abs(tocd(yo[i]) - w) <= k * scale * (kind == 1 ? std::max(1.0, std::fabs(w)) : 1)))
                c.fail("%s: output %lld is %.7g, expected %.7g (tolerance %.2g)", kind == 0 ? "constant" : kind == 1 ? "ramp" : "tone",
                       (long long)i, tocd(yo[i]).real(), w, k * scale);
            c.eval();
        }
        c.outcome(mcu::digest(yo.data() + n, 64, kind));
    }
}

static std::vector<Cfg> ratios(bool th)
{
    std::vector<Cfg> r;
    for (int64_t L = 1; L <= (th ? 9 : 6); L++)
        for (int64_t M = 1; M <= (th ? 9 : 6); M++)
            r.push_back({ Q::draft, L, M });
    for (auto p : { std::make_pair(147, 160), { 160, 147 }, { 320, 147 }, { 147, 320 }, { 96000, 44100 }, { 44100, 48000 },
                    { 1, 40 }, { 3, 100 }, { 40, 1 }, { 100, 3 }, { 7, 64 }, { 1, 32 }, { 1, 33 }, { 2, 65 } })
        r.push_back({ Q::draft, p.first, p.second });
    return r;
}
void mc_register()
{
    static auto rs = ratios(mc::thorough());
    static std::vector<Cfg> more, des;
    for (auto q : { Q::low, Q::normal, Q::high, Q::perfect })
        for (auto p : { std::make_pair(1, 1), { 2, 1 }, { 1, 2 }, { 3, 2 }, { 2, 3 }, { 5, 7 }, { 160, 147 }, { 1, 30 } })
            if (mc::thorough() || (int)q < 10 || p.first < 100)
                more.push_back({ q, p.first, p.second });
    des = rs;
    des.insert(des.end(), more.begin(), more.end());
    mc::add("hist_f32", rs.size(), [](mc::Ctx& c, uint64_t r) { histories<float>(c, rs[r], mc::tier(3, 4), mc::thorough()); }, 60);
    mc::add("hist_f64", rs.size(), [](mc::Ctx& c, uint64_t r) { histories<double>(c, rs[r], mc::tier(2, 3), false); }, 60);
    mc::add("hist_c32", rs.size(), [](mc::Ctx& c, uint64_t r) { histories<complex<float>>(c, rs[r], 2, false); }, 60);
    mc::add("hist_c64", rs.size(), [](mc::Ctx& c, uint64_t r) { histories<complex<double>>(c, rs[r], 2, !mc::thorough()); }, 60);
    // streams that have been running for long: around the points where positions pass 2^31, 2^32 and 2^33
    static std::vector<std::pair<Cfg, int64_t>> far;
    for (auto p : { std::make_pair<int64_t, int64_t>(1, 1), { 2, 1 }, { 1, 2 }, { 3, 2 }, { 147, 160 }, { 320, 147 }, { 44101, 48000 }, { 65537, 65536 } })
        for (int b : { 31, 32, 33 })
        {
            const int64_t B = int64_t(1) << b;
            for (int64_t f : { B, B / p.second, (int64_t)((__int128)B * p.first / p.second) })
                for (int64_t d : { -20, 3 })
                    far.push_back({ Cfg{ Q::draft, p.first, p.second }, f + d });
        }
    std::sort(far.begin(), far.end(), [](auto& a, auto& b) { return std::tie(a.first.L, a.first.M, a.second) < std::tie(b.first.L, b.first.M, b.second); });
    far.erase(std::unique(far.begin(), far.end(), [](auto& a, auto& b) { return a.first.L == b.first.L && a.first.M == b.first.M && a.second == b.second; }), far.end());
    mc::add("far_f32", far.size(), [](mc::Ctx& c, uint64_t r) { histories<float>(c, far[r].first, 2, true, far[r].second); }, 60);
    mc::add("far_f64", far.size(), [](mc::Ctx& c, uint64_t r) { histories<double>(c, far[r].first, mc::tier(1, 2), true, far[r].second); }, 60);
    mc::add("quality_f32", more.size(), [](mc::Ctx& c, uint64_t r) { histories<float>(c, more[r], 2, (int)more[r].q > 8); }, 120);
    mc::add("quality_f64", more.size(), [](mc::Ctx& c, uint64_t r) { histories<double>(c, more[r], 2, true); }, 120);
    mc::add("design_f32", des.size(), [](mc::Ctx& c, uint64_t r) { design<float>(c, des[r]); }, 120);
    mc::add("design_f64", des.size(), [](mc::Ctx& c, uint64_t r) { design<double>(c, des[r]); }, 120);
}
MC_MAIN()
