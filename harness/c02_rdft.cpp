// C02: real DFT of every even size, both packed layouts, all calling modes.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "dftref.hpp"
using namespace kfr;
using namespace dftref;
using mcu::uval;

template <class T>
double tolerance(size_t n, double norm)
{
    size_t r = 1, m = n;
    for (size_t p = 2; p <= m; p++)
        while (m % p == 0)
            m /= p, r = p;
    return (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * norm * (14 + 8 * std::log2((double)n + 1) + (r < 101 ? 2.0 * r : 0.0));
}

// the packed layout prescribed by the documentation
static std::vector<cd> pack(const std::vector<cd>& full, dft_pack_format fmt)
{
    size_t n = full.size();
    std::vector<cd> p(full.begin(), full.begin() + n / 2 + 1);
    if (fmt == dft_pack_format::Perm)
    {
        p[0] = cd(full[0].real(), full[n / 2].real());
        p.resize(n / 2);
    }
    return p;
}

template <class T>
void one(mc::Ctx& c, const dft_plan_real<T>& plan, const std::vector<double>& x, const std::vector<cd>& spec, double norm,
         bool inv, bool inplace, bool temp, int mis)
{
    size_t n = x.size(), cn = plan.complex_size();
    size_t mb       = mis * sizeof(complex<T>);
    const char* pf  = plan.fmt == dft_pack_format::CCs ? "CCs" : "Perm";
    auto describe   = [&] { return mc::fmt("size %zu %s %s %s %s scratch misaligned %d", n, pf, inv ? "inverse" : "forward",
                                         inplace ? "in place" : "out of place", temp ? "caller" : "no", mis); };
    Scratch tmp(temp ? plan.temp_size : 0);
    uint8_t* tp = temp ? tmp.get() : nullptr;
    c.op();
    if (!inv)
    {
        // in place: the complex output occupies the block the reals come in
        ABuf<T> in(inplace ? std::max(n, cn * 2) : n, mb);
        ABuf<complex<T>> out(inplace ? 0 : cn, mb);
        for (size_t i = 0; i < n; i++)
            in[i] = T(x[i]);
        complex<T>* o = inplace ? (complex<T>*)in.data() : out.data();
        plan.execute(o, in.data(), tp);
        if (!inplace)
            for (size_t i = 0; i < n; i++)
                MC_CHECK(c, in[i] == T(x[i]), "%s: input changed at %zu", describe().c_str(), i);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "%s: wrote before the buffer", describe().c_str());
        double tol = tolerance<T>(n, norm);
        for (size_t i = 0; i < cn; i++)
        {
            cd g(o[i].real(), o[i].imag());
            if (!(std::abs(g - spec[i]) <= tol))
                c.fail("%s: bin %zu of %zu is (%.9g,%.9g), expected (%.9g,%.9g)", describe().c_str(), i, cn, g.real(), g.imag(),
                       spec[i].real(), spec[i].imag());
        }
        c.eval(cn);
        c.outcome(mcu::digest(o, cn, 0));
    }
    else
    {
        ABuf<complex<T>> in(cn, mb);
        ABuf<T> out(inplace ? 0 : n, mb);
        std::vector<complex<T>> keep(cn);
        for (size_t i = 0; i < cn; i++)
            keep[i] = in[i] = complex<T>(T(spec[i].real()), T(spec[i].imag()));
        T* o = inplace ? (T*)in.data() : out.data();
        plan.execute(o, in.data(), tp);
        if (!inplace)
            for (size_t i = 0; i < cn; i++)
                MC_CHECK(c, in[i] == keep[i], "%s: input changed at %zu", describe().c_str(), i);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "%s: wrote before the buffer", describe().c_str());
        double tol = tolerance<T>(n, norm * std::sqrt((double)n)) * 1.5;
        for (size_t i = 0; i < n; i++)
        {
            c.eval();
            if (!(std::fabs(o[i] - x[i] * n) <= tol))
                c.fail("%s: sample %zu is %.9g, expected %.9g", describe().c_str(), i, (double)o[i], x[i] * n);
        }
        c.outcome(mcu::digest(o, n, 1));
    }
}

template <class T>
void all_modes(mc::Ctx& c, size_t n, const std::vector<double>& x)
{
    std::vector<cd> cx(x.begin(), x.end());
    auto full   = forward(cx);
    double norm = norm2(cx);
    for (auto fmt : { dft_pack_format::CCs, dft_pack_format::Perm })
    {
        dft_plan_real<T> plan0(n, fmt);
        dft_plan_real<T> plan(std::move(plan0));
        size_t cn = fmt == dft_pack_format::CCs ? n / 2 + 1 : n / 2;
        MC_CHECK(c, plan.size == n && plan.complex_size() == cn && dft_plan_real<T>::complex_size_for(n, fmt) == cn,
                 "size %zu: plan reports sizes %zu/%zu", n, plan.size, plan.complex_size());
        auto spec = pack(full, fmt);
        for (int inv = 0; inv < 2; inv++)
            for (int temp = 1; temp >= 0; temp--)
                for (int ip = 0; ip < 2; ip++)
                    for (int mis = 0; mis < 2; mis++)
                        one<T>(c, plan, x, spec, norm, inv, ip, temp, mis);
    }
}
template <class T>
void dense(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    c.key("n%zu", n);
    std::vector<double> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = (T)uval(i, 3);
    all_modes<T>(c, n, x);
}
template <class T>
void basis(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    int j = c.choose((int)n, "basis");
    std::vector<double> x(n);
    x[j] = 1;
    all_modes<T>(c, n, x);
}

static std::vector<size_t> big_sizes(bool th)
{
    std::vector<size_t> s;
    for (int p = 11; p <= (th ? 20 : 16); p++)
        s.push_back(size_t(1) << p);
    for (size_t n : { 1050, 1210, 1250, 1296, 1440, 1500, 1536, 1680, 1728, 1750, 1848, 2000, 2062, 2100, 2310, 2520, 3000, 3072,
                      3150, 3362, 3840, 4100, 4106, 4374, 5040, 6000, 6250, 7560, 8198, 8400, 10000, 12000, 15842 })
        s.push_back(n);
    if (th)
        for (size_t n : { 24578, 29282, 30000, 33614, 44100, 48000, 60060, 65538, 96000, 131070, 196608, 262142, 354294, 524286 })
            s.push_back(n);
    return s;
}

void mc_register()
{
    size_t N = mc::tier<size_t>(512, 1500);
    mc::add("dense_f32", N, [](mc::Ctx& c, uint64_t r) { dense<float>(c, 2 * r + 2); });
    mc::add("dense_f64", N, [](mc::Ctx& c, uint64_t r) { dense<double>(c, 2 * r + 2); });
    static auto big = big_sizes(mc::thorough());
    mc::add("big_f32", big.size(), [](mc::Ctx& c, uint64_t r) { dense<float>(c, big[big.size() - 1 - r]); }, 300);
    mc::add("big_f64", big.size(), [](mc::Ctx& c, uint64_t r) { dense<double>(c, big[big.size() - 1 - r]); }, 300);
    size_t B = mc::tier<size_t>(40, 150);
    mc::add("basis_f32", B, [](mc::Ctx& c, uint64_t r) { basis<float>(c, 2 * r + 2); });
    mc::add("basis_f64", B, [](mc::Ctx& c, uint64_t r) { basis<double>(c, 2 * r + 2); });
}
MC_MAIN()
