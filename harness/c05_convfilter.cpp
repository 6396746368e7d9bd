// C05: partitioned convolution engine against the direct causal sum, for every sequence of calls.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include <kfr/dft/convolution.hpp>
#include "util.hpp"
using namespace kfr;
using mcu::ival;
using cd = std::complex<double>;

template <class T>
T mk(double re, double im)
{
    if constexpr (std::is_floating_point_v<T>)
        return T(re);
    else
        return T(re, im);
}
template <class T>
cd tocd(const T& v)
{
    if constexpr (std::is_floating_point_v<T>)
        return cd(v, 0);
    else
        return cd(v.real(), v.imag());
}
template <class T>
T inval(size_t i)
{
    return mk<T>(ival(i, 1), ival(i, 2));
}
template <class T>
std::vector<T> response(size_t n, uint64_t salt)
{
    std::vector<T> h(n);
    for (size_t i = 0; i < n; i++)
        h[i] = mk<T>(ival(i, 30 + salt), ival(i, 40 + salt));
    return h;
}
struct Cfg
{
    size_t ir, block;
};
static std::vector<Cfg> configs(bool th)
{
    std::vector<Cfg> r;
    for (size_t b : { 1, 2, 4, 8, 16 })
        for (size_t n = 1; n <= 5 * b + 2 && n <= (th ? 60 : 34); n++)
            if (th || b <= 2 || n % b <= 1 || n % b == b - 1)
                r.push_back({ n, b });
    r.push_back({ 7, 3 });
    r.push_back({ 11, 5 });
    r.push_back({ 40, 7 });
    return r;
}

template <class T>
void histories(mc::Ctx& c, const Cfg& cfg, int depth)
{
    size_t b = 1;
    while (b < cfg.block)
        b *= 2;
    c.log("response %zu block %zu", cfg.ir, cfg.block);
    auto h = response<T>(cfg.ir, 0);
    mcu::Buf<T> hb(cfg.ir);
    std::copy(h.begin(), h.end(), hb.begin());
    bool late = c.flip("set_data after size constructor");
    std::unique_ptr<convolve_filter<T>> f;
    const univector_ref<const T> href(const_cast<const T*>(hb.data()), cfg.ir);
    if (late)
    {
        f.reset(new convolve_filter<T>(cfg.ir, cfg.block));
        f->set_data(href);
    }
    else
        f.reset(new convolve_filter<T>(href, cfg.block));
    for (size_t i = 0; i < cfg.ir; i++)
        MC_CHECK(c, hb[i] == h[i], "the response passed in was changed at %zu", i);
    std::vector<size_t> lens = { 1, 0, 2, b / 2, b - 1, b, b + 1, 2 * b - 1, 2 * b, 2 * b + 1, 3 * b + 1 };
    std::sort(lens.begin(), lens.end());
    lens.erase(std::unique(lens.begin(), lens.end()), lens.end());
    std::vector<size_t> shortl;
    for (size_t l : lens)
        if (l == 1 || l == b - 1 || l == b || l == 2 * b + 1)
            shortl.push_back(l);
    std::vector<T> past; // since the last reset
    size_t salt = 0;
    uint64_t fed = 0;
    for (int step = 0; step < depth; step++)
    {
        int op = c.choose(step == 0 ? 3 : 6, "op");
        c.op();
        if (op == 3)
        {
            f->reset();
            past.clear();
            continue;
        }
        if (op >= 4)
        {
            // a different response, of another length
            size_t n = op == 4 ? cfg.ir + b + 1 : (cfg.ir > 1 ? (cfg.ir + 1) / 2 : 1);
            h        = response<T>(n, ++salt);
            mcu::Buf<T> nb(n);
            std::copy(h.begin(), h.end(), nb.begin());
            f->set_data(univector_ref<const T>(const_cast<const T*>(nb.data()), n));
            past.clear(); // installing a response starts a new stream
            continue;
        }
        size_t k = c.pick(step == 2 && !mc::thorough() ? shortl : lens, "n");
        mcu::Buf<T> in(k, step & 1), out(op == 1 ? 0 : k, (step + 1) & 1);
        size_t start = past.size();
        for (size_t i = 0; i < k; i++)
            past.push_back(in[i] = inval<T>(fed++));
        T* res = out.data();
        if (op == 0)
            f->apply(out.data(), in.data(), k);
        else if (op == 1)
        {
            f->apply(in.data(), k);
            res = in.data();
        }
        else
        {
            univector<T> u(k);
            f->apply(u, make_univector(in.data(), k) * subtype<T>(1));
            std::copy(u.begin(), u.end(), out.begin());
        }
        if (op != 1)
            for (size_t i = 0; i < k; i++)
                MC_CHECK(c, in[i] == past[start + i], "an out-of-place call changed its input at %zu", i);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "wrote before the buffer");
        double tol = (std::is_same_v<subtype<T>, float> ? 6e-7 : 1.2e-15) * 200 * std::sqrt(h.size() * (2.0 * b + 2)) *
                     (std::log2(2.0 * b) + 2);
        for (size_t i = 0; i < k; i++)
        {
            cd w = 0;
            for (size_t j = 0; j < h.size() && j <= start + i; j++)
                w += tocd(h[j]) * tocd(past[start + i - j]);
            if (!(std::abs(tocd(res[i]) - w) <= tol))
                c.fail("sample %zu since the last reset (offset %zu of a call of %zu) is (%.9g,%.9g), the sum is (%.9g,%.9g); "
                       "response %zu block %zu",
                       start + i, i, k, tocd(res[i]).real(), tocd(res[i]).imag(), w.real(), w.imag(), h.size(), b);
        }
        c.eval(k);
        c.outcome(mcu::digest(res, k, start));
    }
}

void mc_register()
{
    static auto cf = configs(mc::thorough());
    int d          = mc::tier(3, 4);
    mc::add("hist_f32", cf.size(), [d](mc::Ctx& c, uint64_t r) { histories<float>(c, cf[r], d); });
    mc::add("hist_f64", cf.size(), [](mc::Ctx& c, uint64_t r) { histories<double>(c, cf[r], mc::tier(2, 3)); });
    mc::add("hist_c32", cf.size(), [](mc::Ctx& c, uint64_t r) { histories<complex<float>>(c, cf[r], mc::tier(2, 3)); });
    mc::add("hist_c64", cf.size(), [](mc::Ctx& c, uint64_t r) { histories<complex<double>>(c, cf[r], mc::tier(2, 3)); });
    // realistic partition sizes
    static std::vector<Cfg> big = { { 100, 64 }, { 257, 64 }, { 1000, 256 }, { 2049, 1024 }, { 5000, 1024 }, { 300, 1000 } };
    mc::add("big_f32", big.size(), [](mc::Ctx& c, uint64_t r) { histories<float>(c, big[r], 2); });
    mc::add("big_c64", big.size(), [](mc::Ctx& c, uint64_t r) { histories<complex<double>>(c, big[r], 2); });
}
MC_MAIN()
