// C04: cosine transforms of every length against the type-II and type-III sums.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "dftref.hpp"
using namespace kfr;
using namespace dftref;
using mcu::uval;

template <class T>
void all_modes(mc::Ctx& c, size_t n, const std::vector<double>& x)
{
    const long double pi = 3.14159265358979323846264338327950288L;
    std::vector<double> tab(4 * n), f(n), b(n); // cos(pi*k/(2n)), period 4n
    for (size_t k = 0; k < 4 * n; k++)
        tab[k] = (double)cosl(pi * k / (2 * n));
    double norm = 0;
    for (auto v : x)
        norm += v * v;
    norm = std::sqrt(norm);
    for (size_t k = 0; k < n; k++)
    {
        double s = 0, s3 = x[0] / 2;
        for (size_t j = 0; j < n; j++)
            s += x[j] * tab[(2 * j + 1) * k % (4 * n)];
        for (size_t j = 1; j < n; j++)
            s3 += x[j] * tab[(2 * k + 1) * j % (4 * n)];
        f[k] = s, b[k] = s3;
    }
    dct_plan<T> plan(n);
    double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
    double tol = eps * norm * (14 + 8 * std::log2((double)n + 1) + 4.0 * std::min<size_t>(n, 101));
    for (int inv = 0; inv < 2; inv++)
        for (int temp = 1; temp >= 0; temp--)
            for (int ip = 0; ip < 2; ip++)
                for (int mis = 0; mis < 2; mis++)
                {
                    c.key("%s%s", temp ? "" : "noscratch,", inv ? "inverse" : "forward");
                    auto describe = [&] { return mc::fmt("size %zu %s %s %s scratch misaligned %d", n, inv ? "inverse" : "forward",
                                                         ip ? "in place" : "out of place", temp ? "caller" : "no", mis); };
                    ABuf<T> in(n, mis * sizeof(T)), out(ip ? 0 : n, mis * sizeof(T));
                    Scratch tmp(temp ? plan.temp_size : 0);
                    for (size_t i = 0; i < n; i++)
                        in[i] = T(x[i]);
                    T* o = ip ? in.data() : out.data();
                    c.op();
                    plan.execute(o, in.data(), temp ? tmp.get() : nullptr, inv == 1);
                    if (!ip)
                        for (size_t i = 0; i < n; i++)
                            MC_CHECK(c, in[i] == T(x[i]), "%s: input changed at %zu", describe().c_str(), i);
                    MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "%s: wrote before the buffer", describe().c_str());
                    auto& w = inv ? b : f;
                    for (size_t i = 0; i < n; i++)
                        if (!(std::fabs(o[i] - w[i]) <= tol))
                            c.fail("%s: element %zu is %.9g, the sum is %.9g (tolerance %.3g)", describe().c_str(), i,
                                   (double)o[i], w[i], tol);
                    c.eval(n);
                    c.outcome(mcu::digest(o, n, inv));
                }
}
template <class T>
void dense(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    std::vector<double> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = (T)uval(i, 4);
    all_modes<T>(c, n, x);
}
template <class T>
void basis(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    int j = c.choose((int)n, "basis");
    std::vector<double> x(n);
    x[j] = 1;
    all_modes<T>(c, n, x);
}
void mc_register()
{
    size_t N = mc::tier<size_t>(700, 2200);
    mc::add("dense_f32", N, [](mc::Ctx& c, uint64_t r) { dense<float>(c, r + 1); });
    mc::add("dense_f64", N, [](mc::Ctx& c, uint64_t r) { dense<double>(c, r + 1); });
    size_t B = mc::tier<size_t>(80, 300);
    mc::add("basis_f32", B, [](mc::Ctx& c, uint64_t r) { basis<float>(c, r + 1); });
    mc::add("basis_f64", B, [](mc::Ctx& c, uint64_t r) { basis<double>(c, r + 1); });
}
MC_MAIN()
