// C06: one-shot convolution, correlation, autocorrelation of every pair of lengths against the definition.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include <kfr/dft/convolution.hpp>
#include "util.hpp"
using namespace kfr;
using mcu::ival;
using cd = std::complex<double>;

template <class T>
T mk(double re, double im)
{
    if constexpr (std::is_floating_point_v<T>)
        return T(re);
    else
        return T(re, im);
}
template <class T>
cd tocd(const T& v)
{
    if constexpr (std::is_floating_point_v<T>)
        return cd(v, 0);
    else
        return cd(v.real(), v.imag());
}
template <class T>
void verify(mc::Ctx& c, const univector<T>& got, const std::vector<cd>& w, double scale, const char* what)
{
    double tol = (std::is_same_v<subtype<T>, float> ? 1.2e-6 : 2.3e-15) * scale * (std::log2(w.size() + 1.0) + 2);
    MC_CHECK(c, got.size() == w.size(), "%s: the result has %zu elements instead of %zu", what, got.size(), w.size());
    for (size_t i = 0; i < w.size(); i++)
        if (!(std::abs(tocd(got[i]) - w[i]) <= tol))
            c.fail("%s: element %zu of %zu is (%.9g,%.9g), the sum is (%.9g,%.9g)", what, i, w.size(), tocd(got[i]).real(),
                   tocd(got[i]).imag(), w[i].real(), w[i].imag());
    c.op();
    c.eval(w.size());
    c.outcome(mcu::digest(got.data(), got.size()));
}
template <class T>
void one(mc::Ctx& c, const std::vector<T>& a, const std::vector<T>& b, double scale)
{
    size_t n = a.size(), m = b.size();
    std::vector<cd> conv(n + m - 1), corr(n + m - 1), ac(n);
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < m; j++)
        {
            conv[i + j] += tocd(a[i]) * tocd(b[j]);
            corr[i + (m - 1 - j)] += tocd(a[i]) * std::conj(tocd(b[j]));
        }
    // corr[k] = sum of a[i] conj(b[j]) over i - j == k - (m - 1)
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j <= i; j++)
            ac[i - j] += tocd(a[i]) * std::conj(tocd(a[j]));
    mcu::Buf<T> ab(n, 1), bb(m, 1);
    std::copy(a.begin(), a.end(), ab.begin());
    std::copy(b.begin(), b.end(), bb.begin());
    univector<T> au(a.begin(), a.end()), bu(b.begin(), b.end());
    c.key("convolve");
    verify<T>(c, convolve(au, bu), conv, scale, "convolve");
    verify<T>(c, convolve(make_univector(ab.data(), n), make_univector(bb.data(), m)), conv, scale, "convolve(ref)");
    c.key("correlate");
    verify<T>(c, correlate(au, bu), corr, scale, "correlate");
    verify<T>(c, correlate(make_univector(const_cast<const T*>(ab.data()), n), bu), corr, scale, "correlate(ref)");
    c.key("autocorrelate");
    verify<T>(c, autocorrelate(au), ac, scale, "autocorrelate");
    verify<T>(c, autocorrelate(make_univector(ab.data(), n)), ac, scale, "autocorrelate(ref)");
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, ab[i] == a[i] && au[i] == a[i], "the first operand was changed at %zu", i);
    for (size_t i = 0; i < m; i++)
        MC_CHECK(c, bb[i] == b[i] && bu[i] == b[i], "the second operand was changed at %zu", i);
}
template <class T>
void dense(mc::Ctx& c, size_t n, size_t m)
{
    c.log("lengths %zu and %zu", n, m);
    std::vector<T> a(n), b(m);
    for (size_t i = 0; i < n; i++)
        a[i] = mk<T>(ival(i, 1), ival(i, 2));
    for (size_t i = 0; i < m; i++)
        b[i] = mk<T>(ival(i, 3), ival(i, 4));
    one<T>(c, a, b, 200 * std::sqrt((double)n * m));
}
// every pair of basis elements: the operation is bilinear
template <class T>
void basis(mc::Ctx& c, size_t n, size_t m)
{
    c.log("lengths %zu and %zu", n, m);
    std::vector<T> a(n), b(m);
    int im                            = std::is_floating_point_v<T> ? 1 : 2;
    int i = c.choose((int)n * im, "i"), j = c.choose((int)m * im, "j");
    a[i / im] = i % im ? mk<T>(0, 1) : mk<T>(1, 0);
    b[j / im] = j % im ? mk<T>(0, 1) : mk<T>(1, 0);
    one<T>(c, a, b, 4);
}
void mc_register()
{
    static size_t N = mc::tier<size_t>(40, 100), B = mc::tier<size_t>(9, 20);
    static std::vector<std::pair<size_t, size_t>> big;
    for (size_t n : { 1, 2, 63, 64, 65, 100, 127, 128, 129, 255, 256, 500, 512, 1000, 1025, 3000 })
        for (size_t m : { 1, 2, 64, 65, 129, 256, 1000, 1024, 1025 })
            big.push_back({ n, m });
    mc::add("dense_f32", N * N, [](mc::Ctx& c, uint64_t r) { dense<float>(c, r / N + 1, r % N + 1); });
    mc::add("dense_f64", N * N, [](mc::Ctx& c, uint64_t r) { dense<double>(c, r / N + 1, r % N + 1); });
    mc::add("dense_c32", N * N, [](mc::Ctx& c, uint64_t r) { dense<complex<float>>(c, r / N + 1, r % N + 1); });
    mc::add("dense_c64", N * N, [](mc::Ctx& c, uint64_t r) { dense<complex<double>>(c, r / N + 1, r % N + 1); });
    mc::add("big_f32", big.size(), [](mc::Ctx& c, uint64_t r) { dense<float>(c, big[r].first, big[r].second); });
    mc::add("big_c64", big.size(), [](mc::Ctx& c, uint64_t r) { dense<complex<double>>(c, big[r].first, big[r].second); });
    mc::add("basis_f32", B * B, [](mc::Ctx& c, uint64_t r) { basis<float>(c, r / B + 1, r % B + 1); });
    mc::add("basis_f64", B * B, [](mc::Ctx& c, uint64_t r) { basis<double>(c, r / B + 1, r % B + 1); });
    mc::add("basis_c32", B * B, [](mc::Ctx& c, uint64_t r) { basis<complex<float>>(c, r / B + 1, r % B + 1); });
    mc::add("basis_c64", B * B, [](mc::Ctx& c, uint64_t r) { basis<complex<double>>(c, r / B + 1, r % B + 1); });
}
MC_MAIN()
