// Reference Fourier sums in extended/double precision, independent of the library.
#pragma once
#include "util.hpp"
#include <complex>
#include <memory>

namespace dftref
{
using cd = std::complex<double>;

inline const std::vector<cd>& twiddles(size_t n)
{
    static std::map<size_t, std::vector<cd>> cache;
    auto& t = cache[n];
    if (t.empty())
    {
        if (cache.size() > 64)
        {
            std::vector<cd> keep;
            cache.clear();
        }
        auto& u = cache[n];
        u.resize(n ? n : 1);
        for (size_t k = 0; k < n; k++)
        {
            long double a = -2 * 3.14159265358979323846264338327950288L * k / n;
            u[k]          = cd((double)cosl(a), (double)sinl(a));
        }
        return u;
    }
    return t;
}
// the definition
inline std::vector<cd> direct(const std::vector<cd>& x)
{
    size_t n     = x.size();
    const auto t = twiddles(n);
    std::vector<cd> y(n);
    for (size_t k = 0; k < n; k++)
    {
        double re = 0, im = 0;
        size_t p = 0;
        for (size_t j = 0; j < n; j++)
        {
            re += x[j].real() * t[p].real() - x[j].imag() * t[p].imag();
            im += x[j].real() * t[p].imag() + x[j].imag() * t[p].real();
            p += k;
            if (p >= n)
                p -= n;
        }
        y[k] = cd(re, im);
    }
    return y;
}
inline void rec(const cd* x, size_t stride, size_t n, cd* y, const std::vector<cd>& t, size_t N)
{
    if (n == 1)
    {
        y[0] = x[0];
        return;
    }
    size_t p = 2;
    while (n % p)
        ++p;
    size_t m = n / p;
    std::vector<cd> sub(n);
    for (size_t r = 0; r < p; r++)
        rec(x + r * stride, stride * p, m, &sub[r * m], t, N);
    for (size_t k = 0; k < n; k++)
    {
        cd s = 0;
        for (size_t r = 0; r < p; r++)
            s += sub[r * m + k % m] * t[(r * k % n) * (N / n)];
        y[k] = s;
    }
}
// mixed radix, for large composite sizes; agrees with direct() (checked by the harness for small sizes)
inline std::vector<cd> fast(const std::vector<cd>& x)
{
    std::vector<cd> y(x.size());
    const auto t = twiddles(x.size());
    rec(x.data(), 1, x.size(), y.data(), t, x.size());
    return y;
}
inline std::vector<cd> forward(const std::vector<cd>& x)
{
    return x.size() <= 2048 ? direct(x) : fast(x);
}
inline std::vector<cd> inverse(std::vector<cd> x)
{
    for (auto& v : x)
        v = std::conj(v);
    x = forward(x);
    for (auto& v : x)
        v = std::conj(v);
    return x;
}
inline double norm2(const std::vector<cd>& x)
{
    double s = 0;
    for (auto& v : x)
        s += std::norm(v);
    return std::sqrt(s);
}
// 64-byte aligned block of exactly n bytes
struct Scratch
{
    void* p = nullptr;
    explicit Scratch(size_t n)
    {
        if (posix_memalign(&p, 64, n ? n : 1))
            p = nullptr;
        if (p)
            memset(p, 0xFF, n); // NaN patterns
    }
    ~Scratch() { free(p); }
    unsigned char* get() { return (unsigned char*)p; }
};
// n elements, 64-byte aligned plus `mis` bytes
template <class T>
struct ABuf
{
    void* p = nullptr;
    size_t n, mis;
    explicit ABuf(size_t n, size_t mis = 0) : n(n), mis(mis)
    {
        if (posix_memalign(&p, 64, n * sizeof(T) + mis + (n == 0)))
            abort();
        memset(p, 0xFF, n * sizeof(T) + mis);
    }
    ABuf(const ABuf&) = delete;
    ~ABuf() { free(p); }
    T* data() { return (T*)((char*)p + mis); }
    T& operator[](size_t i) { return data()[i]; }
    bool canaries_ok() const
    {
        for (size_t i = 0; i < mis; i++)
            if (((unsigned char*)p)[i] != 0xFF)
                return false;
        return true;
    }
};
} // namespace dftref
