// The calls made by the threads of c12_share.cpp, compiled with access tracing.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "c12_calls.hpp"
using namespace kfr;

namespace
{
template <class T>
struct Complex : Job
{
    dft_plan<T> p;
    Complex(size_t n) : p(n) { in = out = n * sizeof(complex<T>), temp = p.temp_size, elem = sizeof(T); }
    void run(void* o, const void* i, unsigned char* t, bool inv) const override
    {
        p.execute((complex<T>*)o, (const complex<T>*)i, t, inv);
    }
};
template <class T>
struct Real : Job
{
    dft_plan_real<T> p;
    bool fwd;
    Real(size_t n, bool fwd, dft_pack_format fmt) : p(n, fmt), fwd(fwd)
    {
        in = out = (n + 2) * sizeof(T), temp = p.temp_size, elem = sizeof(T);
        one_way = true;
    }
    void run(void* o, const void* i, unsigned char* t, bool) const override
    {
        if (fwd)
            p.execute((complex<T>*)o, (const T*)i, t);
        else
            p.execute((T*)o, (const complex<T>*)i, t);
    }
};
template <class T>
struct Cosine : Job
{
    dct_plan<T> p;
    Cosine(size_t n) : p(n) { in = out = n * sizeof(T), temp = p.temp_size, elem = sizeof(T); }
    void run(void* o, const void* i, unsigned char* t, bool inv) const override { p.execute((T*)o, (const T*)i, t, inv); }
};
template <class T>
struct Multi : Job
{
    dft_plan_md<T, 2> p;
    Multi(index_t a, index_t b) : p(shape<2>(a, b)) { in = out = a * b * sizeof(complex<T>), temp = p.temp_size, elem = sizeof(T); }
    void run(void* o, const void* i, unsigned char* t, bool inv) const override
    {
        p.execute((complex<T>*)o, (const complex<T>*)i, t, inv);
    }
};
template <class T>
struct MultiReal : Job
{
    dft_plan_md_real<T, 2> p;
    bool fwd;
    MultiReal(index_t a, index_t b, bool fwd) : p(shape<2>(a, b)), fwd(fwd)
    {
        in = out = a * (b + 2) * sizeof(T), temp = p.temp_size, elem = sizeof(T);
        one_way = true;
    }
    void run(void* o, const void* i, unsigned char* t, bool) const override
    {
        if (fwd)
            p.execute((complex<T>*)o, (const T*)i, t);
        else
            p.execute((T*)o, (const complex<T>*)i, t);
    }
};
} // namespace

std::unique_ptr<Job> make_job(int kind, bool f64, int a, int b)
{
    switch (kind)
    {
    case 0:
        return f64 ? std::unique_ptr<Job>(new Complex<double>(a)) : std::unique_ptr<Job>(new Complex<float>(a));
    case 1:
    case 2:
        return f64 ? std::unique_ptr<Job>(new Real<double>(a, kind == 1, b ? dft_pack_format::Perm : dft_pack_format::CCs))
                   : std::unique_ptr<Job>(new Real<float>(a, kind == 1, b ? dft_pack_format::Perm : dft_pack_format::CCs));
    case 3:
        return f64 ? std::unique_ptr<Job>(new Cosine<double>(a)) : std::unique_ptr<Job>(new Cosine<float>(a));
    case 4:
        return f64 ? std::unique_ptr<Job>(new Multi<double>(a, b)) : std::unique_ptr<Job>(new Multi<float>(a, b));
    default:
        return f64 ? std::unique_ptr<Job>(new MultiReal<double>(a, b, kind == 5))
                   : std::unique_ptr<Job>(new MultiReal<float>(a, b, kind == 5));
    }
}
