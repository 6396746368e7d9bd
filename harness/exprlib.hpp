// Shared by C15/C16: an expression and the per-index function it denotes.
#pragma once
#include <kfr/base.hpp>
#include "util.hpp"
#include <stdexcept>
namespace ex
{
using namespace kfr;
constexpr size_t inf = infinite_size;
using F              = std::function<double(size_t)>;

template <class E>
struct Den // a one-dimensional expression with its denotation
{
    E e;
    size_t n;
    F f;
};
template <class E>
Den<E> den(E&& e, size_t n, F f)
{
    return { std::forward<E>(e), n, std::move(f) };
}

// Every read of every width inside the expression yields the denoted values.
template <class E>
void readers(mc::Ctx& c, const E& e, size_t n, const F& f, const char* what)
{
    const size_t sh = get_shape(e).front();
    MC_CHECK(c, sh == n, "%s: size is %lld, expected %lld", what, (long long)sh, (long long)n);
    const size_t lim = n == inf ? 40 : n;
    uint64_t h       = mc::hash_mix(n, 1);
    cforeach(csizes_t<1, 2, 4, 8, 16>{},
             [&](auto w_)
             {
                 constexpr size_t N = val_of(decltype(w_)());
                 for (size_t i = 0; i + N <= lim; i++)
                 {
                     auto v = get_elements(e, shape<1>(i), axis_params_v<0, N>);
                     c.op(), c.eval();
                     for (size_t k = 0; k < N; k++)
                         MC_CHECK(c, (double)v[k] == f(i + k), "%s: element %zu read with width %zu at %zu is %g, expected %g",
                                  what, i + k, N, i, (double)v[k], f(i + k));
                     h = mc::hash_mix(h, (uint64_t)(int64_t)(16 * (double)v[0]));
                 }
             });
    c.outcome(h);
}

// Evaluation of every sub-range with width w writes the denoted values and nothing else.
template <size_t w, class T, class E>
void ranges(mc::Ctx& c, E&& e, size_t n, const F& f, size_t outn, const char* what)
{
    const bool unit = n == 1;
    for (size_t s = 0; s <= outn + 1; s++)
        for (size_t len : { (size_t)0, (size_t)1, (size_t)2, (size_t)3, (size_t)5, (size_t)8, (size_t)9, (size_t)16, outn, inf })
        {
            mcu::Buf<T> b(outn);
            for (size_t i = 0; i < outn; i++)
                b[i] = T(-1000) - T(i);
            auto ref = make_univector(b.data(), outn);
            process<w>(ref, e, shape<1>(s), shape<1>(len));
            c.op(), c.eval();
            const size_t stop = std::min(len == inf ? inf : s + len, outn);
            for (size_t i = 0; i < outn; i++)
            {
                double want = i >= s && i < stop ? f(unit ? 0 : i) : -1000.0 - (double)i;
                MC_CHECK(c, (double)b[i] == want,
                         "%s: evaluating [%zu, +%lld) of %zu with width %zu leaves %g at %zu, expected %g", what, s,
                         (long long)len, outn, w, (double)b[i], i, want);
            }
            c.outcome(mcu::digest(&b[0], outn));
        }
}
template <class T, class E>
void all_ranges(mc::Ctx& c, E&& e, size_t n, const F& f, size_t outn, const char* what)
{
    ranges<0, T>(c, e, n, f, outn, what);
    ranges<1, T>(c, e, n, f, outn, what);
    ranges<2, T>(c, e, n, f, outn, what);
    ranges<4, T>(c, e, n, f, outn, what);
    ranges<16, T>(c, e, n, f, outn, what);
}
} // namespace ex
