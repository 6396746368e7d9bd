// C07: FIR filtering against the direct sum, for every sequence of calls up to a bound.
#include <kfr/base.hpp>
#include <kfr/dsp/fir.hpp>
#include "util.hpp"
using namespace kfr;
using mcu::ival;

template <class U>
struct mk
{
    static U get(uint64_t i, uint64_t salt) { return U(ival(i, salt)); }
};
template <class R>
struct mk<complex<R>>
{
    static complex<R> get(uint64_t i, uint64_t salt) { return { R(ival(i, salt)), R(ival(i, salt + 91)) }; }
};

template <class T, class U>
U ref_at(const std::vector<T>& taps, const std::vector<U>& h, size_t i)
{
    U s = U(0);
    for (size_t k = 0; k < taps.size() && k <= i; k++)
        s = s + U(taps[k] * h[i - k]);
    return s;
}
template <class T>
std::vector<T> mktaps(size_t n, int salt)
{
    std::vector<T> t(n);
    for (size_t i = 0; i < n; i++)
        t[i] = T(ival(i, 1000 + salt));
    return t;
}

template <class U>
void show(mc::Ctx& c, const char* what, const U* p, size_t n);

// chunk lengths around the vector widths in use and around the tap counts
static const std::vector<int> CH = { 1, 0, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 33, 40 };
static const std::vector<int> CHS = { 1, 0, 2, 3, 5, 8, 13, 17 };
static const std::vector<int> TAPS = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 32, 33 };

template <class T, class U, class Out>
void compare(mc::Ctx& c, const std::vector<T>& taps, const std::vector<U>& h, const Out& out, size_t n,
             const char* what)
{
    size_t base = h.size() - n;
    for (size_t i = 0; i < n; i++)
    {
        U want = ref_at(taps, h, base + i), got = out[i];
        c.eval();
        if (!(got == want))
            c.fail("%s: sample %zu (call offset %zu of %zu) differs from the direct sum, %zu taps", what, base + i, i,
                   n, taps.size());
    }
    c.outcome(mcu::digest(&out[0], n, base));
}

// Histories of calls on one fir_filter object.
template <class T, class U>
void filter_histories(mc::Ctx& c, uint64_t root)
{
    int nt                = TAPS[root];
    std::vector<T> taps   = mktaps<T>(nt, 1);
    std::vector<T> before = taps;
    univector<T> utaps    = make_univector(taps.data(), taps.size());
    std::unique_ptr<filter<U>> f;
    fir_filter<T, U>* ff;
    int ctor = c.choose(3, "construct");
    c.log("taps %d", nt);
    if (ctor == 0)
        ff = new fir_filter<T, U>(fir_params<T>{ utaps });
    else if (ctor == 1)
        ff = new fir_filter<T, U>(fir_state<T, U>{ utaps });
    else
        ff = new fir_filter<T, U>(fir_params<T>{ taps.data(), taps.size() });
    f.reset(ff);
    MC_CHECK(c, utaps.size() == (size_t)nt, "construction changed the caller's tap container: %zu taps left",
             utaps.size());
    for (int i = 0; i < nt; i++)
        MC_CHECK(c, utaps[i] == before[i], "construction changed the caller's tap %d", i);
    std::vector<U> h;
    uint64_t pos = 0;
    int depth    = mc::tier(ctor == 0 ? 3 : 1, ctor == 0 ? 4 : 2);
    for (int step = 0; step < depth; step++)
    {
        int op = c.choose(step == 0 ? 3 : 5, "op"); // 0 out of place 1 in place 2 expression 3 reset 4 new taps
        c.op();
        if (op == 3)
        {
            f->reset();
            h.clear();
            continue;
        }
        if (op == 4)
        {
            // a longer and a shorter replacement
            taps = mktaps<T>(c.flip("longer") ? nt + 3 : (nt + 1) / 2, 2);
            ff->set_params(fir_params<T>{ taps.data(), taps.size() });
            h.clear();
            continue;
        }
        const auto& lens = mc::thorough() ? (depth > 3 ? CHS : CH) : (step == 0 ? CH : CHS);
        int n            = c.pick(lens, "n");
        mcu::Buf<U> in(n, step & 1), out(n, (step + 1) & 1);
        for (int i = 0; i < n; i++)
            h.push_back(in[i] = mk<U>::get(pos++, 5));
        std::vector<U> keep(in.begin(), in.end());
        if (op == 0)
        {
            f->apply(out.data(), in.data(), n);
            for (int i = 0; i < n; i++)
                MC_CHECK(c, keep[i] == in[i], "an out-of-place call changed its input");
            compare(c, taps, h, out, n, "apply");
        }
        else if (op == 1)
        {
            f->apply(in.data(), n);
            compare(c, taps, h, in, n, "apply in place");
        }
        else
        {
            if (n == 0)
                continue;
            univector<U> r = make_univector(in.data(), n), d(n);
            f->apply(d, r + r - r);
            std::copy(d.begin(), d.end(), out.begin());
            compare(c, taps, h, out, n, "apply to expression");
        }
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "wrote before the buffer");
    }
}

// The expression form with a state owned by the caller: consecutive expressions continue the stream; and the form with
// an owned state, evaluated whole into destinations of several lengths.
template <class T, class U>
void expr_histories(mc::Ctx& c, uint64_t root)
{
    int nt = TAPS[root];
    auto taps = mktaps<T>(nt, 3);
    c.log("taps %d", nt);
    univector<T> ut = make_univector(taps.data(), taps.size());
    fir_state<T, U> st{ fir_params<T>{ ut } };
    std::vector<U> h;
    uint64_t pos = 0;
    int depth    = mc::tier(2, 3);
    for (int step = 0; step < depth; step++)
    {
        int n = c.pick(CH, "n");
        c.op();
        univector<U> in(n), out(n);
        for (int i = 0; i < n; i++)
            h.push_back(in[i] = mk<U>::get(pos++, 6));
        if (c.flip("owned"))
        {
            std::vector<U> hh(in.begin(), in.end());
            out = fir(in, fir_params<T>{ ut });
            compare(c, taps, hh, out, n, "fir(expr, params)");
            h.resize(h.size() - n);
        }
        else
        {
            out = fir(in, std::ref(st));
            compare(c, taps, h, out, n, "fir(expr, ref(state))");
        }
    }
    // pre-loading the delay line equals having processed those samples
    size_t m = c.pick({ 0, 1, 2, nt }, "preload");
    if (m <= (size_t)nt)
    {
        fir_state<T, U> s2{ fir_params<T>{ ut } };
        std::vector<U> hh;
        univector<U> pre(m);
        for (size_t i = 0; i < m; i++)
            hh.push_back(pre[i] = mk<U>::get(pos++, 7));
        s2.push_delayline(pre);
        univector<U> in(9), out(9);
        for (int i = 0; i < 9; i++)
            hh.push_back(in[i] = mk<U>::get(pos++, 7));
        out = fir(in, std::ref(s2));
        compare(c, taps, hh, out, 9, "after push_delayline");
    }
}

template <class T, class U, size_t N>
void short_one(mc::Ctx& c)
{
    auto taps = mktaps<T>(N, 4);
    univector<T, N> ut;
    for (size_t i = 0; i < N; i++)
        ut[i] = taps[i];
    constexpr size_t internal = next_poweroftwo(N - 1) + 1;
    short_fir_state<internal, T, U> st{ ut };
    std::vector<U> h;
    uint64_t pos = 0;
    c.log("taps %zu", N);
    int depth = mc::tier(2, 3);
    for (int step = 0; step < depth; step++)
    {
        int n = c.pick(CH, "n");
        c.op();
        univector<U> in(n), out(n);
        for (int i = 0; i < n; i++)
            h.push_back(in[i] = mk<U>::get(pos++, 6));
        bool owned = c.flip("owned");
        if (owned)
        {
            std::vector<U> hh(in.begin(), in.end());
            out = short_fir(in, ut);
            compare(c, taps, hh, out, n, "short_fir(expr, taps)");
            h.resize(h.size() - n);
        }
        else
        {
            out = short_fir(in, std::ref(st));
            compare(c, taps, h, out, n, "short_fir(expr, ref(state))");
        }
    }
}
template <class T, class U>
void short_histories(mc::Ctx& c, uint64_t root)
{
    switch (root)
    {
    case 0: return short_one<T, U, 2>(c);
    case 1: return short_one<T, U, 3>(c);
    case 2: return short_one<T, U, 4>(c);
    case 3: return short_one<T, U, 5>(c);
    case 4: return short_one<T, U, 6>(c);
    case 5: return short_one<T, U, 9>(c);
    case 6: return short_one<T, U, 12>(c);
    case 7: return short_one<T, U, 17>(c);
    case 8: return short_one<T, U, 33>(c);
    }
}

void mc_register()
{
    size_t n = TAPS.size();
    mc::add("filter_f32", n, filter_histories<float, float>);
    mc::add("filter_f64", n, filter_histories<double, double>);
    mc::add("filter_f32_f64", n, filter_histories<float, double>);
    mc::add("filter_f64_f32", n, filter_histories<double, float>);
    mc::add("filter_f32_c32", n, filter_histories<float, complex<float>>);
    mc::add("filter_f64_c64", n, filter_histories<double, complex<double>>);
    mc::add("expr_f32", n, expr_histories<float, float>);
    mc::add("expr_f64", n, expr_histories<double, double>);
    mc::add("expr_c32", n, expr_histories<float, complex<float>>);
    mc::add("short_f32", 9, short_histories<float, float>);
    mc::add("short_f64", 9, short_histories<double, double>);
}
MC_MAIN()
