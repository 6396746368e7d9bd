// C08: cascades of second-order sections against the serial difference equations, for every sequence of calls.
#include <kfr/base.hpp>
#include <kfr/dsp/biquad.hpp>
#include "util.hpp"
using namespace kfr;
using mcu::uval;

template <class T>
std::vector<biquad_section<T>> mksections(size_t n)
{
    std::vector<biquad_section<T>> s;
    for (size_t i = 0; i < n; i++)
    {
        // stable, well conditioned, every coefficient and every section distinct
        double r = 0.3 + 0.4 * (uval(i, 1) + 1) / 2, w = 0.3 + 2.2 * (uval(i, 2) + 1) / 2;
        s.push_back({ T(1), T(-2 * r * std::cos(w)), T(r * r), T(0.5 + 0.25 * uval(i, 3)), T(0.35 * uval(i, 4) + 0.2),
                      T(0.3 * uval(i, 5)) });
    }
    return s;
}

// The definition: each section in turn over the whole stream, direct form I, extended precision.
template <class T>
std::vector<long double> reference(const std::vector<biquad_section<T>>& s, const std::vector<T>& x)
{
    std::vector<long double> y(x.begin(), x.end());
    for (auto& q : s)
    {
        long double x1 = 0, x2 = 0, y1 = 0, y2 = 0;
        for (auto& v : y)
        {
            long double o = q.b0 * v + (long double)q.b1 * x1 + (long double)q.b2 * x2 - (long double)q.a1 * y1 -
                            (long double)q.a2 * y2;
            x2 = x1, x1 = v, y2 = y1, y1 = o, v = o;
        }
    }
    return y;
}

static const std::vector<int> CH  = { 1, 0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33 };
static const std::vector<int> CHS = { 1, 0, 2, 3, 6, 8, 17 };
static const std::vector<int> NS  = { 1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 16, 17, 32, 64 };

// The whole input stream is fixed per section count, so the reference is computed once.
template <class T>
struct Model
{
    std::vector<biquad_section<T>> s;
    std::vector<T> x;
    std::vector<long double> y;
    long double scale = 0;
    explicit Model(size_t n) : s(mksections<T>(n))
    {
        for (int i = 0; i < 220; i++)
            x.push_back(T(uval(i, 77)));
        y = reference(s, x);
        for (auto v : y)
            scale = std::max(scale, std::fabs(v));
        scale = std::max(scale, (long double)1e-3);
    }
    static Model& get(size_t n)
    {
        static std::map<size_t, Model> m;
        auto it = m.find(n);
        if (it == m.end())
            it = m.emplace(n, Model(n)).first;
        return it->second;
    }
    void check(mc::Ctx& c, const T* out, size_t from, size_t n, const char* what) const
    {
        const long double tol = (sizeof(T) == 4 ? 2e-5L : 1e-12L) * scale * (1 + s.size() / 8);
        for (size_t i = 0; i < n; i++)
        {
            c.eval();
            if (!(std::fabs((long double)out[i] - y[from + i]) <= tol))
                c.fail("%s: sample %zu (offset %zu of a call of %zu) is %.9g, the cascade gives %.9Lg; %zu sections", what,
                       from + i, i, n, (double)out[i], y[from + i], s.size());
        }
        if (n)
            c.outcome(mcu::digest(out, n, from));
    }
};

template <class T>
void filter_histories(mc::Ctx& c, uint64_t root)
{
    size_t n = NS[root];
    auto& m  = Model<T>::get(n);
    c.log("sections %zu", n);
    iir_filter<T> f(iir_params<T>(m.s.data(), m.s.size()));
    size_t pos = 0;
    int depth  = mc::tier(3, 4);
    for (int step = 0; step < depth; step++)
    {
        int op = c.choose(step == 0 ? 3 : 4, "op"); // 0 out of place 1 in place 2 expression 3 reset
        c.op();
        if (op == 3)
        {
            c.key("reset");
            f.reset();
            pos = 0;
            continue;
        }
        int k = c.pick(step == 0 || mc::thorough() ? (step < 3 ? CH : CHS) : CHS, "n");
        mcu::Buf<T> in(k, step & 1), out(k, (step + 1) & 1);
        std::copy(m.x.begin() + pos, m.x.begin() + pos + k, in.begin());
        const char* const names[3] = { "apply", "apply in place", "apply to expression" };
        T* res                     = out.data();
        if (op == 0)
        {
            f.apply(out.data(), in.data(), k);
            for (int i = 0; i < k; i++)
                MC_CHECK(c, in[i] == m.x[pos + i], "an out-of-place call changed its input");
        }
        else if (op == 1)
        {
            f.apply(in.data(), k);
            res = in.data();
        }
        else
        {
            univector<T> d(k);
            { univector<T> r(in.begin(), in.end()); f.apply(d, r + r - r); }
            std::copy(d.begin(), d.end(), out.begin());
        }
        m.check(c, res, pos, k, names[op]);
        MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "wrote before the buffer");
        pos += k;
    }
}

// Static cascades: an owned state evaluated whole; a referenced state continued by consecutive expressions.
template <class T, size_t N>
void expr_one(mc::Ctx& c)
{
    auto& m = Model<T>::get(N);
    iir_params<T, N> p(m.s.data(), N);
    iir_state<T, N> st{ p };
    size_t pos = 0;
    c.log("sections %zu", N);
    int depth = mc::tier(3, 4);
    for (int step = 0; step < depth; step++)
    {
        int k     = c.pick(step < 2 ? CH : CHS, "n");
        bool own  = c.flip("owned");
        size_t at = own ? 0 : pos;
        univector<T> in(k), out(k);
        std::copy(m.x.begin() + at, m.x.begin() + at + k, in.begin());
        c.op();
        if (own)
            out = iir(in, p);
        else
            out = iir(in, std::ref(st)), pos += k;
        m.check(c, out.data(), at, k, own ? "iir(expr, params)" : "iir(expr, ref(state))");
    }
}
template <class T>
void expr_histories(mc::Ctx& c, uint64_t root)
{
    switch (root)
    {
    case 0: return expr_one<T, 1>(c);
    case 1: return expr_one<T, 2>(c);
    case 2: return expr_one<T, 3>(c);
    case 3: return expr_one<T, 4>(c);
    case 4: return expr_one<T, 5>(c);
    case 5: return expr_one<T, 8>(c);
    case 6: return expr_one<T, 16>(c);
    }
}
// The dynamic form: handle with the cascade padded to a power of two, whole evaluation for every length.
template <class T>
void dyn(mc::Ctx& c, uint64_t root)
{
    size_t n = NS[root];
    auto& m  = Model<T>::get(n);
    int k    = c.choose(mc::tier(70, 200), "n");
    univector<T> in(k), out(k), out2(k);
    std::copy(m.x.begin(), m.x.begin() + k, in.begin());
    auto h = iir(in, iir_params<T>(m.s.data(), n));
    out    = h;
    c.op();
    m.check(c, out.data(), 0, k, "iir(expr, dynamic params)");
}

void mc_register()
{
    mc::add("filter_f32", NS.size(), filter_histories<float>);
    mc::add("filter_f64", NS.size(), filter_histories<double>);
    mc::add("expr_f32", 7, expr_histories<float>);
    mc::add("expr_f64", 7, expr_histories<double>);
    mc::add("dynamic_f32", NS.size(), dyn<float>);
    mc::add("dynamic_f64", NS.size(), dyn<double>);
}
MC_MAIN()
