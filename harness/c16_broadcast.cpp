// C16: broadcasting between every pair of small shapes, and N-dimensional evaluation over any axis and width.
#include <kfr/base.hpp>
#include "util.hpp"
#include <stdexcept>
using namespace kfr;
using mc::Ctx;
using V = std::vector<long>;

static long prod(const V& s)
{
    long p = 1;
    for (long v : s)
        p *= v;
    return p;
}
static V unflat(const V& s, long i)
{
    V r(s.size());
    for (size_t d = s.size(); d-- > 0;)
        r[d] = i % s[d], i /= s[d];
    return r;
}
static std::string str(const V& s)
{
    std::string r = "(";
    for (long v : s)
        r += mc::fmt("%ld,", v);
    return r + ")";
}
template <index_t D>
static shape<D> sh(const V& v)
{
    shape<D> s;
    for (size_t i = 0; i < D; i++)
        s[i] = (index_t)v[i];
    return s;
}
// element of an operand of shape s at the trailing-aligned index x
static double at(const V& s, const V& x, int salt)
{
    long r = 0;
    for (size_t d = 0; d < s.size(); d++)
        r = r * s[d] + (s[d] == 1 ? 0 : x[x.size() - s.size() + d]);
    return mcu::ival(r, salt);
}
static bool compat(const V& a, const V& b, V& out)
{
    size_t n = std::max(a.size(), b.size());
    out.assign(n, 1);
    for (size_t i = 0; i < n; i++)
    {
        long x = i < a.size() ? a[a.size() - 1 - i] : 1, y = i < b.size() ? b[b.size() - 1 - i] : 1;
        if (x != y && x != 1 && y != 1)
            return false;
        out[n - 1 - i] = std::max(x, y);
    }
    return true;
}
// A tensor of the given shape in one of three layouts, over a block of exactly the cells it may touch.
template <index_t D>
struct Ten
{
    V s;
    int lay;
    mcu::Buf<float> b;
    static long cells(const V& s, int lay) { return lay == 2 ? prod(s) * 2 - (prod(s) > 0) : prod(s); }
    Ten(const V& s, int lay, int salt) : s(s), lay(lay), b(cells(s, lay))
    {
        for (long i = 0; i < prod(s); i++)
            b[cell(unflat(s, i))] = (float)mcu::ival(i, salt);
    }
    long cell(const V& x) const
    {
        long r = 0;
        if (lay == 1) // first axis fastest
            for (size_t d = D; d-- > 0;)
                r = r * s[d] + x[d];
        else
            for (size_t d = 0; d < D; d++)
                r = r * s[d] + x[d];
        return lay == 2 ? 2 * r : r;
    }
    tensor<float, D> t()
    {
        shape<D> st;
        V x(D, 0);
        for (size_t d = 0; d < D; d++)
        {
            st[d] = 1;
            index_t n = lay == 2 ? 2 : 1;
            if (lay == 1)
                for (size_t k = 0; k < d; k++)
                    n *= s[k];
            else
                for (size_t k = d + 1; k < D; k++)
                    n *= s[k];
            st[d] = n;
        }
        return tensor<float, D>(b.data(), sh<D>(s), st, nullptr);
    }
};
static V pick_shape(Ctx& c, int dims, const V& sides)
{
    V s;
    for (int d = 0; d < dims; d++)
        s.push_back(c.pick(sides, "side"));
    return s;
}

template <size_t w, index_t Axis, class E>
static void check_eval(Ctx& c, const E& e, const V& out, int lay, const std::function<double(const V&)>& f, const char* what)
{
    constexpr index_t D = expression_dims<E>;
    Ten<D> o(out, lay, 0);
    for (size_t i = 0; i < o.b.size(); i++)
        o.b[i] = -555;
    auto t = o.t();
    process<w, Axis>(t, e);
    c.op(), c.eval();
    c.outcome(mcu::digest(&o.b[0], o.b.size()));
    for (long i = 0; i < prod(out); i++)
    {
        V x = unflat(out, i);
        double g = o.b[o.cell(x)];
        MC_CHECK(c, g == f(x), "%s: element %s of %s evaluated over axis %d with width %zu is %g, expected %g", what, str(x).c_str(),
                 str(out).c_str(), (int)Axis, w, g, f(x));
    }
}

// over every axis that all operands have, with several widths
template <index_t FirstAxis, class E>
static void check_all(Ctx& c, const E& e, const V& out, int lay, const std::function<double(const V&)>& f, const char* what)
{
    constexpr index_t D = expression_dims<E>;
    for (int d = 0; d < (int)D; d++)
        MC_CHECK(c, get_shape(e)[d] == (index_t)out[d], "%s: axis %d of the result has %lld elements, expected %ld", what, d,
                 (long long)get_shape(e)[d], out[d]);
    const std::string k = c.s->key;
    cforeach(csizeseq<D - FirstAxis>,
             [&](auto a_)
             {
                 constexpr index_t A = FirstAxis + val_of(decltype(a_)());
                 c.key("%s/axis%s", k.c_str(), A == D - 1 ? "last" : "inner");
                 check_eval<0, A>(c, e, out, lay, f, what);
                 check_eval<1, A>(c, e, out, lay, f, what);
                 check_eval<2, A>(c, e, out, lay, f, what);
                 check_eval<4, A>(c, e, out, lay, f, what);
             });
    c.key("%s", k.c_str());
}
template <class E>
static void check_rejected(Ctx& c, E&& make, const V& big)
{
    bool threw = false;
    Ten<4> o(big, 0, 0);
    for (size_t i = 0; i < o.b.size(); i++)
        o.b[i] = -555;
    auto t = o.t();
    try
    {
        make(t);
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    for (size_t i = 0; i < o.b.size(); i++)
        MC_CHECK(c, o.b[i] == -555, "values were written for incompatible shapes");
    MC_CHECK(c, threw, "incompatible shapes were accepted");
}

#if PART == 1
template <int DA, int DB>
static void pairs(Ctx& c, uint64_t)
{
    const bool small = DA <= 2 && DB <= 2;
    const V sides    = DA > 3 || DB > 3 ? V{ 1, 2 } : small ? V{ 1, 2, 3, 5, 9 } : V{ 1, 2, 3 };
    V a = pick_shape(c, DA, sides), b = pick_shape(c, DB, sides), out;
    const bool ok = compat(a, b, out);
    c.key("pair%d,%d", DA, DB);
    if (!ok)
    {
        Ten<DA> ta(a, 0, 1);
        Ten<DB> tb(b, 0, 2);
        check_rejected(c, [&](auto& t) { process(t, ta.t() - tb.t()); }, V{ 2, 3, 5, 9 });
        return;
    }
    for (int la = 0; la < 3; la++)
        for (int lb = 0; lb < 3; lb++)
        {
            if (!small && !mc::thorough() && la && lb)
                continue;
            Ten<DA> ta(a, la, 1);
            Ten<DB> tb(b, lb, 2);
            constexpr index_t first = std::max(DA, DB) - std::min(DA, DB);
            check_all<first>(c, ta.t() - tb.t(), out, (la + lb) % 3, [&](const V& x) { return at(a, x, 1) - at(b, x, 2); }, "a-b");
        }
}
template <int D>
static void with_scalar(Ctx& c, uint64_t)
{
    V a = pick_shape(c, D, D > 3 ? V{ 1, 2 } : V{ 1, 2, 3, 5 });
    c.key("scalar%d", D);
    for (int la = 0; la < 3; la++)
    {
        Ten<D> ta(a, la, 1);
        check_all<0>(c, ta.t() * 3.f, a, la, [&](const V& x) { return 3 * at(a, x, 1); }, "a*3");
        check_all<0>(c, 3.f - ta.t(), a, 0, [&](const V& x) { return 3 - at(a, x, 1); }, "3-a");
    }
}
void mc_register_1();
void mc_register_1()
{
    mc::add("pair(1,1)", 1, pairs<1, 1>);
    mc::add("pair(1,2)", 1, pairs<1, 2>);
    mc::add("pair(2,1)", 1, pairs<2, 1>);
    mc::add("pair(2,2)", 1, pairs<2, 2>);
    mc::add("pair(1,3)", 1, pairs<1, 3>);
    mc::add("pair(3,2)", 1, pairs<3, 2>);
    mc::add("pair(3,3)", 1, pairs<3, 3>);
    mc::add("scalar1", 1, with_scalar<1>);
    mc::add("scalar2", 1, with_scalar<2>);
    mc::add("scalar3", 1, with_scalar<3>);
}
#endif
#if PART == 2
template <int DA, int DB>
static void pairs(Ctx& c, uint64_t)
{
    const V sides = DA == 5 || DB == 5 ? V{ 1, 2 } : V{ 1, 2, 3 };
    V a = pick_shape(c, DA, sides), b = pick_shape(c, DB, sides), out;
    const bool ok = compat(a, b, out);
    c.key("pair%d,%d", DA, DB);
    if (!ok)
        return;
    for (int la = 0; la < (mc::thorough() ? 3 : 1); la++)
    {
        Ten<DA> ta(a, la, 1);
        Ten<DB> tb(b, 0, 2);
        constexpr index_t first = std::max(DA, DB) - std::min(DA, DB);
        check_all<first>(c, ta.t() - tb.t(), out, la, [&](const V& x) { return at(a, x, 1) - at(b, x, 2); }, "a-b");
    }
}
template <int D1, int D2, int D3>
static void ternary(Ctx& c, uint64_t)
{
    const V sides = { 1, 2, 5 };
    V a = pick_shape(c, D1, sides), b = pick_shape(c, D2, sides), d = pick_shape(c, D3, sides), ab, out;
    const bool ok = compat(a, b, ab) && compat(ab, d, out);
    c.key("ternary%d,%d,%d", D1, D2, D3);
    Ten<D1> ta(a, 0, 1);
    Ten<D2> tb(b, 0, 2);
    Ten<D3> td(d, 0, 3);
    if (!ok)
    {
        check_rejected(c, [&](auto& t) { process(t, clamp(ta.t(), tb.t(), td.t())); }, V{ 2, 2, 5, 5 });
        return;
    }
    constexpr int D         = std::max(D1, std::max(D2, D3));
    constexpr index_t first = D - std::min(D1, std::min(D2, D3));
    check_all<first>(c, clamp(ta.t(), tb.t(), td.t()), out, 0,
                     [&](const V& x) { return std::max(std::min(at(a, x, 1), at(d, x, 3)), at(b, x, 2)); }, "clamp(a,b,d)");
    check_all<first>(c, select(ta.t() > tb.t(), tb.t(), td.t()), out, 1,
                     [&](const V& x) { return at(a, x, 1) > at(b, x, 2) ? at(b, x, 2) : at(d, x, 3); }, "select(a>b,b,d)");
    check_all<first>(c, ta.t() * tb.t() + td.t(), out, 2, [&](const V& x) { return at(a, x, 1) * at(b, x, 2) + at(d, x, 3); },
                     "a*b+d");
}
template <size_t N>
static void fixed(Ctx& c, uint64_t)
{
    V b = pick_shape(c, 2, V{ 1, 2, 3, 4, 8, 9 }), out, a = { (long)N };
    c.key("static%zu", N);
    univector<float, N> ua;
    for (size_t i = 0; i < N; i++)
        ua[i] = (float)mcu::ival(i, 1);
    Ten<2> tb(b, 0, 2);
    if (!compat(a, b, out))
    {
        check_rejected(c, [&](auto& t) { process(t, ua + tb.t()); }, V{ 2, 3, 5, 9 });
        return;
    }
    check_all<1>(c, ua - tb.t(), out, 0, [&](const V& x) { return at(a, x, 1) - at(b, x, 2); }, "static-b");
    check_all<1>(c, tb.t() - ua, out, 1, [&](const V& x) { return at(b, x, 2) - at(a, x, 1); }, "b-static");
}
void mc_register_2();
void mc_register_2()
{
    mc::add("pair(4,4)", 1, pairs<4, 4>);
    mc::add("pair(4,2)", 1, pairs<4, 2>);
    mc::add("pair(1,4)", 1, pairs<1, 4>);
    mc::add("pair(5,5)", 1, pairs<5, 5>);
    mc::add("pair(5,3)", 1, pairs<5, 3>);
    mc::add("ternary(2,2,2)", 1, ternary<2, 2, 2>);
    mc::add("ternary(2,1,2)", 1, ternary<2, 1, 2>);
    mc::add("ternary(1,1,1)", 1, ternary<1, 1, 1>);
    mc::add("static1", 1, fixed<1>);
    mc::add("static3", 1, fixed<3>);
    mc::add("static4", 1, fixed<4>);
    mc::add("static8", 1, fixed<8>);
}
#endif
#if PART == 3
// assignment of S-dimensional data to a D-dimensional destination, whole and over every sub-box
template <int D, int S>
static void assign(Ctx& c, uint64_t)
{
    const V sides = D == 1 ? V{ 1, 2, 3, 5, 9, 17 } : D == 2 ? V{ 1, 2, 3, 5 } : D == 3 ? V{ 1, 2, 3 } : V{ 1, 2 };
    V o = pick_shape(c, D, sides), s = pick_shape(c, S, sides);
    bool ok = true;
    for (int d = 0; d < S; d++)
        ok = ok && (s[d] == 1 || s[d] == o[D - S + d]);
    Ten<S> ts(s, 0, 1);
    V st(D), ln(D);
    c.key("assign%d,%d%s", D, S, ok ? "" : "/bad");
    auto run = [&](auto w_, auto ax_)
    {
        constexpr size_t w  = val_of(decltype(w_)());
        constexpr index_t A = val_of(decltype(ax_)());
        // every box of the destination
        V starts(D), span(D);
        long nb = 1;
        for (int d = 0; d < D; d++)
            span[d] = (o[d] + 1) * (o[d] + 2), nb *= D > 2 ? o[d] * (o[d] + 1) / 2 + 1 : span[d];
        for (long k = 0; k < nb; k++)
        {
            long r = k;
            for (int d = 0; d < D; d++)
            {
                if (D > 2)
                {
                    // non-empty boxes inside, plus the whole
                    long m = o[d] * (o[d] + 1) / 2 + 1, q = r % m;
                    r /= m;
                    if (q == m - 1)
                        st[d] = 0, ln[d] = -1;
                    else
                    {
                        long i = 0;
                        while (q >= o[d] - i)
                            q -= o[d] - i, i++;
                        st[d] = i, ln[d] = q + 1;
                    }
                }
                else
                {
                    long q = r % span[d];
                    r /= span[d];
                    st[d] = q % (o[d] + 1), ln[d] = q / (o[d] + 1);
                    if (ln[d] == o[d] + 1)
                        ln[d] = -1; // unlimited
                }
            }
            Ten<D> to(o, (int)(k % 3), 0);
            for (size_t i = 0; i < to.b.size(); i++)
                to.b[i] = -555 - (float)i;
            auto t = to.t();
            shape<D> size;
            for (int d = 0; d < D; d++)
                size[d] = ln[d] < 0 ? infinite_size : (index_t)ln[d];
            process<w, A>(t, ts.t(), sh<D>(st), size);
            c.op(), c.eval();
            for (long i = 0; i < prod(o); i++)
            {
                V x     = unflat(o, i);
                bool in = ok;
                for (int d = 0; d < D; d++)
                    in = in && x[d] >= st[d] && (ln[d] < 0 || x[d] < st[d] + ln[d]);
                double want = in ? at(s, x, 1) : -555.0 - (double)to.cell(x);
                MC_CHECK(c, to.b[to.cell(x)] == (float)want,
                         "assigning %s to the box %s+%s of %s over axis %d with width %zu: element %s is %g, expected %g", str(s).c_str(),
                         str(st).c_str(), str(ln).c_str(), str(o).c_str(), (int)A, w, str(x).c_str(), (double)to.b[to.cell(x)], want);
            }
            if (to.lay == 2)
                for (size_t i = 1; i < to.b.size(); i += 2)
                    MC_CHECK(c, to.b[i] == -555 - (float)i, "a cell between the elements of the destination was overwritten");
        }
    };
    cforeach(csizeseq<S>, [&](auto a) {
        constexpr index_t A = D - S + val_of(decltype(a)());
        run(csize<0>, csize<A>);
        run(csize<2>, csize<A>);
        if (D < 3)
            run(csize<4>, csize<A>);
    });
}
void mc_register_3();
void mc_register_3()
{
    mc::add("assign(1,1)", 1, assign<1, 1>);
    mc::add("assign(2,1)", 1, assign<2, 1>);
    mc::add("assign(2,2)", 1, assign<2, 2>);
    mc::add("assign(3,2)", 1, assign<3, 2>);
    mc::add("assign(3,3)", 1, assign<3, 3>);
    mc::add("assign(4,2)", 1, assign<4, 2>);
    mc::add("assign(4,4)", 1, assign<4, 4>);
    mc::add("assign(5,3)", 1, assign<5, 3>);
    if (mc::thorough())
        mc::add("assign(5,5)", 1, assign<5, 5>);
}
#endif
#if PART == 0
void mc_register_1();
void mc_register_2();
void mc_register_3();
void mc_register()
{
    mc_register_1();
    mc_register_2();
    mc_register_3();
}
MC_MAIN()
#endif
