// (padded() has no multi-dimensional form that compiles.)
// C15: N-dimensional combinators, read at every index along every axis with every width.
#include <kfr/base.hpp>
#include "util.hpp"
using namespace kfr;
using mc::Ctx;
using V              = std::vector<long>;
using F              = std::function<double(const V&)>;
constexpr long INFTY = 1000000;

static long prod(const V& s)
{
    long p = 1;
    for (long v : s)
        p *= v;
    return p;
}
static V unflat(const V& s, long i)
{
    V r(s.size());
    for (size_t d = s.size(); d-- > 0;)
        r[d] = i % s[d], i /= s[d];
    return r;
}
static long flat(const V& s, const V& x)
{
    long r = 0;
    for (size_t d = 0; d < s.size(); d++)
        r = r * s[d] + x[d];
    return r;
}
static std::string str(const V& s)
{
    std::string r = "(";
    for (long v : s)
        r += mc::fmt("%ld,", v);
    return r + ")";
}
template <index_t D>
static shape<D> sh(const V& v)
{
    shape<D> s;
    for (size_t i = 0; i < D; i++)
        s[i] = (index_t)v[i];
    return s;
}
static V pick_shape(Ctx& c, int dims, const V& sides)
{
    V s;
    for (int d = 0; d < dims; d++)
        s.push_back(c.pick(sides, "side"));
    return s;
}
template <index_t D>
struct Src
{
    V s;
    mcu::Buf<float> b;
    Src(const V& s, int salt) : s(s), b(prod(s))
    {
        for (long i = 0; i < prod(s); i++)
            b[i] = (float)mcu::ival(i, salt);
    }
    tensor<float, D> t() { return tensor<float, D>(b.data(), sh<D>(s), nullptr); }
};
static F den(const V& s, int salt)
{
    return [=](const V& x) { return (double)mcu::ival(flat(s, x), salt); };
}

// all reads inside `lim` (the extent, or 7 along infinite axes)
template <class E>
static void readers(Ctx& c, const E& e, const V& ext, const F& f, const char* what)
{
    constexpr index_t D = expression_dims<E>;
    V lim = ext;
    for (int d = 0; d < (int)D; d++)
    {
        const size_t g = get_shape(e)[d];
        MC_CHECK(c, ext[d] == INFTY ? g == infinite_size : g == (size_t)ext[d], "%s: axis %d has %lld elements, expected %ld", what, d,
                 (long long)g, ext[d]);
        if (ext[d] == INFTY)
            lim[d] = 7;
    }
    const std::string k = c.s->key;
    uint64_t h          = mc::hash_mix((uint64_t)prod(lim), D);
    cforeach(csizeseq<D>,
             [&](auto a_)
             {
                 constexpr index_t A = val_of(decltype(a_)());
                 c.key("%s/%s", k.c_str(), A == D - 1 ? "last" : "inner");
                 cforeach(csizes_t<1, 2, 4, 8>{},
                          [&](auto w_)
                          {
                              constexpr size_t N = val_of(decltype(w_)());
                              for (long i = 0; i < prod(lim); i++)
                              {
                                  V x = unflat(lim, i);
                                  if (x[A] + (long)N > lim[A])
                                      continue;
                                  auto v = get_elements(e, sh<D>(x), axis_params_v<A, N>);
                                  c.op(), c.eval();
                                  V y = x;
                                  for (size_t n = 0; n < N; n++, y[A]++)
                                      MC_CHECK(c, (double)v[n] == f(y),
                                               "%s: element %s read from %s along axis %d with width %zu is %g, expected %g", what,
                                               str(y).c_str(), str(x).c_str(), (int)A, N, (double)v[n], f(y));
                                  h = mc::hash_mix(h, (uint64_t)(int64_t)(16 * (double)v[0]));
                              }
                          });
             });
    c.key("%s", k.c_str());
    c.outcome(h);
}

static const V SIDES2 = { 1, 2, 3, 5, 9 }, SIDES3 = { 1, 2, 3 };
template <int D>
static const V& sides()
{
    return D <= 2 ? SIDES2 : SIDES3;
}
enum
{
    SLICE,
    TRUNC,
    REV,
    CAST,
    NEG,
    COUNTER,
    LAMBDA,
    DIMS,
    ALLDIMS
};
template <int D>
static void nd(Ctx& c, uint64_t root)
{
    const V s = pick_shape(c, D, sides<D>());
    Src<D> src(s, 1);
    const F f = den(s, 1);
    switch (root)
    {
    case SLICE:
    {
        V st, sz, ext;
        for (int d = 0; d < D; d++)
        {
            st.push_back(c.choose((int)s[d] + 1, "start"));
            sz.push_back(c.pick(V{ 0, 1, 2, 4, INFTY }, "size"));
            ext.push_back(std::min(s[d] - st[d], sz[d]));
        }
        shape<D> size;
        for (int d = 0; d < D; d++)
            size[d] = sz[d] == INFTY ? infinite_size : (index_t)sz[d];
        c.key("slice%d", D);
        readers(c, slice(src.t(), sh<D>(st), size), ext,
                [&](const V& x)
                {
                    V y = x;
                    for (int d = 0; d < D; d++)
                        y[d] += st[d];
                    return f(y);
                },
                "slice");
        break;
    }
    case TRUNC:
    {
        V sz, ext;
        for (int d = 0; d < D; d++)
        {
            sz.push_back(c.pick(V{ 0, 1, 2, 4, 8 }, "size"));
            ext.push_back(std::min(s[d], sz[d]));
        }
        c.key("truncate%d", D);
        readers(c, truncate(src.t(), sh<D>(sz)), ext, f, "truncate");
        break;
    }
    case REV:
        c.key("reverse%d", D);
        readers(c, reverse(src.t()), s,
                [&](const V& x)
                {
                    V y = x;
                    for (int d = 0; d < D; d++)
                        y[d] = s[d] - 1 - x[d];
                    return f(y);
                },
                "reverse");
        break;
    case CAST:
        c.key("cast%d", D);
        readers(c, cast<float>(cast<int>(src.t())), s, f, "cast");
        break;
    case NEG:
        c.key("neg%d", D);
        readers(c, -(src.t()), s, [&](const V& x) { return -f(x); }, "neg");
        break;
    }
}
template <int D>
static void generators(Ctx& c, uint64_t)
{
    c.key("lambda%d", D);
    readers(c, lambda<float, D>([](shape<D> x) { float r = 0; for (size_t d = 0; d < D; d++) r = r * 11 + x[d]; return r; }), V(D, INFTY),
            [](const V& x) { double r = 0; for (long v : x) r = r * 11 + v; return r; }, "lambda");
    c.key("dimensions%d", D);
    if constexpr (D == 2)
    {
        V s(1, c.pick({ 1, 3, 9 }, "n"));
        Src<1> a(s, 1);
        readers(c, dimensions<2>(a.t()), V{ INFTY, s[0] }, [&](const V& x) { return (double)mcu::ival(x[1], 1); }, "dimensions");
        c.key("counter2");
        readers(c, counter(5.f, 100.f, 3.f), V(2, INFTY), [](const V& x) { return 5.0 + 100 * x[0] + 3 * x[1]; }, "counter");
        c.key("fixshape2");
        Src<2> b(V{ 8, 4 }, 1);
        readers(c, fixshape(b.t(), fixed_shape<8, 4>), V{ 8, 4 }, den(V{ 8, 4 }, 1), "fixshape");
        c.key("fixshape2fn");
        readers(c, fixshape(b.t(), fixed_shape<8, 4>) + 1.f, V{ 8, 4 }, [&](const V& x) { return 1 + den(V{ 8, 4 }, 1)(x); }, "fixshape+1");
        c.key("fixshape2bin");
        Src<2> b2(V{ 8, 4 }, 2);
        readers(c, fixshape(b.t(), fixed_shape<8, 4>) - b2.t(), V{ 8, 4 },
                [&](const V& x) { return den(V{ 8, 4 }, 1)(x) - den(V{ 8, 4 }, 2)(x); }, "fixshape-b");
    }
    else
    {
        V s{ c.pick({ 1, 3 }, "n"), c.pick({ 1, 2, 9 }, "m") };
        Src<2> a(s, 1);
        readers(c, dimensions<3>(a.t()), V{ INFTY, s[0], s[1] }, [&](const V& x) { return den(s, 1)(V{ x[1], x[2] }); }, "dimensions");
        c.key("counter3");
        readers(c, counter(5.f, 100.f, 10.f, 3.f), V(3, INFTY), [](const V& x) { return 5.0 + 100 * x[0] + 10 * x[1] + 3 * x[2]; },
                "counter");
    }
}
template <int D, int Ax>
static void concat(Ctx& c, uint64_t)
{
    V a = pick_shape(c, D, D == 2 ? V{ 0, 1, 2, 3, 5 } : V{ 1, 2, 3 }), b = a, ext;
    b[Ax] = c.pick(V{ 0, 1, 2, 4, 9 }, "other");
    for (int d = 0; d < D; d++)
        if (d != Ax && a[d] == 0)
            return;
    ext = a;
    ext[Ax] += b[Ax];
    Src<D> sa(a, 1), sb(b, 2);
    c.key("concatenate%d,%d", D, Ax);
    readers(c, concatenate<Ax>(sa.t(), sb.t()), ext,
            [&](const V& x)
            {
                if (x[Ax] < a[Ax])
                    return den(a, 1)(x);
                V y = x;
                y[Ax] -= a[Ax];
                return den(b, 2)(y);
            },
            "concatenate");
    // operands that are owning temporaries
    c.key("concatenate-temp%d,%d", D, Ax);
    readers(c, concatenate<Ax>(sa.t().copy(), sb.t().copy()), ext,
            [&](const V& x)
            {
                if (x[Ax] < a[Ax])
                    return den(a, 1)(x);
                V y = x;
                y[Ax] -= a[Ax];
                return den(b, 2)(y);
            },
            "concatenate of temporaries");
}
template <int DI, int DO>
static void reshapes(Ctx& c, uint64_t)
{
    const V si = pick_shape(c, DI, DI == 1 ? V{ 1, 2, 4, 6, 8, 12, 16, 24 } : DI == 2 ? V{ 1, 2, 3, 4, 8 } : V{ 1, 2, 3, 4 });
    const V so = pick_shape(c, DO, DO == 1 ? V{ 1, 2, 3, 4, 6, 8, 9, 12, 16, 18, 24, 32, 64 } : V{ 1, 2, 3, 4, 8 });
    if (prod(si) != prod(so))
        return;
    Src<DI> src(si, 1);
    const F f = [&](const V& x) { return den(si, 1)(unflat(si, flat(so, x))); };
    c.key("reshape%d,%d", DI, DO);
    readers(c, reshape(src.t(), sh<DO>(so)), so, f, "reshape");
    c.key("reshape-temp%d,%d", DI, DO);
    readers(c, reshape(src.t().copy(), sh<DO>(so)), so, f, "reshape of a temporary");
    c.key("reshape-expr%d,%d", DI, DO);
    readers(c, reshape(-src.t(), sh<DO>(so)), so, [&](const V& x) { return -f(x); }, "reshape of an expression");
    // as a destination
    c.key("reshape-write%d,%d", DI, DO);
    cforeach(csizeseq<DO>,
             [&](auto a_)
             {
                 constexpr index_t A = val_of(decltype(a_)());
                 cforeach(csizes_t<1, 2, 4, 8>{},
                          [&](auto w_)
                          {
                              constexpr size_t N = val_of(decltype(w_)());
                              Src<DI> dst(si, 3);
                              Src<DO> in(so, 4);
                              auto t = dst.t();
                              auto r = reshape(t, sh<DO>(so));
                              process<N, A>(r, in.t());
                              c.op(), c.eval();
                              for (long i = 0; i < prod(si); i++)
                                  MC_CHECK(c, dst.b[i] == in.b[i], "writing %s through a reshape of %s over axis %d with width %zu: cell %ld is %g, expected %g",
                                           str(so).c_str(), str(si).c_str(), (int)A, N, i, dst.b[i], in.b[i]);
                          });
             });
}
// evaluating a function of the index over every box of a destination, along every axis
template <int D>
static void boxes(Ctx& c, uint64_t)
{
    const V o = pick_shape(c, D, D <= 3 ? V{ 1, 2, 3, 5 } : D == 4 && mc::thorough() ? V{ 1, 2, 3 } : V{ 1, 3 });
    V st(D), sz(D);
    for (int d = 0; d < D; d++)
    {
        st[d] = c.pick(o[d] == 1 ? V{ 0 } : V{ 0, 1 }, "start");
        sz[d] = c.pick(o[d] == 1 ? V{ 1 } : o[d] > 3 ? V{ o[d] - 2, INFTY } : V{ o[d] - 1, INFTY }, "size");
    }
    shape<D> size;
    for (int d = 0; d < D; d++)
        size[d] = sz[d] == INFTY ? infinite_size : (index_t)sz[d];
    const F f = [](const V& x) { double r = 1; for (long v : x) r = r * 7 + v; return r; };
    Src<D> in(o, 1);
    c.key("box%d", D);
    cforeach(csizeseq<D>,
             [&](auto a_)
             {
                 constexpr index_t A = val_of(decltype(a_)());
                 cforeach(csizes_t<1, 2, 4>{},
                          [&](auto w_)
                          {
                              constexpr size_t N = val_of(decltype(w_)());
                              for (int kind = 0; kind < 3; kind++)
                              {
                                  Src<D> dst(o, 3);
                                  auto t = dst.t();
                                  if (kind == 0)
                                      process<N, A>(t, lambda<float, D>([](shape<D> x) { float r = 1; for (size_t d = 0; d < D; d++) r = r * 7 + x[d]; return r; }),
                                                    sh<D>(st), size);
                                  else if (kind == 1)
                                      process<N, A>(t, in.t(), sh<D>(st), size);
                                  else
                                      process<N, A>(t, -in.t() + 2.f, sh<D>(st), size);
                                  c.op(), c.eval();
                                  for (long i = 0; i < prod(o); i++)
                                  {
                                      V x       = unflat(o, i);
                                      bool ins  = true;
                                      for (int d = 0; d < D; d++)
                                          ins = ins && x[d] >= st[d] && x[d] < st[d] + sz[d];
                                      double want = !ins ? mcu::ival(i, 3) : kind == 0 ? f(x) : kind == 1 ? den(o, 1)(x) : 2 - den(o, 1)(x);
                                      MC_CHECK(c, dst.b[i] == (float)want,
                                               "evaluating %s over the box %s+%s of %s along axis %d with width %zu: element %s is %g, expected %g",
                                               kind == 0 ? "a function of the index" : kind == 1 ? "an array" : "an expression", str(st).c_str(),
                                               str(sz).c_str(), str(o).c_str(), (int)A, N, str(x).c_str(), (double)dst.b[i], want);
                                  }
                              }
                          });
             });
    c.outcome(mc::hash_mix((uint64_t)prod(o), (uint64_t)prod(st)));
}
void mc_register()
{
    mc::add("box2", 1, boxes<2>);
    mc::add("box3", 1, boxes<3>);
    mc::add("box4", 1, boxes<4>);
    mc::add("box5", 1, boxes<5>);
    for (int k : { (int)SLICE, (int)TRUNC, (int)REV, (int)CAST, (int)NEG })
    {
        mc::add(mc::fmt("nd2:%d", k), 1, [k](Ctx& c, uint64_t) { nd<2>(c, k); });
        if (k != SLICE || mc::thorough())
            mc::add(mc::fmt("nd3:%d", k), 1, [k](Ctx& c, uint64_t) { nd<3>(c, k); });
    }
    mc::add("gen2", 1, generators<2>);
    mc::add("gen3", 1, generators<3>);
    mc::add("concat2,0", 1, concat<2, 0>);
    mc::add("concat2,1", 1, concat<2, 1>);
    mc::add("concat3,1", 1, concat<3, 1>);
    mc::add("reshape1,2", 1, reshapes<1, 2>);
    mc::add("reshape2,1", 1, reshapes<2, 1>);
    mc::add("reshape2,2", 1, reshapes<2, 2>);
    mc::add("reshape3,2", 1, reshapes<3, 2>);
    mc::add("reshape2,3", 1, reshapes<2, 3>);
}
MC_MAIN()
