// C15: one-dimensional expressions: every reader of every composition, every sub-range, temporaries as operands.
#include "exprlib.hpp"
using namespace ex;
using mc::Ctx;

// ---- leaves: callback receives (expression by value or reference, size, denotation) -------------------------------
struct Data
{
    mcu::Buf<float> b;
    univector<float> dyn;
    size_t n;
    explicit Data(size_t n, int salt) : b(n), dyn(n), n(n)
    {
        for (size_t i = 0; i < n; i++)
            b[i] = dyn[i] = (float)mcu::ival(i, salt);
    }
};
static F fdata(int salt)
{
    return [salt](size_t i) { return (double)mcu::ival(i, salt); };
}
static const int SIZES[]  = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 20, 0 };
static const char* LEAF[] = { "ref", "lvalue", "temp", "counter", "static5", "static1", "scalar", "sequence", "lambda", "linspace", "cast" };
constexpr int NLEAF       = 11;
template <int L, class G>
void leaf(Ctx& c, int salt, size_t n, G&& g)
{
    if constexpr (L == 0)
    {
        Data d(n, salt);
        g(make_univector(d.b.data(), n), n, fdata(salt));
    }
    else if constexpr (L == 1)
    {
        Data d(n, salt);
        g(d.dyn, n, fdata(salt));
    }
    else if constexpr (L == 2)
    {
        Data d(n, salt);
        g(univector<float>(d.dyn), n, fdata(salt));
    }
    else if constexpr (L == 3)
        g(counter(3.f + salt, 2.f), inf, F([salt](size_t i) { return 3.0 + salt + 2.0 * i; }));
    else if constexpr (L == 4)
    {
        univector<float, 5> s;
        for (int i = 0; i < 5; i++)
            s[i] = (float)mcu::ival(i, salt);
        g(s, (size_t)5, fdata(salt));
    }
    else if constexpr (L == 5)
    {
        univector<float, 1> s;
        s[0] = 42.f + salt;
        g(std::move(s), (size_t)1, F([salt](size_t) { return 42.0 + salt; }));
    }
    else if constexpr (L == 6)
        g(dimensions<1>(scalar(7.f + salt)), inf, F([salt](size_t) { return 7.0 + salt; }));
    else if constexpr (L == 7)
        g(sequence(1.f, 2.f + salt, 3.f), inf, F([salt](size_t i) { return i % 3 == 0 ? 1.0 : i % 3 == 1 ? 2.0 + salt : 3.0; }));
    else if constexpr (L == 8)
        g(lambda<float>([salt](size_t i) { return (float)(i * i % 11) + salt; }), inf,
          F([salt](size_t i) { return (double)(i * i % 11) + salt; }));
    else if constexpr (L == 9)
    {
        // n steps of 2 from -3: exact
        g(linspace(-3.f, -3.f + 2.f * n, n, false, ctrue), n, F([n](size_t i) {
              // the mix() formula rounds once per step; powers of two are exact
              return -3.0 + 2.0 * i;
          }));
    }
    else
    {
        univector<int> v(n);
        for (size_t i = 0; i < n; i++)
            v[i] = mcu::ival(i, salt);
        g(cast<float>(std::move(v)), n, fdata(salt));
    }
}

// ---- unary combinators: g(expr, n, f) -----------------------------------------------------------------------------
static const char* UN[] = { "id", "slice", "slice2", "truncate", "padded", "reverse", "cast", "neg", "plus1", "dims" };
constexpr int NUN       = 10;
static size_t sat_sub(size_t n, size_t k) { return n == inf ? inf : n > k ? n - k : 0; }
template <int U, class E, class G>
void unary(Ctx& c, E&& e, size_t n, F f, G&& g)
{
    if constexpr (U == 0)
        g(std::forward<E>(e), n, f);
    else if constexpr (U == 1)
    {
        size_t k = c.pick({ 0, 1, 3, 8 }, "start");
        if (n != inf && k > n)
            k = n;
        g(slice(std::forward<E>(e), k), sat_sub(n, k), F([f, k](size_t i) { return f(i + k); }));
    }
    else if constexpr (U == 2)
    {
        size_t k = c.pick({ 1, 5 }, "start"), m = c.pick({ 0, 1, 4, 11 }, "len");
        if (n != inf && k > n)
            k = n;
        g(slice(std::forward<E>(e), k, m), std::min(sat_sub(n, k), m), F([f, k](size_t i) { return f(i + k); }));
    }
    else if constexpr (U == 3)
    {
        size_t m = c.pick({ 0, 1, 6, 18 }, "len");
        g(truncate(std::forward<E>(e), m), std::min(n, m), f);
    }
    else if constexpr (U == 4)
        g(padded(std::forward<E>(e), -77.f), inf, F([f, n](size_t i) { return n == inf || i < n ? f(i) : -77.0; }));
    else if constexpr (U == 5)
    {
        if (n == inf)
            g(reverse(truncate(std::forward<E>(e), 13)), (size_t)13, F([f](size_t i) { return f(12 - i); }));
        else
            g(reverse(std::forward<E>(e)), n, F([f, n](size_t i) { return f(n - 1 - i); }));
    }
    else if constexpr (U == 6)
        g(cast<float>(cast<int>(std::forward<E>(e))), n, F([f](size_t i) { return (double)(int)f(i); }));
    else if constexpr (U == 7)
        g(-std::forward<E>(e), n, F([f](size_t i) { return -f(i); }));
    else if constexpr (U == 8)
        g(1.f + std::forward<E>(e), n, F([f](size_t i) { return 1 + f(i); }));
    else
        g(dimensions<1>(std::forward<E>(e)), n, f);
}
template <int L>
size_t pick_n(Ctx& c)
{
    if constexpr (L == 0 || L == 1 || L == 2 || L == 10)
        return (size_t)c.pick(SIZES, "n");
    else if constexpr (L == 9)
        return (size_t)c.pick({ 1, 2, 4, 8, 16, 32 }, "n");
    else
        return 5;
}
template <class T>
struct value_of
{
    using type = T;
};

#if PART == 1
// one-level: readers plus every sub-range
template <int L, int U>
static void level1(Ctx& c)
{
    c.key("%s/%s", UN[U], LEAF[L]);
    size_t n = pick_n<L>(c);
    leaf<L>(c, 1, n,
            [&](auto&& e, size_t n, F f)
            {
                unary<U>(c, std::forward<decltype(e)>(e), n, f,
                         [&](auto&& e2, size_t n2, F f2)
                         {
                             // keep it as a value, the way user code keeps an expression
                             auto keep = std::forward<decltype(e2)>(e2);
                             c.key("%s/%s", UN[U], LEAF[L]);
                             readers(c, keep, n2, f2, UN[U]);
                             c.key("range/%s/%s%s", UN[U], LEAF[L], n2 == 1 ? "/unit" : "");
                             all_ranges<float>(c, keep, n2, f2, n2 == inf ? 21 : n2, UN[U]);
                             if (n2 == 1 && c.flip("broadcast"))
                                 all_ranges<float>(c, keep, n2, f2, 19, UN[U]);
                         });
            });
}
template <int L, int... U>
static void reg1(std::integer_sequence<int, U...>)
{
    (mc::add(std::string("one:") + UN[U] + "/" + LEAF[L], 1, [](Ctx& c, uint64_t) { level1<L, U>(c); }), ...);
}
void mc_register_1();
void mc_register_1()
{
    cforeach(csizeseq<NLEAF>, [](auto l) { reg1<(int)val_of(decltype(l)())>(std::make_integer_sequence<int, NUN>()); });
}
#endif

#if PART == 2
// two-level unary compositions
template <int L, int U, int V>
static void level2(Ctx& c)
{
    c.key("%s(%s/%s)", UN[V], UN[U], LEAF[L]);
    size_t n = pick_n<L>(c);
    leaf<L>(c, 1, n,
            [&](auto&& e, size_t n, F f)
            {
                unary<U>(c, std::forward<decltype(e)>(e), n, f,
                         [&](auto&& e2, size_t n2, F f2)
                         {
                             unary<V>(c, std::forward<decltype(e2)>(e2), n2, f2,
                                      [&](auto&& e3, size_t n3, F f3)
                                      {
                                          auto keep = std::forward<decltype(e3)>(e3);
                                          readers(c, keep, n3, f3, UN[V]);
                                      });
                         });
            });
}
template <int L, int U, int... V>
static void reg2(std::integer_sequence<int, V...>)
{
    (mc::add(std::string("two:") + UN[V + 1] + "(" + UN[U] + "/" + LEAF[L] + ")", 1,
             [](Ctx& c, uint64_t) { level2<L, U, V + 1>(c); }),
     ...);
}
template <int L, int... U>
static void reg2u(std::integer_sequence<int, U...>)
{
    (reg2<L, U + 1>(std::make_integer_sequence<int, NUN - 1>()), ...);
}
#define MCAT2(a, b) a##b
#define MCAT(a, b) MCAT2(a, b)
void MCAT(mc_register_2_, LEAFSEL)();
void MCAT(mc_register_2_, LEAFSEL)() { reg2u<LEAFSEL>(std::make_integer_sequence<int, NUN - 1>()); }
#endif

#if PART == 3
static const char* BIN[] = { "plus", "minus", "concat", "concat3", "pack0", "pack1", "select", "max" };
constexpr int NBIN       = 8;
static size_t common(size_t a, size_t b)
{
    if (a == inf)
        return b == 1 ? inf : b;
    if (b == inf)
        return a == 1 ? inf : a;
    return std::max(a, b);
}
static bool compatible(size_t a, size_t b) { return a == b || a == 1 || b == 1 || a == inf || b == inf; }
template <int B, class E1, class E2, class G>
void binary(Ctx& c, E1&& e1, size_t n1, F f1, E2&& e2, size_t n2, F f2, G&& g)
{
    auto b1 = [=](size_t i) { return f1(n1 == 1 ? 0 : i); };
    auto b2 = [=](size_t i) { return f2(n2 == 1 ? 0 : i); };
    if constexpr (B == 0)
        g(std::forward<E1>(e1) + std::forward<E2>(e2), common(n1, n2), F([=](size_t i) { return b1(i) + b2(i); }));
    else if constexpr (B == 1)
        g(std::forward<E1>(e1) - std::forward<E2>(e2), common(n1, n2), F([=](size_t i) { return b1(i) - b2(i); }));
    else if constexpr (B == 2)
        g(concatenate(std::forward<E1>(e1), std::forward<E2>(e2)), n1 == inf || n2 == inf ? inf : n1 + n2,
          F([=](size_t i) { return n1 == inf || i < n1 ? f1(i) : f2(i - n1); }));
    else if constexpr (B == 3)
        g(concatenate(std::forward<E1>(e1), univector<float, 3>{ 70, 71, 72 }, std::forward<E2>(e2)),
          n1 == inf || n2 == inf ? inf : n1 + n2 + 3,
          F([=](size_t i) { return n1 == inf || i < n1 ? f1(i) : i < n1 + 3 ? 70.0 + (i - n1) : f2(i - n1 - 3); }));
    else if constexpr (B == 6)
        g(select(sequence(1.f, 0.f, 0.f) > 0.f, std::forward<E1>(e1), std::forward<E2>(e2)), common(common(n1, n2), inf),
          F([=](size_t i) { return i % 3 == 0 ? b1(i) : b2(i); }));
    else if constexpr (B == 7)
        g(max(std::forward<E1>(e1), std::forward<E2>(e2)), common(n1, n2), F([=](size_t i) { return std::max(b1(i), b2(i)); }));
}
template <int L1, int U1, int L2, int U2, int B>
static void bin(Ctx& c)
{
    c.key("%s(%s/%s,%s/%s)", BIN[B], UN[U1], LEAF[L1], UN[U2], LEAF[L2]);
    size_t n1 = pick_n<L1>(c), n2 = pick_n<L2>(c);
    leaf<L1>(c, 1, n1, [&](auto&& e1, size_t n1, F f1) {
        unary<U1>(c, std::forward<decltype(e1)>(e1), n1, f1, [&](auto&& u1, size_t m1, F g1) {
            leaf<L2>(c, 2, n2, [&](auto&& e2, size_t n2, F f2) {
                unary<U2>(c, std::forward<decltype(e2)>(e2), n2, f2, [&](auto&& u2, size_t m2, F g2) {
                    const bool cc = B == 2 || B == 3;
                    if (!cc && !compatible(m1, m2))
                    {
                        bool threw = false;
                        binary<B>(c, std::forward<decltype(u1)>(u1), m1, g1, std::forward<decltype(u2)>(u2), m2, g2,
                                  [&](auto&& r, size_t, F) {
                                      auto keep = std::forward<decltype(r)>(r);
                                      univector<float> out(24, -5.f);
                                      try
                                      {
                                          process(out, keep);
                                      }
                                      catch (const std::exception&)
                                      {
                                          threw = true;
                                      }
                                      for (float v : out)
                                          MC_CHECK(c, v == -5.f, "sizes %zu and %zu are incompatible, yet values were written", m1, m2);
                                  });
                        MC_CHECK(c, threw || m1 == 0 || m2 == 0, "sizes %zu and %zu are incompatible, yet accepted", m1, m2);
                        return;
                    }
                    if (cc && (m1 == 0 || m2 == 0))
                        c.key("%s/empty(%s/%s,%s/%s)", BIN[B], UN[U1], LEAF[L1], UN[U2], LEAF[L2]);
                    if (!cc && (m1 == 0 || m2 == 0))
                        return; // see broadcasting of empty axes in C16
                    binary<B>(c, std::forward<decltype(u1)>(u1), m1, g1, std::forward<decltype(u2)>(u2), m2, g2,
                              [&](auto&& r, size_t m, F f) {
                                  auto keep = std::forward<decltype(r)>(r);
                                  readers(c, keep, m, f, BIN[B]);
                                  ranges<0, float>(c, keep, m, f, m == inf ? 21 : m, BIN[B]);
                                  ranges<4, float>(c, keep, m, f, m == inf ? 21 : m, BIN[B]);
                              });
                });
            });
        });
    });
}
template <int L1, int U1, int L2, int U2>
static void reg3(uint64_t)
{
    auto one = [](auto b) {
        constexpr int B = (int)val_of(decltype(b)());
        mc::add(std::string("bin:") + BIN[B] + "(" + UN[U1] + "/" + LEAF[L1] + "," + UN[U2] + "/" + LEAF[L2] + ")", 1,
                [](Ctx& c, uint64_t) { bin<L1, U1, L2, U2, B>(c); });
    };
    cforeach(csizes_t<0, 1, 2, 3, 6, 7>{}, one);
}
void mc_register_3();
void mc_register_3()
{
    reg3<0, 0, 0, 0>(0);
    reg3<2, 0, 2, 0>(0);
    reg3<1, 0, 3, 0>(0);
    reg3<3, 0, 10, 0>(0);
    reg3<4, 0, 4, 0>(0);
    reg3<4, 0, 5, 0>(0);
    reg3<5, 0, 0, 0>(0);
    reg3<2, 3, 2, 5>(0);
    reg3<0, 4, 7, 0>(0);
    reg3<3, 2, 2, 1>(0);
    reg3<8, 3, 6, 3>(0);
    reg3<0, 5, 4, 1>(0);
}
#endif

#if PART == 0
void mc_register_1();
void mc_register_3();
#define P2(n) void mc_register_2_##n();
P2(0) P2(2) P2(3) P2(4)
// packs, unpacking and assignment through expressions, stateful expressions
static void packs(Ctx& c, uint64_t)
{
    const size_t n = (size_t)c.pick(SIZES, "n");
    Data a(n, 1), b(n, 2), d(n, 3);
    c.key("pack2");
    {
        auto e = pack(a.dyn, b.dyn);
        univector<vec<float, 2>> r(n);
        process(r, e);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, r[i][0] == a.b[i] && r[i][1] == b.b[i], "pack of two: element %zu of %zu", i, n);
    }
    c.key("pack3");
    {
        auto e = pack(a.dyn, b.dyn, d.dyn);
        univector<vec<float, 3>> r(n);
        process(r, e);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, r[i][0] == a.b[i] && r[i][1] == b.b[i] && r[i][2] == d.b[i], "pack of three: element %zu of %zu", i, n);
    }
    c.key("unpack2");
    {
        univector<vec<float, 2>> v(n);
        for (size_t i = 0; i < n; i++)
            v[i] = vec<float, 2>(a.b[i], b.b[i]);
        mcu::Buf<float> x(n), y(n);
        unpack(make_univector(x.data(), n), make_univector(y.data(), n)) = v;
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, x[i] == a.b[i] && y[i] == b.b[i], "unpack of two: element %zu of %zu", i, n);
    }
    c.key("unpack3");
    {
        univector<vec<float, 3>> v(n);
        for (size_t i = 0; i < n; i++)
            v[i] = vec<float, 3>(a.b[i], b.b[i], d.b[i]);
        mcu::Buf<float> x(n), y(n), z(n);
        unpack(make_univector(x.data(), n), make_univector(y.data(), n), make_univector(z.data(), n)) = v;
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, x[i] == a.b[i] && y[i] == b.b[i] && z[i] == d.b[i], "unpack of three: element %zu of %zu", i, n);
    }
    c.key("packassign");
    {
        mcu::Buf<float> x(n), y(n);
        for (size_t i = 0; i < n; i++)
            x[i] = a.b[i], y[i] = b.b[i];
        pack(make_univector(x.data(), n), make_univector(y.data(), n)) *= broadcast<2>(3.f);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, x[i] == 3 * a.b[i] && y[i] == 3 * b.b[i], "scaling a pack in place: element %zu of %zu", i, n);
    }
    c.key("compound");
    {
        mcu::Buf<float> x(n);
        auto reset = [&] {
            for (size_t i = 0; i < n; i++)
                x[i] = a.b[i];
            return make_univector(x.data(), n);
        };
        { auto r = reset(); r += b.dyn; for (size_t i = 0; i < n; i++) MC_CHECK(c, x[i] == a.b[i] + b.b[i], "+= at %zu of %zu", i, n); }
        { auto r = reset(); r -= counter(1.f, 2.f); for (size_t i = 0; i < n; i++) MC_CHECK(c, x[i] == a.b[i] - (1.f + 2.f * i), "-= at %zu of %zu", i, n); }
        { auto r = reset(); r *= 2.f; for (size_t i = 0; i < n; i++) MC_CHECK(c, x[i] == 2 * a.b[i], "*= at %zu of %zu", i, n); }
        { auto r = reset(); r /= 2.f; for (size_t i = 0; i < n; i++) MC_CHECK(c, x[i] == a.b[i] / 2, "/= at %zu of %zu", i, n); }
        { auto r = reset(); r = r * r - r; for (size_t i = 0; i < n; i++) MC_CHECK(c, x[i] == a.b[i] * a.b[i] - a.b[i], "r*r-r at %zu of %zu", i, n); }
    }
    c.key("construct");
    {
        univector<float> v = a.dyn + truncate(counter(0.f), n);
        MC_CHECK(c, v.size() == n, "constructed size %zu, expected %zu", v.size(), n);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, v[i] == a.b[i] + (float)i, "constructing from an expression: element %zu of %zu", i, n);
        univector<float> w(3, 1.f);
        w = a.dyn + b.dyn;
        MC_CHECK(c, w.size() == n, "assigned size %zu, expected %zu", w.size(), n);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, w[i] == a.b[i] + b.b[i], "assigning an expression: element %zu of %zu", i, n);
        univector<float, 7> s = counter(5.f);
        for (size_t i = 0; i < 7; i++)
            MC_CHECK(c, s[i] == 5.f + i, "static univector from an expression: element %zu", i);
        univector<float> rr = render(counter(2.f), n);
        MC_CHECK(c, rr.size() == n, "render size %zu, expected %zu", rr.size(), n);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, rr[i] == 2.f + i, "render: element %zu of %zu", i, n);
        univector<float> r2 = render(a.dyn * 2.f);
        MC_CHECK(c, r2.size() == n, "render size %zu, expected %zu", r2.size(), n);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, r2[i] == a.b[i] * 2.f, "render: element %zu of %zu", i, n);
    }
    c.key("adjacent");
    {
        univector<float> v(n);
        v = truncate(adjacent(fn::sub(), a.dyn), n);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, v[i] == a.b[i] - (i ? a.b[i - 1] : 0.f), "adjacent: element %zu of %zu", i, n);
    }
}
// evaluation in consecutive pieces of every split gives the same as at once, for expressions with state
static void pieces(Ctx& c, uint64_t)
{
    const size_t n = (size_t)c.pick({ 1, 4, 9, 13, 17 }, "n");
    Data a(n, 1);
    mcu::Buf<float> out(n);
    auto e   = adjacent(fn::sub(), make_univector(a.b.data(), n));
    size_t i = 0;
    auto ref = make_univector(out.data(), n);
    while (i < n)
    {
        size_t m = std::min<size_t>(n - i, c.pick({ 1, 2, 3, 7, 8, 16 }, "piece"));
        process(ref, e, shape<1>(i), shape<1>(m));
        i += m;
    }
    c.key("pieces");
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, out[i] == a.b[i] - (i ? a.b[i - 1] : 0.f), "adjacent evaluated piecewise: element %zu of %zu", i, n);
}
static void lins(Ctx& c, uint64_t)
{
    const size_t n = (size_t)c.choose(34, "n");
    const bool ep = c.flip("endpoint"), tr = c.flip("truncated");
    c.key("linspace%s%s", ep ? "/endpoint" : "", n == 1 ? "/one" : "");
    auto chk = [&](auto e) {
        const size_t sz = get_shape(e).front();
        MC_CHECK(c, sz == (tr ? n : inf), "linspace of %zu: size is %lld", n, (long long)sz);
        cforeach(csizes_t<1, 2, 4, 8, 16>{}, [&](auto w_) {
            constexpr size_t N = val_of(decltype(w_)());
            for (size_t i = 0; i + N <= n; i++)
            {
                auto v = get_elements(e, shape<1>(i), axis_params_v<0, N>);
                for (size_t k = 0; k < N; k++)
                {
                    size_t d    = ep ? n - 1 : n;
                    double want = d == 0 ? -3.0 : -3.0 + 7.0 * (double)(i + k) / (double)d;
                    MC_CHECK(c, std::fabs(v[k] - want) < 1e-12, "linspace(-3,4,%zu,%d)[%zu] = %.17g, expected %.17g", n, (int)ep,
                             i + k, (double)v[k], want);
                }
            }
        });
    };
    if (tr)
        chk(linspace(-3.0, 4.0, n, ep, ctrue));
    else
        chk(linspace(-3.0, 4.0, n, ep, cfalse));
}
void mc_register()
{
    mc_register_1();
    mc_register_3();
    mc_register_2_0();
    mc_register_2_2();
    mc_register_2_3();
    mc_register_2_4();
    mc::add("packs", 1, packs);
    mc::add("pieces", 1, pieces);
    mc::add("linspace", 1, lins);
}
MC_MAIN()
#endif
