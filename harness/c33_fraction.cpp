// C33: rational arithmetic.
#include "mc.hpp"
#include <kfr/base/fraction.hpp>
#include <cmath>
using namespace kfr;
using mc::Ctx;
using I = __int128;
struct Q
{
    I n, d;
};
static I gcd128(I a, I b)
{
    if (a < 0)
        a = -a;
    if (b < 0)
        b = -b;
    while (b)
    {
        I r = a % b;
        a = b, b = r;
    }
    return a;
}
static Q make(I n, I d)
{
    I g = gcd128(n, d);
    if (d < 0)
        g = -g;
    return { n / g, d / g };
}
static const I LIM = ((I)1 << 63) - 1;
static bool fits(I x) { return x <= LIM && x >= -LIM; }
// an operation is defined when the terms it computes fit
static bool apply(int op, Q x, Q y, Q& r)
{
    I n, d;
    switch (op)
    {
    case 0:
    case 1:
    {
        const I a = x.n * y.d, b = y.n * x.d;
        if (!fits(a) || !fits(b))
            return false;
        n = op ? a - b : a + b, d = x.d * y.d;
        break;
    }
    case 2: n = x.n * y.n, d = x.d * y.d; break;
    default:
        if (y.n == 0)
            return false;
        n = x.n * y.d, d = x.d * y.n;
    }
    if (!fits(n) || !fits(d))
        return false;
    r = make(n, d);
    return true;
}
static const char* OP[] = { "+", "-", "*", "/" };
static CMT_NOINLINE void bad(Ctx& c, const char* what, Q x, Q y, fraction g, Q e)
{
    c.fail("%lld/%lld %s %lld/%lld gives %lld/%lld, expected %lld/%lld", (long long)x.n, (long long)x.d, what, (long long)y.n, (long long)y.d, (long long)g.numerator,
           (long long)g.denominator, (long long)e.n, (long long)e.d);
}
static bool is(const fraction& f, Q q) { return f.numerator == (i64)q.n && f.denominator == (i64)q.d; }
static fraction F(Q q) { return fraction((i64)q.n, (i64)q.d); }
static fraction calc(int op, fraction x, fraction y) { return op == 0 ? x + y : op == 1 ? x - y : op == 2 ? x * y : x / y; }
static fraction assign(int op, fraction x, const fraction& y)
{
    fraction& r = op == 0 ? x += y : op == 1 ? x -= y : op == 2 ? x *= y : x /= y;
    if (&r != &x)
        return fraction(-99, 98);
    return x;
}
static CMT_NOINLINE void pair_ops(Ctx& c, Q x, Q y)
{
    const fraction a = F(x), b = F(y);
    for (int op = 0; op < 4; op++)
    {
        Q e;
        if (!apply(op, x, y, e))
            continue;
        fraction g = calc(op, a, b);
        if (!is(g, e))
            bad(c, OP[op], x, y, g, e);
        g = assign(op, a, b);
        if (!is(g, e))
            bad(c, "assigned", x, y, g, e);
        c.op();
    }
    const I l = x.n * y.d, r = y.n * x.d;
    if (fits(l) && fits(r))
    {
        const int g = (a < b) | (a <= b) << 1 | (a > b) << 2 | (a >= b) << 3, e = (l < r) | (l <= r) << 1 | (l > r) << 2 | (l >= r) << 3;
        MC_CHECK(c, g == e, "%lld/%lld and %lld/%lld compare as %x, expected %x (< <= > >=)", (long long)x.n, (long long)x.d, (long long)y.n, (long long)y.d, g, e);
    }
    MC_CHECK(c, (a == b) == (l == r) && (a != b) == (l != r), "%lld/%lld == %lld/%lld is wrong", (long long)x.n, (long long)x.d, (long long)y.n, (long long)y.d);
    c.eval();
}
static CMT_NOINLINE void single(Ctx& c, I n, I d)
{
    const Q q        = make(n, d);
    const fraction f = fraction((i64)n, (i64)d);
    if (!is(f, q))
        bad(c, "as given", { n, d }, { 1, 1 }, f, q);
    fraction m = f;
    m.numerator = (i64)n, m.denominator = (i64)d;
    m.normalize();
    if (!is(m, q))
        bad(c, "normalized", { n, d }, { 1, 1 }, m, q);
    if (!is(-f, { -q.n, q.d }))
        bad(c, "negated", q, { 1, 1 }, -f, { -q.n, q.d });
    if (!is(+f, q))
        bad(c, "unary +", q, { 1, 1 }, +f, q);
    MC_CHECK(c, (bool)f == (q.n != 0), "truth of %lld/%lld", (long long)n, (long long)d);
    MC_CHECK(c, (i64)f == (i64)(q.n / q.d), "%lld/%lld as an integer is %lld", (long long)n, (long long)d, (long long)(i64)f);
    const I B = (I)1 << 53, S = (I)1 << 24;
    if (q.n <= B && q.n >= -B && q.d <= B)
        MC_CHECK(c, (double)f == (double)q.n / (double)q.d, "%lld/%lld as double is %.17g", (long long)n, (long long)d, (double)f);
    else
        MC_CHECK(c, std::fabs((double)f - (double)((long double)q.n / (long double)q.d)) <= std::fabs((double)f) * 4e-16, "%lld/%lld as double is %.17g", (long long)n, (long long)d, (double)f);
    if (q.n <= S && q.n >= -S && q.d <= S)
        MC_CHECK(c, (float)f == (float)q.n / (float)q.d, "%lld/%lld as float is %.9g", (long long)n, (long long)d, (double)(float)f);
    else
        MC_CHECK(c, std::fabs((float)f - (double)((long double)q.n / (long double)q.d)) <= std::fabs((float)f) * 2.4e-7, "%lld/%lld as float is %.9g", (long long)n, (long long)d, (double)(float)f);
    char t[64];
    if (q.d == 1)
        sprintf(t, "%lld", (long long)q.n);
    else
        sprintf(t, "%lld/%lld", (long long)q.n, (long long)q.d);
    MC_CHECK(c, cometa::as_string(f) == t, "%s prints as %s", t, cometa::as_string(f).c_str());
    c.op(9), c.eval();
}
static void small(Ctx& c, uint64_t root)
{
    const int R = mc::tier(30, 60);
    const int n = (int)root - 60;
    if (n < -R || n > R)
        return;
    c.key("small");
    int d = c.choose(2 * R, "denominator") - R;
    if (d >= 0)
        d++;
    const Q x = make(n, d);
    single(c, n, d);
    for (int m = -R; m <= R; m++)
        for (int e = 1; e <= R; e++)
            if (gcd128(m, e) == 1)
                pair_ops(c, x, { m, e });
    // equal values however they are written
    for (int k = 1; k < 6; k++)
        MC_CHECK(c, fraction(n * k, d * k) == fraction(-n, -d), "%d/%d differs from %d/%d", n * k, d * k, -n, -d);
    c.outcome(mc::hash_mix((uint64_t)x.n + 1000, (uint64_t)x.d));
}
static const std::vector<I>& values()
{
    static std::vector<I> v;
    if (v.empty())
    {
        v = { 1, 2, 3, 5, 6, 7, 10, 12, 60, 97, 1000, 44100, 48000, 65535, 65536, 65537, 1000003 };
        for (int b : { 23, 24, 25, 30, 31, 32, 33, 52, 53, 54, 61, 62 })
            for (int k = -1; k <= 1; k++)
                v.push_back(((I)1 << b) + k);
        v.push_back(LIM), v.push_back(LIM - 1), v.push_back(LIM / 3), v.push_back(LIM / 2), v.push_back(1162261467), v.push_back(1220703125), v.push_back((I)3037000499);
        const size_t n = v.size();
        for (size_t i = 0; i < n; i++)
            v.push_back(-v[i]);
        v.push_back(0);
    }
    return v;
}
static void large(Ctx& c, uint64_t root)
{
    const auto& V = values();
    c.key("large");
    const I n = V[root], d = V[c.choose((int)V.size() - 1, "denominator")];
    single(c, n, d);
    const Q x = make(n, d);
    const size_t step = mc::tier(5, 1); // coprime to the number of values
    for (size_t i = root % step; i < V.size(); i += step)
        for (size_t j = (root / step) % step; j < V.size(); j += step)
            if (const I m = V[i], e = V[j]; e > 0 && gcd128(m, e) == 1)
                pair_ops(c, x, { m, e });
    c.outcome(mc::hash_mix((uint64_t)x.n, (uint64_t)x.d));
}
// every sequence of compound operations
static void history(Ctx& c, uint64_t root)
{
    static const int T[][2] = { { 1, 2 }, { -1, 3 }, { 3, 4 }, { 5, 1 }, { 6, -8 }, { 0, 7 }, { 7, 12 }, { 44100, 48000 } };
    c.key("history");
    Q m        = make(T[root][0], T[root][1]);
    fraction f = fraction(T[root][0], T[root][1]);
    uint64_t h = 1;
    const int depth = mc::tier(4, 5);
    for (int i = 0; i < depth; i++)
    {
        const int op = c.choose(6, "+|-|*|/|self|negate");
        c.op();
        Q e;
        if (op < 4)
        {
            const int k = c.choose(8, "operand");
            if (!apply(op, m, make(T[k][0], T[k][1]), e))
                return;
            fraction y(T[k][0], T[k][1]);
            op == 0 ? f += y : op == 1 ? f -= y : op == 2 ? f *= y : f /= y;
        }
        else if (op == 4)
        {
            const int w = c.choose(4, "f op= f");
            if (!apply(w, m, m, e))
                return;
            w == 0 ? f += f : w == 1 ? f -= f : w == 2 ? f *= f : f /= f;
        }
        else
            f = -f, e = { -m.n, m.d };
        if (!is(f, e))
            bad(c, "after a history of operations", m, m, f, e);
        m = e;
        h = mc::hash_mix(h, mc::hash_mix((uint64_t)m.n, (uint64_t)m.d));
    }
    // mixed with integers
    MC_CHECK(c, f + 0 == f && f * 1 == f && (m.n > (1 << 29) || m.n < -(1 << 29) || m.d > (1 << 29) || (f - 1 < f)) && f / fraction(1) == f, "an integer operand changes the value");
    c.outcome(h), c.eval();
}
void mc_register()
{
    mc::add("small", 121, small);
    mc::add("large", values().size(), large);
    mc::add("history", 8, history);
}
MC_MAIN()
