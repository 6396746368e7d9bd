// C19: every element-wise operation on integer vectors equals the scalar operation in every lane.
// One translation unit per element width (PART 0..3: 8, 16, 32, 64 bits).
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/simd/horizontal.hpp>
#include <kfr/simd/saturation.hpp>
using namespace kfr;
using mc::Ctx;

template <class T>
constexpr bool sgn = std::is_signed_v<T>;
template <class T>
using U = std::make_unsigned_t<T>;
template <class T>
using LIM = std::numeric_limits<T>;
using i128 = __int128;

template <class T>
static const std::vector<T>& values()
{
    static std::vector<T> v;
    if (v.empty())
    {
        auto add = [&](U<T> x)
        {
            if (std::find(v.begin(), v.end(), (T)x) == v.end())
                v.push_back((T)x);
        };
        if (sizeof(T) == 1)
            for (int i = 0; i < 256; i++)
                add((U<T>)i);
        else
        {
            for (unsigned b = 0; b < sizeof(T) * 8; b++)
                if (b < 2 || b % 8 == 7 || b % 8 == 0 || b % 8 == 1 || mc::thorough())
                    for (int d = -1; d <= 1; d++)
                    {
                        U<T> x = (U<T>)(((U<T>)1 << b) + (U<T>)d);
                        add(x), add((U<T>)-x), add((U<T>)~x);
                    }
            for (U<T> x : { (U<T>)0, (U<T>)-1, (U<T>)3, (U<T>)7, (U<T>)100, (U<T>)0x5555555555555555ull, (U<T>)0xAAAAAAAAAAAAAAAAull,
                            (U<T>)0x1234567890ABCDEFull, (U<T>)0x00FF00FF00FF00FFull, (U<T>)0x7FFF7FFF7FFF7FFFull })
                add(x);
        }
    }
    return v;
}

// ---------------------------------------------------------------- scalar references, in wrapping arithmetic
template <class T>
struct Ref
{
    static T wrap(i128 x) { return (T)(U<T>)(unsigned __int128)x; }
    static T sat(i128 x) { return x > (i128)LIM<T>::max() ? LIM<T>::max() : x < (i128)LIM<T>::min() ? LIM<T>::min() : (T)x; }
    static T add(T a, T b) { return wrap((i128)a + b); }
    static T sub(T a, T b) { return wrap((i128)a - b); }
    static T mul(T a, T b) { return wrap((i128)a * b); }
    static bool divok(T a, T b) { return b != 0 && !(sgn<T> && a == LIM<T>::min() && b == (T)-1); }
    static T div(T a, T b) { return (T)(a / b); }
    static T mod(T a, T b) { return (T)(a % b); }
    static T shl(T a, T b) { return (T)((U<T>)a << b); }
    static T shr(T a, T b) { return (T)(a >> b); }
    static T rol(T a, T b) { return b ? (T)((U<T>)((U<T>)a << b) | ((U<T>)a >> (sizeof(T) * 8 - b))) : a; }
    static T abs(T a) { return a < 0 ? wrap(-(i128)a) : a; }
};

template <class T, size_t N>
using B = void (*)(T*, const T*, const T*);
template <class T>
using R = T (*)(T, T);

#define V(p) (read<N>(p))
template <class T, size_t N>
struct Op
{
    const char* name;
    B<T, N> f;
    R<T> r;
    int dom; // 0 every pair, 1 divisible, 2 b is a shift amount, 3 neither is the lowest value (absolute values)
};

template <class M, class T>
static void put(T* o, const M& m, size_t n)
{
    for (size_t i = 0; i < n; i++)
        o[i] = m[i] ? 1 : 0;
}

template <class T, size_t N>
static const std::vector<Op<T, N>>& table()
{
    using Rf = Ref<T>;
#define BIN(expr) [](T* o, const T* a, const T* b) { vec<T, N> x = V(a), y = V(b); (void)x; (void)y; vec<T, N> z = expr; write(o, z); }
#define MASK(expr) [](T* o, const T* a, const T* b) { vec<T, N> x = V(a), y = V(b); put(o, expr, N); }
#define REF(expr) [](T x, T y) -> T { (void)x; (void)y; return (T)(expr); }
    static const std::vector<Op<T, N>> ops = {
        { "x+y", BIN(x + y), REF(Rf::add(x, y)), 0 },
        { "x-y", BIN(x - y), REF(Rf::sub(x, y)), 0 },
        { "x*y", BIN(x * y), REF(Rf::mul(x, y)), 0 },
        { "x/y", BIN(x / y), REF(Rf::div(x, y)), 1 },
        { "x%y", BIN(x % y), REF(Rf::mod(x, y)), 1 },
        { "x&y", BIN(x & y), REF(x & y), 0 },
        { "x|y", BIN(x | y), REF(x | y), 0 },
        { "x^y", BIN(x ^ y), REF(x ^ y), 0 },
        { "bitwiseandnot(x,y)", BIN(bitwiseandnot(x, y)), REF(x & ~y), 0 },
        { "-x", BIN(-x), REF(Rf::sub(0, x)), 0 },
        { "~x", BIN(~x), REF(~x), 0 },
        { "x+=y", BIN((x += y)), REF(Rf::add(x, y)), 0 },
        { "x-=y", BIN((x -= y)), REF(Rf::sub(x, y)), 0 },
        { "x*=y", BIN((x *= y)), REF(Rf::mul(x, y)), 0 },
        { "x|=y", BIN((x |= y)), REF(x | y), 0 },
        { "x+scalar", BIN(x + y[0]), nullptr, 0 },
        { "scalar-x", BIN(y[0] - x), nullptr, 0 },
        { "min", BIN(kfr::min(x, y)), REF(x < y ? x : y), 0 },
        { "max", BIN(kfr::max(x, y)), REF(x > y ? x : y), 0 },
        { "absmin", BIN(kfr::absmin(x, y)), REF(std::min(Rf::abs(x), Rf::abs(y))), 3 },
        { "absmax", BIN(kfr::absmax(x, y)), REF(std::max(Rf::abs(x), Rf::abs(y))), 3 },
        { "abs", BIN(kfr::abs(x)), REF(Rf::abs(x)), 0 },
        { "satadd", BIN(kfr::satadd(x, y)), REF(Rf::sat((i128)x + y)), 0 },
        { "satsub", BIN(kfr::satsub(x, y)), REF(Rf::sat((i128)x - y)), 0 },
        { "sqr", BIN(kfr::sqr(x)), REF(Rf::mul(x, x)), 0 },
        { "cub", BIN(kfr::cub(x)), REF(Rf::mul(Rf::mul(x, x), x)), 0 },
        { "pow5", BIN(kfr::pow5(x)), REF(Rf::mul(Rf::mul(Rf::mul(x, x), Rf::mul(x, x)), x)), 0 },
        { "ipow(x,7)", BIN(kfr::ipow(x, 7)), REF([&] { T z = 1; for (int i = 0; i < 7; i++) z = Rf::mul(z, x); return z; }()), 0 },
        { "sqrsum", BIN(kfr::sqrsum(x, y)), REF(Rf::mul(Rf::add(x, y), Rf::add(x, y))), 0 },
        { "sqrdiff", BIN(kfr::sqrdiff(x, y)), REF(Rf::mul(Rf::sub(x, y), Rf::sub(x, y))), 0 },
        { "fmadd(x,y,x)", BIN(kfr::fmadd(x, y, x)), REF(Rf::add(Rf::mul(x, y), x)), 0 },
        { "fmsub(x,y,y)", BIN(kfr::fmsub(x, y, y)), REF(Rf::sub(Rf::mul(x, y), y)), 0 },
        { "horner(x,y,3,y)", BIN(kfr::horner(x, y, vec<T, N>(T(3)), y)), REF(Rf::add(Rf::mul(Rf::add(Rf::mul(y, x), 3), x), y)), 0 },
        { "x<<y", BIN(x << y), REF(Rf::shl(x, y)), 2 },
        { "x>>y", BIN(x >> y), REF(Rf::shr(x, y)), 2 },
        { "shl", BIN(kfr::shl(x, y)), REF(Rf::shl(x, y)), 2 },
        { "shr", BIN(kfr::shr(x, y)), REF(Rf::shr(x, y)), 2 },
        { "swapbyteorder", BIN(kfr::swapbyteorder(x)), REF([&] { T r; char* s = (char*)&x; char* d = (char*)&r; for (size_t i = 0; i < sizeof(T); i++) d[i] = s[sizeof(T) - 1 - i]; return r; }()), 0 },
        { "x==y", MASK(x == y), REF(x == y), 0 },
        { "x!=y", MASK(x != y), REF(x != y), 0 },
        { "x<y", MASK(x < y), REF(x < y), 0 },
        { "x>y", MASK(x > y), REF(x > y), 0 },
        { "x<=y", MASK(x <= y), REF(x <= y), 0 },
        { "x>=y", MASK(x >= y), REF(x >= y), 0 },
        { "x<y&&x>-y", MASK((x < y) && (x > -y)), REF(x < y && x > Rf::sub(0, y)), 0 },
        { "x<y||!(x>y)", MASK((x < y) || !(x > y)), REF(x < y || !(x > y)), 0 },
        { "mask^", MASK((x < y) ^ (x > T(3))), REF((x < y) != (x > T(3))), 0 },
        { "inrange", MASK(kfr::inrange(x, T(2), y)), REF(x >= T(2) && x <= y), 0 },
        { "select(x<y,x,y)", BIN(select(x < y, x, y)), REF(x < y ? x : y), 0 },
        { "select(x&1,y,x)", BIN(select((x & T(1)) == T(1), y, x)), REF(x & 1 ? y : x), 0 },
        { "select(x>y,7,y)", BIN(select(x > y, T(7), y)), REF(x > y ? T(7) : y), 0 },
        { "select(x>y,x,7)", BIN(select(x > y, x, T(7))), REF(x > y ? x : T(7)), 0 },
        { "select(x>y,5,7)", BIN(select(x > y, T(5), T(7))), REF(x > y ? T(5) : T(7)), 0 },
        { "clamp(x,y,y|7)", BIN(kfr::clamp(x, y & T(0x70), y | T(0x0f))), nullptr, 4 },
        { "clamp(x,3,99)", BIN(kfr::clamp(x, T(3), T(99))), REF(x < T(3) ? T(3) : x > T(99) ? T(99) : x), 0 },
    };
    return ops;
}

template <class T, size_t N>
static void check_ops(Ctx& c, const Op<T, N>& op)
{
    const auto& vals  = values<T>();
    const unsigned nb = sizeof(T) * 8;
    std::vector<std::pair<T, T>> pairs;
    if (op.dom == 2)
    {
        for (T x : vals)
            for (unsigned s = 0; s < nb; s++)
                pairs.emplace_back(x, (T)s);
    }
    else
        for (T x : vals)
            for (T y : vals)
            {
                if (op.dom == 1 && !Ref<T>::divok(x, y))
                    continue;
                if (op.dom == 3 && sgn<T> && (x == LIM<T>::min() || y == LIM<T>::min()))
                    continue;
                pairs.emplace_back(x, y);
            }
    const size_t np = pairs.size();
    // every pair meets several lanes: the whole sequence of pairs is fed at several offsets, and each
    // vector holds unrelated pairs
    const size_t stride = np % 7919 ? 7919 : 1;
    const size_t offs   = N == 1 ? 1 : std::min<size_t>(N, mc::tier(sizeof(T) == 1 ? 2 : 4, 16));
    alignas(64) T a[N], b[N], o[N];
    uint64_t h = 7;
    for (size_t s = 0; s < offs; s++)
    {
        for (size_t p = 0; p < np + N; p += N)
        {
            for (size_t l = 0; l < N; l++)
            {
                const auto& pr = pairs[(p + l + s) * stride % np];
                a[l] = pr.first, b[l] = pr.second;
            }
            const T sc = b[0];
            op.f(o, a, b);
            c.op(), c.eval(N);
            for (size_t l = 0; l < N; l++)
            {
                T w;
                if (op.r)
                    w = op.r(a[l], b[l]);
                else if (op.dom == 4)
                {
                    T lo = (T)(b[l] & 0x70), hi = (T)(b[l] | 0x0f);
                    if (lo > hi) // negative upper limit: nothing is promised
                        continue;
                    w = a[l] < lo ? lo : a[l] > hi ? hi : a[l];
                }
                else
                    w = op.name[0] == 'x' ? Ref<T>::add(a[l], sc) : Ref<T>::sub(sc, a[l]);
                if (o[l] != w)
                    MC_CHECK(c, false, "%s with x=%lld y=%lld in lane %zu of %zu is %lld, expected %lld", op.name, (long long)a[l],
                             (long long)b[l], l, N, (long long)o[l], (long long)w);
                h = h * 31 + (uint64_t)o[l];
            }
        }
    }
    c.outcome(h);
}

// ---------------------------------------------------------------- conversions, scalars, masks
template <class To, class T, size_t N>
static void check_cast(Ctx& c, const char* name)
{
    const auto& vals = values<T>();
    for (size_t p = 0; p < vals.size(); p++)
    {
        alignas(64) T a[N];
        To o[N], o2[N];
        for (size_t l = 0; l < N; l++)
            a[l] = vals[(p + l) % vals.size()];
        const vec<T, N> x  = V(a);
        const vec<To, N> y = cast<To>(x), z = broadcastto<To>(x);
        c.op(2), c.eval(2 * N);
        for (size_t l = 0; l < N; l++)
        {
            o[l] = y[l], o2[l] = z[l];
            MC_CHECK(c, o[l] == (To)a[l] && o2[l] == (To)a[l], "cast to %s of %lld in lane %zu of %zu", name, (long long)a[l], l, N);
        }
        if constexpr (std::is_floating_point_v<To> && sizeof(To) > sizeof(T))
        {
            const vec<T, N> back = cast<T>(y);
            for (size_t l = 0; l < N; l++)
                MC_CHECK(c, back[l] == a[l], "cast to %s and back of %lld in lane %zu of %zu gives %lld", name, (long long)a[l], l, N,
                         (long long)back[l]);
        }
    }
}
template <class T, size_t N>
static void check_masks(Ctx& c)
{
    // every mask for few lanes; masks with up to two lanes different from the rest otherwise
    auto one = [&](const bool* m)
    {
        alignas(64) T a[N], p[N], q[N];
        bool any_ = false, all_ = true;
        for (size_t l = 0; l < N; l++)
            a[l] = m[l] ? 5 : 9, p[l] = (T)(l + 20), q[l] = (T)(l + 100), any_ |= m[l], all_ &= m[l];
        const vec<T, N> x = V(a);
        const auto mk     = x == T(5);
        MC_CHECK(c, any(mk) == any_, "any() of %zu lanes is %d", N, (int)any(mk));
        MC_CHECK(c, all(mk) == all_, "all() of %zu lanes is %d", N, (int)all(mk));
        const auto nm = !mk;
        MC_CHECK(c, any(nm) == !all_ && all(nm) == !any_, "any()/all() of an inverted mask of %zu lanes", N);
        const vec<T, N> s = select(mk, V(p), V(q));
        for (size_t l = 0; l < N; l++)
        {
            MC_CHECK(c, (bool)mk[l] == m[l] && (bool)nm[l] == !m[l], "mask lane %zu of %zu", l, N);
            MC_CHECK(c, s[l] == (m[l] ? p[l] : q[l]), "select lane %zu of %zu", l, N);
        }
        c.op(4), c.eval(4 + 3 * N);
    };
    bool m[N];
    if (N <= 10)
        for (size_t bits = 0; bits < (size_t)1 << (N <= 10 ? N : 0); bits++)
        {
            for (size_t l = 0; l < N; l++)
                m[l] = bits >> l & 1;
            one(m);
        }
    else
        for (int inv = 0; inv < 2; inv++)
            for (size_t i = 0; i <= N; i++)
                for (size_t j = i; j <= N; j++)
                {
                    for (size_t l = 0; l < N; l++)
                        m[l] = ((l == i) || (l == j)) != (bool)inv;
                    one(m);
                }
}
template <class T>
static void check_scalars(Ctx& c)
{
    using Rf = Ref<T>;
    for (T x : values<T>())
        for (T y : values<T>())
        {
#define SC(expr, ref)                                                                                                  \
    do                                                                                                                 \
    {                                                                                                                  \
        const T g_ = (T)(expr), w_ = (T)(ref);                                                                         \
        if (g_ != w_)                                                                                                  \
            MC_CHECK(c, false, "scalar %s with x=%lld y=%lld is %lld, expected %lld", #expr, (long long)x, (long long)y, \
                     (long long)g_, (long long)w_);                                                                    \
    } while (0)
            SC(kfr::min(x, y), x < y ? x : y);
            SC(kfr::max(x, y), x > y ? x : y);
            SC(kfr::satadd(x, y), Rf::sat((i128)x + y));
            SC(kfr::satsub(x, y), Rf::sat((i128)x - y));
            SC(kfr::abs(x), Rf::abs(x));
            if (x <= y)
                for (T z : { T(0), T(1), T(50), LIM<T>::max(), LIM<T>::min(), x, y })
                    SC(kfr::clamp(z, x, y), z < x ? x : z > y ? y : z);
            c.op(12), c.eval(12);
        }
    for (T x : values<T>())
        for (unsigned s = 0; s < sizeof(T) * 8; s++)
        {
            // by a run-time amount common to all lanes
            const vec<T, 8> v(x), l = v << s, r = v >> s;
            const T y = (T)s;
            for (int i = 0; i < 8; i++)
            {
                SC(l[i], Rf::shl(x, y));
                SC(r[i], Rf::shr(x, y));
            }
            if constexpr (!sgn<T>)
            {
                const vec<T, 8> a = kfr::rol(v, T(s)), b = kfr::ror(v, T(s));
                for (int i = 0; i < 8; i++)
                {
                    SC(a[i], Rf::rol(x, y));
                    SC(b[i], Rf::rol(x, (T)((sizeof(T) * 8 - s) % (sizeof(T) * 8))));
                }
            }
            c.op(4), c.eval(32);
        }
}

template <class T, size_t N>
static void add_n(const std::string& name)
{
    mc::add(mc::fmt("op:%s x%zu", name.c_str(), N), table<T, N>().size(),
            [=](Ctx& c, size_t i)
            {
                const auto& op = table<T, N>()[i];
                c.log("%s", op.name);
                c.key("%s/%s", name.c_str(), op.name);
                check_ops<T, N>(c, op);
            },
            60);
    mc::add(mc::fmt("mask:%s x%zu", name.c_str(), N), 1,
            [=](Ctx& c, size_t)
            {
                c.key("%s/masks", name.c_str());
                check_masks<T, N>(c);
            });
    mc::add(mc::fmt("cast:%s x%zu", name.c_str(), N), 1,
            [=](Ctx& c, size_t)
            {
                c.key("%s/casts", name.c_str());
                check_cast<i8, T, N>(c, "i8");
                check_cast<u8, T, N>(c, "u8");
                check_cast<i16, T, N>(c, "i16");
                check_cast<u16, T, N>(c, "u16");
                check_cast<i32, T, N>(c, "i32");
                check_cast<u32, T, N>(c, "u32");
                check_cast<i64, T, N>(c, "i64");
                check_cast<u64, T, N>(c, "u64");
                check_cast<float, T, N>(c, "f32");
                check_cast<double, T, N>(c, "f64");
            });
}
template <class T>
static void add_type(const std::string& name)
{
    constexpr size_t W = 16 / sizeof(T); // lanes of the smallest register
    add_n<T, 1>(name);
    add_n<T, 2>(name);
    add_n<T, 3>(name);
    if (W > 2)
        add_n<T, W>(name);
    add_n<T, W + 1>(name);
    add_n<T, 2 * W>(name);
    add_n<T, 2 * W + W - 1>(name);
    add_n<T, 4 * W>(name);
#ifdef WIDE
    add_n<T, 4 * W + 1>(name);
    add_n<T, 8 * W>(name);
#endif
    mc::add("scalar:" + name, 1,
            [=](Ctx& c, size_t)
            {
                c.key("%s/scalars", name.c_str());
                check_scalars<T>(c);
            });
}

#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(mc_register_, PART)()
{
#if PART == 0
    add_type<i8>("i8");
#elif PART == 1
    add_type<u8>("u8");
#elif PART == 2
    add_type<i16>("i16");
#elif PART == 3
    add_type<u16>("u16");
#elif PART == 4
    add_type<i32>("i32");
#elif PART == 5
    add_type<u32>("u32");
#elif PART == 6
    add_type<i64>("i64");
#else
    add_type<u64>("u64");
#endif
}
#if PART == 0
void mc_register_1();
void mc_register_2();
void mc_register_3();
void mc_register_4();
void mc_register_5();
void mc_register_6();
void mc_register_7();
void mc_register()
{
    mc_register_0(), mc_register_1(), mc_register_2(), mc_register_3();
    mc_register_4(), mc_register_5(), mc_register_6(), mc_register_7();
}
MC_MAIN()
#endif
