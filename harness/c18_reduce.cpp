// C18: reductions equal the sequential fold for every length, type, layout and position of the extreme value.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/base/reduce.hpp>
using namespace kfr;
using mc::Ctx;

template <class T>
constexpr bool is_int = std::is_integral_v<T>;
template <class T>
constexpr bool is_cplx = !std::is_arithmetic_v<T>;

template <class T>
static T num(long v)
{
    return (T)v;
}
template <class T>
static T sample(size_t i, int salt)
{
    if constexpr (is_cplx<T>)
        return T((deep_subtype<T>)(mcu::ival(i, salt) % 4), (deep_subtype<T>)(mcu::ival(i, salt + 50) % 4));
    else if constexpr (is_int<T>)
        return (T)(mcu::ival(i, salt) * (sizeof(T) > 1 ? 37 : 5) + (std::is_unsigned_v<T> ? 60 : 0));
    else
        return (T)mcu::ival(i, salt);
}
template <class T>
static std::string show(const T& v)
{
    if constexpr (is_cplx<T>)
        return mc::fmt("(%g,%g)", (double)v.real(), (double)v.imag());
    else if constexpr (is_int<T>)
        return std::to_string(v);
    else
        return mc::fmt("%.17g", (double)v);
}
#define SAME(c, got, want, ...)                                                                                        \
    do                                                                                                                 \
    {                                                                                                                  \
        auto g_ = (got);                                                                                               \
        auto w_ = (want);                                                                                              \
        c.op(), c.eval();                                                                                              \
        std::string m_;                                                                                                \
        if (!(g_ == w_))                                                                                               \
            m_ = mc::fmt(__VA_ARGS__) + " is " + show(g_) + ", expected " + show(w_);                                  \
        MC_CHECK(c, g_ == w_, "%s", m_.c_str());                                                                       \
    } while (0)

// wrapping integer arithmetic
template <class T>
static T addw(T a, T b)
{
    if constexpr (is_int<T>)
        return (T)((uint64_t)a + (uint64_t)b);
    else
        return a + b;
}
template <class T>
static T mulw(T a, T b)
{
    if constexpr (is_int<T>)
        return (T)((uint64_t)(int64_t)a * (uint64_t)(int64_t)b);
    else if constexpr (is_cplx<T>)
        return T(a.real() * b.real() - a.imag() * b.imag(), a.real() * b.imag() + a.imag() * b.real());
    else
        return a * b;
}
template <class T>
static T absw(T a)
{
    return a < T(0) ? (T)-a : a;
}

// All folds of expression e over the given elements
template <class T, class E>
static void folds(Ctx& c, const E& e, const std::vector<T>& v, const char* how)
{
    const size_t n = v.size();
    T s = T(0), ss = T(0), p = T(1);
    for (size_t i = 0; i < n; i++)
        s = addw(s, v[i]), ss = addw(ss, mulw(v[i], v[i]));
    SAME(c, sum(e), s, "sum of %zu (%s)", n, how);
    SAME(c, sumsqr(e), ss, "sumsqr of %zu (%s)", n, how);
    if (n && n < 100)
    {
        if constexpr (is_int<T>)
        {
            // the sum has to fit the element type for the mean to be meaningful
            long double ls = 0;
            for (auto x : v)
                ls += (long double)x;
            if (ls == (long double)s)
                SAME(c, mean(e), (T)(s / (T)n), "mean of %zu (%s)", n, how);
        }
        else if constexpr (!is_cplx<T>)
        {
            T m = mean(e), w = s / (T)n;
            MC_CHECK(c, std::fabs(m - w) <= std::fabs(w) * 4 * std::numeric_limits<T>::epsilon(), "mean of %zu (%s) is %.17g, expected %.17g",
                     n, how, (double)m, (double)w);
            T r = rms(e), rw = std::sqrt(ss / (T)n);
            MC_CHECK(c, std::fabs(r - rw) <= rw * 4 * std::numeric_limits<T>::epsilon(), "rms of %zu (%s) is %.17g, expected %.17g", n, how,
                     (double)r, (double)rw);
        }
    }
    if constexpr (!is_cplx<T>)
    {
        T mn = std::numeric_limits<T>::has_infinity ? std::numeric_limits<T>::infinity() : std::numeric_limits<T>::max();
        T mx = std::numeric_limits<T>::has_infinity ? -std::numeric_limits<T>::infinity() : std::numeric_limits<T>::min();
        T amn = mn, amx = 0;
        for (auto x : v)
        {
            mn = std::min(mn, x), mx = std::max(mx, x);
            amn = std::min(amn, absw(x)), amx = std::max(amx, absw(x));
        }
        SAME(c, minof(e), mn, "minof %zu (%s)", n, how);
        SAME(c, maxof(e), mx, "maxof %zu (%s)", n, how);
        SAME(c, absminof(e), amn, "absminof %zu (%s)", n, how);
        SAME(c, absmaxof(e), amx, "absmaxof %zu (%s)", n, how);
    }
    if constexpr (is_int<T>)
    {
        for (auto x : v)
            p = mulw(p, x);
        SAME(c, product(e), p, "product of %zu (%s)", n, how);
    }
    uint64_t h = mc::hash_bytes(&s, sizeof(s), n);
    c.outcome(mc::hash_bytes(&ss, sizeof(ss), h));
}

template <class T>
static void add_1d(const char* name)
{
    mc::add(std::string("len:") + name, mc::tier(260, 1000),
            [=](Ctx& c, size_t n)
            {
                const size_t mis = c.choose(3, "misalign");
                const int salt   = (int)c.choose(mc::tier(2, 5), "data");
                c.key("%s", name);
                mcu::Buf<T> b(n, mis), b2(n, mis);
                std::vector<T> v(n), w(n), dot(n);
                for (size_t i = 0; i < n; i++)
                {
                    v[i] = b[i] = sample<T>(i, salt);
                    b2[i]       = sample<T>(i, salt + 20);
                    w[i]        = addw(v[i], v[i]);
                }
                auto x = make_univector((const T*)b.data(), n);
                auto y = make_univector((const T*)b2.data(), n);
                folds<T>(c, x, v, "memory");
                folds<T>(c, x + x, w, "expression");
                if (n)
                {
                    std::vector<T> tail(v.begin() + 1, v.end()), head(v.begin(), v.end() - 1);
                    folds<T>(c, x.slice(1), tail, "tail");
                    folds<T>(c, truncate(x, n - 1), head, "head");
                }
                T d = T(0);
                for (size_t i = 0; i < n; i++)
                    d = addw(d, mulw(v[i], (T)b2[i]));
                SAME(c, dotproduct(x, y), d, "dot product of %zu", n);
            });
    if constexpr (!is_cplx<T>)
        mc::add(std::string("extreme:") + name, mc::tier(72, 200),
                [=](Ctx& c, size_t m)
                {
                    const size_t n = m + 1, p = c.choose(n, "position"), kind = c.choose(4, "kind");
                    c.key("%s/extreme", name);
                    std::vector<T> v(n);
                    mcu::Buf<T> b(n);
                    using L = std::numeric_limits<T>;
                    for (size_t i = 0; i < n; i++)
                        v[i] = (T)(40 + mcu::ival(i, 3));
                    const T lo = L::has_infinity ? -L::infinity() : L::lowest(), hi = L::has_infinity ? L::infinity() : L::max();
                    // the lowest value of a signed type has no absolute value
                    v[p] = kind == 0 ? hi : kind == 1 ? (std::is_signed_v<T> && is_int<T> ? T(lo + 1) : lo) : kind == 2 ? T(0) : T(111);
                    for (size_t i = 0; i < n; i++)
                        b[i] = v[i];
                    auto x = make_univector((const T*)b.data(), n);
                    T mn = v[0], mx = v[0], amn = absw(v[0]), amx = absw(v[0]);
                    for (auto q : v)
                        mn = std::min(mn, q), mx = std::max(mx, q), amn = std::min(amn, absw(q)), amx = std::max(amx, absw(q));
                    SAME(c, minof(x), mn, "minof %zu, extreme at %zu", n, p);
                    SAME(c, maxof(x), mx, "maxof %zu, extreme at %zu", n, p);
                    SAME(c, absminof(x), amn, "absminof %zu, extreme at %zu", n, p);
                    SAME(c, absmaxof(x), amx, "absmaxof %zu, extreme at %zu", n, p);
                });
}

template <class T>
static void add_nd(const char* name)
{
    mc::add(std::string("nd:") + name, 1,
            [=](Ctx& c, size_t)
            {
                static const std::vector<size_t> S2 = { 0, 1, 2, 3, 5, 8, 9, 17 }, S3 = { 0, 1, 2, 3, 5 };
                const int dims = 2 + (int)c.choose(2, "three");
                c.key("%s/nd%d", name, dims);
                auto go = [&](auto d_)
                {
                    constexpr index_t D = val_of(decltype(d_)());
                    shape<D> sh;
                    size_t n = 1;
                    for (index_t d = 0; d < D; d++)
                        n *= sh[d] = c.pick(D == 2 ? S2 : S3, "side");
                    const int lay = (int)c.choose(4, "layout");
                    tensor<T, D> t(sh);
                    for (size_t i = 0; i < n; i++)
                        t.data()[i] = sample<T>(i, 5);
                    std::vector<T> v;
                    auto collect = [&](auto&& view)
                    {
                        v.clear();
                        for (T q : view)
                            v.push_back(q);
                    };
                    if (lay == 0)
                        collect(t), folds<T>(c, t, v, "dense");
                    else if (lay == 1)
                    {
                        auto u = t.transpose();
                        collect(u), folds<T>(c, u, v, "transposed");
                    }
                    else if (lay == 2)
                        collect(t), folds<T>(c, t + T(0), v, "expression");
                    else if (n)
                    {
                        // every second element of the last axis
                        shape<D> st = t.strides(), s2 = sh;
                        s2.back() = (sh.back() + 1) / 2;
                        st.back() *= 2;
                        tensor<T, D> u(t.data(), s2, st, nullptr);
                        collect(u), folds<T>(c, u, v, "strided");
                    }
                };
                dims == 2 ? go(csize_t<2>()) : go(csize_t<3>());
            });
}

template <class T, size_t N>
static void horiz(Ctx& c, int salt)
{
    vec<T, N> v, w;
    std::vector<T> x(N), y(N);
    for (size_t i = 0; i < N; i++)
        v[i] = x[i] = sample<T>(i, salt), w[i] = y[i] = sample<T>(i, salt + 9);
    T s = T(0), p = T(1), d = T(0);
    for (size_t i = 0; i < N; i++)
        s = addw(s, x[i]), p = mulw(p, x[i]), d = addw(d, mulw(x[i], y[i]));
    SAME(c, hadd(v), s, "hadd of %zu lanes", N);
    SAME(c, hsum(v), s, "hsum of %zu lanes", N);
    SAME(c, hdot(v, w), d, "hdot of %zu lanes", N);
    if constexpr (is_int<T>)
    {
        SAME(c, hmul(v), p, "hmul of %zu lanes", N);
        SAME(c, hproduct(v), p, "hproduct of %zu lanes", N);
        T a = (T)-1, o = 0, r = 0;
        for (T q : x)
            a &= q, o |= q, r ^= q;
        SAME(c, hbitwiseand(v), a, "hbitwiseand of %zu lanes", N);
        SAME(c, hbitwiseor(v), o, "hbitwiseor of %zu lanes", N);
        SAME(c, hbitwisexor(v), r, "hbitwisexor of %zu lanes", N);
        // the average as far as the sum fits
        long double ls = 0;
        for (T q : x)
            ls += (long double)q;
        if (ls == (long double)s)
            SAME(c, (T)havg(v), (T)(s / (T)N), "havg of %zu lanes", N);
    }
    else if constexpr (!is_cplx<T>)
    {
        SAME(c, havg(v), s / (T)N, "havg of %zu lanes", N);
        T q = 0;
        for (T z : x)
            q += z * z;
        T r = hrms(v), rw = std::sqrt(q / (T)N);
        MC_CHECK(c, std::fabs(r - rw) <= 4 * rw * std::numeric_limits<T>::epsilon(), "hrms of %zu lanes is %.17g, expected %.17g", N, (double)r,
                 (double)rw);
    }
    if constexpr (!is_cplx<T>)
    {
        T mn = x[0], mx = x[0];
        for (T q : x)
            mn = std::min(mn, q), mx = std::max(mx, q);
        SAME(c, hmin(v), mn, "hmin of %zu lanes", N);
        SAME(c, hmax(v), mx, "hmax of %zu lanes", N);
    }
}
template <class T>
static void add_horiz(const char* name)
{
    mc::add(std::string("h:") + name, 1,
            [=](Ctx& c, size_t)
            {
                int salt = (int)c.choose(mc::tier(20, 200), "data");
                c.key("%s/horizontal", name);
                cforeach(csizes_t<1, 2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 31, 32, 33, 64>{},
                         [&](auto n_) { horiz<T, val_of(decltype(n_)())>(c, salt); });
            });
}

// ---------------------------------------------------------------- histograms
template <class T, class H>
static void check_hist(Ctx& c, const H& h, const std::vector<T>& v, size_t bins, const char* how)
{
    std::vector<uint64_t> want(bins + 2);
    for (T x : v)
    {
        size_t i;
        if constexpr (is_int<T>)
            i = x < T(0) ? 0 : (uint64_t)x >= bins ? bins + 1 : 1 + (size_t)x;
        else
        {
            // bin of each value k/bins is k; values are multiples of 1/bins
            if (x < 0)
                i = 0;
            else if (x > 1)
                i = bins + 1;
            else
                i = 1 + std::min((size_t)std::lround((double)x * bins), bins - 1);
        }
        want[i]++;
    }
    c.op(v.size()), c.eval(bins + 3);
    MC_CHECK(c, h.size() == bins, "%s: %zu bins, expected %zu", how, (size_t)h.size(), bins);
    MC_CHECK(c, h.total() == v.size(), "%s: total %llu, expected %zu", how, (unsigned long long)h.total(), v.size());
    MC_CHECK(c, h.below() == want[0], "%s: %llu below, expected %llu", how, (unsigned long long)h.below(), (unsigned long long)want[0]);
    MC_CHECK(c, h.above() == want[bins + 1], "%s: %llu above, expected %llu", how, (unsigned long long)h.above(),
             (unsigned long long)want[bins + 1]);
    for (size_t i = 0; i < bins; i++)
    {
        MC_CHECK(c, h[i] == want[i + 1], "%s: bin %zu of %zu holds %llu, expected %llu", how, i, bins, (unsigned long long)h[i],
                 (unsigned long long)want[i + 1]);
        MC_CHECK(c, h.values()[i] == want[i + 1], "%s: values()[%zu]", how, i);
    }
}
template <class T>
static void add_hist(const char* name)
{
    mc::add(std::string("hist:") + name, mc::tier(40, 140),
            [=](Ctx& c, size_t n)
            {
                static const std::vector<size_t> BINS = { 1, 2, 3, 10, 127, 128, 255, 256, 300 };
                const size_t bins = c.pick(BINS, "bins");
                const int salt    = (int)c.choose(4, "data");
                c.key("%s/hist", name);
                using L = std::numeric_limits<T>;
                std::vector<T> v(n);
                for (size_t i = 0; i < n; i++)
                {
                    uint64_t h = mc::hash_mix(i + 1, salt);
                    if constexpr (is_int<T>)
                        switch (h % 8)
                        {
                        case 0: v[i] = L::max(); break;
                        case 1: v[i] = L::min(); break;
                        case 2: v[i] = (T)(bins - 1); break;
                        case 3: v[i] = (T)bins; break;
                        case 4: v[i] = (T)-1; break;
                        default: v[i] = (T)((h >> 8) % (bins + 3)); break;
                        }
                    else
                        switch (h % 8)
                        {
                        case 0: v[i] = L::infinity(); break;
                        case 1: v[i] = -L::infinity(); break;
                        case 2: v[i] = 1; break;
                        case 3: v[i] = (T)1.5; break;
                        case 4: v[i] = (T)-0.25; break;
                        default: v[i] = (T)((double)((h >> 8) % (bins + 1)) / (double)bins); break;
                        }
                }
                auto x = make_univector((const T*)v.data(), n);
                check_hist<T>(c, histogram(x, bins), v, bins, "histogram");
                if (bins == 10)
                    check_hist<T>(c, histogram<10>(x), v, bins, "histogram<10>");
                if (bins == 256)
                    check_hist<T>(c, histogram<256>(x), v, bins, "histogram<256>");
                // as data flows through it
                {
                    univector<T> out(n);
                    auto he = histogram_expression(x, bins);
                    process(out, he);
                    check_hist<T>(c, he.data, v, bins, "histogram_expression");
                    for (size_t i = 0; i < n; i++)
                        MC_CHECK(c, out[i] == v[i], "histogram_expression changed element %zu", i);
                }
                histogram_data<0> hd(bins);
                for (T q : v)
                    hd.put(q);
                check_hist<T>(c, hd, v, bins, "put one by one");
                c.outcome(mcu::digest(v.data(), n, bins));
            });
}

#define ALL(T, name)                                                                                                   \
    add_1d<T>(name);                                                                                                   \
    add_horiz<T>(name);
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(mc_register_, PART)()
{
#if PART == 0
    ALL(i8, "i8")
    ALL(u8, "u8")
    ALL(i16, "i16")
#elif PART == 1
    ALL(u16, "u16")
    ALL(i32, "i32")
    ALL(u32, "u32")
#elif PART == 2
    ALL(i64, "i64")
    ALL(u64, "u64")
    ALL(complex<double>, "c64")
#elif PART == 3
    ALL(float, "f32")
    ALL(double, "f64")
    ALL(complex<float>, "c32")
#else
    add_nd<i32>("i32");
    add_nd<double>("f64");
    add_hist<u8>("u8");
    add_hist<i8>("i8");
    add_hist<i16>("i16");
    add_hist<i32>("i32");
    add_hist<u32>("u32");
    add_hist<i64>("i64");
    add_hist<u64>("u64");
    add_hist<float>("f32");
    add_hist<double>("f64");
#endif
}
#if PART == 0
void mc_register_1();
void mc_register_2();
void mc_register_3();
void mc_register_4();
void mc_register()
{
    mc_register_0(), mc_register_1(), mc_register_2(), mc_register_3(), mc_register_4();
}
MC_MAIN()
#endif
