// C21: vector sorting: every 0-1 input (which settles networks of compare-exchange steps), every permutation and every tuple of
// extreme and equal values of the smaller widths.
#include "mc.hpp"
#include "util.hpp"
#include <algorithm>
#include <kfr/base.hpp>
#include <kfr/simd/sort.hpp>
using namespace kfr;
using mc::Ctx;
#ifndef PART
#define PART 0
#endif

template <class T>
static const char* tname()
{
    if (std::is_same_v<T, f32>) return "f32";
    if (std::is_same_v<T, f64>) return "f64";
    static char b[10][8];
    char* s = b[sizeof(T) + std::is_signed_v<T>];
    snprintf(s, 8, "%c%d", std::is_signed_v<T> ? 'i' : 'u', (int)sizeof(T) * 8);
    return s;
}
template <class T>
static std::vector<T> extremes()
{
    using L = std::numeric_limits<T>;
    if constexpr (std::is_floating_point_v<T>)
        return { -L::infinity(), L::lowest(), -1, 0, L::denorm_min(), L::infinity() };
    else if constexpr (std::is_signed_v<T>)
        return { L::min(), (T)(L::min() + 1), -1, 0, 1, L::max() };
    else
        return { 0, 1, (T)(L::max() / 2), (T)(L::max() / 2 + 1), (T)(L::max() - 1), L::max() };
}
template <class T, size_t N>
static CMT_NOINLINE void report(Ctx& c, const T* in, const T* out, bool desc)
{
    std::string a, b;
    for (size_t i = 0; i < N; i++)
        a += mc::fmt("%.9g ", (double)in[i]), b += mc::fmt("%.9g ", (double)out[i]);
    c.key("%s-%zu-%s", tname<T>(), N, desc ? "sortdesc" : "sort");
    c.fail("%s of {%s} gives {%s}", desc ? "sortdesc" : "sort", a.c_str(), b.c_str());
}
template <class T, size_t N>
static KFR_INTRINSIC void both(const T* in, T* up, T* down)
{
    const vec<T, N> x = read<N>(in);
    write(up, sort(x));
    write(down, sortdesc(x));
}
// compares with an ordinary sort
template <class T, size_t N>
static CMT_NOINLINE void check(Ctx& c, const T* in)
{
    T up[N], down[N], ref[N];
    both<T, N>(in, up, down);
    std::copy(in, in + N, ref);
    std::sort(ref, ref + N);
    for (size_t i = 0; i < N; i++)
    {
        if (up[i] != ref[i])
            report<T, N>(c, in, up, false);
        if (down[i] != ref[N - 1 - i])
            report<T, N>(c, in, down, true);
    }
}
// every 0-1 input whose low bits are the given ones; 0 and 1 are the extreme values of the type
template <class T, size_t N>
static CMT_NOINLINE void zero_one(Ctx& c, uint64_t from, uint64_t count)
{
    using L     = std::numeric_limits<T>;
    const T v0 = std::is_floating_point_v<T> ? -L::infinity() : L::min(), v1 = std::is_floating_point_v<T> ? L::infinity() : L::max();
    for (uint64_t m = from; m < from + count; m++)
    {
        T in[N], up[N], down[N];
        for (size_t i = 0; i < N; i++)
            in[i] = m >> i & 1 ? v1 : v0;
        both<T, N>(in, up, down);
        const size_t ones = __builtin_popcountll(m);
        bool bad          = false;
        for (size_t i = 0; i < N; i++)
            bad |= (up[i] != (i < N - ones ? v0 : v1)) | (down[i] != (i < ones ? v1 : v0));
        if (bad)
            check<T, N>(c, in);
    }
    c.eval(2 * count), c.op(2 * count);
}
// all binary words with at most `runs` maximal runs
template <class T, size_t N>
static void run_words(Ctx& c, int runs)
{
    std::vector<int> cut;
    std::function<void(int, uint64_t, int)> rec = [&](int pos, uint64_t w, int left)
    {
        zero_one<T, N>(c, w, 1);
        zero_one<T, N>(c, ~w & (N == 64 ? ~0ull : (1ull << N) - 1), 1);
        if (left)
            for (int p = pos + 1; p < (int)N; p++)
                rec(p, w ^ ((~0ull << p) & (N == 64 ? ~0ull : (1ull << N) - 1)), left - 1);
    };
    rec(0, 0, runs);
}
template <class T, size_t N>
static void all(Ctx& c)
{
    const int part = c.choose(3, "inputs");
    if (part == 0)
    {
        if constexpr (N <= 16)
            zero_one<T, N>(c, 0, 1ull << N);
        else
            run_words<T, N>(c, mc::tier(N == 32 ? 3 : 2, N == 32 ? 5 : 3));
    }
    else if (part == 1)
    {
        // tuples over the extreme values: all of them for short vectors, otherwise all pairs of values in all pairs of lanes
        const auto ex = extremes<T>();
        if constexpr (N <= 8)
        {
            const size_t k = N <= 4 ? ex.size() : mc::tier(4, 6);
            std::vector<size_t> d(N, 0);
            for (;;)
            {
                T in[N];
                for (size_t i = 0; i < N; i++)
                    in[i] = ex[(d[i] * 7 + (k < ex.size() && d[i] ? 1 : 0)) % ex.size()];
                check<T, N>(c, in);
                c.eval(2), c.op(2);
                size_t i = 0;
                while (i < N && ++d[i] == k)
                    d[i++] = 0;
                if (i == N)
                    break;
            }
        }
        else
            for (size_t fill = 0; fill < ex.size(); fill++)
                for (size_t a = 0; a < ex.size(); a++)
                    for (size_t b = 0; b < ex.size(); b++)
                        for (size_t i = 0; i < N; i++)
                            for (size_t j = 0; j < N; j++)
                            {
                                T in[N];
                                for (T& x : in)
                                    x = ex[fill];
                                in[i] = ex[a], in[j] = ex[b];
                                check<T, N>(c, in);
                                c.eval(2), c.op(2);
                            }
    }
    else
    {
        // permutations: all for up to 8 lanes; beyond, every rotation, reversal, swap and riffle of distinct values
        T in[N];
        std::vector<int> p(N);
        auto go = [&]
        {
            for (size_t i = 0; i < N; i++)
                in[i] = (T)(std::is_signed_v<T> ? p[i] * 3 - (int)N : p[i] * 3);
            check<T, N>(c, in);
            c.eval(2), c.op(2);
        };
        for (size_t i = 0; i < N; i++)
            p[i] = (int)i;
        if constexpr (N <= 8)
        {
            do
                go();
            while (std::next_permutation(p.begin(), p.end()));
        }
        else
            for (size_t r = 0; r < N; r++)
                for (int rev = 0; rev < 2; rev++)
                    for (size_t mul = 1; mul < N; mul += 2)
                        for (size_t s = 0; s < N; s++)
                        {
                            for (size_t i = 0; i < N; i++)
                                p[i] = (int)((i * mul + r) % N);
                            if (rev)
                                std::reverse(p.begin(), p.end());
                            std::swap(p[0], p[s]);
                            go();
                        }
    }
    c.outcome(N * 4 + part + sizeof(T) * 1000);
}
template <class T>
static void sizes(const char* t)
{
    auto reg = [&](auto n)
    {
        constexpr size_t N = decltype(n)::value;
        mc::add(strdup(mc::fmt("%s-%zu", t, N).c_str()), 1, [](Ctx& c, uint64_t) { all<T, N>(c); }, 600);
    };
    reg(csize<4>), reg(csize<8>), reg(csize<16>), reg(csize<32>);
    if (sizeof(T) == 1)
        reg(csize<64>);
}
#if defined CMT_ARCH_AVX2 && !defined CMT_ARCH_AVX512 && !defined CMT_DISABLE_CLANG_EXT
constexpr bool is_avx2_native = true;
#else
constexpr bool is_avx2_native = false;
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
void CAT(mc_register_, PART)()
{
#if PART == 0
    sizes<i8>("i8");
#elif PART == 1
    sizes<u8>("u8");
#elif PART == 2
    sizes<i16>("i16"), sizes<u16>("u16");
#elif PART == 3
    sizes<i32>("i32"), sizes<u32>("u32");
#elif PART == 4
    sizes<i64>("i64"), sizes<u64>("u64");
#else
    sizes<f32>("f32"), sizes<f64>("f64");
    if (mc::thorough() && is_avx2_native)
        // every 0-1 input of 32 lanes
        mc::add("f32-32-all", 4096, [](Ctx& c, uint64_t r) { zero_one<f32, 32>(c, r << 20, 1 << 20), c.outcome(r); }, 600);
#endif
}
#if PART == 0
void mc_register_1();
void mc_register_2();
void mc_register_3();
void mc_register_4();
void mc_register_5();
void mc_register()
{
    mc_register_0(), mc_register_1(), mc_register_2(), mc_register_3(), mc_register_4(), mc_register_5();
}
MC_MAIN()
#endif
