// C20: permutations return exactly the named source lanes; loads and stores touch exactly the addressed elements.
// Two translation units per element type (PART, HALF).
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/simd/digitreverse.hpp>
using namespace kfr;
using mc::Ctx;

template <class T>
constexpr size_t ebytes = sizeof(deep_subtype<T>) * compound_type_traits<T>::deep_width;

// label `i` of set `s`, byte-wise distinct for the lanes of one operation (up to 2*64 labels)
template <class T>
static void label(T* p, size_t i, int s)
{
    unsigned char* b = (unsigned char*)p;
    for (size_t k = 0; k < ebytes<T>; k++)
        if (ebytes<T> == 1)
            b[k] = (unsigned char)(s ? 255 - i : i + 1);
        else if (s == 0)
            b[k] = (unsigned char)(k == 0 ? i + 1 : k == ebytes<T> - 1 ? 0x40 + i / 2 : i * 7 + k);
        else // patterns that are NaNs of both kinds, infinities and denormals in floating-point types
            b[k] = (unsigned char)(k == 0 ? 200 - i : k == ebytes<T> - 1 ? (i % 3 ? 0x7f : 0x80) : k == ebytes<T> - 2 ? (i % 3 == 1 ? 0xf0 : i % 3 == 2 ? 0xff : 0) : i);
}
template <class T>
static bool same(const T* a, const T* b)
{
    return !memcmp(a, b, ebytes<T>);
}
constexpr size_t ANY = ~size_t(0);

template <class T, size_t N, size_t M = N>
struct In
{
    T x[N], y[M];
    int s;
    explicit In(int s) : s(s)
    {
        memset((void*)x, 0, sizeof x), memset((void*)y, 0, sizeof y);
        for (size_t i = 0; i < N; i++)
            label(&x[i], i, s);
        for (size_t i = 0; i < M; i++)
            label(&y[i], 64 + i, s);
    }
    // never inlined into constants: the compiler must emit the permutation
    CMT_NOINLINE vec<T, N> vx() const { return read<N>(hide(x)); }
    CMT_NOINLINE vec<T, M> vy() const { return read<M>(hide(y)); }
    static const T* hide(const T* p)
    {
        asm volatile("" : "+r"(p) : : "memory");
        return p;
    }
};

// the comparison itself, one copy per element type
template <class T>
CMT_NOINLINE static void compare(Ctx& c, int set, const char* what, size_t N, const T* o, const size_t* want, size_t K, size_t par)
{
    c.op(), c.eval(K);
    for (size_t i = 0; i < K; i++)
    {
        const size_t w = want[i];
        if (w == ANY)
            continue;
        T e;
        memset((void*)&e, 0, sizeof e);
        label(&e, w < N ? w : 64 + w - N, set);
        if (!same(&o[i], &e))
        {
            size_t got = ANY;
            for (size_t j = 0; j < 128; j++)
            {
                T g;
                memset((void*)&g, 0, sizeof g);
                label(&g, j, set);
                if (same(&g, &o[i]))
                    got = j;
            }
            MC_CHECK(c, false, "%s (%zu) of %zu lanes: lane %zu of the result holds %s%zd, expected %s%zu", what, par, N, i,
                     got == ANY ? "nothing known " : got < 64 ? "x" : "y", got == ANY ? (ssize_t)-1 : (ssize_t)(got % 64),
                     w < N ? "x" : "y", w < N ? w : w - N);
        }
    }
}
template <class T, size_t K, class I, class F>
CMT_INLINE static void expect(Ctx& c, const I& in, const char* what, size_t N, const vec<T, K>& r, F&& f, size_t par = 0)
{
    alignas(64) T o[K];
    write(o, r);
    size_t w[K];
    for (size_t i = 0; i < K; i++)
        w[i] = f(i);
    compare<T>(c, in.s, what, N, o, w, K, par);
}

template <size_t... I, class F>
static void each_impl(std::index_sequence<I...>, F&& f)
{
    (f(std::integral_constant<size_t, I>{}), ...);
}
template <size_t N, class F>
static void each(F&& f)
{
    each_impl(std::make_index_sequence<N>{}, std::forward<F>(f));
}

// ---------------------------------------------------------------- permutations of one and two vectors
template <class T, size_t N, size_t G>
static void groups(Ctx& c, const In<T, N>& in)
{
    const vec<T, N> x = in.vx(), y = in.vy();
    constexpr size_t S = N / G;
    // position of group g, element e
    auto at = [](size_t g, size_t e) { return g * G + e; };
    if constexpr (N % (2 * G) == 0 && N >= 2 * G)
    {
        expect(c, in, "even<group>", N, even<G>(x), [&](size_t i) { return at(2 * (i / G), i % G); });
        expect(c, in, "odd<group>", N, odd<G>(x), [&](size_t i) { return at(2 * (i / G) + 1, i % G); });
        expect(c, in, "interleavehalves<group>", N, interleavehalves<G>(x),
               [&](size_t i) { return at(i / G % 2 * (S / 2) + i / G / 2, i % G); });
        expect(c, in, "splitpairs<group>", N, splitpairs<G>(x),
               [&](size_t i) { return at(i / G % (S / 2) * 2 + i / G / (S / 2), i % G); });
        expect(c, in, "permutegroups 1,0<group>", N, permutegroups<G, 1, 0>(x), [&](size_t i) { return at(i / G ^ 1, i % G); });
        expect(c, in, "shufflegroups 0,N<group>", N, shufflegroups<G, 0, S>(x, y), [&](size_t i)
               { return (i / G % 2) ? N + at(i / G / 2 * 2, i % G) : at(i / G / 2 * 2, i % G); });
    }
    if constexpr (N % G == 0)
    {
        expect(c, in, "interleave<group>", N, interleave<G>(x, y),
               [&](size_t i) { return (i / G % 2) * N + at(i / G / 2, i % G); });
        expect(c, in, "reverse<group>", N, reverse<G>(x.flatten().size() ? x : x), [&](size_t i) { return at(S - 1 - i / G, i % G); });
        each<S + 1>(
            [&](auto k)
            {
                constexpr size_t side = k;
                if constexpr (side > 0 && S % (side ? side : 1) == 0 && S > 3)
                {
                    expect(c, in, "transpose<_,_>", N, transpose<side, G>(x),
                           [&](size_t i) { size_t g = i / G; return at(g % (S / side) * side + g / (S / side), i % G); });
                    expect(c, in, "transposeinverse<_,_>", N, transposeinverse<side, G>(x),
                           [&](size_t i) { size_t g = i / G; return at(g % side * (S / side) + g / side, i % G); });
                }
            });
        if constexpr ((S & (S - 1)) == 0 && S > 1)
        {
            auto rev = [](size_t v, size_t bits, size_t step)
            {
                size_t r = 0;
                for (size_t b = 0; b < bits; b += step)
                    r = r << step | (v >> b & ((1u << step) - 1));
                return r;
            };
            constexpr size_t bits = ilog2(S);
            expect(c, in, "bitreverse<group>", N, bitreverse<G>(x), [&](size_t i) { return at(rev(i / G, bits, 1), i % G); });
            if constexpr (bits % 2 == 0)
                expect(c, in, "digitreverse4<group>", N, digitreverse4<G>(x),
                       [&](size_t i) { return at(rev(i / G, bits, 2), i % G); });
        }
    }
}

template <class T, size_t N>
static void permutations(Ctx& c, int set)
{
    const In<T, N> in(set);
    const vec<T, N> x = in.vx(), y = in.vy();
    const auto id = [](size_t i) { return i; };
    expect(c, in, "identity", N, x, id);
    for (size_t i = 0; i < N; i++)
    {
        T g = x[i];
        MC_CHECK(c, same(&g, &in.x[i]), "element %zu of %zu read by index", i, N);
        vec<T, N> z = x;
        z[i]        = in.y[i];
        expect(c, in, "assigned element _", N, z, [&](size_t j) { return j == i ? N + j : j; });
        vec<T, N> w = x;
        w.set(i, in.y[0]);
        expect(c, in, "set element _", N, w, [&](size_t j) { return j == i ? N : j; });
    }
    each<N>(
        [&](auto k)
        {
            constexpr size_t K = k;
            T g                = x.get(csize<K>);
            MC_CHECK(c, same(&g, &in.x[K]), "element %zu of %zu read by constant index", K, N);
            if constexpr (!is_compound_type<T>)
            {
                vec<T, N> w = x;
                w.set(csize<K>, in.y[0]);
                expect(c, in, "set constant element _", N, w, [&](size_t j) { return j == K ? N : j; });
            }
            if constexpr (K < 6 || K + 2 > N || K == N / 2)
            {
                expect(c, in, "rotateleft<_>", N, rotateleft<K>(x), [&](size_t j) { return (j + K) % N; });
                expect(c, in, "rotateright<_>", N, rotateright<K>(x), [&](size_t j) { return (j + N - K) % N; });
                expect(c, in, "rotatetwo<_>", N, rotatetwo<K>(x, y),
                       [&](size_t j) { return j < K ? N + N - K + j : j - K; });
                // slices of one and of two vectors
                each<(N <= 8 ? N - K : (N - K < 4 ? N - K : 4))>(
                    [&](auto l)
                    {
                        constexpr size_t L = N <= 8 ? l + 1 : l == 0 ? 1 : l == 1 ? 2 : l == 2 ? (N - K) / 2 + 1 : N - K;
                        if constexpr (K + L <= N)
                            expect(c, in, "slice<_,_>", N, slice<K, L>(x), [&](size_t j) { return j + K; });
                    });
                expect(c, in, "slice<_,_> of two", N, slice<K, N>(x, y), [&](size_t j) { return j + K; });
                expect(c, in, "concat_and_slice<_,_>", N, concat_and_slice<K, N>(x, y),
                       [&](size_t j) { return j + K; });
                if constexpr (K > 0)
                {
                    expect(c, in, "narrow<_>", N, narrow<K>(x), id);
                    expect(c, in, "resize<_>", N, resize<K>(x), id);
                }
            }
        });
    expect(c, in, "resize to more", N, resize<N + 3>(x), [&](size_t j) { return j % N; });
    expect(c, in, "repeat<3>", N, repeat<3>(x), [&](size_t j) { return j % N; });
    expect(c, in, "extend", N, extend<N + 3>(x), [&](size_t j) { return j < N ? j : N == 1 ? 0 : ANY; });
    expect(c, in, "concat", N, concat(x, y), id);
    expect(c, in, "concat of three", N, concat(x, y, x), [&](size_t j) { return j < 2 * N ? j : j - 2 * N; });
    expect(c, in, "concat2", N, concat2(y, x), [&](size_t j) { return j < N ? j + N : j - N; });
    expect(c, in, "concat4", N, concat4(x, y, y, x), [&](size_t j) { return j < 2 * N ? j : j < 3 * N ? j - N : j - 3 * N; });
    expect(c, in, "padhigh", N, padhigh<3>(x), [&](size_t j) { return j < N ? j : ANY; });
    expect(c, in, "padlow", N, padlow<3>(x), [&](size_t j) { return j >= 3 ? j - 3 : ANY; });
    expect(c, in, "padhigh with value", N, padhigh<3>(x, in.y[0]), [&](size_t j) { return j < N ? j : N; });
    expect(c, in, "padlow with value", N, padlow<2>(x, in.y[0]), [&](size_t j) { return j >= 2 ? j - 2 : N; });
    expect(c, in, "widen", N, widen<N + 5>(x, in.y[0]), [&](size_t j) { return j < N ? j : N; });
    expect(c, in, "dup", N, dup(x), [&](size_t j) { return j / 2; });
    expect(c, in, "duphalves", N, duphalves(x), [&](size_t j) { return j % N; });
    expect(c, in, "insertleft", N, insertleft(in.y[0], x), [&](size_t j) { return j == 0 ? N : j - 1; });
    expect(c, in, "insertright", N, insertright(in.y[0], x), [&](size_t j) { return j == N - 1 ? N : j + 1; });
    expect(c, in, "broadcast", N, broadcast<N, T>(in.y[0]), [&](size_t) { return N; });
    expect(c, in, "broadcast two", N, broadcast<N>(in.y[0], in.x[0]), [&](size_t j) { return j % 2 ? 0 : N; });
    expect(c, in, "from scalar", N, vec<T, N>(in.y[0]), [&](size_t) { return N; });
    expect(c, in, "portable", N, vec<T, N>(portable_vec<T, N>(x)), id);
    expect(c, in, "flatten", N, vec<T, N>::from_flatten(x.flatten()), id);
    expect(c, in, "blend<0,1>", N, blend<0, 1>(x, y), [&](size_t j) { return j % 2 ? N + j : j; });
    expect(c, in, "blend<1,0,0>", N, blend<1, 0, 0>(x, y), [&](size_t j) { return j % 3 ? j : N + j; });
    expect(c, in, "blend<1,1,0,1,0>", N, blend<1, 1, 0, 1, 0>(x, y), [&](size_t j) { return j % 5 == 2 || j % 5 == 4 ? j : N + j; });
    expect(c, in, "interleave", N, interleave(x, y), [&](size_t j) { return j % 2 * N + j / 2; });
    if constexpr (N > 1)
    {
        expect(c, in, "low", N, low(x), id);
        expect(c, in, "high", N, high(x), [&](size_t j) { return j + prev_poweroftwo(N - 1); });
        expect(c, in, "lowhalf", N, lowhalf(x), id);
        expect(c, in, "highhalf", N, highhalf(x), [&](size_t j) { return j + N / 2; });
        expect(c, in, "duplow", N, duplow(x), [&](size_t j) { return j % (N / 2); });
        expect(c, in, "duphigh", N, duphigh(x), [&](size_t j) { return j % (N / 2) + N - N / 2; });
        vec<T, N - N / 2> y2 = slice<0, N - N / 2>(y);
        expect(c, in, "combine", N, combine(x, y2), [&](size_t j) { return j < N - N / 2 ? N + j : j; });
        vec<T, 1> s0;
        vec<T, N - 1> s1;
        split(x, s0, s1);
        expect(c, in, "split: first", N, s0, id);
        expect(c, in, "split: rest", N, s1, [&](size_t j) { return j + 1; });
    }
    if constexpr (N % 2 == 0)
    {
        expect(c, in, "dupeven", N, dupeven(x), [&](size_t j) { return j & ~size_t(1); });
        expect(c, in, "dupodd", N, dupodd(x), [&](size_t j) { return j | 1; });
        expect(c, in, "swap", N, swap(x), [&](size_t j) { return j ^ 1; });
        expect(c, in, "permute<1,0>", N, permute<1, 0>(x), [&](size_t j) { return j ^ 1; });
        expect(c, in, "permute<1,1>", N, permute<1, 1>(x), [&](size_t j) { return j | 1; });
        expect(c, in, "shuffle<0,N+1>", N, kfr::shuffle<0, N + 1>(x, y), [&](size_t j) { return j % 2 ? N + j : j; });
        vec<T, N / 2> a, b;
        split(x, a, b);
        expect(c, in, "split: low half", N, a, id);
        expect(c, in, "split: high half", N, b, [&](size_t j) { return j + N / 2; });
        expect(c, in, "part<2,1>", N, part<2, 1>(x), [&](size_t j) { return j + N / 2; });
    }
    if constexpr (N % 4 == 0)
    {
        vec<T, N / 4> a, b, d, e;
        split(x, a, b, d, e);
        expect(c, in, "split in four: 0", N, a, id);
        expect(c, in, "split in four: 1", N, b, [&](size_t j) { return j + N / 4; });
        expect(c, in, "split in four: 2", N, d, [&](size_t j) { return j + N / 2; });
        expect(c, in, "split in four: 3", N, e, [&](size_t j) { return j + N / 4 * 3; });
        expect(c, in, "part<4,3>", N, part<4, 3>(x), [&](size_t j) { return j + N / 4 * 3; });
        expect(c, in, "swap<4>", N, kfr::swap<4>(x), [&](size_t j) { return j ^ 3; });
        // every permutation and every selection of four
        each<256>(
            [&](auto k)
            {
                constexpr size_t A = k & 3, B = k >> 2 & 3, C = k >> 4 & 3, D = k >> 6 & 3;
                if constexpr ((N == 4 && sizeof(T) == 4) || (N <= 8 && A != B && A != C && A != D && B != C && B != D && C != D))
                {
                    const size_t s[] = { A, B, C, D };
                    expect(c, in, "permute<_,_,_,_>", N, permute<A, B, C, D>(x),
                           [&](size_t j) { return j / 4 * 4 + s[j % 4]; });
                    if constexpr (N == 4)
                        expect(c, in, "shuffle<_,_,_,_>", N,
                               kfr::shuffle<A, B + 4, C + 4, D>(x, y), [&](size_t j) { return s[j] + (j == 1 || j == 2 ? 4 : 0); });
                }
            });
    }
    if constexpr (N == 2)
        each<16>(
            [&](auto k)
            {
                constexpr size_t A = k & 3, B = k >> 2 & 3;
                const size_t s[]   = { A, B };
                expect(c, in, "shuffle<_,_>", N, kfr::shuffle<A, B>(x, y), [&](size_t j) { return s[j]; });
            });
    groups<T, N, 1>(c, in);
    if constexpr (N >= 2 && N % 2 == 0)
        groups<T, N, 2>(c, in);
    if constexpr (N >= 3 && N % 3 == 0)
        groups<T, N, 3>(c, in);
    if constexpr (N >= 4 && N % 4 == 0)
        groups<T, N, 4>(c, in);
    if constexpr (N >= 8 && N % 8 == 0)
        groups<T, N, 8>(c, in);
    if constexpr (N >= 16 && N % 16 == 0)
        groups<T, N, 16>(c, in);
    // vectors of vectors
    if constexpr ((N == 4 || N == 8 || N == 3) && !is_compound_type<T>)
    {
        auto z = zip(x, y);
        expect(c, in, "zip", N, z.flatten().size() == 0 ? vec<T, 2 * N>() : vec<T, 2 * N>(z.v), [&](size_t j) { return j % 2 * N + j / 2; });
        expect(c, in, "column<0>", N, column<0>(z), id);
        expect(c, in, "column<1>", N, column<1>(z), [&](size_t j) { return N + j; });
    }
}

template <class T, size_t N, size_t M>
static void unequal(Ctx& c, int set)
{
    const In<T, N, M> in(set);
    const vec<T, N> x = in.vx();
    const vec<T, M> y = in.vy();
    expect(c, in, "concat with _ lanes", N, concat(x, y), [](size_t j) { return j; });
    expect(c, in, "concat2 with _ lanes", N, concat2(x, y), [](size_t j) { return j; });
    each<N + M>(
        [&](auto k)
        {
            constexpr size_t K = k, L = N + M - K;
            expect(c, in, "concat_and_slice<_,_> with _ lanes", N, concat_and_slice<K, L>(x, y),
                   [&](size_t j) { return j + K; });
            expect(c, in, "concat_and_slice<_,1> with _ lanes", N, concat_and_slice<K, 1>(x, y),
                   [&](size_t j) { return j + K; });
        });
    if constexpr (M <= N)
        expect(c, in, "combine with _ lanes", N, combine(x, y), [&](size_t j) { return j < M ? N + j : j; });
}

// ---------------------------------------------------------------- memory
// `total` elements in a block of exactly that size; element i is labelled (i % 60) with a per-period salt
template <class T>
struct Mem
{
    char* raw;
    T* p;
    size_t n;
    Mem(size_t n, size_t mis) : n(n)
    {
        // the allocator's alignment plus `mis` elements; the end of the block is the end of the data
        if (posix_memalign((void**)&raw, 64, (n + mis) * sizeof(T) + (n + mis == 0)))
            abort();
        memset(raw, 0, (n + mis) * sizeof(T));
        p = (T*)raw + mis;
        for (size_t i = 0; i < n; i++)
            at(&p[i], i);
    }
    ~Mem() { free(raw); }
    static void at(T* q, size_t i)
    {
        memset((void*)q, 0, sizeof(T));
        unsigned char* b = (unsigned char*)q;
        uint64_t h       = mc::hash_mix(i * 3 + 1, 77);
        for (size_t k = 0; k < ebytes<T>; k++)
            b[k] = ebytes<T> == 1 ? (unsigned char)(i + 1) : (unsigned char)(k == 0 ? i + 1 : k == 1 ? (i >> 8) + 3 : h >> (k % 8 * 8));
    }
    static bool is(const T* q, size_t i)
    {
        T t;
        at(&t, i);
        return same(q, &t);
    }
};
template <class T>
static void filled(T* v, size_t n, size_t from)
{
    for (size_t i = 0; i < n; i++)
        Mem<T>::at(&v[i], from + i);
}

template <class T, size_t N>
static void memory(Ctx& c)
{
    alignas(64) T o[N], w[N];
    for (size_t mis = 0; mis < 17; mis++)
    {
        Mem<T> m(N, mis);
        write(o, read<N>((const T*)m.p));
        for (size_t i = 0; i < N; i++)
            MC_CHECK(c, Mem<T>::is(&o[i], i), "read<%zu> at offset %zu: element %zu is wrong", N, mis, i);
        vec<T, N> v(m.p);
        write(o, v);
        for (size_t i = 0; i < N; i++)
            MC_CHECK(c, Mem<T>::is(&o[i], i), "vec(pointer) of %zu at offset %zu: element %zu is wrong", N, mis, i);
        for (int k = 0; k < 2; k++)
        {
            // write in the middle of a larger block: neighbours stay
            const size_t tail = k ? 0 : 5;
            Mem<T> d(mis + N + tail, 0);
            filled(w, N, 100);
            const vec<T, N> x = read<N>(w);
            if (k)
                x.write(d.p + mis);
            else
                write(d.p + mis, x);
            for (size_t i = 0; i < mis + N + tail; i++)
                MC_CHECK(c, Mem<T>::is(&d.p[i], i >= mis && i < mis + N ? 100 + i - mis : i),
                         "write of %zu at offset %zu: element %zu of the block is wrong", N, mis, i);
        }
        c.op(4), c.eval(4 * N);
    }
    { // aligned access
        Mem<T> m(N, 0);
        if constexpr (is_poweroftwo(N) && sizeof(T) == ebytes<T>)
        {
            write(o, read<N, true>((const T*)m.p));
            for (size_t i = 0; i < N; i++)
                MC_CHECK(c, Mem<T>::is(&o[i], i), "aligned read<%zu>: element %zu is wrong", N, i);
            filled(w, N, 100);
            write<true>(m.p, read<N>(w));
            for (size_t i = 0; i < N; i++)
                MC_CHECK(c, Mem<T>::is(&m.p[i], 100 + i), "aligned write of %zu: element %zu is wrong", N, i);
        }
    }
    // strides
    for (size_t stride = 1; stride <= 9; stride++)
    {
        Mem<T> m((N - 1) * stride + 1, stride % 3);
        write(o, gather_stride<N>((const T*)m.p, stride));
        for (size_t i = 0; i < N; i++)
            MC_CHECK(c, Mem<T>::is(&o[i], i * stride), "gather_stride<%zu>(%zu): element %zu is wrong", N, stride, i);
        filled(w, N, 1000);
        scatter_stride(m.p, read<N>(w), stride);
        for (size_t i = 0; i < m.n; i++)
            MC_CHECK(c, Mem<T>::is(&m.p[i], i % stride ? i : 1000 + i / stride), "scatter_stride of %zu by %zu: element %zu is wrong", N,
                     stride, i);
        c.op(2), c.eval(2 * N);
    }
    if constexpr (N >= 2 && !is_compound_type<T>)
    {
        // rows: N/2 elements from each of two rows, groups of one and two
        for (size_t stride = N; stride <= N + 9; stride++)
        {
            Mem<T> m(stride + N, 1);
            alignas(64) T o2[2 * N], w2[2 * N];
            write(o2, read_group<2, N>((const T*)m.p, stride));
            for (size_t i = 0; i < 2 * N; i++)
                MC_CHECK(c, Mem<T>::is(&o2[i], i / N * stride + i % N), "read_group<2,%zu>(%zu): element %zu is wrong", N, stride, i);
            filled(w2, 2 * N, 1000);
            write_group<2, N>(m.p, stride, read<2 * N>(w2));
            for (size_t i = 0; i < m.n; i++)
                MC_CHECK(c, Mem<T>::is(&m.p[i], i < N ? 1000 + i : i >= stride && i < stride + N ? 1000 + N + i - stride : i),
                         "write_group<2,%zu>(%zu): element %zu is wrong", N, stride, i);
            c.op(2), c.eval(4 * N);
        }
    }
}

template <class T, size_t N, size_t G>
static void indexed(Ctx& c)
{
    // every index vector for few lanes, patterns for many
    const size_t span = N <= 4 ? 5 : N + 3;
    size_t count      = 1;
    for (size_t i = 0; i < N && N <= 4; i++)
        count *= span;
    if (N > 4)
        count = 6 * span;
    for (size_t k = 0; k < count; k++)
    {
        u32 ix[N];
        size_t q = k;
        for (size_t i = 0; i < N; i++)
            if (N <= 4)
                ix[i] = q % span, q /= span;
            else
            {
                const size_t a = k / span, s = k % span;
                ix[i] = a == 0 ? (i + s) % span : a == 1 ? (span - 1 + span - i + s) % span : a == 2 ? s : a == 3 ? i % 2 ? s : 0 : a == 4 ? (i * 3 + s) % span : (i * i + s) % span;
            }
        Mem<T> m(span * G, 0);
        const vec<u32, N> iv = read<N>(ix);
        alignas(64) T o[N * G], w[N * G];
        write(o, gather<G>((const T*)m.p, iv));
        for (size_t i = 0; i < N * G; i++)
            MC_CHECK(c, Mem<T>::is(&o[i], ix[i / G] * G + i % G), "gather<%zu> of %zu: element %zu is wrong", G, N, i);
        bool distinct = true;
        for (size_t i = 0; i < N; i++)
            for (size_t j = 0; j < i; j++)
                distinct &= ix[i] != ix[j];
        if (distinct)
        {
            filled(w, N * G, 1000);
            scatter<G>(m.p, iv, read<N * G>(w));
            for (size_t i = 0; i < span * G; i++)
            {
                size_t e = i;
                for (size_t l = 0; l < N; l++)
                    if (ix[l] == i / G)
                        e = 1000 + l * G + i % G;
                MC_CHECK(c, Mem<T>::is(&m.p[i], e), "scatter<%zu> of %zu: element %zu is wrong", G, N, i);
            }
        }
        c.op(2), c.eval(2 * N * G);
    }
}

template <class T, size_t N>
static void add_n(const std::string& t)
{
    mc::add(mc::fmt("lanes:%s x%zu", t.c_str(), N), 2,
            [=](Ctx& c, size_t s)
            {
                c.key("%s/permutation", t.c_str());
                permutations<T, N>(c, (int)s);
            });
    mc::add(mc::fmt("memory:%s x%zu", t.c_str(), N), 1,
            [=](Ctx& c, size_t)
            {
                c.key("%s/memory", t.c_str());
                memory<T, N>(c);
            });
    if constexpr (N <= 16)
        mc::add(mc::fmt("indexed:%s x%zu", t.c_str(), N), 1,
                [=](Ctx& c, size_t)
                {
                    c.key("%s/indexed", t.c_str());
                    indexed<T, N, 1>(c);
                    if constexpr (N <= 5)
                        indexed<T, N, 2>(c), indexed<T, N, 3>(c);
                });
}
template <class T, size_t N, size_t M>
static void add_nm(const std::string& t)
{
    mc::add(mc::fmt("pairs:%s x%zu,%zu", t.c_str(), N, M), 2,
            [=](Ctx& c, size_t s)
            {
                c.key("%s/unequal", t.c_str());
                unequal<T, N, M>(c, (int)s);
            });
}
template <class T, bool big>
static void add_type(const std::string& t)
{
#if HALF == 0
    add_n<T, 1>(t), add_n<T, 2>(t), add_n<T, 3>(t), add_n<T, 4>(t), add_n<T, 5>(t), add_n<T, 6>(t);
    if constexpr (big)
        add_n<T, 7>(t);
    add_nm<T, 1, 2>(t), add_nm<T, 2, 1>(t), add_nm<T, 2, 3>(t), add_nm<T, 3, 2>(t), add_nm<T, 4, 1>(t), add_nm<T, 1, 4>(t),
        add_nm<T, 4, 3>(t), add_nm<T, 8, 2>(t), add_nm<T, 3, 8>(t), add_nm<T, 5, 4>(t);
#else
    add_n<T, 8>(t), add_n<T, 16>(t);
    if constexpr (big)
        add_n<T, 12>(t), add_n<T, 32>(t);
#endif
}

#if PART == 8
// the transpositions of 16, 32 and 64 floats with hand-written specialisations
template <size_t N, size_t... I>
static void special(Ctx& c, csizes_t<I...> ix, const char* what)
{
    for (int s = 0; s < 2; s++)
    {
        const In<f32, N> in(s);
        const size_t e[] = { I... };
        expect(c, in, what, N, in.vx().shuffle(ix), [&](size_t i) { return e[i]; });
    }
}
// bit-reverse and digit tables, as integers
static void bits(Ctx& c)
{
    each<16>(
        [&](auto k)
        {
            constexpr size_t B = k + 1;
            for (u32 x = 0; x < (1u << B); x++)
            {
                u32 r = 0;
                for (size_t b = 0; b < B; b++)
                    r = r << 1 | (x >> b & 1);
                MC_CHECK(c, bitreverse<B>(x) == r, "bitreverse<%zu>(%u) is %u", B, x, bitreverse<B>(x));
                if constexpr (B % 2 == 0)
                {
                    r = 0;
                    for (size_t b = 0; b < B; b += 2)
                        r = r << 2 | (x >> b & 3);
                    MC_CHECK(c, digitreverse4<B>(x) == r, "digitreverse4<%zu>(%u) is %u", B, x, digitreverse4<B>(x));
                }
            }
            c.op(1u << B), c.eval(1u << B);
        });
}
template <class T, size_t N>
static void generated(Ctx& c, const char* t)
{
    c.key("enumerate/%s", t);
    const vec<T, N> e = enumerate<T, N>(), f = enumerate(vec_shape<T, N>()), g = enumerate<T, N, 3, 5>();
    for (size_t i = 0; i < N; i++)
        MC_CHECK(c, e[i] == T(i) && f[i] == T(i) && g[i] == T(3 + 5 * i), "enumerate of %zu: element %zu", N, i);
    for (int st = -9; st <= 9; st++)
    {
        const vec<T, N> h = enumerate(vec_shape<T, N>(), T(st));
        for (size_t i = 0; i < N; i++)
            MC_CHECK(c, h[i] == T(T(st) * T(i)), "enumerate of %zu with step %d: element %zu is %g", N, st, i, (double)h[i]);
    }
    each<N>(
        [&](auto k)
        {
            const vec<T, N> o = onoff<T, N, k, 2, 7, 3>();
            for (size_t i = 0; i < N; i++)
                MC_CHECK(c, o[i] == T(i >= k && i < k + 2 ? 7 : 3), "onoff of %zu: element %zu", N, i);
        });
    c.op(22 + N), c.eval(22 * N);
    if constexpr (std::is_unsigned_v<T> && N <= 32)
        for (size_t k = 0; k <= N; k++)
        {
            const vec<T, N> m = partial_mask<T, N>(k);
            for (size_t i = 0; i < N; i++)
                MC_CHECK(c, m[i] == (i < k ? T(-1) : T(0)), "partial_mask of %zu lanes with %zu set: lane %zu", N, k, i);
        }
}
template <class A, class B2, size_t N>
static void bitcasts(Ctx& c, const char* what)
{
    c.key("bitcast/%s", what);
    alignas(64) A a[N];
    for (size_t i = 0; i < N; i++)
        label(&a[i], i, 0);
    constexpr size_t M = N * sizeof(A) / sizeof(B2);
    const vec<B2, M> r = bitcast<B2>(read<N>(a));
    alignas(64) B2 o[M];
    write(o, r);
    MC_CHECK(c, !memcmp(a, o, sizeof a), "bitcast %s of %zu lanes changes bytes", what, N);
    alignas(64) A b[N];
    write(b, bitcast<A>(r));
    MC_CHECK(c, !memcmp(a, b, sizeof a), "bitcast %s of %zu lanes and back changes bytes", what, N);
    c.op(2), c.eval(2 * M);
}
template <size_t N>
static void shapes(Ctx& c)
{
    generated<f32, N>(c, "f32"), generated<f64, N>(c, "f64"), generated<i32, N>(c, "i32"), generated<u8, N>(c, "u8"),
        generated<u16, N>(c, "u16"), generated<u32, N>(c, "u32"), generated<u64, N>(c, "u64"), generated<i64, N>(c, "i64");
    bitcasts<f32, u32, N>(c, "f32-u32"), bitcasts<f64, i64, N>(c, "f64-i64"), bitcasts<f32, u8, N>(c, "f32-u8"),
        bitcasts<u64, f32, N>(c, "u64-f32"), bitcasts<f64, u16, N>(c, "f64-u16"), bitcasts<i32, i8, N>(c, "i32-i8"),
        bitcasts<f64, u32, N>(c, "f64-u32");
}
// complex vectors: construction from and separation into parts
template <class T, size_t N>
static void complexes(Ctx& c)
{
    c.key("complex/parts");
    alignas(64) T re[N], im[N];
    for (size_t i = 0; i < N; i++)
        re[i] = T(i + 1), im[i] = T(-100 - (int)i);
    const vec<T, N> r = read<N>(re), m = read<N>(im);
    const vec<complex<T>, N> z = make_complex(r, m);
    const vec<T, N> rr = real(z), ii = imag(z);
    const vec<T, 2 * N> d       = cdecom(z);
    const vec<complex<T>, N> zz = ccomp(d), cj = cconj(z), sw = cswapreim(z);
    const vec<complex<T>, N> dr = cdupreal(z), di = cdupimag(z), nr = cnegreal(z), ni = cnegimag(z), rz = kfr::reverse(z);
    for (size_t i = 0; i < N; i++)
    {
        MC_CHECK(c, z[i].real() == re[i] && z[i].imag() == im[i], "make_complex of %zu: element %zu", N, i);
        MC_CHECK(c, rr[i] == re[i] && ii[i] == im[i], "real/imag of %zu: element %zu", N, i);
        MC_CHECK(c, d[2 * i] == re[i] && d[2 * i + 1] == im[i] && zz[i] == z[i], "cdecom/ccomp of %zu: element %zu", N, i);
        MC_CHECK(c, cj[i] == complex<T>(re[i], -im[i]), "cconj of %zu: element %zu", N, i);
        MC_CHECK(c, sw[i] == complex<T>(im[i], re[i]), "cswapreim of %zu: element %zu", N, i);
        MC_CHECK(c, dr[i] == complex<T>(re[i], re[i]) && di[i] == complex<T>(im[i], im[i]), "cdupreal/cdupimag of %zu: element %zu", N, i);
        MC_CHECK(c, nr[i] == complex<T>(-re[i], im[i]) && ni[i] == complex<T>(re[i], -im[i]), "cnegreal/cnegimag of %zu: element %zu", N, i);
        MC_CHECK(c, rz[i] == z[N - 1 - i], "reverse of %zu complex: element %zu", N, i);
    }
    c.op(12), c.eval(12 * N);
}
#endif

#define CAT2(a, b, c) a##b##c
#define CAT(a, b, c) CAT2(a, b, c)
extern "C" void CAT(mc_register_, PART, HALF)()
{
#if PART == 0
    add_type<i8, true>("i8");
#elif PART == 1
    add_type<u16, true>("u16");
#elif PART == 2
    add_type<f32, true>("f32");
#elif PART == 3
    add_type<f64, true>("f64");
#elif PART == 4
    add_type<complex<f32>, false>("c32");
#elif PART == 5
    add_type<complex<f64>, false>("c64");
#elif PART == 6
    add_type<i32, true>("i32");
#elif PART == 7
    add_type<u64, false>("u64");
#elif PART == 8
    mc::add("special", 6,
            [](Ctx& c, size_t k)
            {
                c.key("specialised");
                switch (k)
                {
                case 0: special<32>(c, csizes<0, 1, 8, 9, 16, 17, 24, 25, 2, 3, 10, 11, 18, 19, 26, 27, 4, 5, 12, 13, 20, 21, 28, 29, 6, 7, 14, 15, 22, 23, 30, 31>, "4x4 complex transposition"); break;
                case 1: special<32>(c, csizes<0, 1, 16, 17, 8, 9, 24, 25, 4, 5, 20, 21, 12, 13, 28, 29, 2, 3, 18, 19, 10, 11, 26, 27, 6, 7, 22, 23, 14, 15, 30, 31>, "bit reversal of 16 complex"); break;
                case 2: special<64>(c, csizes<0, 1, 32, 33, 16, 17, 48, 49, 8, 9, 40, 41, 24, 25, 56, 57, 4, 5, 36, 37, 20, 21, 52, 53, 12, 13, 44, 45, 28, 29, 60, 61, 2, 3, 34, 35, 18, 19, 50, 51, 10, 11, 42, 43, 26, 27, 58, 59, 6, 7, 38, 39, 22, 23, 54, 55, 14, 15, 46, 47, 30, 31, 62, 63>, "bit reversal of 32 complex"); break;
                case 3: special<16>(c, csizes<0, 2, 4, 6, 8, 10, 12, 14, 1, 3, 5, 7, 9, 11, 13, 15>, "split of 16"); break;
                case 4: special<16>(c, csizes<0, 8, 1, 9, 2, 10, 3, 11, 4, 12, 5, 13, 6, 14, 7, 15>, "interleaving of 16"); break;
                default: special<32>(c, csizes<0, 16, 1, 17, 2, 18, 3, 19, 4, 20, 5, 21, 6, 22, 7, 23, 8, 24, 9, 25, 10, 26, 11, 27, 12, 28, 13, 29, 14, 30, 15, 31>, "interleaving of 32"); break;
                }
            });
    mc::add("generated", 1,
            [](Ctx& c, size_t)
            {
                shapes<2>(c), shapes<3>(c), shapes<4>(c), shapes<5>(c), shapes<7>(c), shapes<8>(c), shapes<16>(c), shapes<32>(c);
                shapes<1>(c);
            });
    mc::add("bits", 1, [](Ctx& c, size_t) { c.key("bits"), bits(c); });
    mc::add("complex", 1,
            [](Ctx& c, size_t)
            {
                complexes<f32, 1>(c), complexes<f32, 2>(c), complexes<f32, 3>(c), complexes<f32, 4>(c), complexes<f32, 7>(c), complexes<f32, 8>(c), complexes<f32, 16>(c);
                complexes<f64, 1>(c), complexes<f64, 2>(c), complexes<f64, 3>(c), complexes<f64, 4>(c), complexes<f64, 7>(c), complexes<f64, 8>(c);
            });
#endif
}
#if PART == 8
#define D(n) extern "C" __attribute__((weak)) void mc_register_##n();
#define E(n) if (mc_register_##n) mc_register_##n();
#define ALL(F) F(00) F(01) F(10) F(11) F(20) F(21) F(30) F(31) F(40) F(41) F(50) F(51) F(60) F(61) F(70) F(71) F(80)
ALL(D)
void mc_register()
{
    ALL(E)
}
MC_MAIN()
#endif
