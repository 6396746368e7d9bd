// C17: transposition and (de)interleaving move every element to its place, for every shape, type, placement and alignment.
#include "mc.hpp"
#include "util.hpp"
#include <kfr/base.hpp>
#include <kfr/base/conversion.hpp>
using namespace kfr;
using mc::Ctx;
using V = std::vector<size_t>;

// Elements are marked with their flat index, byte by byte; one-byte types take one pass per index byte.
template <class T>
static void mark(T* p, size_t i, int pass)
{
    constexpr size_t n = compound_type_traits<T>::deep_width;
    using U            = deep_subtype<T>;
    U* q               = reinterpret_cast<U*>(p);
    for (size_t k = 0; k < n; k++)
        if constexpr (sizeof(U) == 1)
            q[k] = (U)((i >> (8 * pass)) * (2 * k + 1) + k);
        else if constexpr (sizeof(U) == 2)
            q[k] = (U)(i * (2 * k + 1) + k);
        else
            q[k] = (U)(long)(i * 8 + k);
}
template <class T>
static bool same(const T& a, const T& b)
{
    constexpr size_t n = compound_type_traits<T>::deep_width;
    return !memcmp(&a, &b, n * sizeof(deep_subtype<T>));
}

// where element i of the input goes: axes reversed
static size_t target(const V& s, size_t i)
{
    size_t t = 0, mul = 1;
    std::vector<size_t> x(s.size());
    for (size_t d = s.size(); d-- > 0;)
        x[d] = i % s[d], i /= s[d];
    // output shape is reversed s; output index is reversed x: axis d of the input has stride prod(s[0..d-1])
    for (size_t d = 0; d < s.size(); d++)
        t += x[d] * mul, mul *= s[d];
    return t;
}

template <class T>
struct Mem
{
    char* p;
    explicit Mem(size_t bytes)
    {
        if (alignof(T) <= 16)
            p = (char*)malloc(bytes + (bytes == 0));
        else if (posix_memalign((void**)&p, alignof(T), bytes + (bytes == 0)))
            abort();
    }
    Mem(const Mem&) = delete;
    ~Mem() { free(p); }
};
template <class T, index_t D>
static void check_shape(Ctx& c, const V& s, size_t mis)
{
    size_t n = 1;
    shape<D> sh;
    for (index_t d = 0; d < D; d++)
        sh[d] = s[d], n *= s[d];
    constexpr size_t W = sizeof(T);
    const int passes   = sizeof(deep_subtype<T>) == 1 && n > 255 ? (n > 65535 ? 3 : 2) : 1;
    for (int pass = 0; pass < passes; pass++)
        for (int inplace = 0; inplace < 2; inplace++)
        {
            // elements of the in and out arrays are only as aligned as their type demands
            const size_t m = mis * alignof(T);
            Mem<T> in(n * W + m), out(inplace ? m : n * W + m);
            T* pi = reinterpret_cast<T*>(n ? in.p + m : nullptr);
            T* po = inplace ? pi : reinterpret_cast<T*>(n ? out.p + m : nullptr);
            std::vector<T> ref(n);
            for (size_t i = 0; i < n; i++)
            {
                mark(pi + i, i, pass);
                mark(ref.data() + target(s, i), i, pass);
            }
            const uint64_t before = n ? mc::hash_bytes(pi, n * W) : 0;
            matrix_transpose(po, (const T*)pi, sh);
            c.op(n), c.eval(n);
            for (size_t i = 0; i < n; i++)
                MC_CHECK(c, same(po[i], ref[i]), "%s transpose of %zu x %zu x %zu x %zu: element %zu of the result is wrong",
                         inplace ? "in-place" : "out-of-place", s[0], s.size() > 1 ? s[1] : 1, s.size() > 2 ? s[2] : 1,
                         s.size() > 3 ? s[3] : 1, i);
            if (!inplace && n)
                MC_CHECK(c, before == mc::hash_bytes(pi, n * W), "transpose out of place changed its input");
            if (n)
                c.outcome(mc::hash_bytes(po, n * W, n));
            // and back
            shape<D> rs;
            for (index_t d = 0; d < D; d++)
                rs[d] = s[D - 1 - d];
            matrix_transpose(po, (const T*)po, rs);
            for (size_t i = 0; i < n; i++)
            {
                T m2;
                mark(&m2, i, pass);
                MC_CHECK(c, same(po[i], m2), "transposing twice does not restore element %zu", i);
            }
        }
}

template <class T>
static void add_type(const char* name)
{
    const size_t n2 = mc::tier(48, 100);
    mc::add(std::string("t2:") + name, 1,
            [=](Ctx& c, size_t)
            {
                size_t r = c.choose(n2 + 1, "rows");
                size_t mis = c.choose(alignof(T) < 32 ? 2 : 1, "misalign");
                for (size_t k = 0; k <= n2; k++)
                {
                    c.log("rows %zu cols %zu", r, k);
                    c.key("%s/2d", name);
                    check_shape<T, 2>(c, { r, k }, mis);
                }
            });
    const size_t n3 = mc::tier(5, 8);
    mc::add(std::string("t3:") + name, 1,
            [=](Ctx& c, size_t)
            {
                size_t a = c.choose(n3 + 1, "d0"), b = c.choose(n3 + 1, "d1"), d = c.choose(n3 + 1, "d2");
                c.key("%s/3d", name);
                check_shape<T, 3>(c, { a, b, d }, 0);
            });
    const size_t n4 = mc::tier(3, 4);
    mc::add(std::string("t4:") + name, 1,
            [=](Ctx& c, size_t)
            {
                size_t a = 1 + c.choose(n4, "d0"), b = 1 + c.choose(n4, "d1"), d = 1 + c.choose(n4, "d2"), e = 1 + c.choose(n4, "d3");
                c.key("%s/4d", name);
                check_shape<T, 4>(c, { a, b, d, e }, 0);
            });
    mc::add(std::string("t1:") + name, 1,
            [=](Ctx& c, size_t)
            {
                size_t a = c.choose(40, "d0");
                c.key("%s/1d", name);
                check_shape<T, 1>(c, { a }, 0);
            });
}
// shapes crossing the thresholds of the blocked and cycle-following code (bitmap on the stack up to 65536 blocks)
template <class T>
static void add_long(const char* name, std::vector<V> shapes)
{
    for (V s : shapes)
        for (int flip = 0; flip < 2; flip++)
            mc::add(std::string("tl:") + name + mc::fmt("/%zux%zu", s[flip], s[1 - flip]), 1,
                    [=](Ctx& c, size_t)
                    {
                        c.key("%s/long", name);
                        check_shape<T, 2>(c, { s[flip], s[1 - flip] }, 0);
                    },
                    120);
}

// ---------------------------------------------------------------- interleaving
template <class T>
static T val(size_t ch, size_t i)
{
    if constexpr (std::is_same_v<T, i24>)
        return i24((i32)(1000 * (ch + 1) + i) * 251 - 4000000);
    else
        return (T)((ch + 1) * 17 + i * 3 + 1);
}
template <class T>
static void add_interleave(const char* name)
{
    mc::add(std::string("il:") + name, 1,
            [=](Ctx& c, size_t)
            {
                const size_t ch = c.choose(mc::tier(8, 20), "channels"), n = c.choose(mc::tier(20, 66), "frames");
                const int api = (int)c.choose(4, "api");
                c.key("%s/api%d", name, api);
                auto check = [&](const T* p)
                {
                    for (size_t i = 0; i < n; i++)
                        for (size_t k = 0; k < ch; k++)
                        {
                            T v = val<T>(k, i);
                            MC_CHECK(c, !memcmp(&p[i * ch + k], &v, sizeof(T)), "frame %zu channel %zu of %zu x %zu", i, k, ch, n);
                        }
                    c.op(n * ch), c.eval(n * ch);
                };
                std::vector<mcu::Buf<T>*> bufs;
                std::vector<T*> ptr;
                std::vector<std::unique_ptr<mcu::Buf<T>>> own;
                mcu::Buf<T> flat(n * ch);
                for (size_t k = 0; k < ch; k++)
                {
                    own.emplace_back(new mcu::Buf<T>(n));
                    ptr.push_back(own.back()->data());
                }
                auto checkplanar = [&](auto&& get)
                {
                    for (size_t k = 0; k < ch; k++)
                        for (size_t i = 0; i < n; i++)
                        {
                            T v = val<T>(k, i), g = get(k, i);
                            MC_CHECK(c, !memcmp(&g, &v, sizeof(T)), "channel %zu frame %zu of %zu x %zu", k, i, ch, n);
                        }
                    c.op(n * ch), c.eval(n * ch);
                };
                if (api == 0) // pointers: interleave, then deinterleave
                {
                    for (size_t k = 0; k < ch; k++)
                        for (size_t i = 0; i < n; i++)
                            ptr[k][i] = val<T>(k, i);
                    interleave(flat.data(), (const T**)ptr.data(), ch, n);
                    check(flat.data());
                    for (size_t k = 0; k < ch; k++)
                        memset((void*)ptr[k], 0x5c, n * sizeof(T));
                    deinterleave(ptr.data(), (const T*)flat.data(), ch, n);
                    checkplanar([&](size_t k, size_t i) { return ptr[k][i]; });
                }
                else if constexpr (!std::is_same_v<T, i24>)
                {
                    univector2d<T> in(ch);
                    for (size_t k = 0; k < ch; k++)
                    {
                        in[k] = univector<T>(n);
                        for (size_t i = 0; i < n; i++)
                            in[k][i] = val<T>(k, i);
                    }
                    if (api == 1) // returned
                    {
                        univector<T> r = interleave(in);
                        MC_CHECK(c, r.size() == n * ch, "interleaving %zu x %zu gives %zu elements", ch, n, r.size());
                        check(r.data());
                        univector2d<T> out(ch);
                        for (auto& o : out)
                            o = univector<T>(n, T(99));
                        deinterleave(out, r);
                        checkplanar([&](size_t k, size_t i) { return out[k][i]; });
                    }
                    else if (api == 2) // into a given vector
                    {
                        univector<T> r(n * ch, T(77));
                        interleave(r, in);
                        check(r.data());
                    }
                    else // into and out of memory with guards
                    {
                        auto r = make_univector(flat.data(), n * ch);
                        interleave(r, in);
                        check(flat.data());
                        univector2d<T, tag_dynamic_vector, tag_dynamic_vector> out(ch);
                        for (auto& o : out)
                            o = univector<T>(n, T(99));
                        deinterleave(out, r);
                        checkplanar([&](size_t k, size_t i) { return out[k][i]; });
                    }
                }
                c.outcome(mcu::digest((const unsigned char*)flat.data(), n * ch * sizeof(T)));
            });
}

void mc_register()
{
    add_type<u8>("u8");
    add_type<i16>("i16");
    add_type<float>("f32");
    add_type<double>("f64");
    add_type<complex<float>>("c32");
    add_type<complex<double>>("c64");
    add_type<vec<float, 4>>("f32x4");
    add_type<vec<float, 3>>("f32x3");
    add_type<vec<u8, 2>>("u8x2");
    add_type<vec<u8, 3>>("u8x3");
    add_type<vec<double, 8>>("f64x8");
    std::vector<V> shapes = { { 7, 101 }, { 16, 130 }, { 33, 65 }, { 31, 127 }, { 40, 41 }, { 64, 64 }, { 2, 1000 }, { 61, 61 },
                              { 5, 257 }, { 12, 300 } };
    add_long<float>("f32", shapes);
    add_long<complex<double>>("c64", shapes);
    add_long<u8>("u8", shapes);
    // more blocks than the stack bitmap holds
    add_long<u8>("u8big", { { 2, 32766 * 2 }, { 2, 65540 }, { 3, 22000 * 3 }, { 9, 70001 } });
    if (mc::thorough())
        add_long<float>("f32big", { { 2, 32766 * 2 }, { 2, 65540 }, { 3, 22000 * 3 }, { 9, 70001 } });
    add_interleave<u8>("u8");
    add_interleave<i16>("i16");
    add_interleave<i24>("i24");
    add_interleave<float>("f32");
    add_interleave<double>("f64");
}
MC_MAIN()
