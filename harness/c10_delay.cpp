// C10: circular buffers, delays and moving sums against one-element-at-a-time references, for every call sequence.
#include <kfr/base.hpp>
#include <kfr/dsp/delay.hpp>
#include <kfr/dsp/fir.hpp>
#include "util.hpp"
#include <deque>
using namespace kfr;
using mcu::ival;

// ---- circular buffer operations -------------------------------------------------------------------------------
template <class Vec, class T>
void ring_ops(mc::Ctx& c, Vec& v, size_t size)
{
    std::vector<T> ref(size);
    for (size_t i = 0; i < size; i++)
        v[i] = ref[i] = T(ival(i, 3));
    size_t wc = c.choose((int)size, "write cursor"), rc = c.choose((int)size, "read cursor");
    size_t mw = wc, mr = rc;
    uint64_t pos = 100;
    int depth    = mc::tier(3, 4);
    int kmax     = (int)std::min<size_t>(2 * size + 2, mc::tier(9, 12));
    for (int s = 0; s < depth; s++)
    {
        int op = c.choose(5, "op"); // 0 write block 1 read block 2 write element 3 read element 4 write/read vec<4>
        c.op();
        if (op == 0)
        {
            size_t k = c.choose(kmax + 1, "k");
            mcu::Buf<T> src(k);
            for (auto& x : src)
                x = T(ival(pos++, 4));
            v.ringbuf_write(wc, src.data(), k);
            for (auto& x : src)
                ref[mw] = x, mw = (mw + 1) % size;
        }
        else if (op == 1)
        {
            size_t k = c.choose(kmax + 1, "k");
            mcu::Buf<T> dst(k);
            v.ringbuf_read(rc, dst.data(), k);
            for (size_t i = 0; i < k; i++)
            {
                c.eval();
                MC_CHECK(c, dst[i] == ref[mr], "ringbuf_read(%zu) element %zu wrong, buffer of %zu", k, i, size);
                mr = (mr + 1) % size;
            }
        }
        else if (op == 2)
        {
            T x = T(ival(pos++, 4));
            v.ringbuf_write(wc, x);
            ref[mw] = x, mw = (mw + 1) % size;
        }
        else if (op == 3)
        {
            T x;
            v.ringbuf_read(rc, x);
            MC_CHECK(c, x == ref[mr], "ringbuf_read of one element wrong, buffer of %zu", size);
            mr = (mr + 1) % size;
        }
        else if (size >= 4 || true)
        {
            vec<T, 4> x, y;
            for (int i = 0; i < 4; i++)
                x[i] = T(ival(pos++, 4));
            v.ringbuf_write(wc, x);
            for (int i = 0; i < 4; i++)
                ref[mw] = x[i], mw = (mw + 1) % size;
            v.ringbuf_read(rc, y);
            for (int i = 0; i < 4; i++)
            {
                MC_CHECK(c, y[i] == ref[mr], "ringbuf_read(vec) element %d wrong, buffer of %zu", i, size);
                mr = (mr + 1) % size;
            }
        }
        MC_CHECK(c, wc == mw && rc == mr, "cursor %zu/%zu, one-at-a-time gives %zu/%zu, buffer of %zu", wc, rc, mw, mr,
                 size);
        for (size_t i = 0; i < size; i++)
            MC_CHECK(c, v[i] == ref[i], "contents differ at %zu after the write, buffer of %zu", i, size);
    }
    c.outcome(mcu::digest(ref.data(), size, wc * 64 + rc));
}
template <class T>
void ring_dyn(mc::Ctx& c, uint64_t root)
{
    univector<T> v(root + 1);
    c.log("size %zu", (size_t)root + 1);
    ring_ops<univector<T>, T>(c, v, root + 1);
}
template <class T>
void ring_static(mc::Ctx& c, uint64_t)
{
    univector<T, 5> v;
    ring_ops<univector<T, 5>, T>(c, v, 5);
}

// ---- delay ----------------------------------------------------------------------------------------------------
static const std::vector<int> CH  = { 1, 0, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 33 };
static const std::vector<int> CHT = { 1, 2, 3, 5, 8, 13, 16, 31 };

template <class T, size_t D>
void delay_one(mc::Ctx& c)
{
    c.log("delay %zu", D);
    delay_state<T, D> st1;
    delay_state<T, D, tag_dynamic_vector> st2;
    std::vector<T> h[2];
    uint64_t pos = 0;
    int depth    = mc::tier(3, 4);
    for (int s = 0; s < depth; s++)
    {
        int k    = c.pick(CH, "n");
        int mode = c.choose(3, "mode"); // owned, ref static, ref dynamic
        univector<T> in(k), out(k);
        for (auto& x : in)
            x = T(ival(pos++, 5));
        c.op();
        std::vector<T> hh;
        std::vector<T>* ref = &hh;
        if (mode == 0)
            out = delay<D>(in);
        else if (mode == 1)
        {
            if constexpr (D > 1)
                out = delay(in, std::ref(st1)), ref = h + 0;
            else
                continue;
        }
        else
        {
            if constexpr (D > 1)
                out = delay(in, std::ref(st2)), ref = h + 1;
            else
                continue;
        }
        ref->insert(ref->end(), in.begin(), in.end());
        size_t base = ref->size() - k;
        for (int i = 0; i < k; i++)
        {
            c.eval();
            T want = base + i >= D ? (*ref)[base + i - D] : T(0);
            MC_CHECK(c, out[i] == want, "delay<%zu> mode %d: sample %zu (offset %d of %d) wrong", D, mode, base + i, i, k);
        }
        if (k)
            c.outcome(mcu::digest(out.data(), k, base));
    }
}
template <class T>
void delays(mc::Ctx& c, uint64_t root)
{
    switch (root)
    {
    case 0: return delay_one<T, 1>(c);
    case 1: return delay_one<T, 2>(c);
    case 2: return delay_one<T, 3>(c);
    case 3: return delay_one<T, 4>(c);
    case 4: return delay_one<T, 5>(c);
    case 5: return delay_one<T, 7>(c);
    case 6: return delay_one<T, 8>(c);
    case 7: return delay_one<T, 9>(c);
    case 8: return delay_one<T, 16>(c);
    case 9: return delay_one<T, 17>(c);
    case 10: return delay_one<T, 33>(c);
    case 11: return delay_one<T, 100>(c);
    }
}

// ---- moving sum -----------------------------------------------------------------------------------------------
template <class T>
void msum_check(mc::Ctx& c, const std::vector<T>& h, const univector<T>& out, size_t len, const char* what)
{
    size_t base = h.size() - out.size();
    for (size_t i = 0; i < out.size(); i++)
    {
        T want = 0;
        for (size_t j = 0; j < len && j <= base + i; j++)
            want += h[base + i - j];
        c.eval();
        MC_CHECK(c, out[i] == want, "%s of %zu: sample %zu (offset %zu of %zu) wrong", what, len, base + i, i, out.size());
    }
    if (out.size())
        c.outcome(mcu::digest(out.data(), out.size(), base));
}
template <class T>
void msums(mc::Ctx& c, uint64_t root)
{
    size_t len = root + 1;
    c.log("length %zu", len);
    std::vector<T> h;
    uint64_t pos = 0;
    moving_sum_state<T, tag_dynamic_vector> st(len);
    int depth = mc::tier(3, 4);
    for (int s = 0; s < depth; s++)
    {
        int k    = c.pick(CH, "n");
        bool own = c.flip("owned");
        univector<T> in(k), out(k);
        for (auto& x : in)
            x = T(ival(pos++, 6));
        c.op();
        if (own)
        {
            std::vector<T> hh(in.begin(), in.end());
            out = moving_sum(in, len);
            msum_check(c, hh, out, len, "moving_sum");
        }
        else
        {
            h.insert(h.end(), in.begin(), in.end());
            out = moving_sum(in, std::ref(st));
            msum_check(c, h, out, len, "moving_sum(ref state)");
        }
    }
}
template <class T, size_t N>
void msum_static(mc::Ctx& c, uint64_t)
{
    std::vector<T> h;
    uint64_t pos = 0;
    moving_sum_state<T, N> st;
    for (int s = 0; s < mc::tier(3, 4); s++)
    {
        int k = c.pick(CH, "n");
        univector<T> in(k), out(k);
        for (auto& x : in)
            x = T(ival(pos++, 6));
        c.op();
        h.insert(h.end(), in.begin(), in.end());
        out = moving_sum(in, std::ref(st));
        msum_check(c, h, out, N, "moving_sum(ref static state)");
    }
}
template <class T>
void fracs(mc::Ctx& c, uint64_t root)
{
    T d   = T(root) / 4;
    int k = c.choose(40, "n");
    univector<T> in(k), out(k);
    for (int i = 0; i < k; i++)
        in[i] = T(4 * ival(i, 7));
    out = fracdelay(in, d);
    for (int i = 0; i < k; i++)
        MC_CHECK(c, out[i] == (1 - d) * in[i] + d * (i ? in[i - 1] : 0), "fracdelay(%g) sample %d of %d", (double)d, i, k);
    c.eval(k);
    if (k)
        c.outcome(mcu::digest(out.data(), k));
}

void mc_register()
{
    mc::add("ring_f32", 7, ring_dyn<float>);
    mc::add("ring_i32", mc::tier(4, 7), ring_dyn<int>);
    mc::add("ring_static", 1, ring_static<double>);
    mc::add("delay_f32", 12, delays<float>);
    mc::add("delay_f64", 12, delays<double>);
    mc::add("delay_i32", 12, delays<int>);
    mc::add("msum_f32", 20, msums<float>);
    mc::add("msum_f64", 20, msums<double>);
    mc::add("msum_i32", 20, msums<int>);
    mc::add("msum_static1", 1, msum_static<float, 1>);
    mc::add("msum_static2", 1, msum_static<float, 2>);
    mc::add("msum_static7", 1, msum_static<float, 7>);
    mc::add("fracdelay", 5, fracs<double>);
    mc::add("fracdelay_f32", 5, fracs<float>);
}
MC_MAIN()
