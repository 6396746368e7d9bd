// C11: the single-producer single-consumer queue under every interleaving and every permitted read, and sequentially
// under every operation history.
#include <kfr/base.hpp>
#include "sched.hpp"
#include <deque>
using namespace kfr;

struct Op
{
    int n;
    bool partial;
};
struct Item
{
    int a, b, c; // several words, so that a torn or stale copy shows
    bool operator==(const Item& o) const { return a == o.a && b == o.b && c == o.c; }
};
template <class T>
T item(int i);
template <>
int item<int>(int i)
{
    return 1000 + i;
}
template <>
Item item<Item>(int i)
{
    return { 1000 + i, 2000 + i, 3000 + i };
}
static int num(const int& v) { return v; }
static int num(const Item& v) { return v.a; }

struct Rec
{
    int requested, got;
    bool partial;
    long other; // how much the other side had completed when this call started / ended
    long other_end;
};

template <class T>
void concurrent(mc::Ctx& c, size_t cap, int nops, int bound, bool full)
{
    // scripts
    std::vector<Op> ops[2];
    std::vector<int> sizes;
    for (int k = 1; k <= (int)cap + 1 && k <= 3; k++)
        sizes.push_back(k);
    if (!mc::thorough() && sizes.size() > 2)
        sizes = { 1, (int)cap }; // one item, and as many as fit
    for (int side = 0; side < 2; side++)
        for (int i = 0; i < nops; i++)
        {
            Op o;
            o.n       = c.pick(sizes, side ? "consume" : "produce");
            o.partial = o.n > 1 && c.flip("partial");
            ops[side].push_back(o);
        }
    int offset  = mc::thorough() && full ? c.choose((int)cap, "start offset") : (int)(cap - 1);
    int prefill = mc::thorough() && full ? c.choose((int)std::min<size_t>(cap, 2) + 1, "prefill") : c.choose(2, "prefill");
    c.log("capacity %zu", cap);
    sched::begin(c);
    {
        univector<T> buf(cap);
        lockfree_ring_buffer<T> q;
        std::vector<T> src, got;
        for (int i = 0; i < 64; i++)
            src.push_back(item<T>(i));
        // sequential prologue
        for (int i = 0; i < offset; i++)
        {
            T v = item<T>(-1 - i), w;
            q.try_enqueue(&v, 1, buf);
            q.try_dequeue(&w, 1, buf);
        }
        long in = q.try_enqueue(src.data(), prefill, buf), out = 0;
        MC_CHECK(c, in == prefill, "prologue: %ld of %d items enqueued into an empty queue of %zu", in, prefill, cap);
        std::vector<Rec> rec[2];
        rec[0].reserve(nops);
        rec[1].reserve(nops);
        std::vector<T> taken(64, item<T>(-77));
        auto producer = [&] {
            for (auto& o : ops[0])
            {
                Rec r;
                {
                    sched::Quiet z;
                    r = { o.n, 0, o.partial, out, 0 };
                }
                size_t k = q.try_enqueue(src.data() + in, o.n, buf, o.partial);
                sched::Quiet z;
                r.got       = (int)k;
                r.other_end = out;
                rec[0].push_back(r);
                if (k > (size_t)o.n)
                    c.fail("try_enqueue of %d items reports %zu", o.n, k);
                in += k;
            }
        };
        auto consumer = [&] {
            for (auto& o : ops[1])
            {
                Rec r;
                {
                    sched::Quiet z;
                    r = { o.n, 0, o.partial, in, 0 };
                }
                size_t k = q.try_dequeue(taken.data() + out, o.n, buf, o.partial);
                sched::Quiet z;
                r.got       = (int)k;
                r.other_end = in;
                rec[1].push_back(r);
                if (k > (size_t)o.n)
                    c.fail("try_dequeue of %d items reports %zu", o.n, k);
                out += k;
            }
        };
        sched::run(c, { producer, consumer }, bound);
        // what is left
        long left = in - out;
        MC_CHECK(c, left >= 0 && left <= (long)cap, "%ld items went in and %ld came out of a queue of %zu", in, out, cap);
        MC_CHECK(c, (long)q.size() == left, "size() is %zu with %ld items left", q.size(), left);
        size_t k = q.try_dequeue(taken.data() + out, cap + 1, buf, true);
        MC_CHECK(c, (long)k == left, "%zu items drained of %ld left", k, left);
        for (long i = 0; i < in; i++)
            MC_CHECK(c, taken[i] == item<T>(i), "item %ld came out as %d", i, num(taken[i]) - 1000);
        for (long i = in; i < 64; i++)
            MC_CHECK(c, taken[i] == item<T>(-77), "wrote past the items taken");
        // every answer must be explained by some amount of progress of the other side between its start and its end
        // (a relaxed read may be stale: any earlier amount is allowed too, but never more than was there)
        for (int side = 0; side < 2; side++)
        {
            long mine = side == 0 ? prefill : 0;
            for (auto& r : rec[side])
            {
                bool ok = false;
                for (long o = side == 0 ? 0 : 0; o <= r.other_end + 16 && !ok; o++)
                {
                    if (side == 0 ? o > in : o > in)
                        break;
                    long avail = side == 0 ? (long)cap - (mine - o) : o - mine;
                    if (avail < 0 || avail > (long)cap)
                        continue;
                    long w = r.requested <= avail ? r.requested : r.partial ? avail : 0;
                    ok     = w == r.got;
                }
                MC_CHECK(c, ok, "%s of %d items%s reports %d", side ? "dequeue" : "enqueue", r.requested,
                         r.partial ? " (partial)" : "", r.got);
                mine += r.got;
            }
        }
        c.eval(in + nops * 2);
        uint64_t h = in * 100 + out;
        for (int s = 0; s < 2; s++)
            for (auto& r : rec[s])
                h = mc::hash_mix(h, r.got * 8 + r.requested);
        c.outcome(h);
    }
    sched::end(c);
}

// one thread: exact results for every history
template <class T>
void sequential(mc::Ctx& c, size_t cap, int depth, bool wrap)
{
    c.log("capacity %zu", cap);
    univector<T> buf(cap, item<T>(-5));
    lockfree_ring_buffer<T> q;
    if (wrap)
    {
        // counters just below the largest size_t (capacity divides 2^64): first and last word of the object
        size_t v = size_t(0) - 3;
        memcpy((void*)&q, &v, sizeof v);
        memcpy((char*)&q + 64, &v, sizeof v);
    }
    std::deque<int> model;
    int next = 0;
    for (int s = 0; s < depth; s++)
    {
        int kind   = c.choose(4, "enqueue|enqueue partial|dequeue|dequeue partial");
        int n      = c.choose((int)cap + 3, "n");
        bool part  = kind & 1;
        size_t cnt = kind < 2 ? cap - model.size() : model.size();
        size_t w   = (size_t)n <= cnt ? n : part ? cnt : 0, k;
        c.op();
        std::vector<T> tmp(n, item<T>(-9));
        if (kind < 2)
        {
            for (int i = 0; i < n; i++)
                tmp[i] = item<T>(next + i);
            k = q.try_enqueue(tmp.data(), n, buf, part);
            MC_CHECK(c, k == w, "enqueue of %d%s with %zu free reports %zu", n, part ? " (partial)" : "", cnt, k);
            for (size_t i = 0; i < k; i++)
                model.push_back(next + i);
            next += k;
        }
        else
        {
            k = q.try_dequeue(tmp.data(), n, buf, part);
            MC_CHECK(c, k == w, "dequeue of %d%s with %zu present reports %zu", n, part ? " (partial)" : "", cnt, k);
            for (int i = 0; i < n; i++)
            {
                T want = item<T>(-9);
                if (i < (int)k)
                    want = item<T>(model.front()), model.pop_front();
                MC_CHECK(c, tmp[i] == want, "position %d of a dequeue of %d (%zu delivered) holds %d", i, n, k, num(tmp[i]));
            }
        }
        MC_CHECK(c, q.size() == model.size(), "size() is %zu with %zu items", q.size(), model.size());
        c.eval(n + 2);
    }
    c.outcome(mc::hash_mix(next, model.size()));
}

void mc_register()
{
    bool th = mc::thorough();
    mc::add("seq", 6, [th](mc::Ctx& c, uint64_t r) { sequential<int>(c, r + 1, r < 3 ? (th ? 5 : 4) : (th ? 4 : 3), false); });
    mc::add("seq_item", 3, [](mc::Ctx& c, uint64_t r) { sequential<Item>(c, r + 2, 3, false); });
    mc::add("seq_wrap", 4, [](mc::Ctx& c, uint64_t r) { sequential<int>(c, size_t(1) << r, 4 - (r > 1), true); });
    mc::add("conc1", 4, [](mc::Ctx& c, uint64_t r) { concurrent<Item>(c, r + 1, 1, -1, true); }, 120);
    mc::add("conc2", th ? 4 : 3, [](mc::Ctx& c, uint64_t r) { concurrent<int>(c, r + 1, 2, -1, true); }, 120);
    mc::add("conc3", th ? 3 : 2, [th](mc::Ctx& c, uint64_t r) { concurrent<Item>(c, r + 1, 3, th ? 3 : 2, false); }, 120);
}
MC_MAIN()
