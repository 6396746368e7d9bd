// C12: one plan executed by two threads at once. Every memory access of the transform code is a scheduling point. An
// execution may write only to its own output, scratch, stack and blocks it allocated (so it commutes with every other
// execution), and, run interleaved at every access, both threads get what each gets alone.
#define RW_DEFINE
#include "rw.hpp"
#include "dftref.hpp"
#include "c12_calls.hpp"
#include <ucontext.h>
using namespace dftref;

static constexpr size_t FSTACK = 4 << 20;
struct Range
{
    uintptr_t a, b;
};
struct Run
{
    const Job* job;
    bool inv;
    ABuf<unsigned char> in, out;
    Scratch tmp;
    bool scratch, inplace;
    std::vector<Range> own;
    uint64_t count = 0, stores = 0, stop = 0;
    std::string bad;
    Run(const Job* j, bool inv, bool scratch, bool inplace, int salt)
        : job(j), inv(inv), in(j->in), out(inplace ? 0 : j->out), tmp(scratch ? j->temp : 0), scratch(scratch), inplace(inplace)
    {
        for (size_t i = 0; i < j->in / j->elem; i++)
            if (j->elem == 4)
                ((float*)in.data())[i] = (float)mcu::uval(i, salt);
            else
                ((double*)in.data())[i] = mcu::uval(i, salt);
        own.push_back({ (uintptr_t)o(), (uintptr_t)o() + j->out });
        if (scratch)
            own.push_back({ (uintptr_t)tmp.get(), (uintptr_t)tmp.get() + j->temp });
    }
    unsigned char* o() { return inplace ? in.data() : out.data(); }
    void exec() { job->run(o(), in.data(), scratch ? tmp.get() : nullptr, inv); }
    std::vector<unsigned char> result() { return { o(), o() + job->out }; }
};
static Run* cur;
static ucontext_t ctx[2];
static Run* pair_[2];
static char* fstack;
static bool done1;

static void switch_from(int me)
{
    cur = pair_[1 - me];
    swapcontext(&ctx[me], &ctx[1 - me]);
    cur = pair_[me];
}
static void on_access(uintptr_t a, size_t n, bool write)
{
    Run* r = cur;
    if (!r)
        return;
    if (write)
    {
        r->stores++;
        bool ok = false;
        for (auto& g : r->own)
            ok |= a >= g.a && a + n <= g.b;
        if (!ok && r->bad.empty())
            r->bad = mc::fmt("writes %zu bytes that belong neither to its output nor to its scratch", n);
    }
    if (++r->count == r->stop && pair_[0])
        switch_from(r == pair_[1]);
}
static void on_alloc(void* p, size_t n)
{
    if (cur)
        cur->own.push_back({ (uintptr_t)p, (uintptr_t)p + n });
}
static void fiber()
{
    cur = pair_[1];
    pair_[1]->exec();
    done1 = true;
    cur   = pair_[0];
    setcontext(&ctx[0]);
}
static void alone(mc::Ctx& c, Run& r)
{
    char here;
    r.own.push_back({ (uintptr_t)&here - (7 << 20), (uintptr_t)&here });
    cur      = &r;
    rw::hook = on_access, rw::on_alloc = on_alloc;
    r.exec();
    rw::hook = nullptr, rw::on_alloc = nullptr;
    cur = nullptr;
    MC_CHECK(c, r.bad.empty(), "an execution %s", r.bad.c_str());
    c.eval(r.count);
}
static void both(mc::Ctx& c, Run& a, Run& b)
{
    char here;
    if (!fstack)
        fstack = (char*)aligned_alloc(64, FSTACK);
    a.own.push_back({ (uintptr_t)&here - (7 << 20), (uintptr_t)&here });
    b.own.push_back({ (uintptr_t)fstack, (uintptr_t)fstack + FSTACK });
    pair_[0] = &a, pair_[1] = &b;
    done1 = false;
    getcontext(&ctx[1]);
    ctx[1].uc_stack.ss_sp   = fstack;
    ctx[1].uc_stack.ss_size = FSTACK;
    ctx[1].uc_link          = nullptr;
    makecontext(&ctx[1], fiber, 0);
    cur      = &a;
    rw::hook = on_access, rw::on_alloc = on_alloc;
    a.exec();
    // the first thread is through; let the second finish
    if (!done1)
    {
        volatile bool back = false;
        getcontext(&ctx[0]);
        if (!back)
        {
            back = true;
            cur  = &b;
            setcontext(&ctx[1]);
        }
    }
    rw::hook = nullptr, rw::on_alloc = nullptr;
    cur = nullptr, pair_[0] = pair_[1] = nullptr;
    for (Run* r : { &a, &b })
        MC_CHECK(c, r->bad.empty(), "an execution %s", r->bad.c_str());
    c.op(2);
}

struct Cfg
{
    int kind, a, b;
    bool f64;
};
static std::vector<Cfg> configs()
{
    std::vector<Cfg> v;
    for (int f = 0; f < 2; f++)
    {
        for (int n : { 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 21, 24, 30, 31, 32, 35, 48, 60, 64, 77, 97, 100,
                       105, 121, 127, 128, 180, 210, 211, 256, 263, 512, 1024, 2048 })
            v.push_back({ 0, n, 0, (bool)f });
        for (int n : { 2, 4, 6, 8, 10, 14, 16, 22, 26, 30, 32, 64, 66, 128, 194, 256, 422, 512, 1024 })
            for (int k = 1; k <= 2; k++)
                for (int p = 0; p < 2; p++)
                    v.push_back({ k, n, p, (bool)f });
        for (int n : { 1, 2, 3, 5, 8, 12, 13, 16, 60, 64, 127, 211 })
            v.push_back({ 3, n, 0, (bool)f });
        for (auto s : std::vector<std::pair<int, int>>{ { 1, 4 }, { 3, 4 }, { 4, 4 }, { 2, 22 }, { 8, 16 }, { 13, 6 } })
        {
            v.push_back({ 4, s.first, s.second, (bool)f });
            v.push_back({ 5, s.first, s.second, (bool)f });
            v.push_back({ 6, s.first, s.second, (bool)f });
        }
    }
    return v;
}
static const char* kinds[] = { "complex", "real forward", "real inverse", "cosine", "complex 2-D", "real 2-D forward", "real 2-D inverse" };

static void body(mc::Ctx& c, const Cfg& g)
{
    c.log("%s %s %d %d", kinds[g.kind], g.f64 ? "f64" : "f32", g.a, g.b);
    auto job = make_job(g.kind, g.f64, g.a, g.b);
    int inva = job->one_way ? 0 : c.choose(2, "first inverse"), invb = job->one_way ? 0 : c.choose(2, "second inverse");
    bool scratch = c.flip("scratch supplied"), inplace = c.flip("in place");
    Run ra(job.get(), inva, scratch, inplace, 1), rb(job.get(), invb, scratch, inplace, 2);
    c.key("%s", kinds[g.kind]);
    alone(c, ra);
    alone(c, rb);
    auto wa = ra.result(), wb = rb.result();
    uint64_t na = ra.count, nb = rb.count;
    if (na == 0 || nb == 0)
        c.infra("no accesses traced");
    // every switch point, or evenly spread ones in long executions
    uint64_t maxp = mc::tier<uint64_t>(g.a * std::max(1, g.b) > 64 ? 40 : 400, 4000);
    uint64_t step = (na + maxp - 1) / maxp;
    uint64_t k    = 1 + step * c.choose((int)((na + step - 1) / step), "switch at access");
    // the other thread runs to its end, or (short executions) to each of its accesses
    std::vector<uint64_t> stops{ 0 };
    uint64_t cap = mc::tier<uint64_t>(12, 150);
    for (uint64_t l = 1, st = nb <= cap ? 1 : nb / 3; l < nb; l += st)
        stops.push_back(l);
    uint64_t l = c.pick(stops, "switch back at access");
    Run a(job.get(), inva, scratch, inplace, 1), b(job.get(), invb, scratch, inplace, 2);
    a.stop = k, b.stop = l;
    both(c, a, b);
    MC_CHECK(c, a.result() == wa, "interrupted at access %d of %d, the first thread gets another result than alone", (int)k, (int)na);
    MC_CHECK(c, b.result() == wb, "run inside the other execution, the second thread gets another result than alone");
    c.outcome(mcu::digest(wa.data(), wa.size(), k));
}
void mc_register()
{
    static auto cfg = configs();
    mc::add("share", cfg.size(), [](mc::Ctx& c, uint64_t r) { body(c, cfg[r]); });
}
MC_MAIN()
