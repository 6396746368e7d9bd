// C12: the plan cache under every interleaving of get / getreal / clear calls of two or three threads.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "sched.hpp"
#include <complex>
using namespace kfr;

enum
{
    G32_4, // single precision, size 4
    G32_8,
    G64_4,
    R32_8,
    R64_8,
    CLEAR,
    NOPS
};
static const char* names[] = { "get f32 4", "get f32 8", "get f64 4", "getreal f32 8", "getreal f64 8", "clear" };

struct Held
{
    int kind;
    dft_plan_ptr<f32> c32;
    dft_plan_ptr<f64> c64;
    dft_plan_real_ptr<f32> r32;
    dft_plan_real_ptr<f64> r64;
    const void* id() const { return c32 ? (const void*)c32.get() : c64 ? (const void*)c64.get() : r32 ? (const void*)r32.get() : (const void*)r64.get(); }
};

template <class T, class P>
static bool complex_ok(const P& plan, size_t n)
{
    if (plan.size != n)
        return false;
    univector<complex<T>> in(n), out(n);
    univector<u8> temp(plan.temp_size);
    for (size_t j = 0; j < n; j++)
    {
        for (size_t i = 0; i < n; i++)
            in[i] = complex<T>(i == j ? 1 : 0, 0);
        plan.execute(out.data(), in.data(), temp.data());
        for (size_t k = 0; k < n; k++)
        {
            std::complex<double> w = std::polar(1.0, -2 * 3.14159265358979323846 * (double)(j * k % n) / n);
            if (!(std::fabs(out[k].real() - w.real()) < 1e-5 && std::fabs(out[k].imag() - w.imag()) < 1e-5))
                return false;
        }
    }
    return true;
}
template <class T, class P>
static bool real_ok(const P& plan, size_t n)
{
    if (plan.size != n)
        return false;
    univector<T> in(n);
    univector<complex<T>> out(n / 2 + 1);
    univector<u8> temp(plan.temp_size);
    for (size_t j = 0; j < n; j++)
    {
        for (size_t i = 0; i < n; i++)
            in[i] = i == j ? 1 : 0;
        plan.execute(out.data(), in.data(), temp.data());
        for (size_t k = 0; k <= n / 2; k++)
        {
            std::complex<double> w = std::polar(1.0, -2 * 3.14159265358979323846 * (double)(j * k % n) / n);
            if (!(std::fabs(out[k].real() - w.real()) < 1e-5 && std::fabs(out[k].imag() - w.imag()) < 1e-5))
                return false;
        }
    }
    return true;
}
static bool works(const Held& h)
{
    switch (h.kind)
    {
    case G32_4:
        return h.c32 && complex_ok<f32>(*h.c32, 4);
    case G32_8:
        return h.c32 && complex_ok<f32>(*h.c32, 8);
    case G64_4:
        return h.c64 && complex_ok<f64>(*h.c64, 4);
    case R32_8:
        return h.r32 && real_ok<f32>(*h.r32, 8);
    case R64_8:
        return h.r64 && real_ok<f64>(*h.r64, 8);
    }
    return true;
}
static Held call(int k)
{
    Held h;
    h.kind  = k;
    auto& i = dft_cache::instance();
    switch (k)
    {
    case G32_4:
        h.c32 = i.get(ctype_t<f32>(), 4);
        break;
    case G32_8:
        h.c32 = i.get(ctype_t<f32>(), 8);
        break;
    case G64_4:
        h.c64 = i.get(ctype_t<f64>(), 4);
        break;
    case R32_8:
        h.r32 = i.getreal(ctype_t<f32>(), 8);
        break;
    case R64_8:
        h.r64 = i.getreal(ctype_t<f64>(), 8);
        break;
    case CLEAR:
        i.clear();
        break;
    }
    return h;
}

static void body(mc::Ctx& c, int nthreads, int nops, int bound, std::vector<int> menu)
{
    std::vector<int> script[3], pre;
    for (int t = 0; t < nthreads; t++)
        for (int i = 0; i < nops; i++)
            script[t].push_back(c.pick(menu, "call"));
    // symmetric threads: keep one representative
    for (int t = 1; t < nthreads; t++)
        if (script[t] < script[t - 1])
            return;
    int warm = c.choose(3, "before: nothing | one plan | the object only");
    for (int t = 0; t < nthreads; t++)
        for (int k : script[t])
            c.log("thread %d: %s", t + 1, names[k]);
    sched::begin(c);
    {
        Held first;
        if (warm == 1)
            first = call(script[0][0]);
        else if (warm == 2)
            dft_cache::instance();
        std::vector<Held> got[3];
        for (auto& g : got)
            g.reserve(4);
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nthreads; t++)
            fns.push_back([&, t] {
                for (int k : script[t])
                {
                    Held h = call(k);
                    if (k != CLEAR && h.id() == nullptr)
                        c.fail("%s returns no plan", names[k]);
                    sched::Quiet z;
                    got[t].push_back(h);
                }
            });
        sched::run(c, fns, bound);
        bool cleared = warm == 1 && script[0][0] == CLEAR;
        for (int t = 0; t < nthreads; t++)
            for (int k : script[t])
                cleared |= k == CLEAR;
        const void* id[NOPS] = {};
        uint64_t h           = 0;
        int distinct         = 0;
        for (int t = 0; t < nthreads; t++)
            for (auto& g : got[t])
                if (g.kind != CLEAR)
                {
                    MC_CHECK(c, works(g), "the plan held from %s does not compute the transform", names[g.kind]);
                    if (!cleared)
                    {
                        MC_CHECK(c, !id[g.kind] || id[g.kind] == g.id(), "%s returned two different plans", names[g.kind]);
                        id[g.kind] = g.id();
                    }
                    c.eval();
                }
        // still the cache's own plan afterwards, and it survives clearing
        Held again = call(script[0][0]);
        if (again.kind != CLEAR && !cleared)
            MC_CHECK(c, again.id() == id[again.kind], "%s returns another plan afterwards", names[again.kind]);
        dft_cache::instance().clear();
        MC_CHECK(c, works(again), "a held plan stops working after the cache is cleared");
        for (int t = 0; t < nthreads; t++)
            for (auto& g : got[t])
                MC_CHECK(c, works(g), "a held plan stops working after the cache is cleared");
        for (int t = 0; t < nthreads; t++)
            for (auto& g : got[t])
                h = mc::hash_mix(h, g.kind);
        c.outcome(mc::hash_mix(h, cleared));
        // dropped by everybody: the plan's memory must go (checked through the block that holds it)
        std::vector<void*> ids;
        for (int t = 0; t < nthreads; t++)
            for (auto& g : got[t])
                if (g.kind != CLEAR)
                    ids.push_back((void*)g.id());
        for (auto& g : got)
            g.clear();
        first = again = Held();
        for (void* p : ids)
            MC_CHECK(c, sched::live_containing(p) == 0, "a plan that nobody holds is still allocated");
    }
    sched::forget_guards();
    sched::end(c);
}

void mc_register()
{
    bool th = mc::thorough();
    std::vector<int> all{ G32_4, G32_8, G64_4, R32_8, R64_8, CLEAR }, few{ G32_4, G32_8, R32_8, CLEAR };
    mc::add("two_once", 1, [all](mc::Ctx& c, uint64_t) { body(c, 2, 1, -1, all); }, 60);
    mc::add("two_twice", 1, [all, few, th](mc::Ctx& c, uint64_t) { body(c, 2, 2, th ? 5 : 2, th ? all : few); }, 60);
    mc::add("three_once", 1, [all, few, th](mc::Ctx& c, uint64_t) { body(c, 3, 1, th ? 4 : 2, th ? all : few); }, 60);
    if (th)
        mc::add("three_twice", 1, [few](mc::Ctx& c, uint64_t) { body(c, 3, 2, 2, few); }, 60);
}
MC_MAIN()
