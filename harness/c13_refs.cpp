// C13: owners of one block in several threads, every interleaving and permitted read.
#include <kfr/base.hpp>
#include "sched.hpp"
using namespace kfr;

enum
{
    WRITE_RELEASE, // use it, let go
    RELEASE,
    RETAIN_RELEASE2, // take another reference, let go of both
    REALLOC_RELEASE, // continue with a private copy
    SIZE_RELEASE,
    NK
};
static const char* names[] = { "use and release", "release", "retain, release twice", "reallocate and release", "ask size and release" };

static void run(mc::Ctx& c, int nthreads, int bound)
{
    int kind[3];
    for (int i = 0; i < nthreads; i++)
    {
        kind[i] = c.choose(NK, "owner");
        if (i && kind[i] < kind[i - 1])
            return;
    }
    int main_holds = c.flip("main thread holds a reference too");
    for (int i = 0; i < nthreads; i++)
        c.log("thread %d: %s", i + 1, names[kind[i]]);
    sched::begin(c);
    {
        int* p = (int*)details::aligned_malloc(64 * sizeof(int), 64);
        for (int i = 0; i < 64; i++)
            p[i] = i * 3;
        int refs = nthreads + main_holds;
        for (int i = 1; i < refs; i++)
            details::aligned_add_ref(p);
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nthreads; t++)
            fns.push_back([&, t] {
                switch (kind[t])
                {
                case WRITE_RELEASE:
                    p[t] = 1000 + t; // every owner has a word of its own
                    if (p[10] != 30 || p[t] != 1000 + t)
                        c.fail("an owner sees other contents");
                    details::aligned_release(p);
                    break;
                case RELEASE:
                    details::aligned_free(p);
                    break;
                case RETAIN_RELEASE2:
                    details::aligned_add_ref(p);
                    if (p[11] != 33)
                        c.fail("an owner sees other contents");
                    details::aligned_release(p);
                    details::aligned_release(p);
                    break;
                case REALLOC_RELEASE:
                {
                    int* q = (int*)details::aligned_reallocate(p, 100 * sizeof(int), 32);
                    for (int i = 8; i < 64; i++)
                        if (q[i] != i * 3)
                            c.fail("a reallocated copy holds other contents");
                    details::aligned_release(q);
                    break;
                }
                case SIZE_RELEASE:
                    if (details::aligned_size(p) != 64 * sizeof(int))
                        c.fail("the size reported is wrong");
                    details::aligned_release(p);
                    break;
                }
            });
        bool conflict = false; // reallocation copies everything: it excludes concurrent writers by contract
        for (int i = 0; i < nthreads; i++)
            for (int j = 0; j < nthreads; j++)
                conflict |= i != j && kind[i] == WRITE_RELEASE && kind[j] == REALLOC_RELEASE;
        if (!conflict)
        {
            sched::run(c, fns, bound);
            if (main_holds)
            {
                MC_CHECK(c, sched::live_containing(p) != 0, "freed while an owner remains");
                MC_CHECK(c, details::aligned_header(p)->references() == 1, "owner count is %u with one owner left",
                         (unsigned)details::aligned_header(p)->references());
                MC_CHECK(c, p[12] == 36, "contents changed");
                details::aligned_release(p);
            }
            MC_CHECK(c, sched::live_containing(p) == 0, "nobody owns the block and it is still allocated");
            c.eval();
        }
        c.outcome(kind[0] * 100 + kind[nthreads - 1] * 10 + main_holds);
    }
    sched::end(c);
}

class Object
{
    KFR_CLASS_REFCOUNT(Object)
public:
    mutable int value = 5;
    int* gone;
    Object(int* g) : gone(g) {}
    ~Object() { ++*gone; }
};
static void object(mc::Ctx& c, int nthreads)
{
    int kind[3];
    for (int i = 0; i < nthreads; i++)
        kind[i] = c.choose(2, "retain first");
    sched::begin(c);
    {
        int gone  = 0;
        Object* o = new Object(&gone);
        for (int i = 0; i < nthreads; i++)
            o->addref();
        std::vector<std::function<void()>> fns;
        for (int t = 0; t < nthreads; t++)
            fns.push_back([&, t] {
                if (kind[t])
                    o->addref();
                if (o->value != 5)
                    c.fail("object changed");
                if (kind[t])
                    o->release();
                o->release();
            });
        sched::run(c, fns, -1);
        MC_CHECK(c, gone == 1, "object destroyed %d times", gone);
        c.outcome(gone);
    }
    sched::end(c);
}
// copies of a tensor share one storage through a counted finalizer
static void tensors(mc::Ctx& c, int nthreads)
{
    int kind[3];
    for (int i = 0; i < nthreads; i++)
        kind[i] = c.choose(3, "drop|copy and drop|slice and drop");
    sched::begin(c);
    {
        const void* store;
        {
            std::vector<tensor<double, 1>> own;
            {
                tensor<double, 1> t(shape<1>(8), 2.5);
                store = t.data();
                own.assign(nthreads, t);
            }
            std::vector<std::function<void()>> fns;
            for (int t = 0; t < nthreads; t++)
                fns.push_back([&, t] {
                    tensor<double, 1> mine;
                    mine   = own[t];
                    own[t] = tensor<double, 1>();
                    if (kind[t] == 1)
                    {
                        tensor<double, 1> again = mine;
                        mine                    = tensor<double, 1>();
                        if (again(3) != 2.5)
                            c.fail("copy holds other data");
                    }
                    else if (kind[t] == 2)
                    {
                        tensor<double, 1> part = mine(trange(2, 6));
                        mine                   = tensor<double, 1>();
                        if (part(1) != 2.5)
                            c.fail("slice holds other data");
                    }
                });
            sched::run(c, fns, nthreads > 2 ? 2 : -1);
        }
        MC_CHECK(c, sched::live_containing((void*)store) == 0, "storage leaks");
        c.outcome(1);
    }
    sched::end(c);
}
void mc_register()
{
    bool th = mc::thorough();
    mc::add("two", 1, [](mc::Ctx& c, uint64_t) { run(c, 2, -1); }, 60);
    mc::add("three", 1, [th](mc::Ctx& c, uint64_t) { run(c, 3, th ? 4 : 2); }, 60);
    mc::add("object", 2, [](mc::Ctx& c, uint64_t r) { object(c, r + 2); }, 60);
    mc::add("tensors", 2, [](mc::Ctx& c, uint64_t r) { tensors(c, r + 2); }, 60);
}
MC_MAIN()
