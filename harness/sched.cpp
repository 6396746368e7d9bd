#include "sched.hpp"
#include <cassert>
#include <map>
#include <memory>
#include <new>
#include <pthread.h>
#include <ucontext.h>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>

namespace
{
constexpr int MAXT = 5; // thread 0 is the main thread
constexpr size_t STACK = 512 * 1024;

struct VC
{
    uint32_t c[MAXT] = {};
    void join(const VC& o)
    {
        for (int i = 0; i < MAXT; i++)
            c[i] = std::max(c[i], o.c[i]);
    }
};
struct Bundle
{
    VC vc;
    std::vector<int> view;
    void join(const Bundle& o)
    {
        vc.join(o.vc);
        if (view.size() < o.view.size())
            view.resize(o.view.size(), 0);
        for (size_t i = 0; i < o.view.size(); i++)
            view[i] = std::max(view[i], o.view[i]);
    }
    int& at(int loc)
    {
        if ((int)view.size() <= loc)
            view.resize(loc + 1, 0);
        return view[loc];
    }
};
struct Msg
{
    uint64_t val;
    Bundle b;
};
struct Loc
{
    int id;
    int size;
    std::vector<Msg> mo;
};
struct ShByte
{
    uint32_t w = 0, aw = 0; // clock of the last plain / atomic write
    uint8_t wt = 0, awt = 0, freed = 0;
    uint32_t r[MAXT] = {}, ar[MAXT] = {};
};
struct Block
{
    ShByte b[64];
};
struct Thread
{
    Bundle cur, acq, rel;
    std::function<void()> fn;
    ucontext_t ctx;
    bool done = true, started = false;
    const void* waiting = nullptr; // mutex or guard
    bool waiting_shared = false;
    std::string error;
    char* stack = nullptr;
};
struct Mutex
{
    int owner = -1, depth = 0;
    unsigned readers = 0; // threads that hold it shared
    Bundle b;
};
struct State
{
    bool tracking = false, running = false;
    int cur       = 0, nthreads = 0, preempt = -1, busy = 0;
    mc::Ctx* c    = nullptr;
    Thread t[MAXT];
    ucontext_t main;
    std::unordered_map<uintptr_t, std::unique_ptr<Block>> shadow;
    std::vector<std::unique_ptr<Block>> pool;
    std::map<uintptr_t, Loc> locs;
    std::vector<Loc> retired;
    int nlocs = 0;
    std::map<const void*, Mutex> mutexes;
    std::map<uintptr_t, size_t> live;
    std::map<uintptr_t, size_t> dead;
    std::vector<void*> quarantine;
    std::vector<uint64_t*> guards;
    std::vector<pthread_once_t*> onces;
    std::map<const void*, int> guard_owner;
    Bundle sc;
    std::string failure;
    uint64_t steps = 0;
};
State S;

struct Busy
{
    Busy() { ++S.busy; }
    ~Busy() { --S.busy; }
};

[[noreturn]] void die(std::string m)
{
    S.failure = std::move(m);
    if (S.running && S.cur != 0)
    {
        S.busy = 0;
        setcontext(&S.main);
    }
    abort();
}
bool active() { return S.running && S.cur != 0 && !S.busy; }

ShByte& sh(uintptr_t a)
{
    auto& p = S.shadow[a >> 6];
    if (!p)
    {
        if (!S.pool.empty())
        {
            p = std::move(S.pool.back());
            S.pool.pop_back();
            *p = Block();
        }
        else
            p.reset(new Block());
    }
    return p->b[a & 63];
}
std::string where(uintptr_t a)
{
    auto it = S.live.upper_bound(a);
    if (it != S.live.begin())
    {
        --it;
        if (a < it->first + it->second)
            return mc::fmt("byte %zu of a heap block of %zu bytes", (size_t)(a - it->first), it->second);
    }
    for (int i = 1; i < MAXT; i++)
        if (S.t[i].stack && a >= (uintptr_t)S.t[i].stack && a < (uintptr_t)S.t[i].stack + STACK)
            return mc::fmt("the stack of thread %d", i);
    return "static or harness memory";
}
// kind: 0 plain read, 1 plain write, 2 atomic read, 3 atomic write, 4 free
void access(uintptr_t a, size_t n, int kind)
{
    Busy busy;
    Thread& t = S.t[S.cur];
    if (a >= (uintptr_t)t.stack && a < (uintptr_t)t.stack + STACK)
        return;
    bool write = kind == 1 || kind == 3 || kind == 4, atomic = kind == 2 || kind == 3;
    for (size_t i = 0; i < n; i++)
    {
        ShByte& s = sh(a + i);
        if (s.freed)
            die(mc::fmt("thread %d %s %s after it was freed", S.cur, write ? "writes" : "reads",
                        mc::fmt("memory at %zu bytes", i).c_str()));
        auto hb = [&](int u, uint32_t clk) { return u == S.cur || clk <= t.cur.vc.c[u]; };
        if (s.w && !hb(s.wt, s.w))
            die(mc::fmt("data race: thread %d %s %s while thread %d writes it", S.cur, write ? "writes" : "reads",
                        where(a + i).c_str(), s.wt));
        if (!atomic && s.aw && !hb(s.awt, s.aw))
            die(mc::fmt("data race: thread %d %s %s, which thread %d writes atomically, without ordering", S.cur,
                        write ? "writes" : "reads", where(a + i).c_str(), s.awt));
        if (write)
            for (int u = 0; u < MAXT; u++)
            {
                if (s.r[u] && !hb(u, s.r[u]))
                    die(mc::fmt("data race: thread %d writes %s while thread %d reads it", S.cur, where(a + i).c_str(), u));
                if (!atomic && s.ar[u] && !hb(u, s.ar[u]))
                    die(mc::fmt("data race: thread %d %s %s while thread %d uses it atomically", S.cur,
                                kind == 4 ? "frees" : "writes", where(a + i).c_str(), u));
            }
        uint32_t clk = t.cur.vc.c[S.cur];
        if (kind == 0)
            s.r[S.cur] = clk;
        else if (kind == 1)
            s.w = clk, s.wt = S.cur;
        else if (kind == 2)
            s.ar[S.cur] = clk;
        else if (kind == 3)
            s.aw = clk, s.awt = S.cur;
        else
            s.freed = 1;
    }
    if ((kind == 1 || kind == 4) && !S.locs.empty())
    {
        // a plain write starts a new object there: forget the modification order
        auto it = S.locs.lower_bound(a >= 8 ? a - 7 : 0);
        while (it != S.locs.end() && it->first < a + n)
        {
            if (it->first + it->second.size > a)
                it = S.locs.erase(it);
            else
                ++it;
        }
    }
}

uint64_t rd(uintptr_t a, int n)
{
    uint64_t v = 0;
    memcpy(&v, (void*)a, n);
    return v;
}
Loc& loc(uintptr_t a, int n)
{
    auto it = S.locs.find(a);
    if (it == S.locs.end())
    {
        Loc l;
        l.id   = S.nlocs++;
        l.size = n;
        l.mo.push_back({ rd(a, n), Bundle() });
        it = S.locs.emplace(a, std::move(l)).first;
    }
    return it->second;
}
bool enabled(int i)
{
    Thread& t = S.t[i];
    if (t.done)
        return false;
    if (t.waiting)
    {
        auto m = S.mutexes.find(t.waiting);
        if (m != S.mutexes.end())
            return m->second.owner < 0 && (t.waiting_shared || m->second.readers == 0);
        auto g = S.guard_owner.find(t.waiting);
        return g == S.guard_owner.end() || g->second < 0;
    }
    return true;
}
void switch_to(int to)
{
    int from = S.cur;
    if (to == from)
        return;
    S.cur  = to;
    int b  = S.busy;
    S.busy = 0;
    swapcontext(&S.t[from].ctx, &S.t[to].ctx);
    S.busy = b;
}
// pick who runs next; called with the current thread about to perform a visible operation (or blocked, or done)
void reschedule(bool blocked)
{
    int opts[MAXT], n = 0;
    if (!blocked && enabled(S.cur))
        opts[n++] = S.cur;
    bool free_switch = blocked || S.preempt != 0;
    if (free_switch)
        for (int i = 1; i < S.nthreads; i++)
            if (i != S.cur && enabled(i))
                opts[n++] = i;
    if (n == 0)
    {
        bool all = true;
        for (int i = 1; i < S.nthreads; i++)
            all &= S.t[i].done;
        if (all)
        {
            S.busy = 0;
            setcontext(&S.main);
        }
        die("deadlock: every unfinished thread waits for a lock");
    }
    int k = n == 1 ? 0 : S.c->choose(n, nullptr);
    if (!blocked && opts[k] != S.cur && S.preempt > 0)
        --S.preempt;
    if (S.c->desc && opts[k] != S.cur)
        S.c->log("-> thread %d", opts[k]);
    switch_to(opts[k]);
}
void visible()
{
    if (++S.steps > 100000)
        die("a thread does not terminate (100000 steps)");
    reschedule(false);
}
bool is_acq(int mo) { return mo == 1 || mo == 2 || mo == 4 || mo == 5; }
bool is_rel(int mo) { return mo == 3 || mo == 4 || mo == 5; }

uint64_t a_load(uintptr_t a, int n, int mo)
{
    if (!active())
        return rd(a, n);
    Busy busy;
    visible();
    access(a, n, 2);
    Loc& l    = loc(a, n);
    Thread& t = S.t[S.cur];
    int lo    = t.cur.at(l.id);
    if (mo == 5)
        lo = std::max(lo, S.sc.at(l.id));
    int last = (int)l.mo.size() - 1, ts = last;
    if (last > lo)
        ts = last - S.c->choose(last - lo + 1, nullptr);
    if (S.c->desc && ts != last)
        S.c->log("thread %d reads a value %d stores old", S.cur, last - ts);
    t.cur.at(l.id) = ts;
    const Msg& m   = l.mo[ts];
    t.acq.join(m.b);
    if (is_acq(mo))
        t.cur.join(m.b);
    return m.val;
}
void publish(Loc& l, uintptr_t a, int n, uint64_t v, int mo, const Bundle* carry)
{
    Thread& t = S.t[S.cur];
    int ts    = (int)l.mo.size();
    t.cur.at(l.id) = ts;
    Msg m;
    m.val = v;
    m.b   = is_rel(mo) ? t.cur : t.rel;
    m.b.at(l.id) = ts;
    if (carry)
        m.b.join(*carry);
    l.mo.push_back(std::move(m));
    if (is_rel(mo))
        t.cur.vc.c[S.cur]++;
    if (mo == 5)
        S.sc.at(l.id) = ts;
    memcpy((void*)a, &v, n);
}
void a_store(uintptr_t a, int n, uint64_t v, int mo)
{
    if (!active())
    {
        memcpy((void*)a, &v, n);
        return;
    }
    Busy busy;
    visible();
    access(a, n, 3);
    publish(loc(a, n), a, n, v, mo, nullptr);
}
template <class F>
uint64_t a_rmw(uintptr_t a, int n, int mo, F&& f)
{
    if (!active())
    {
        uint64_t o = rd(a, n), v;
        if (f(o, v))
            memcpy((void*)a, &v, n);
        return o;
    }
    Busy busy;
    visible();
    access(a, n, 3);
    Loc& l         = loc(a, n);
    Thread& t      = S.t[S.cur];
    int last       = (int)l.mo.size() - 1;
    t.cur.at(l.id) = last;
    Bundle rb      = l.mo[last].b;
    t.acq.join(rb);
    if (is_acq(mo))
        t.cur.join(rb);
    uint64_t o = l.mo[last].val, v;
    if (f(o, v))
        publish(l, a, n, v, mo, &rb);
    return o;
}
void fiber_entry(int i)
{
    Thread& t = S.t[i];
    try
    {
        t.fn();
    }
    catch (mc::Violation& v)
    {
        die(v.msg);
    }
    catch (std::exception& e)
    {
        die(std::string("unexpected exception in a thread: ") + e.what());
    }
    Busy busy;
    t.done = true;
    // joining: everything the thread did happens before the end of run()
    S.t[0].cur.join(t.cur);
    reschedule(true);
    abort();
}
void trampoline(int i) { fiber_entry(i); }

void clear_path()
{
    for (auto& p : S.shadow)
        if (S.pool.size() < 4096)
            S.pool.push_back(std::move(p.second));
    S.shadow.clear();
    S.locs.clear();
    S.nlocs = 0;
    S.mutexes.clear();
    S.guard_owner.clear();
    S.live.clear();
    S.dead.clear();
    for (void* p : S.quarantine)
        free(p);
    S.quarantine.clear();
    S.sc = Bundle();
    S.failure.clear();
    for (auto& t : S.t)
    {
        t.cur = t.acq = t.rel = Bundle();
        t.waiting             = nullptr;
        t.done                = true;
        t.fn                  = nullptr;
    }
    for (int i = 0; i < MAXT; i++)
        S.t[i].cur.vc.c[i] = 1;
}
} // namespace

extern "C" char __libc_single_threaded;
namespace sched
{
Quiet::Quiet() { ++S.busy; }
Quiet::~Quiet() { --S.busy; }
int self() { return S.cur; }
void point()
{
    if (active())
    {
        Busy b;
        visible();
    }
}
size_t live_blocks() { return S.live.size(); }
bool is_live(void* p) { return S.live.count((uintptr_t)p) != 0; }
size_t live_containing(void* p)
{
    auto it = S.live.upper_bound((uintptr_t)p);
    if (it == S.live.begin())
        return 0;
    --it;
    return (uintptr_t)p < it->first + std::max<size_t>(it->second, 1) ? it->second : 0;
}
void begin(mc::Ctx& c)
{
    S.busy = 0;
    S.running  = false;
    S.cur      = 0;
    S.tracking = false;
    clear_path();
    S.c        = &c;
    S.steps    = 0;
    S.tracking = true;
    __libc_single_threaded = 0;
}
void end(mc::Ctx&)
{
    S.tracking = false;
    std::string f = S.failure;
    clear_path();
    if (!f.empty())
        throw mc::Violation{ f };
}
void forget_guards()
{
    for (auto g : S.guards)
        *g = 0;
    S.guards.clear();
    for (auto o : S.onces)
        *o = PTHREAD_ONCE_INIT;
    S.onces.clear();
}
void run(mc::Ctx& c, std::vector<std::function<void()>> threads, int bound)
{
    S.c        = &c;
    S.nthreads = (int)threads.size() + 1;
    S.preempt  = bound;
    if (S.nthreads > MAXT)
        c.infra("too many threads");
    S.t[0].done = true;
    S.t[0].cur.vc.c[0]++;
    for (int i = 1; i < S.nthreads; i++)
    {
        Thread& t = S.t[i];
        if (!t.stack)
            t.stack = (char*)aligned_alloc(64, STACK);
        t.fn   = threads[i - 1];
        t.done = false;
        t.cur  = S.t[0].cur;
        t.acq = t.rel = Bundle();
        t.cur.vc.c[i] = 1;
        t.waiting     = nullptr;
        getcontext(&t.ctx);
        t.ctx.uc_stack.ss_sp   = t.stack;
        t.ctx.uc_stack.ss_size = STACK;
        t.ctx.uc_link          = nullptr;
        makecontext(&t.ctx, (void (*)())trampoline, 1, i);
    }
    S.t[0].cur.vc.c[0]++;
    S.failure.clear();
    S.running       = true;
    volatile int in = 0;
    getcontext(&S.main);
    if (!in)
    {
        in    = 1;
        // first thread to run is a free choice
        int k = S.nthreads == 2 ? 0 : c.choose(S.nthreads - 1, nullptr);
        if (c.desc)
            c.log("thread %d first", k + 1);
        S.cur = k + 1;
        setcontext(&S.t[S.cur].ctx);
    }
    S.running = false;
    S.cur     = 0;
    S.busy    = 0;
    c.op(S.steps);
    if (!S.failure.empty())
    {
        std::string f = S.failure;
        S.failure.clear();
        S.tracking = false;
        throw mc::Violation{ f };
    }
}
} // namespace sched

// ---------------------------------------------------------------------------------------------- instrumentation
extern "C"
{
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n)                                                                                                \
    void __tsan_read##n(void* p)                                                                             \
    {                                                                                                        \
        if (active())                                                                                        \
            access((uintptr_t)p, n, 0);                                                                      \
    }                                                                                                        \
    void __tsan_write##n(void* p)                                                                            \
    {                                                                                                        \
        if (active())                                                                                        \
            access((uintptr_t)p, n, 1);                                                                      \
    }                                                                                                        \
    void __tsan_unaligned_read##n(void* p) { __tsan_read##n(p); }                                            \
    void __tsan_unaligned_write##n(void* p) { __tsan_write##n(p); }                                          \
    void __tsan_volatile_read##n(void* p) { __tsan_read##n(p); }                                             \
    void __tsan_volatile_write##n(void* p) { __tsan_write##n(p); }                                           \
    void __tsan_read_write##n(void* p)                                                                       \
    {                                                                                                        \
        __tsan_read##n(p);                                                                                   \
        __tsan_write##n(p);                                                                                  \
    }                                                                                                        \
    void __tsan_unaligned_read_write##n(void* p) { __tsan_read_write##n(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void*) { __tsan_write8(p); }
void __tsan_vptr_read(void** p) { __tsan_read8(p); }
void __tsan_read_range(void* p, unsigned long n)
{
    if (active())
        access((uintptr_t)p, n, 0);
}
void __tsan_write_range(void* p, unsigned long n)
{
    if (active())
        access((uintptr_t)p, n, 1);
}
void* __tsan_memcpy(void* d, const void* s, size_t n)
{
    __tsan_read_range((void*)s, n);
    __tsan_write_range(d, n);
    return memcpy(d, s, n);
}
void* __tsan_memmove(void* d, const void* s, size_t n)
{
    __tsan_read_range((void*)s, n);
    __tsan_write_range(d, n);
    return memmove(d, s, n);
}
void* __tsan_memset(void* d, int c, size_t n)
{
    __tsan_write_range(d, n);
    return memset(d, c, n);
}
#define AT(bits, ty)                                                                                                       \
    ty __tsan_atomic##bits##_load(const volatile ty* p, int mo) { return (ty)a_load((uintptr_t)p, sizeof(ty), mo); }       \
    void __tsan_atomic##bits##_store(volatile ty* p, ty v, int mo) { a_store((uintptr_t)p, sizeof(ty), v, mo); }           \
    ty __tsan_atomic##bits##_exchange(volatile ty* p, ty v, int mo)                                                        \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t, uint64_t& n) { n = v; return true; });                \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_fetch_add(volatile ty* p, ty v, int mo)                                                       \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t o, uint64_t& n) { n = (ty)(o + v); return true; });    \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_fetch_sub(volatile ty* p, ty v, int mo)                                                       \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t o, uint64_t& n) { n = (ty)(o - v); return true; });    \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_fetch_and(volatile ty* p, ty v, int mo)                                                       \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t o, uint64_t& n) { n = (ty)(o & v); return true; });    \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_fetch_or(volatile ty* p, ty v, int mo)                                                        \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t o, uint64_t& n) { n = (ty)(o | v); return true; });    \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_fetch_xor(volatile ty* p, ty v, int mo)                                                       \
    {                                                                                                                      \
        return (ty)a_rmw((uintptr_t)p, sizeof(ty), mo, [&](uint64_t o, uint64_t& n) { n = (ty)(o ^ v); return true; });    \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile ty* p, ty* e, ty v, int mo, int)                            \
    {                                                                                                                      \
        ty o = (ty)a_rmw((uintptr_t)p, sizeof(ty), mo,                                                                     \
                         [&](uint64_t o, uint64_t& n) { n = v; return (ty)o == *e; });                                     \
        bool ok = o == *e;                                                                                                 \
        *e      = o;                                                                                                       \
        return ok;                                                                                                         \
    }                                                                                                                      \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile ty* p, ty* e, ty v, int mo, int f)                            \
    {                                                                                                                      \
        return __tsan_atomic##bits##_compare_exchange_strong(p, e, v, mo, f);                                              \
    }                                                                                                                      \
    ty __tsan_atomic##bits##_compare_exchange_val(volatile ty* p, ty e, ty v, int mo, int f)                               \
    {                                                                                                                      \
        __tsan_atomic##bits##_compare_exchange_strong(p, &e, v, mo, f);                                                    \
        return e;                                                                                                          \
    }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int mo)
{
    if (!active())
        return;
    Busy busy;
    Thread& t = S.t[S.cur];
    if (is_acq(mo))
        t.cur.join(t.acq);
    if (mo == 5)
    {
        t.cur.join(S.sc);
        S.sc.join(t.cur);
    }
    if (is_rel(mo))
    {
        t.rel = t.cur;
        t.cur.vc.c[S.cur]++;
    }
}
void __tsan_atomic_signal_fence(int) {}

// locks and one-time initialisation
static void lock(const void* m, bool recursive, bool shared = false)
{
    Busy busy;
    visible();
    Thread& t = S.t[S.cur];
    for (;;)
    {
        Mutex& x = S.mutexes[m];
        if (x.owner < 0 && (shared || x.readers == 0))
        {
            if (shared)
                x.readers |= 1u << S.cur;
            else
                x.owner = S.cur, x.depth = 1;
            t.cur.join(x.b);
            return;
        }
        if (x.owner == S.cur && recursive)
        {
            ++x.depth;
            return;
        }
        if (x.owner == S.cur || (x.readers & (1u << S.cur)))
            die("a thread locks a mutex it already holds");
        t.waiting        = m;
        t.waiting_shared = shared;
        reschedule(true);
        t.waiting        = nullptr;
        t.waiting_shared = false;
    }
}
static void unlock(const void* m)
{
    Busy busy;
    Thread& t = S.t[S.cur];
    Mutex& x  = S.mutexes[m];
    if (x.readers & (1u << S.cur))
        x.readers &= ~(1u << S.cur);
    else
    {
        if (x.owner != S.cur)
            die("a thread unlocks a mutex it does not hold");
        if (--x.depth > 0)
            return;
        x.owner = -1;
    }
    x.b.join(t.cur);
    t.cur.vc.c[S.cur]++;
}
static bool trylock(const void* m, bool recursive, bool shared)
{
    Busy busy;
    visible();
    Mutex& x = S.mutexes[m];
    if (x.owner == S.cur && recursive && !shared)
    {
        ++x.depth;
        return true;
    }
    if (x.owner >= 0 || (!shared && x.readers))
        return false;
    if (shared)
        x.readers |= 1u << S.cur;
    else
        x.owner = S.cur, x.depth = 1;
    S.t[S.cur].cur.join(x.b);
    return true;
}
static bool is_recursive(pthread_mutex_t* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP; }
int pthread_mutex_lock(pthread_mutex_t* m)
{
    if (active())
        lock(m, is_recursive(m));
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t* m)
{
    return active() && !trylock(m, is_recursive(m), false) ? 16 : 0;
}
int pthread_mutex_unlock(pthread_mutex_t* m)
{
    if (active())
        unlock(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (active())
        lock(m, false, true);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (active())
        lock(m, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t* m) { return active() && !trylock(m, false, true) ? 16 : 0; }
int pthread_rwlock_trywrlock(pthread_rwlock_t* m) { return active() && !trylock(m, false, false) ? 16 : 0; }
int pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    if (active())
        unlock(m);
    return 0;
}
static int once_done(pthread_once_t* o)
{
    if (S.tracking)
    {
        Busy busy;
        S.onces.push_back(o);
    }
    *o = 2;
    return 0;
}
int pthread_once(pthread_once_t* o, void (*fn)(void))
{
    if (!active())
    {
        if (*o == 2)
            return 0;
        fn();
        return once_done(o);
    }
    lock(o, false);
    if (*o != 2)
    {
        fn();
        once_done(o);
    }
    unlock(o);
    return 0;
}
int __cxa_guard_acquire(uint64_t* g)
{
    if (!active())
        return *(uint8_t*)g == 0;
    Busy busy;
    visible();
    for (;;)
    {
        if (*(uint8_t*)g)
        {
            Loc& l = loc((uintptr_t)g, 1);
            S.t[S.cur].cur.join(l.mo.back().b);
            return 0;
        }
        auto it = S.guard_owner.find(g);
        if (it == S.guard_owner.end() || it->second < 0)
        {
            S.guard_owner[g] = S.cur;
            return 1;
        }
        if (it->second == S.cur)
            die("recursive initialisation of a local static");
        S.t[S.cur].waiting = g;
        reschedule(true);
        S.t[S.cur].waiting = nullptr;
    }
}
void __cxa_guard_release(uint64_t* g)
{
    if (S.tracking)
    {
        Busy busy;
        S.guards.push_back(g);
    }
    if (!active())
    {
        *(uint8_t*)g = 1;
        return;
    }
    Busy busy;
    S.guard_owner[g] = -1;
    publish(loc((uintptr_t)g, 1), (uintptr_t)g, 1, 1, 3, nullptr);
}
void __cxa_guard_abort(uint64_t* g)
{
    Busy busy;
    S.guard_owner[g] = -1;
}

// heap of the code under test (linked with --wrap)
void* __real_malloc(size_t);
void __real_free(void*);
void* __wrap_malloc(size_t n)
{
    void* p = __real_malloc(n);
    if (S.tracking && !S.busy && p)
    {
        Busy busy;
        S.live[(uintptr_t)p] = n;
        if (S.running)
        {
            memset(p, 0xCD, n);
            for (size_t i = 0; i < n; i++)
                sh((uintptr_t)p + i) = ShByte();
        }
        // a fresh block has no history
        auto it = S.locs.lower_bound((uintptr_t)p);
        while (it != S.locs.end() && it->first < (uintptr_t)p + n)
            it = S.locs.erase(it);
    }
    return p;
}
void __wrap_free(void* p)
{
    if (!p)
        return;
    if (!S.tracking || S.busy)
        return __real_free(p);
    Busy busy;
    auto it = S.live.find((uintptr_t)p);
    if (it == S.live.end())
    {
        if (S.dead.count((uintptr_t)p))
        {
            if (S.running && S.cur != 0)
                die(mc::fmt("thread %d frees a block that was already freed", S.cur));
            throw mc::Violation{ "a block is freed twice" };
        }
        return __real_free(p);
    }
    if (S.running && S.cur != 0)
        access((uintptr_t)p, it->second, 4);
    S.dead[it->first] = it->second;
    S.live.erase(it);
    S.quarantine.push_back(p);
}
}
void* operator new(size_t n)
{
    void* p = __wrap_malloc(n ? n : 1);
    if (!p)
        throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { __wrap_free(p); }
void operator delete(void* p, size_t) noexcept { __wrap_free(p); }
void operator delete[](void* p) noexcept { __wrap_free(p); }
void operator delete[](void* p, size_t) noexcept { __wrap_free(p); }
