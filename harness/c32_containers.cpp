// C32: containers and type-erased wrappers against the standard ones.
#include "mc.hpp"
#include "util.hpp"
#include <functional>
#include <kfr/base.hpp>
#include <kfr/base/inline_vector.hpp>
#include <kfr/base/small_buffer.hpp>
#include <kfr/cometa/function.hpp>
using namespace kfr;
using mc::Ctx;

// live objects of the current path
static std::map<const void*, int> g_live;
static int g_bad = 0, g_made = 0;
struct Tracked
{
    int v;
    Tracked(int v) : v(v) { born(); }
    Tracked(const Tracked& o) : v(o.v) { o.alive(), born(); }
    Tracked(Tracked&& o) noexcept : v(o.v) { o.alive(), born(), o.v = -1; }
    Tracked& operator=(const Tracked& o) { return alive(), o.alive(), v = o.v, *this; }
    ~Tracked()
    {
        if (!g_live.erase(this))
            g_bad++;
    }
    void born()
    {
        if (g_live.count(this))
            g_bad++;
        g_live[this] = 1, g_made++;
    }
    void alive() const
    {
        if (!g_live.count(this))
            g_bad++;
    }
};
static void fresh() { g_live.clear(), g_bad = 0, g_made = 0; }
static void settled(Ctx& c, const char* what)
{
    MC_CHECK(c, g_bad == 0, "%s: %d objects were used or destroyed while not alive", what, g_bad);
    MC_CHECK(c, g_live.empty(), "%s: %zu objects were never destroyed", what, g_live.size());
}

// ------------------------------------------------------------------------------------------- small buffers
template <typename V, typename T>
static CMT_NOINLINE void equal(Ctx& c, const V& a, const std::vector<T>& m, const char* what)
{
    MC_CHECK(c, a.size() == m.size() && a.empty() == m.empty() && (size_t)(a.end() - a.begin()) == m.size() && a.cend() - a.cbegin() == a.end() - a.begin() && (m.empty() || a.data() == &*a.begin()), "%s: size %zu, expected %zu", what,
             (size_t)a.size(), m.size());
    for (size_t i = 0; i < m.size(); i++)
        MC_CHECK(c, a[i] == m[i] && a.begin()[i] == m[i], "%s: element %zu of %zu is %lld, expected %lld", what, i, m.size(), (long long)a[i], (long long)m[i]);
    if (!m.empty())
        MC_CHECK(c, a.front() == m.front() && a.back() == m.back(), "%s: front or back differs", what);
    c.eval(m.size() + 1);
}
template <typename T, size_t Cap>
static void small(Ctx& c, uint64_t root)
{
    using B = small_buffer<T, Cap>;
    c.key("small_buffer<%zu> of %zu bytes", Cap, sizeof(T));
    const size_t first = root;
    std::unique_ptr<B> b[2] = { std::unique_ptr<B>(new B(first)), std::unique_ptr<B>(new B) };
    std::vector<T> m[2] = { std::vector<T>(first), {} };
    int next = 1;
    for (size_t i = 0; i < first; i++)
        (*b[0])[i] = m[0][i] = (T)next++;
    const int depth = mc::tier(4, 5);
    for (int i = 0; i < depth; i++)
    {
        const int op = c.choose(22, "operation"), k = op % 2;
        B& x = *b[k];
        B& y = *b[!k];
        c.op();
        auto grow = [&](size_t n) {
            const size_t was = m[k].size();
            x.resize(n), m[k].resize(n);
            for (size_t j = was; j < n; j++)
                x[j] = m[k][j] = (T)next++;
        };
        switch (op / 2)
        {
        case 0: x.push_back((T)next), m[k].push_back((T)next), next++; break;
        case 1: // its own element
            if (m[k].empty())
                break;
            x.push_back(x.front()), m[k].push_back((T)m[k].front());
            break;
        case 2:
            if (m[k].empty())
                break;
            x.pop_back(), m[k].pop_back();
            break;
        case 3: grow(Cap); break;
        case 4: grow(Cap + 2); break;
        case 5: x = y, m[k] = m[!k]; break;
        case 6: x = x; break;
        case 7:
            x = std::move(y), m[k] = m[!k];
            b[!k].reset(new B(*b[k])), m[!k] = m[k]; // a moved-from object is only destroyed
            break;
        case 8: swap(x, y), std::swap(m[0], m[1]); break;
        case 9:
        {
            std::unique_ptr<B> z(new B(std::move(x)));
            b[k] = std::move(z);
            break;
        }
        default:
            x.assign(y), m[k] = m[!k];
            if (m[k].size() == 2)
                x.clear(), m[k].clear();
            break;
        }
        equal(c, *b[0], m[0], "first"), equal(c, *b[1], m[1], "second");
    }
    c.outcome(mc::hash_mix(m[0].size() * 64 + m[1].size(), next));
}
template <typename T, size_t N>
static void inl(Ctx& c, uint64_t root)
{
    using V = inline_vector<T, N>;
    c.key("inline_vector<%zu> of %zu bytes", N, sizeof(T));
    std::vector<T> m[2];
    V v[2];
    int next = 1;
    bool thrown = false;
    // every constructor
    const size_t n = c.choose((int)N + 2, "size");
    try
    {
        switch (root)
        {
        case 0:
            v[0] = V(n, (T)7);
            m[0].assign(n, (T)7);
            break;
        case 1:
        {
            std::vector<T> s(n);
            for (auto& e : s)
                e = (T)next++;
            v[0] = V(s.begin(), s.end()), m[0] = s;
            break;
        }
        case 2:
            v[0] = V(n);
            m[0].resize(n);
            for (size_t i = 0; i < std::min(n, N); i++)
                v[0][i] = m[0][i] = (T)next++;
            break;
        case 3: v[0] = V{ (T)1, (T)2 }, m[0] = { (T)1, (T)2 }; break;
        default: break;
        }
    }
    catch (const std::exception&)
    {
        thrown = true;
        m[0].clear();
    }
    MC_CHECK(c, thrown == (root < 3 && n > N), "%zu elements in a vector of at most %zu %s", n, N, thrown ? "are refused" : "are accepted");
    const int depth = mc::tier(4, 6);
    for (int i = 0; i < depth; i++)
    {
        const int op = c.choose(10, "operation"), k = op % 2;
        c.op();
        switch (op / 2)
        {
        case 0:
        case 1:
        {
            // own element or a new one
            const T val = op / 2 == 0 || m[k].empty() ? (T)(next++ % 3) : v[k].front();
            bool full = false;
            try
            {
                v[k].push_back(val);
            }
            catch (const std::exception&)
            {
                full = true;
            }
            MC_CHECK(c, full == (m[k].size() == N), "a %s vector %s an element", m[k].size() == N ? "full" : "non-full", full ? "refuses" : "takes");
            if (!full)
                m[k].push_back(val);
            break;
        }
        case 2: v[k] = v[!k], m[k] = m[!k]; break;
        case 3: v[k] = V(v[!k]), m[k] = m[!k]; break;
        default:
        {
            for (size_t j = 0; j < N + 2; j++)
            {
                bool out = false;
                T got{};
                try
                {
                    got = v[k].at(j);
                }
                catch (const std::exception&)
                {
                    out = true;
                }
                MC_CHECK(c, out == (j >= m[k].size()) && (out || got == m[k][j]), "at(%zu) of %zu elements is wrong", j, m[k].size());
            }
        }
        }
        equal(c, v[0], m[0], "first"), equal(c, v[1], m[1], "second");
        MC_CHECK(c, (v[0] == v[1]) == (m[0] == m[1]) && (v[0] != v[1]) == (m[0] != m[1]) && (v[1] == v[0]) == (m[0] == m[1]), "vectors of %zu and %zu elements compare wrong", m[0].size(), m[1].size());
    }
    c.outcome(mc::hash_mix(m[0].size() * 64 + m[1].size(), root));
}

// ------------------------------------------------------------------------------------------- univector
template <typename T>
static void dynamic(Ctx& c, uint64_t root)
{
    using U = univector<T>;
    c.key("univector of %zu bytes", sizeof(T));
    const size_t n = root;
    int next = 1;
    U v[2] = { U(n), U() };
    std::vector<T> m[2] = { std::vector<T>(n), {} };
    for (size_t i = 0; i < n; i++)
        v[0][i] = m[0][i] = (T)next++;
    const int depth = mc::tier(4, 5);
    for (int i = 0; i < depth; i++)
    {
        const int op = c.choose(32, "operation"), k = op % 2;
        U& x = v[k];
        U& y = v[!k];
        auto &p = m[k], &q = m[!k];
        c.op();
        switch (op / 2)
        {
        case 0: x.push_back((T)next), p.push_back((T)next), next++; break;
        case 1: x = y, p = q; break;
        case 2: x = std::as_const(y), p = q; break;
        case 3: x = x; break;
        case 4:
            x = std::move(y), p = q;
            y = U{ (T)1, (T)2, (T)3 }, q = { (T)1, (T)2, (T)3 };
            break;
        case 5: x.resize(5), p.resize(5); break;
        case 6: x.resize(17, (T)9), p.resize(17, (T)9); break;
        case 7:
            x = y.slice(2), p.assign(q.begin() + std::min<size_t>(2, q.size()), q.end());
            break;
        case 8:
            x = y.truncate(3), p.assign(q.begin(), q.begin() + std::min<size_t>(3, q.size()));
            break;
        case 9: // part of itself, shifted down
            x = x.slice(1), p.erase(p.begin(), p.begin() + std::min<size_t>(1, p.size()));
            break;
        case 10:
            x = y * T(2) + T(1), p = q;
            for (auto& e : p)
                e = (T)(e * 2 + 1);
            break;
        case 11:
            x = x + x;
            for (auto& e : p)
                e = (T)(e + e);
            break;
        case 12:
        { // into a view: only the view is written
            auto s = x.slice(1, 2);
            const size_t len = p.size() > 1 ? std::min<size_t>(2, p.size() - 1) : 0;
            MC_CHECK(c, s.size() == len, "slice(1, 2) of %zu elements has %zu", p.size(), s.size());
            if (len)
                s = counter() * T(1) + T(50);
            for (size_t j = 0; j < len; j++)
                p[j + 1] = (T)(50 + j);
            break;
        }
        case 13:
        {
            univector<T, 4> a = T(3) + counter() * T(1);
            univector<T, 4> b = a;
            b[0] = 8;
            x = b, p = { (T)8, (T)4, (T)5, (T)6 };
            MC_CHECK(c, a[0] == 3, "changing a copy changes the original");
            break;
        }
        case 14:
        { // views are of the vector itself
            univector_ref<T> r = x.ref();
            univector_ref<const T> cr = x.cref();
            MC_CHECK(c, r.data() == x.data() && cr.data() == x.data() && r.size() == p.size() && cr.size() == p.size(), "a view is of something else");
            if (!p.empty())
                r[0] = p[0] = (T)next++;
            U z(cr);
            MC_CHECK(c, std::as_const(z) == std::as_const(x) && !(std::as_const(z) != std::as_const(x)), "a copy through a view differs");
            y = z, q = p;
            break;
        }
        default:
        {
            U z(y), w(std::move(z));
            MC_CHECK(c, std::as_const(w) == std::as_const(y), "a moved copy differs");
            x.swap(y), std::swap(p, q);
            break;
        }
        }
        for (int j = 0; j < 2; j++)
        {
            equal(c, v[j], m[j], j ? "second" : "first");
            MC_CHECK(c, ((uintptr_t)v[j].data() & (platform<>::native_cache_alignment - 1)) == 0, "data is not aligned");
            for (size_t a = 0; a < m[j].size() + 2; a++)
            {
                MC_CHECK(c, v[j].get(a, (T)99) == (a < m[j].size() ? m[j][a] : (T)99), "get(%zu) of %zu elements is wrong", a, m[j].size());
                auto s = std::as_const(v[j]).slice(a, 3);
                MC_CHECK(c, s.size() == (a < m[j].size() ? std::min<size_t>(3, m[j].size() - a) : 0) && (!s.size() || s.data() == v[j].data() + a), "slice(%zu, 3) of %zu elements is wrong", a, m[j].size());
            }
        }
        MC_CHECK(c, (std::as_const(v[0]) == std::as_const(v[1])) == (m[0] == m[1]) && (std::as_const(v[0]) != std::as_const(v[1])) == (m[0] != m[1]), "comparison differs");
    }
    c.outcome(mc::hash_mix(m[0].size() * 64 + m[1].size(), next));
}

// ------------------------------------------------------------------------------------------- functions
struct Shared
{
    int calls = 0;
};
template <size_t Size, size_t Align>
struct alignas(Align) Callable
{
    Tracked t;
    Shared* s;
    std::array<uint8_t, Size> pad{};
    Callable(int v, Shared* s) : t(v), s(s)
    {
        for (size_t i = 0; i < Size; i++)
            pad[i] = (uint8_t)(v + i);
    }
    int operator()(int x)
    {
        t.alive();
        if ((uintptr_t)this % alignof(Callable))
            g_bad++;
        for (size_t i = 0; i < Size; i++)
            if (pad[i] != (uint8_t)(t.v + i))
                g_bad++;
        s->calls++;
        return t.v * 1000 + x;
    }
};
static int plain(int x) { return -x; }
static void functions(Ctx& c, uint64_t)
{
    fresh();
    c.key("function");
    Shared s;
    {
        using F = function<int(int)>;
        std::unique_ptr<F> f[2] = { std::make_unique<F>(), std::make_unique<F>(nullptr) };
        // the model: the value of the held callable, -1 for the plain function, 0 for none; and its identity
        int m[2] = { 0, 0 }, id[2] = { 0, 0 };
        int next = 1, calls = 0;
        const int depth = mc::tier(5, 6);
        for (int i = 0; i < depth; i++)
        {
            const int op = c.choose(18, "operation"), k = op % 2;
            c.op();
            switch (op / 2)
            {
            case 0: *f[k] = Callable<1, 8>(next, &s), m[k] = next, id[k] = next, next++; break;
            case 1: *f[k] = Callable<200, 64>(next, &s), m[k] = next, id[k] = next, next++; break;
            case 2: *f[k] = plain, m[k] = -1, id[k] = 100 + next++; break;
            case 3: *f[k] = *f[!k], m[k] = m[!k], id[k] = id[!k]; break;
            case 4:
                *f[k] = std::move(*f[!k]), m[k] = m[!k], id[k] = id[!k];
                m[!k] = id[!k] = 0; // as the defaulted move of the held pointer leaves it
                break;
            case 5: *f[k] = nullptr, m[k] = id[k] = 0; break;
            case 6: *f[k] = std::as_const(*f[k]); break;
            case 7: f[k] = std::make_unique<F>(*f[!k]), m[k] = m[!k], id[k] = id[!k]; break;
            default:
            {
                F g(*f[k]);
                F h(std::move(g));
                std::swap(*f[0], *f[1]), std::swap(m[0], m[1]), std::swap(id[0], id[1]);
                const F& r = h;
                f[!k]      = std::make_unique<F>(r);
                id[!k] = id[!k], m[!k] = m[!k]; // h is what f[k] was, which is f[!k] now
                break;
            }
            }
            for (int j = 0; j < 2; j++)
            {
                MC_CHECK(c, !!*f[j] == (m[j] != 0) && f[j]->empty() == (m[j] == 0), "function %d is %sempty", j, m[j] ? "" : "not ");
                bool thrown = false;
                int r = 0;
                try
                {
                    r = (*f[j])(i + 5);
                }
                catch (const std::bad_function_call&)
                {
                    thrown = true;
                }
                calls += m[j] > 0;
                MC_CHECK(c, thrown == (m[j] == 0) && (thrown || r == (m[j] < 0 ? -(i + 5) : m[j] * 1000 + i + 5)), "function %d returns %d", j, r);
                c.eval();
            }
            MC_CHECK(c, s.calls == calls, "%d calls arrive, expected %d", s.calls, calls);
            MC_CHECK(c, (*f[0] == *f[1]) == (id[0] == id[1]) && (*f[0] != *f[1]) == (id[0] != id[1]), "comparison differs");
            // nothing outlives its last holder
            std::set<int> alive;
            for (int j = 0; j < 2; j++)
                if (m[j] > 0)
                    alive.insert(id[j]);
            MC_CHECK(c, g_live.size() == alive.size(), "%zu callables are alive, expected %zu", g_live.size(), alive.size());
        }
        c.outcome(mc::hash_mix(m[0] * 16 + m[1], next));
    }
    settled(c, "function");
}
static void dispatch(Ctx& c, uint64_t)
{
    c.key("cdispatch");
    const int x = c.choose(8, "value");
    function<int(int)> f = cdispatch<int, int>(cvals_t<int, 1, 3, 5>(), x, [](auto v, int a) { return (int)decltype(v)::value * 10 + a; }, [](int a) { return -a; });
    MC_CHECK(c, f(4) == (x == 1 || x == 3 || x == 5 ? x * 10 + 4 : -4), "cdispatch of %d calls the wrong function", x);
    c.op(), c.outcome(x);
}

// ------------------------------------------------------------------------------------------- expression handles
struct Scale
{
    Tracked t;
    template <typename T, size_t N>
    vec<T, N> operator()(const vec<T, N>& x) const
    {
        t.alive();
        return x * T(t.v);
    }
};
// evaluation by every width from every offset
template <typename T>
static CMT_NOINLINE void evaluates(Ctx& c, const expression_handle<T, 1>& h, const std::vector<T>& want, const char* what)
{
    const size_t n = want.size();
    MC_CHECK(c, get_shape(h).front() == n, "%s: the handle has %zu elements, expected %zu", what, (size_t)get_shape(h).front(), n);
    univector<T> out(n);
    out = h;
    for (size_t i = 0; i < n; i++)
        MC_CHECK(c, out[i] == want[i], "%s: element %zu is %g, expected %g", what, i, (double)out[i], (double)want[i]);
    cforeach(csizes_t<1, 2, 4, 8, 16, 32, 64>(), [&](auto w) {
        constexpr size_t W = decltype(w)::value;
        begin_pass(h, shape<1>(0), shape<1>(n));
        for (size_t i = 0; i + W <= n; i++)
        {
            const vec<T, W> x = get_elements(h, shape<1>(i), axis_params_v<0, W>);
            for (size_t j = 0; j < W; j++)
                MC_CHECK(c, x[j] == want[i + j], "%s: element %zu read %zu at a time from %zu is %g, expected %g", what, i + j, W, i, (double)x[j], (double)want[i + j]);
        }
        end_pass(h, shape<1>(0), shape<1>(n));
    });
    c.eval(n);
}
template <typename T>
static void handles(Ctx& c, uint64_t root)
{
    fresh();
    c.key("handle %zu", sizeof(T));
    const size_t n = root * 13 % 67 + 1;
    {
        using H = expression_handle<T, 1>;
        univector<T> data(n), other(n);
        for (size_t i = 0; i < n; i++)
            data[i] = (T)(i + 1), other[i] = (T)(100 + i % 7);
        std::unique_ptr<H> h[2] = { std::make_unique<H>(), std::make_unique<H>() };
        // what each should evaluate to: 0 nothing, k > 0 data times k, -1 the data itself, -2 data + other
        int m[2] = { 0, 0 }, next = 2;
        const int depth = mc::tier(4, 5);
        for (int i = 0; i < depth; i++)
        {
            const int op = c.choose(16, "operation"), k = op % 2;
            c.op();
            switch (op / 2)
            {
            case 0: *h[k] = to_handle(bind_expression(Scale{ Tracked(next) }, data)), m[k] = next++; break;
            case 1:
            { // the expression and its data belong to the handle
                univector<T> own = data;
                *h[k] = to_handle(bind_expression(Scale{ Tracked(next) }, std::move(own))), m[k] = next++;
                break;
            }
            case 2: *h[k] = to_handle(data), m[k] = -1; break;
            case 3: *h[k] = to_handle(data + other), m[k] = -2; break;
            case 4: *h[k] = *h[!k], m[k] = m[!k]; break;
            case 5:
                *h[k] = std::move(*h[!k]), m[k] = m[!k];
                h[!k] = std::make_unique<H>(), m[!k] = 0;
                break;
            case 6: *h[k] = H(), m[k] = 0; break;
            default:
                if (!m[k])
                    break;
                *h[!k] = to_handle(H(*h[k])), m[!k] = m[k]; // a handle of a handle
                break;
            }
            for (int j = 0; j < 2; j++)
            {
                MC_CHECK(c, !!*h[j] == (m[j] != 0), "handle %d is %sempty", j, m[j] ? "" : "not ");
                if (!m[j])
                    continue;
                std::vector<T> want(n);
                for (size_t e = 0; e < n; e++)
                    want[e] = (T)(m[j] == -1 ? data[e] : m[j] == -2 ? data[e] + other[e] : data[e] * m[j]);
                evaluates<T>(c, *h[j], want, "handle");
            }
            std::set<int> alive;
            for (int j = 0; j < 2; j++)
                if (m[j] > 0)
                    alive.insert(m[j]);
            MC_CHECK(c, g_live.size() == alive.size(), "%zu expressions are alive, expected %zu", g_live.size(), alive.size());
        }
        c.outcome(mc::hash_mix((m[0] + 8) * 64 + m[1] + 8, next));
    }
    settled(c, "handle");
}
// writing through a handle
template <typename T>
static void outputs(Ctx& c, uint64_t root)
{
    c.key("output handle %zu", sizeof(T));
    const size_t n = root;
    univector<T> data(n), src(n);
    for (size_t i = 0; i < n; i++)
        src[i] = (T)(i * 3 + 1);
    if (c.choose(2, "whole|part"))
    {
        const size_t a = n ? c.choose((int)n + 1, "from") : 0;
        auto part = data.slice(a);
        auto h = to_handle(part);
        process(h, src.truncate(n - a));
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, data[i] == (i < a ? T(0) : src[i - a]), "writing from %zu: element %zu of %zu is wrong", a, i, n);
    }
    else
    {
        auto h = to_handle(data);
        process(h, src);
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, data[i] == src[i], "element %zu of %zu is wrong", i, n);
    }
    c.op(), c.eval(n), c.outcome(mc::hash_mix(n, 5));
}
// two dimensions
template <typename T>
static void matrices(Ctx& c, uint64_t root)
{
    c.key("2-D handle %zu", sizeof(T));
    const size_t rows = root % 7 + 1, cols = root / 7 + 1;
    tensor<T, 2> t(shape<2>(rows, cols));
    for (size_t i = 0; i < rows * cols; i++)
        t.data()[i] = (T)(i + 1);
    tensor<T, 2> out(shape<2>(rows, cols), T(-1));
    const int how = c.choose(4, "owned|referenced|copied|output");
    c.op();
    if (how == 0)
    {
        auto h = to_handle(t * T(2) + T(1));
        process(out, h);
    }
    else if (how == 1)
    {
        auto e = t * T(2) + T(1);
        auto h = to_handle(e);
        process(out, h);
    }
    else if (how == 2)
    {
        expression_handle<T, 2> g;
        {
            auto h = to_handle(t * T(2) + T(1));
            g = h;
        }
        process(out, g);
    }
    else
    {
        auto h = to_handle(out);
        process(h, t * T(2) + T(1));
    }
    for (size_t i = 0; i < rows * cols; i++)
        MC_CHECK(c, out.data()[i] == (T)(2 * (i + 1) + 1), "element %zu of %zu x %zu is %g", i, rows, cols, (double)out.data()[i]);
    c.eval(rows * cols), c.outcome(mc::hash_mix(rows, cols * 4 + how));
}
// putting a handle in the place of a placeholder, wherever that stands
template <typename T>
static void placeholders(Ctx& c, uint64_t root)
{
    fresh();
    c.key("placeholder %zu", sizeof(T));
    const size_t n = root * 5 + 3;
    {
        univector<T> a(n), b(n), x(n);
        for (size_t i = 0; i < n; i++)
            a[i] = (T)(i + 1), b[i] = (T)(200 - (int)i), x[i] = (T)(i % 5 + 1);
        const int form = c.choose(8, "form"), rounds = 1 + c.choose(3, "substitutions - 1");
        auto run = [&](auto&& e, auto&& f, bool expect) {
            for (int r = 0; r < rounds; r++)
            {
                const int kind = c.choose(3, "owned expression|its data owned too|reference");
                bool ok;
                if (kind == 0)
                    ok = substitute(e, to_handle(bind_expression(Scale{ Tracked(r + 2) }, x)));
                else if (kind == 1)
                {
                    univector<T> y = x;
                    ok = substitute(e, to_handle(bind_expression(Scale{ Tracked(r + 2) }, std::move(y))));
                }
                else
                    ok = substitute(e, to_handle(x));
                c.op();
                MC_CHECK(c, ok == expect, "substitution reports %d", ok);
                MC_CHECK(c, g_live.size() == (kind < 2 && expect ? 1u : 0u), "%zu expressions are alive after substitution", g_live.size());
                univector<T> out(n);
                process(out, e);
                for (size_t i = 0; i < n; i++)
                {
                    const T v = kind < 2 ? (T)(x[i] * (r + 2)) : x[i];
                    MC_CHECK(c, out[i] == f(i, v), "element %zu of %zu is %g, expected %g", i, n, (double)out[i], (double)f(i, v));
                }
                c.eval(n);
            }
        };
        switch (form)
        {
        case 0:
        {
            auto e = placeholder<T>();
            run(e, [&](size_t i, T v) { return v; }, true);
            break;
        }
        case 1:
        {
            auto e = placeholder<T>() + a;
            run(e, [&](size_t i, T v) { return (T)(v + a[i]); }, true);
            break;
        }
        case 2:
        {
            auto e = a + placeholder<T>();
            run(e, [&](size_t i, T v) { return (T)(v + a[i]); }, true);
            break;
        }
        case 3:
        {
            auto e = (a + b) + placeholder<T>();
            run(e, [&](size_t i, T v) { return (T)(a[i] + b[i] + v); }, true);
            break;
        }
        case 4:
        {
            auto e = (a * T(2) + b) + (a + placeholder<T>() * T(3));
            run(e, [&](size_t i, T v) { return (T)(a[i] * 2 + b[i] + a[i] + v * 3); }, true);
            break;
        }
        case 5:
        {
            auto e = (a + b) * T(2);
            run(e, [&](size_t i, T) { return (T)((a[i] + b[i]) * 2); }, false);
            break;
        }
        case 6:
        { // inside a type-erased expression
            auto e = to_handle((a + b) + placeholder<T>());
            run(e, [&](size_t i, T v) { return (T)(a[i] + b[i] + v); }, true);
            break;
        }
        default:
        { // behind a handle that has none
            auto e = to_handle(a + b) + placeholder<T>();
            run(e, [&](size_t i, T v) { return (T)(a[i] + b[i] + v); }, true);
            break;
        }
        }
        c.outcome(mc::hash_mix(n, form * 4 + rounds));
    }
    settled(c, "placeholder");
}
// a placeholder that has nothing is zero, keys are kept apart
static void keys(Ctx& c, uint64_t)
{
    c.key("placeholder keys");
    univector<f32> x{ 1, 2, 3 }, y{ 10, 20, 30 };
    auto e = placeholder<f32>(csize_t<1>()) * 100 + placeholder<f32>(csize_t<2>());
    const int order = c.choose(4, "none|1|2|both");
    if (order & 2)
        MC_CHECK(c, substitute(e, to_handle(y), csize_t<2>()), "key 2 is not found");
    if (order & 1)
        MC_CHECK(c, substitute(e, to_handle(x), csize_t<1>()), "key 1 is not found");
    MC_CHECK(c, !substitute(e, to_handle(x), csize_t<3>()), "key 3 is found");
    univector<f32> out(3);
    process(out, e);
    for (int i = 0; i < 3; i++)
        MC_CHECK(c, out[i] == (order & 1 ? x[i] * 100 : 0) + (order & 2 ? y[i] : 0), "element %d is %g", i, out[i]);
    c.op(), c.outcome(order);
}
void mc_register()
{
    mc::add("small_buffer<i32,3>", 6, small<i32, 3>);
    mc::add("small_buffer<u8,1>", 4, small<u8, 1>);
    mc::add("small_buffer<f64,16>", mc::tier(1, 20), [](Ctx& c, uint64_t r) { small<f64, 16>(c, r ? r : 16); });
    mc::add("inline_vector<i32,3>", 5, inl<i32, 3>);
    mc::add("inline_vector<u8,1>", 5, [](Ctx& c, uint64_t r) { inl<u8, 1>(c, r == 3 ? 4 : r); });
    mc::add("inline_vector<f64,4>", 5, inl<f64, 4>);
    mc::add("univector i32", mc::tier(2, 20), dynamic<i32>);
    mc::add("univector f32", mc::tier(3, 20), dynamic<f32>);
    mc::add("univector f64", mc::tier(1, 20), dynamic<f64>);
    mc::add("function", 1, functions);
    mc::add("cdispatch", 1, dispatch);
    mc::add("handle f32", mc::tier(6, 30), handles<f32>);
    mc::add("handle f64", mc::tier(6, 30), handles<f64>);
    mc::add("handle i32", mc::tier(3, 30), handles<i32>);
    mc::add("output handle f32", mc::tier(40, 80), outputs<f32>);
    mc::add("output handle i16", mc::tier(40, 80), outputs<i16>);
    mc::add("2-D handle f32", 70, matrices<f32>);
    mc::add("2-D handle f64", 70, matrices<f64>);
    mc::add("placeholder f32", mc::tier(8, 20), placeholders<f32>);
    mc::add("placeholder i32", mc::tier(8, 20), placeholders<i32>);
    mc::add("placeholder keys", 1, keys);
}
MC_MAIN()
