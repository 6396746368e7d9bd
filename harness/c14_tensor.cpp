// C14: tensor views against a model that lists, for every view, the storage cells it selects in order.
#include <kfr/base.hpp>
#include "util.hpp"
using namespace kfr;

using Shape = std::vector<long>;
struct View
{
    Shape shape;
    std::vector<long> cell; // row-major
};
static long prod(const Shape& s)
{
    long p = 1;
    for (long v : s)
        p *= v;
    return p;
}
static View base_view(const Shape& s)
{
    View v{ s, {} };
    for (long i = 0; i < prod(s); i++)
        v.cell.push_back(i);
    return v;
}
static std::vector<long> unflat(const Shape& s, long i)
{
    std::vector<long> r(s.size());
    for (size_t d = s.size(); d-- > 0;)
        r[d] = i % s[d], i /= s[d];
    return r;
}
static long flat(const Shape& s, const std::vector<long>& x)
{
    long r = 0;
    for (size_t d = 0; d < s.size(); d++)
        r = r * s[d] + x[d];
    return r;
}
// what one axis selects: -1 step means "single index"
struct Sel
{
    bool single = false, repeat = false;
    long index = 0;
    opt_index_t start, stop, step;
};
static std::vector<long> select(const Sel& s, long n)
{
    std::vector<long> r;
    if (s.single)
        return { s.index < 0 ? s.index + n : s.index };
    long st = s.step.value_or(1), a, b;
    if (st == 0)
    {
        for (long k = 0; k < *s.stop - *s.start; k++)
            r.push_back(*s.start);
        return r;
    }
    if (st > 0)
    {
        a = s.start.value_or(0);
        b = s.stop.value_or(n);
        if (s.start && a < 0)
            a += n;
        if (s.stop && b < 0)
            b += n;
        for (long i = std::max(a, 0l); i < std::min(b, n); i += st)
            r.push_back(i);
    }
    else
    {
        a = n - 1, b = -1;
        if (s.start)
            a = *s.start < 0 ? *s.start + n : *s.start;
        if (s.stop)
        {
            b = *s.stop < 0 ? *s.stop + n : *s.stop;
            b = std::max(b, -1l);
        }
        for (long i = std::min(a, n - 1); i > b; i += st)
            r.push_back(i);
    }
    return r;
}
static View apply(const View& v, const std::vector<Sel>& sel)
{
    std::vector<std::vector<long>> idx;
    View out;
    for (size_t d = 0; d < v.shape.size(); d++)
    {
        Sel all;
        const Sel& s = d < sel.size() ? sel[d] : all;
        idx.push_back(select(s, v.shape[d]));
        if (!s.single)
            out.shape.push_back((long)idx.back().size());
    }
    Shape full;
    for (auto& i : idx)
        full.push_back((long)i.size());
    for (long i = 0; i < prod(full); i++)
    {
        auto x = unflat(full, i);
        for (size_t d = 0; d < x.size(); d++)
            x[d] = idx[d][x[d]];
        out.cell.push_back(v.cell[flat(v.shape, x)]);
    }
    return out;
}
static View transposed(const View& v)
{
    View o;
    o.shape.assign(v.shape.rbegin(), v.shape.rend());
    for (long i = 0; i < prod(o.shape); i++)
    {
        auto x = unflat(o.shape, i);
        std::reverse(x.begin(), x.end());
        o.cell.push_back(v.cell[flat(v.shape, x)]);
    }
    return o;
}

template <class T>
struct World
{
    mcu::Buf<T> buf;
    std::vector<T> model;
    explicit World(size_t n) : buf(n), model(n)
    {
        for (size_t i = 0; i < n; i++)
            buf[i] = model[i] = T(100 + i);
    }
    void same(mc::Ctx& c, const char* when)
    {
        for (size_t i = 0; i < model.size(); i++)
            MC_CHECK(c, buf[i] == model[i], "%s: storage cell %zu is %g, expected %g", when, i, (double)buf[i], (double)model[i]);
    }
};

template <class A>
static bool eq(const A& a, const A& b)
{
    return a.operator==(b);
}
template <class A>
static bool ne(const A& a, const A& b)
{
    return a.operator!=(b);
}
// everything that reads a view
template <class T, index_t D>
void check_view(mc::Ctx& c, World<T>& w, const tensor<T, D>& t, const View& v)
{
    long n = (long)v.cell.size();
    MC_CHECK(c, (long)t.size() == n, "view has %zu elements, expected %ld", (size_t)t.size(), n);
    MC_CHECK(c, t.empty() == (n == 0), "empty() is wrong");
    for (size_t d = 0; d < D; d++)
        MC_CHECK(c, (long)t.shape()[d] == v.shape[d], "axis %zu has %ld elements, expected %ld", d, (long)t.shape()[d], v.shape[d]);
    auto want = [&](long i) { return w.model[v.cell[i]]; };
    long k    = 0;
    for (auto it = t.begin(); it != t.end(); ++it, ++k)
    {
        MC_CHECK(c, k < n, "iteration visits more than %ld elements", n);
        MC_CHECK(c, *it == want(k), "iteration: element %ld is %g, expected %g", k, (double)*it, (double)want(k));
        MC_CHECK(c, &*it == w.buf.data() + v.cell[k], "iteration: element %ld is at another cell", k);
    }
    MC_CHECK(c, k == n, "iteration visits %ld of %ld elements", k, n);
    if (t.is_contiguous())
        for (long i = 0; i < n; i++)
            MC_CHECK(c, t.contiguous_begin()[i] == want(i), "contiguous element %ld is %g, expected %g", i, (double)t.contiguous_begin()[i],
                     (double)want(i));
    for (long i = 0; i < n; i++)
    {
        auto x = unflat(v.shape, i);
        shape<D> s;
        for (size_t d = 0; d < D; d++)
            s[d] = x[d];
        MC_CHECK(c, t.access(s) == want(i), "access: element %ld is %g, expected %g", i, (double)t.access(s), (double)want(i));
    }
    // as an expression, whole and vectorised
    tensor<T, D> r(t.shape(), T(-1));
    r = t + T(0);
    long j = 0;
    for (auto it = r.begin(); it != r.end(); ++it, ++j)
        MC_CHECK(c, *it == want(j), "as an expression: element %ld is %g, expected %g", j, (double)*it, (double)want(j));
    tensor<T, D> cp = t.copy();
    MC_CHECK(c, eq(cp, t) && (n == 0 || cp.data() != t.data()), "copy() differs or shares");
    auto f = t.flatten_may_copy();
    MC_CHECK(c, (long)f.size() == n, "flattened size");
    for (long i = 0; i < n; i++)
        MC_CHECK(c, f(i) == want(i), "flattened element %ld is %g, expected %g", i, (double)f(i), (double)want(i));
    bool threw = false;
    try
    {
        auto g = t.flatten();
        for (long i = 0; i < n; i++)
            MC_CHECK(c, g(i) == want(i) && (n == 0 || &g(i) == w.buf.data() + v.cell[i]), "flatten(): element %ld", i);
    }
    catch (const mc::Violation&)
    {
        throw;
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    MC_CHECK(c, threw == !t.is_contiguous(), "flatten() of a %scontiguous view %s", t.is_contiguous() ? "" : "non-", threw ? "throws" : "succeeds");
    T sum = t.reduce([](T a, T b) { return a + b; }, T(0)), ws = 0;
    for (long i = 0; i < n; i++)
        ws += want(i);
    MC_CHECK(c, sum == ws, "reduce gives %g, expected %g", (double)sum, (double)ws);
    auto m = t.map([](T x) { return x * 2; });
    auto b = t.binary(cp, [](T x, T y) { return x * 3 - y; });
    auto as = t.template astype<float>();
    long q = 0;
    auto ib = b.begin();
    auto ia = as.begin();
    for (auto it = m.begin(); it != m.end(); ++it, ++ib, ++ia, ++q)
        MC_CHECK(c, *it == want(q) * 2 && *ib == want(q) * 2 && *ia == (float)want(q), "map/binary/astype: element %ld", q);
    MC_CHECK(c, q == n, "map visits %ld of %ld", q, n);
    c.eval(n * 6);
}
// everything that writes through a view
template <class T, index_t D>
void write_view(mc::Ctx& c, World<T>& w, const tensor<T, D>& t, const View& v)
{
    long n         = (long)v.cell.size();
    bool overlaps  = false;
    {
        std::set<long> s(v.cell.begin(), v.cell.end());
        overlaps = s.size() != v.cell.size();
    }
    auto keep = w.model;
    auto put  = [&](auto fn) {
        w.model = keep;
        for (long i = 0; i < n; i++)
            w.model[v.cell[i]] = fn(i);
    };
    auto restore = [&] {
        w.model = keep;
        for (size_t i = 0; i < keep.size(); i++)
            w.buf[i] = keep[i];
    };
    t = T(7);
    put([](long) { return T(7); });
    w.same(c, "assigning a scalar");
    restore();
    if (!overlaps)
    {
        tensor<T, D> src(t.shape());
        long i = 0;
        for (auto& x : src)
            x = T(500 + i++);
        std::move(tensor<T, D>(t)) = src;
        put([](long i) { return T(500 + i); });
        w.same(c, "assigning a tensor");
        restore();
        t = src + T(1);
        put([](long i) { return T(501 + i); });
        w.same(c, "assigning an expression");
        restore();
        t.assign(src);
        put([](long i) { return T(500 + i); });
        w.same(c, "assign()");
        restore();
        tensor<T, D> u = t;
        u.copy_from(src);
        w.model = keep;
        put([](long i) { return T(500 + i); });
        w.same(c, "copy_from()");
        restore();
        t.unary_inplace([](T x) { return x + 1000; });
        put([&](long i) { return T(keep[v.cell[i]] + 1000); });
        w.same(c, "unary_inplace");
        restore();
        t.binary_inplace(src, [](T x, T y) { return x + y; });
        put([&](long i) { return T(keep[v.cell[i]] + 500 + i); });
        w.same(c, "binary_inplace");
        restore();
        t.iterate([](T& x, const shape<D>&) { x = -x; });
        put([&](long i) { return T(-keep[v.cell[i]]); });
        w.same(c, "iterate");
        restore();
    }
    c.op(8);
}
template <class T, index_t D>
void both(mc::Ctx& c, World<T>& w, const tensor<T, D>& t, const View& v)
{
    check_view(c, w, t, v);
    write_view(c, w, t, v);
    auto tt = t.transpose();
    check_view(c, w, tt, transposed(v));
    c.outcome(mcu::digest(v.cell.data(), v.cell.size(), v.shape[0] * 31 + v.shape.back()));
}

static Sel choose_range(mc::Ctx& c, long n, bool full)
{
    Sel s;
    long m = full ? n + 2 : 2;
    std::vector<opt_index_t> ends{ std::nullopt };
    for (long i = -m; i <= m; i++)
        ends.push_back(i);
    if (!full)
        ends = { std::nullopt, 0, 1, -1, n, -n };
    std::vector<opt_index_t> steps{ std::nullopt, 2, -1, -2 };
    if (full)
        steps = { std::nullopt, 1, 2, 3, n + 3, -1, -2, -3, -n - 3, 0 };
    s.start = c.pick(ends, "start");
    s.stop  = c.pick(ends, "stop");
    s.step  = c.pick(steps, "step");
    return s;
}
static tensor_range tr(const Sel& s) { return trange(s.start, s.stop, s.step); }
static std::string str(const Sel& s)
{
    if (s.single)
        return std::to_string(s.index);
    auto e = [](const opt_index_t& o) { return o ? std::to_string(*o) : std::string("_"); };
    return e(s.start) + ":" + e(s.stop) + ":" + e(s.step);
}
static bool legal(const Sel& s, long n)
{
    if (s.step && *s.step == 0) // repetition of one existing element
        return s.start && s.stop && *s.start >= 0 && *s.start < n && *s.stop >= *s.start;
    return true;
}

template <class T>
void slice1(mc::Ctx& c, long n)
{
    World<T> w(n);
    tensor<T, 1> t(w.buf.data(), shape<1>(n), nullptr);
    View v = base_view({ n });
    Sel s  = choose_range(c, n, true);
    if (!legal(s, n))
        return;
    c.log("%ld elements, [%s]", n, str(s).c_str());
    both(c, w, tensor<T, 1>(t(tr(s))), apply(v, { s }));
}
template <class T>
void slice1_twice(mc::Ctx& c, long n)
{
    World<T> w(n);
    tensor<T, 1> t(w.buf.data(), shape<1>(n), nullptr);
    View v = base_view({ n });
    Sel s = choose_range(c, n, false), u;
    View a = apply(v, { s });
    u      = choose_range(c, a.shape[0], false);
    c.log("%ld elements, [%s][%s]", n, str(s).c_str(), str(u).c_str());
    tensor<T, 1> x = t(tr(s));
    check_view(c, w, x, a);
    both(c, w, tensor<T, 1>(x(tr(u))), apply(a, { u }));
}
static Sel choose_axis(mc::Ctx& c, long n)
{
    static const std::vector<Sel> menu = [] {
        std::vector<Sel> m;
        auto r = [&](opt_index_t a, opt_index_t b, opt_index_t s) {
            Sel x;
            x.start = a, x.stop = b, x.step = s;
            m.push_back(x);
        };
        auto _ = std::nullopt;
        r(_, _, _), r(1, _, _), r(_, 2, _), r(_, -1, _), r(-2, _, _), r(_, _, 2), r(_, _, -1), r(-1, 0, -1), r(1, 1, _), r(-2, -4, -1), r(2, _, -2);
        return m;
    }();
    int k = c.choose((int)menu.size() + 2, "axis");
    if (k >= (int)menu.size())
    {
        Sel s;
        s.single = true;
        s.index  = k == (int)menu.size() ? 0 : n - 1;
        return s;
    }
    return menu[k];
}
template <class T>
void slice2(mc::Ctx& c, long rows, long cols)
{
    World<T> w(rows * cols);
    bool flip = c.flip("transposed first");
    tensor<T, 2> t(w.buf.data(), shape<2>(rows, cols), nullptr);
    View v = base_view({ rows, cols });
    if (flip)
        v = transposed(v);
    tensor<T, 2> x = flip ? t.transpose() : t;
    Sel a = choose_axis(c, v.shape[0]), b = choose_axis(c, v.shape[1]);
    c.log("%ldx%ld [%s, %s]", v.shape[0], v.shape[1], str(a).c_str(), str(b).c_str());
    View r = apply(v, { a, b });
    if (a.single && b.single)
    {
        MC_CHECK(c, x(a.index, b.index) == w.model[r.cell[0]], "element (%ld,%ld)", a.index, b.index);
        x(a.index, b.index) = T(9);
        w.model[r.cell[0]]  = T(9);
        w.same(c, "writing one element");
    }
    else if (a.single)
        both(c, w, tensor<T, 1>(x((index_t)a.index, tr(b))), r);
    else if (b.single)
        both(c, w, tensor<T, 1>(x(tr(a), (index_t)b.index)), r);
    else
        both(c, w, tensor<T, 2>(x(tr(a), tr(b))), r);
    if (!b.single && !b.start && !b.stop && !b.step)
    {
        if (a.single)
            both(c, w, tensor<T, 1>(x((index_t)a.index)), r);
        else
            both(c, w, tensor<T, 2>(x(tr(a))), r);
    }
}
template <class T>
void slice3(mc::Ctx& c, long p, long q, long r)
{
    World<T> w(p * q * r);
    tensor<T, 3> t(w.buf.data(), shape<3>(p, q, r), nullptr);
    View v = base_view({ p, q, r });
    Sel s[3];
    for (int d = 0; d < 3; d++)
        s[d] = choose_axis(c, v.shape[d]);
    c.log("%ldx%ldx%ld [%s, %s, %s]", p, q, r, str(s[0]).c_str(), str(s[1]).c_str(), str(s[2]).c_str());
    View z = apply(v, { s[0], s[1], s[2] });
    int k  = s[0].single * 4 + s[1].single * 2 + s[2].single;
    auto i = [&](int d) { return (index_t)s[d].index; };
    switch (k)
    {
    case 0:
        both(c, w, tensor<T, 3>(t(tr(s[0]), tr(s[1]), tr(s[2]))), z);
        break;
    case 1:
        both(c, w, tensor<T, 2>(t(tr(s[0]), tr(s[1]), i(2))), z);
        break;
    case 2:
        both(c, w, tensor<T, 2>(t(tr(s[0]), i(1), tr(s[2]))), z);
        break;
    case 3:
        both(c, w, tensor<T, 1>(t(tr(s[0]), i(1), i(2))), z);
        break;
    case 4:
        both(c, w, tensor<T, 2>(t(i(0), tr(s[1]), tr(s[2]))), z);
        break;
    case 5:
        both(c, w, tensor<T, 1>(t(i(0), tr(s[1]), i(2))), z);
        break;
    case 6:
        both(c, w, tensor<T, 1>(t(i(0), i(1), tr(s[2]))), z);
        break;
    case 7:
        MC_CHECK(c, t(i(0), i(1), i(2)) == w.model[z.cell[0]], "one element");
        break;
    }
}
// reshape keeps the order, shares when contiguous, refuses otherwise
template <class T>
void reshapes(mc::Ctx& c)
{
    long rows = 1 + c.choose(4, "rows-1"), cols = 1 + c.choose(6, "cols-1");
    World<T> w(rows * cols);
    tensor<T, 2> t(w.buf.data(), shape<2>(rows, cols), nullptr);
    View v   = base_view({ rows, cols });
    int form = c.choose(4, "whole|transposed|column slice|row slice");
    tensor<T, 2> x = t;
    if (form == 1)
        x = t.transpose(), v = transposed(v);
    else if (form == 2)
    {
        Sel all, s;
        s.step = 2;
        x      = t(tall(), tstep(2));
        v      = apply(v, { all, s });
    }
    else if (form == 3)
    {
        Sel s;
        s.start = 1;
        x       = t(tstart(1), tall());
        v       = apply(v, { s });
    }
    long n = (long)v.cell.size();
    for (long a = 0; a <= n + 1; a++)
        for (long b = 0; b <= n + 1; b++)
        {
            bool fits = a * b == n, threw = false;
            for (int copy = 0; copy < 2; copy++)
            {
                threw = false;
                try
                {
                    tensor<T, 2> y = copy ? x.reshape_may_copy(shape<2>(a, b)) : x.reshape(shape<2>(a, b));
                    MC_CHECK(c, fits, "reshape of %ld elements to %ldx%ld succeeds", n, a, b);
                    View z = v;
                    z.shape = { a, b };
                    for (long i = 0; i < n; i++)
                        MC_CHECK(c, y(i / b, i % b) == w.model[v.cell[i]], "reshaped element %ld", i);
                    if (!copy)
                        for (long i = 0; i < n; i++)
                            MC_CHECK(c, &y(i / b, i % b) == w.buf.data() + v.cell[i], "reshape() does not share");
                    tensor<T, 3> y3 = y.reshape(shape<3>(b, 1, a));
                    for (long i = 0; i < n; i++)
                        MC_CHECK(c, y3(i / a, 0, i % a) == w.model[v.cell[i]], "element %ld reshaped to three axes", i);
                }
                catch (const mc::Violation&)
                {
                    throw;
                }
                catch (const std::exception&)
                {
                    threw = true;
                }
                bool must = !fits || (!copy && !x.is_contiguous());
                MC_CHECK(c, threw == must, "reshape%s of %ld elements to %ldx%ld %s", copy ? "_may_copy" : "", n, a, b, threw ? "throws" : "succeeds");
            }
            c.eval();
        }
    // a view over all elements in order is contiguous
    if (form == 0 && n > 0)
        MC_CHECK(c, x.is_contiguous(), "a whole tensor is not contiguous");
    c.outcome(n * 4 + form);
}

// Shared storage: who holds what
struct Store
{
    std::vector<double> data;
    int freed = 0;
};
template <int D>
void lifetime(mc::Ctx& c, int depth)
{
    static std::vector<std::unique_ptr<Store>> stores;
    stores.clear();
    struct Slot
    {
        int store = -1;
        std::vector<long> cells;
    };
    Slot model[3];
    {
        tensor<double, 1> t[3];
        auto fresh = [&] {
            stores.emplace_back(new Store);
            Store* s = stores.back().get();
            double* p = new double[6];
            for (int i = 0; i < 6; i++)
                p[i] = 10 * (double)stores.size() + i;
            return tensor<double, 1>(p, shape<1>(6), make_memory_finalizer([s, p] {
                                         s->freed++;
                                         for (int i = 0; i < 6; i++)
                                             p[i] = -1;
                                         delete[] p;
                                     }));
        };
        for (int s = 0; s < depth; s++)
        {
            int op = c.choose(8, "new|copy|move|slice of|clear|copy const|through temporary|derived view"), i = c.choose(3, "target"), j = i;
            if (op != 0 && op != 4)
                j = c.choose(3, "source");
            if (op == 2 && i == j && D == 0)
                return;
            c.op();
            switch (op)
            {
            case 0:
                t[i]     = fresh();
                model[i] = { (int)stores.size() - 1, { 0, 1, 2, 3, 4, 5 } };
                break;
            case 1:
                t[i]     = t[j];
                model[i] = model[j];
                break;
            case 2:
            {
                Slot m = model[j];
                t[i]   = std::move(t[j]);
                if (i != j)
                {
                    t[j]     = tensor<double, 1>(); // moved-from: only reassigned
                    model[j] = Slot();
                }
                model[i] = m;
                break;
            }
            case 3:
                if (model[j].cells.size() < 2)
                    return;
                t[i]     = t[j](trange(1, std::nullopt));
                model[i] = model[j];
                model[i].cells.erase(model[i].cells.begin());
                break;
            case 4:
                t[i]     = tensor<double, 1>();
                model[i] = Slot();
                break;
            case 5:
                t[i]     = static_cast<const tensor<double, 1>&>(t[j]);
                model[i] = model[j];
                break;
            case 7:
            {
                // views of views of every kind, none of which is kept
                const int n = (int)model[j].cells.size();
                if (n < 2)
                    return;
                const int kind = c.choose(6, "box|reshape|transpose|flatten|row|row of box");
                Slot m         = model[j];
                if ((kind == 1 || kind >= 3) && !t[j].is_contiguous())
                    return;
                switch (kind)
                {
                case 0:
                    t[i] = t[j](shape<1>(1), shape<1>(n));
                    m.cells.erase(m.cells.begin());
                    break;
                case 1: t[i] = t[j].reshape(shape<2>(1, n)).reshape(shape<1>(n)); break;
                case 2: t[i] = t[j].transpose(); break;
                case 3: t[i] = t[j].reshape(shape<3>(1, n, 1)).flatten(); break;
                case 4: t[i] = t[j].reshape(shape<2>(1, n))(0, tall()); break;
                case 5: t[i] = t[j].reshape(shape<2>(1, n))(shape<2>(0, 0), shape<2>(1, n))(0, tall()); break;
                }
                model[i] = m;
                break;
            }
            case 6:
            {
                tensor<double, 1> u = t[j];
                tensor<double, 1> z(u);
                u        = tensor<double, 1>();
                t[i]     = std::move(z);
                model[i] = model[j];
                break;
            }
            }
            std::vector<int> owners(stores.size());
            for (auto& m : model)
                if (m.store >= 0)
                    owners[m.store]++;
            for (size_t k = 0; k < stores.size(); k++)
            {
                if (owners[k])
                    MC_CHECK(c, stores[k]->freed == 0, "storage released while a tensor refers to it");
                else
                    MC_CHECK(c, stores[k]->freed == 1, "storage nobody refers to released %d times", stores[k]->freed);
            }
            for (int k = 0; k < 3; k++)
            {
                MC_CHECK(c, t[k].size() == model[k].cells.size(), "tensor has %zu elements, expected %zu", (size_t)t[k].size(), model[k].cells.size());
                for (size_t e = 0; e < model[k].cells.size(); e++)
                    MC_CHECK(c, t[k](e) == 10 * (model[k].store + 1) + model[k].cells[e], "element %zu is %g", e, t[k](e));
            }
            c.eval();
        }
        // writes are seen by every tensor that shares
        for (int k = 0; k < 3; k++)
            if (model[k].store >= 0)
            {
                t[k](0) = 777;
                for (int l = 0; l < 3; l++)
                    for (size_t e = 0; e < model[l].cells.size(); e++)
                        if (model[l].store == model[k].store && model[l].cells[e] == model[k].cells[0])
                            MC_CHECK(c, t[l](e) == 777, "a write through one view is not seen through another");
                t[k](0) = 10 * (model[k].store + 1) + model[k].cells[0];
            }
    }
    for (auto& s : stores)
        MC_CHECK(c, s->freed == 1, "at the end: storage released %d times", s->freed);
    c.outcome(stores.size() * 64 + model[0].cells.size() * 8 + model[1].cells.size());
}
// owning containers, braces, external containers
void sources(mc::Ctx& c)
{
    int n = c.choose(9, "elements");
    std::vector<double> v;
    for (int i = 0; i < n; i++)
        v.push_back(i + 0.5);
    const double* where = v.data();
    tensor<double, 1> t = tensor_from_container(std::move(v)), part;
    MC_CHECK(c, n == 0 || t.data() == where, "the container's data were copied");
    part = t(trange(n / 2, std::nullopt));
    t    = tensor<double, 1>();
    for (int i = 0; i < n - n / 2; i++)
        MC_CHECK(c, part(i) == n / 2 + i + 0.5, "element %d", i);
    tensor<double, 2> f(shape<2>(n, 3), 4.0);
    for (auto x : f)
        MC_CHECK(c, x == 4.0, "fill constructor");
    tensor<double, 2> fs(shape<2>(n, 3), shape<2>(1, n), 5.0); // column-major
    MC_CHECK(c, fs.size() == (size_t)n * 3, "size with strides");
    for (int i = 0; i < n; i++)
        for (int j = 0; j < 3; j++)
        {
            MC_CHECK(c, fs(i, j) == 5.0, "strided fill constructor");
            fs(i, j) = i * 3 + j;
        }
    for (int i = 0; i < n * 3; i++)
        MC_CHECK(c, fs.data()[i] == (i % std::max(n, 1)) * 3 + i / std::max(n, 1), "column-major element %d", i);
    tensor<int, 2> b{ { 1, 2, 3 }, { 4, 5, 6 } };
    for (int i = 0; i < 6; i++)
        MC_CHECK(c, b(i / 3, i % 3) == i + 1, "braced element %d", i);
    tensor<int, 3> b3{ { { 1, 2 }, { 3, 4 } }, { { 5, 6 }, { 7, 8 } }, { { 9, 10 }, { 11, 12 } } };
    for (int i = 0; i < 12; i++)
        MC_CHECK(c, b3(i / 4, i / 2 % 2, i % 2) == i + 1, "braced element %d", i);
    tensor<int, 2> fl(shape<2>(2, 3), { 1, 2, 3, 4, 5, 6 });
    MC_CHECK(c, eq(fl, b) && !ne(fl, b), "flat list");
    fl(1, 2) = 0;
    MC_CHECK(c, !eq(fl, b) && ne(fl, b), "comparison ignores an element");
    MC_CHECK(c, !eq(b, tensor<int, 2>(b.transpose().transpose()(tall(), tstop(2)))), "comparison ignores the shape");
    bool threw = false;
    try
    {
        tensor<int, 2> bad(shape<2>(2, 3), { 1, 2, 3, 4, 5 });
    }
    catch (const std::exception&)
    {
        threw = true;
    }
    MC_CHECK(c, threw, "a list of the wrong length is accepted");
    auto arr = b.transpose().to_array<6>();
    for (int i = 0; i < 6; i++)
        MC_CHECK(c, arr[i] == b(i % 2, i / 2), "to_array element %d", i);
    c.eval(30);
    c.outcome(n);
}

void mc_register()
{
    bool th = mc::thorough();
    mc::add("slice1_f64", th ? 9 : 7, [](mc::Ctx& c, uint64_t r) { slice1<double>(c, (long)r); });
    mc::add("slice1_i32", th ? 9 : 7, [](mc::Ctx& c, uint64_t r) { slice1<int>(c, (long)r); });
    mc::add("slice1_twice", 4, [](mc::Ctx& c, uint64_t r) { slice1_twice<double>(c, std::vector<long>{ 1, 3, 6, 18 }[r]); });
    mc::add("slice2_f64", 9, [](mc::Ctx& c, uint64_t r) { slice2<double>(c, 1 + r / 3 * 2, 1 + r % 3 * 2); });
    mc::add("slice2_f32", 4, [](mc::Ctx& c, uint64_t r) { slice2<float>(c, r & 1 ? 3 : 17, r & 2 ? 5 : 19); });
    mc::add("slice3", th ? 4 : 2, [](mc::Ctx& c, uint64_t r) { slice3<double>(c, r & 1 ? 3 : 2, r & 1 ? 2 : 4, r & 2 ? 2 : 3); });
    mc::add("reshape", 1, [](mc::Ctx& c, uint64_t) { reshapes<double>(c); });
    mc::add("lifetime", 1, [th](mc::Ctx& c, uint64_t) { lifetime<1>(c, th ? 5 : 4); });
    mc::add("sources", 1, [](mc::Ctx& c, uint64_t) { sources(c); });
}
MC_MAIN()
