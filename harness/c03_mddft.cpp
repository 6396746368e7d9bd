// C03: multidimensional DFT of every small shape against the separable definition.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "dftref.hpp"
using namespace kfr;
using namespace dftref;
using mcu::uval;
using Shape = std::vector<size_t>;

static size_t product(const Shape& s)
{
    size_t p = 1;
    for (auto v : s)
        p *= v;
    return p;
}
// unscaled transform along one axis after another
static std::vector<cd> md(const std::vector<cd>& x, const Shape& s)
{
    std::vector<cd> y = x;
    size_t inner      = 1;
    for (size_t a = s.size(); a-- > 0;)
    {
        size_t n = s[a], outer = y.size() / (n * inner);
        std::vector<cd> line(n);
        for (size_t o = 0; o < outer; o++)
            for (size_t i = 0; i < inner; i++)
            {
                for (size_t k = 0; k < n; k++)
                    line[k] = y[(o * n + k) * inner + i];
                auto f = direct(line);
                for (size_t k = 0; k < n; k++)
                    y[(o * n + k) * inner + i] = f[k];
            }
        inner *= n;
    }
    return y;
}
template <class T>
double tolerance(const Shape& s, double norm)
{
    double k = 14;
    for (size_t n : s)
    {
        size_t r = 1, m = n;
        for (size_t p = 2; p <= m; p++)
            while (m % p == 0)
                m /= p, r = p;
        k += 8 * std::log2((double)n + 1) + (n > 1 ? 2.0 * r : 0);
    }
    return (sizeof(T) == 4 ? 1.2e-7 : 2.3e-16) * norm * k;
}
template <index_t Dims>
shape<Dims> mkshape(const Shape& s)
{
    shape<Dims> r;
    if constexpr (Dims == dynamic_shape)
        r = shape<Dims>(s.size());
    for (size_t i = 0; i < s.size(); i++)
        r[i] = (index_t)s[i];
    return r;
}
static std::string str(const Shape& s)
{
    std::string r;
    for (auto v : s)
        r += (r.empty() ? "" : "x") + std::to_string(v);
    return r;
}

template <class T, index_t Dims>
void complex_case(mc::Ctx& c, const Shape& s, const std::vector<cd>& x)
{
    size_t n = product(s);
    auto f   = md(x, s);
    std::vector<cd> b(x);
    for (auto& v : b)
        v = std::conj(v);
    b = md(b, s);
    for (auto& v : b)
        v = std::conj(v);
    double norm = norm2(x), tol = tolerance<T>(s, norm);
    dft_plan_md<T, Dims> plan(mkshape<Dims>(s));
    MC_CHECK(c, plan.size.product() == n && plan.size.dims() == s.size(), "shape %s: plan reports another size", str(s).c_str());
    for (int inv = 0; inv < 2; inv++)
        for (int temp = 1; temp >= 0; temp--)
            for (int ip = 0; ip < 2; ip++)
                for (int api = 0; api < (Dims == dynamic_shape || Dims == 1 ? 2 : 3); api++)
                {
                    auto d = [&] { return mc::fmt("shape %s %s %s %s scratch call %d", str(s).c_str(), inv ? "inverse" : "forward",
                                                  ip ? "in place" : "out of place", temp ? "caller" : "no", api); };
                    c.key("complex,%s%s", inv ? "inverse" : "forward", ip ? ",inplace" : "");
                    ABuf<complex<T>> in(n, 0), out(ip ? 0 : n, 0);
                    Scratch tmp(temp ? plan.temp_size : 0);
                    unsigned char* tp = temp ? tmp.get() : nullptr;
                    for (size_t i = 0; i < n; i++)
                        in[i] = complex<T>(T(x[i].real()), T(x[i].imag()));
                    complex<T>* o = ip ? in.data() : out.data();
                    c.op();
                    if (api == 0)
                        plan.execute(o, in.data(), tp, inv == 1);
                    else if (api == 1)
                        inv ? plan.execute(o, in.data(), tp, ctrue) : plan.execute(o, in.data(), tp, cfalse);
                    else if constexpr (Dims != dynamic_shape && Dims != 1)
                    {
                        tensor<complex<T>, Dims> to(o, mkshape<Dims>(s), nullptr), ti(in.data(), mkshape<Dims>(s), nullptr);
                        plan.execute(to, ti, tp, inv == 1);
                    }
                    auto& w = inv ? b : f;
                    for (size_t i = 0; i < n; i++)
                    {
                        cd g(o[i].real(), o[i].imag());
                        if (!(std::abs(g - w[i]) <= tol))
                            c.fail("%s: element %zu is (%.9g,%.9g), expected (%.9g,%.9g)", d().c_str(), i, g.real(), g.imag(),
                                   w[i].real(), w[i].imag());
                        if (!ip)
                            MC_CHECK(c, in[i] == complex<T>(T(x[i].real()), T(x[i].imag())), "%s: input changed at %zu",
                                     d().c_str(), i);
                    }
                    c.eval(n);
                    c.outcome(mcu::digest(o, n, inv));
                }
}

template <class T, index_t Dims>
void real_case(mc::Ctx& c, const Shape& s, const std::vector<double>& x, bool enough)
{
    size_t n = product(s), last = s.back(), half = last / 2 + 1, rows = n / last, cn = rows * half;
    std::vector<cd> cx(x.begin(), x.end());
    auto full = md(cx, s);
    std::vector<cd> spec(cn);
    for (size_t r = 0; r < rows; r++)
        for (size_t k = 0; k < half; k++)
            spec[r * half + k] = full[r * last + k];
    double norm = norm2(cx);
    dft_plan_md_real<T, Dims> plan(mkshape<Dims>(s), enough);
    MC_CHECK(c, plan.complex_size().product() == cn && plan.real_out_size() == 2 * cn,
             "shape %s: plan reports %zu complex values", str(s).c_str(), (size_t)plan.complex_size().product());
    for (int inv = 0; inv < 2; inv++)
        for (int temp = 1; temp >= 0; temp--)
            for (int ip = 0; ip < 2; ip++)
                for (int api = 0; api < (Dims == dynamic_shape || Dims == 1 || (inv && enough) ? 2 : 3); api++)
                {
                    auto d = [&] { return mc::fmt("shape %s real %s %s %s scratch call %d real_out_is_enough %d", str(s).c_str(),
                                                  inv ? "inverse" : "forward", ip ? "in place" : "out of place",
                                                  temp ? "caller" : "no", api, (int)enough); };
                    c.key("real,%s%s,call%d", inv ? "inverse" : "forward", ip ? ",inplace" : "", api);
                    Scratch tmp(temp ? plan.temp_size : 0);
                    unsigned char* tp = temp ? tmp.get() : nullptr;
                    c.op();
                    if (!inv)
                    {
                        ABuf<T> in(ip ? 2 * cn : n, 0);
                        ABuf<complex<T>> out(ip ? 0 : cn, 0);
                        for (size_t i = 0; i < n; i++)
                            in[i] = T(x[i]);
                        complex<T>* o = ip ? (complex<T>*)in.data() : out.data();
                        const T* ci   = in.data();
                        if (api == 0)
                            plan.execute(o, ci, tp);
                        else if (api == 1)
                            plan.execute(o, ci, tp, false);
                        else if constexpr (Dims != dynamic_shape && Dims != 1)
                        {
                            tensor<complex<T>, Dims> to(o, plan.complex_size(), nullptr);
                            tensor<T, Dims> ti(in.data(), mkshape<Dims>(s), nullptr);
                            plan.execute(to, ti, tp);
                        }
                        double tol = tolerance<T>(s, norm);
                        for (size_t i = 0; i < cn; i++)
                        {
                            cd g(o[i].real(), o[i].imag());
                            if (!(std::abs(g - spec[i]) <= tol))
                                c.fail("%s: element %zu is (%.9g,%.9g), expected (%.9g,%.9g)", d().c_str(), i, g.real(), g.imag(),
                                       spec[i].real(), spec[i].imag());
                        }
                        if (!ip)
                            for (size_t i = 0; i < n; i++)
                                MC_CHECK(c, in[i] == T(x[i]), "%s: input changed at %zu", d().c_str(), i);
                        c.eval(cn);
                        c.outcome(mcu::digest(o, cn, 5));
                    }
                    else
                    {
                        ABuf<complex<T>> in(cn, 0);
                        ABuf<T> out(ip ? 0 : enough ? plan.real_out_size() : n, 0);
                        std::vector<complex<T>> keep(cn);
                        for (size_t i = 0; i < cn; i++)
                            keep[i] = in[i] = complex<T>(T(spec[i].real()), T(spec[i].imag()));
                        T* o                 = ip ? (T*)in.data() : out.data();
                        const complex<T>* ci = in.data();
                        if (api == 0)
                            plan.execute(o, ci, tp);
                        else if (api == 1)
                            plan.execute(o, ci, tp, true);
                        else if constexpr (Dims != dynamic_shape && Dims != 1)
                        {
                            tensor<T, Dims> to(o, mkshape<Dims>(s), nullptr);
                            tensor<complex<T>, Dims> ti(in.data(), plan.complex_size(), nullptr);
                            plan.execute(to, ti, tp);
                        }
                        double tol = 1.5 * tolerance<T>(s, norm * std::sqrt((double)n));
                        for (size_t i = 0; i < n; i++)
                            if (!(std::fabs(o[i] - x[i] * n) <= tol))
                                c.fail("%s: element %zu is %.9g, expected %.9g", d().c_str(), i, (double)o[i], x[i] * n);
                        if (!ip)
                            for (size_t i = 0; i < cn; i++)
                                MC_CHECK(c, in[i] == keep[i], "%s: input changed at %zu", d().c_str(), i);
                        c.eval(n);
                        c.outcome(mcu::digest(o, n, 6));
                    }
                }
}
template <class T, index_t Dims>
void one(mc::Ctx& c, const Shape& s, int basis)
{
    size_t n = product(s);
    c.log("shape %s dims %s", str(s).c_str(), Dims == dynamic_shape ? "dynamic" : "static");
    int mode = c.choose(s.back() % 2 == 0 ? 3 : 1, "complex|real|real,enough");
    size_t j = basis ? c.choose((int)n, "basis") : 0;
    if (mode == 0)
    {
        std::vector<cd> x(n);
        if (basis)
            x[j] = basis == 1 ? cd(1, 0) : cd(0, 1);
        else
            for (size_t i = 0; i < n; i++)
                x[i] = cd((T)uval(2 * i, 5), (T)uval(2 * i + 1, 5));
        complex_case<T, Dims>(c, s, x);
    }
    else
    {
        std::vector<double> x(n);
        if (basis)
            x[j] = 1;
        else
            for (size_t i = 0; i < n; i++)
                x[i] = (T)uval(i, 6);
        real_case<T, Dims>(c, s, x, mode == 2);
    }
}
template <class T>
void dispatch(mc::Ctx& c, const Shape& s, int basis, bool dynamic)
{
    if (dynamic)
        return one<T, dynamic_shape>(c, s, basis);
    switch (s.size())
    {
    case 1:
        return one<T, 1>(c, s, basis);
    case 2:
        return one<T, 2>(c, s, basis);
    case 3:
        return one<T, 3>(c, s, basis);
    case 4:
        return one<T, 4>(c, s, basis);
    case 5:
        return one<T, 5>(c, s, basis);
    }
}

static std::vector<Shape> shapes(bool th)
{
    std::vector<Shape> r;
    auto all = [&](size_t dims, std::vector<size_t> axes, size_t cap) {
        Shape s(dims);
        std::function<void(size_t)> go = [&](size_t d) {
            if (d == dims)
            {
                if (product(s) <= cap)
                    r.push_back(s);
                return;
            }
            for (auto a : axes)
                s[d] = a, go(d + 1);
        };
        go(0);
    };
    std::vector<size_t> one;
    for (size_t i = 1; i <= 48; i++)
        one.push_back(i);
    all(1, one, 1000);
    std::vector<size_t> two;
    for (size_t i = 1; i <= (th ? 40u : 18u); i++)
        two.push_back(i);
    for (size_t i : { 31, 32, 37, 64 })
        two.push_back(i);
    all(2, two, 1 << 20);
    all(3, th ? std::vector<size_t>{ 1, 2, 3, 4, 5, 6, 7, 8, 9, 11, 13, 16 } : std::vector<size_t>{ 1, 2, 3, 4, 5, 6, 8, 11 }, 4000);
    all(4, th ? std::vector<size_t>{ 1, 2, 3, 4, 5, 6, 8 } : std::vector<size_t>{ 1, 2, 3, 4, 6 }, 4000);
    all(5, { 1, 2, 3 }, 1000);
    for (Shape s : { Shape{ 257, 2 }, Shape{ 2, 257 }, Shape{ 300, 7 }, Shape{ 7, 300 }, Shape{ 1000, 1 }, Shape{ 1, 1000 },
                     Shape{ 128, 128 }, Shape{ 3, 1024 }, Shape{ 1024, 3 }, Shape{ 512, 4 }, Shape{ 4, 512 } })
        r.push_back(s);
    return r;
}

void mc_register()
{
    static auto sh = shapes(mc::thorough());
    static std::vector<Shape> small;
    for (auto& s : sh)
        if (product(s) <= (mc::thorough() ? 36 : 16) && s.size() <= 3)
            small.push_back(s);
    mc::add("dense_f32", sh.size() * 2, [](mc::Ctx& c, uint64_t r) { dispatch<float>(c, sh[r / 2], 0, r % 2); });
    mc::add("dense_f64", sh.size() * 2, [](mc::Ctx& c, uint64_t r) { dispatch<double>(c, sh[r / 2], 0, r % 2); });
    mc::add("basis_f32", small.size() * 4, [](mc::Ctx& c, uint64_t r) { dispatch<float>(c, small[r / 4], 1 + r / 2 % 2, r % 2); });
    mc::add("basis_f64", small.size() * 4, [](mc::Ctx& c, uint64_t r) { dispatch<double>(c, small[r / 4], 1 + r / 2 % 2, r % 2); });
}
MC_MAIN()
