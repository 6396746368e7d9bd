// C01: complex DFT of every size and calling mode against the Fourier sum.
#include <kfr/base.hpp>
#include <kfr/dft.hpp>
#include "dftref.hpp"
using namespace kfr;
using namespace dftref;
using mcu::uval;

struct Mode
{
    bool inplace, temp, inv;
    int mis; // misalignment of both buffers in elements
};
static std::vector<Mode> modes()
{
    std::vector<Mode> m;
    for (int inv = 0; inv < 2; inv++)
        for (int temp = 1; temp >= 0; temp--)
            for (int ip = 0; ip < 2; ip++)
                for (int mis = 0; mis < 2; mis++)
                    m.push_back({ ip == 1, temp == 1, inv == 1, mis });
    return m;
}

// Executes the plan in the given mode on x; checks memory discipline; returns the output.
template <class T>
std::vector<cd> execute(mc::Ctx& c, const dft_plan<T>& plan, const Mode& m, const std::vector<cd>& x)
{
    size_t n = x.size();
    ABuf<complex<T>> in(n, m.mis * sizeof(complex<T>)), out(m.inplace ? 0 : n, m.mis * sizeof(complex<T>));
    Scratch tmp(m.temp ? plan.temp_size : 0);
    for (size_t i = 0; i < n; i++)
        in[i] = complex<T>(T(x[i].real()), T(x[i].imag()));
    complex<T>* o = m.inplace ? in.data() : out.data();
    c.op();
    plan.execute(o, in.data(), m.temp ? tmp.get() : nullptr, m.inv);
    if (!m.inplace)
        for (size_t i = 0; i < n; i++)
            MC_CHECK(c, in[i] == complex<T>(T(x[i].real()), T(x[i].imag())),
                     "size %zu: out-of-place call changed its input at %zu (inverse %d, temp %d)", n, i, m.inv, m.temp);
    MC_CHECK(c, in.canaries_ok() && out.canaries_ok(), "size %zu: wrote before the buffer", n);
    std::vector<cd> r(n);
    for (size_t i = 0; i < n; i++)
        r[i] = cd(o[i].real(), o[i].imag());
    return r;
}
template <class T>
double tolerance(size_t n, double norm)
{
    double eps = sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
    // Every output is a sum with coefficients of modulus one: its error is relative to the norm of the input.
    // The constant covers the longest chain of passes, table rounding and the chirp algorithm.
    // A generic pass of prime radix r computes its table with phases of up to r/4 turns: error proportional to r.
    size_t r = 1, m = n;
    for (size_t p = 2; p <= m; p++)
        while (m % p == 0)
            m /= p, r = p;
    return eps * norm * (10 + 6 * std::log2((double)n + 1) + (r < 101 ? 2.0 * r : 0.0));
}
template <class T>
void compare(mc::Ctx& c, const std::vector<cd>& got, const std::vector<cd>& want, double tol, const Mode& m, const char* what)
{
    size_t n = got.size();
    for (size_t i = 0; i < n; i++)
        if (!(std::abs(got[i] - want[i]) <= tol))
            c.fail("size %zu %s %s %s scratch misaligned %d (%s): bin %zu is (%.9g,%.9g), the sum is (%.9g,%.9g), tolerance %.3g",
                   n, m.inv ? "inverse" : "forward", m.inplace ? "in place" : "out of place", m.temp ? "caller" : "no", m.mis,
                   what, i, got[i].real(), got[i].imag(), want[i].real(), want[i].imag(), tol);
    c.eval(n);
    c.outcome(mcu::digest(got.data(), n, m.inv));
}
template <class T>
std::vector<cd> dense(size_t n)
{
    std::vector<cd> x(n);
    for (size_t i = 0; i < n; i++)
        x[i] = cd((T)uval(i, 1), (T)uval(i, 2));
    return x;
}

// One dense vector, all modes consecutively on one plan.
template <class T>
void size_all_modes(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    c.key("n%zu", n);
    auto x = dense<T>(n);
    auto f = forward(x), b = inverse(x);
    dft_plan<T> plan0(n);
    dft_plan<T> plan(std::move(plan0)); // plans are movable
    MC_CHECK(c, plan.size == n, "size %zu: plan reports size %zu", n, plan.size);
    double tol = tolerance<T>(n, norm2(x));
    for (auto& m : modes())
        compare<T>(c, execute<T>(c, plan, m, x), m.inv ? b : f, tol, m, "dense");
    // forward then inverse multiplies by the length
    for (int ip = 0; ip < 2; ip++)
    {
        Mode a{ ip == 1, true, false, 0 }, d{ ip == 1, true, true, 0 };
        auto y = execute<T>(c, plan, d, execute<T>(c, plan, a, x));
        auto w = x;
        for (auto& v : w)
            v *= double(n);
        compare<T>(c, y, w, tolerance<T>(n, norm2(x)) * std::sqrt((double)n) * 3, d, "round trip");
    }
}
// The transform of every basis vector: under linearity this determines the transform of every input.
template <class T>
void size_basis(mc::Ctx& c, size_t n)
{
    c.log("size %zu", n);
    auto ms = modes();
    Mode m  = ms[c.choose((int)ms.size(), "mode")];
    dft_plan<T> plan(n);
    const auto& t = twiddles(n);
    for (size_t j = 0; j < n; j++)
        for (int im = 0; im < 2; im++)
        {
            std::vector<cd> x(n), w(n);
            x[j] = im ? cd(0, 1) : cd(1, 0);
            for (size_t k = 0; k < n; k++)
            {
                cd e = t[j * k % n];
                w[k] = x[j] * (m.inv ? std::conj(e) : e);
            }
            compare<T>(c, execute<T>(c, plan, m, x), w, tolerance<T>(n, 1), m, "basis vector");
        }
}

static std::vector<size_t> big_sizes(bool thorough)
{
    std::vector<size_t> s;
    for (int p = 11; p <= (thorough ? 21 : 17); p++)
        s.push_back(size_t(1) << p);
    // smooth composites of every radix, squares of primes, primes and products with a large prime factor
    for (size_t n : { 1050, 1155, 1200, 1210, 1250, 1296, 1331, 1440, 1500, 1536, 1575, 1680, 1701, 1728, 1750, 1848, 1920,
                      1944, 2000, 2100, 2187, 2197, 2310, 2401, 2520, 3000, 3072, 3125, 3150, 3163, 3600, 3840, 4095, 4100,
                      4725, 5000, 5040, 6000, 6144, 6561, 7000, 7560, 7776, 8190, 8191, 8400, 9216, 10000, 11025, 12000,
                      1033, 1061, 1111, 1517, 1681, 2047, 2053, 2209, 2993, 4099, 4181, 6007, 7921 })
        s.push_back(n);
    if (thorough)
        for (size_t n : { 12289, 14641, 15000, 16384 * 3, 16807, 18432, 19683, 20160, 25200, 27720, 30030, 36864, 40000, 44100,
                          45045, 48000, 50000, 50400, 65535, 65537, 83160, 96000, 98304, 100000, 110592, 131071, 147456,
                          177147, 196608, 262143, 279936, 360360, 531441, 720720, 1000000 })
            s.push_back(n);
    return s;
}

void mc_register()
{
    size_t N = mc::tier<size_t>(1024, 3000);
    mc::add("dense_f32", N, [](mc::Ctx& c, uint64_t r) { size_all_modes<float>(c, r + 1); });
    mc::add("dense_f64", N, [](mc::Ctx& c, uint64_t r) { size_all_modes<double>(c, r + 1); });
    static auto big = big_sizes(mc::thorough());
    mc::add("big_f32", big.size(), [](mc::Ctx& c, uint64_t r) { size_all_modes<float>(c, big[big.size() - 1 - r]); }, 300);
    mc::add("big_f64", big.size(), [](mc::Ctx& c, uint64_t r) { size_all_modes<double>(c, big[big.size() - 1 - r]); }, 300);
    size_t B = mc::tier<size_t>(72, 300);
    mc::add("basis_f32", B, [](mc::Ctx& c, uint64_t r) { size_basis<float>(c, r + 1); });
    mc::add("basis_f64", B, [](mc::Ctx& c, uint64_t r) { size_basis<double>(c, r + 1); });
    mc::add("reference", 130,
            [](mc::Ctx& c, uint64_t r)
            {
                auto x = dense<double>(r + 1);
                auto a = direct(x), b = fast(x);
                for (size_t i = 0; i < a.size(); i++)
                    if (std::abs(a[i] - b[i]) > 1e-12 * (r + 1))
                        c.infra("the two references disagree");
                c.op();
            });
}
MC_MAIN()
