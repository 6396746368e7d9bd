// C23: NPY files. The oracle is an independent reader and writer of the published format
// (numpy.lib.format): every file is built or judged by it, never by the code under test.
#include <kfr/base.hpp>
#include <kfr/base/npy.hpp>
#include "util.hpp"
using namespace kfr;
using mc::Ctx;
using V = std::vector<long>;

// ------------------------------------------------------------------------------------------- the format
struct Parsed
{
    enum
    {
        OK,   // well formed: shape, type and data as below
        BAD,  // must be refused
        MAYBE // harmless deviation: refusing it is fine, and so is loading it as below
    } verdict = BAD;
    std::string descr;
    bool fortran = false;
    V dims;
    size_t data = 0; // where the elements begin
};
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\n' || c == '\f'; }
// header text -> dictionary; a strict reader of Python literals, except that deviations which leave the meaning plain
// are flagged instead of refused
static void parse_header(const std::string& h, Parsed& r)
{
    r.verdict  = Parsed::BAD;
    size_t p   = 0;
    bool maybe = false;
    auto skip  = [&] {
        // any control character separates tokens for the code under test; blank, tab, newline and form feed do in Python
        while (p < h.size() && (unsigned char)h[p] <= ' ')
        {
            if (!ws(h[p]))
                maybe = true;
            p++;
        }
    };
    auto str = [&](std::string& s) {
        s.clear();
        if (p >= h.size() || (h[p] != '\'' && h[p] != '"'))
            return false;
        char q = h[p++];
        if (q == '"')
            maybe = true; // legal, but never produced
        while (p < h.size() && h[p] != q)
        {
            if (h[p] == '\\')
            {
                maybe = true;
                if (++p >= h.size())
                    return false;
            }
            s += h[p++];
        }
        if (p >= h.size())
            return false;
        p++;
        return true;
    };
    skip();
    if (p >= h.size() || h[p++] != '{')
        return;
    int have[3] = { 0, 0, 0 };
    for (;;)
    {
        skip();
        if (p >= h.size())
            return;
        if (h[p] == '}')
        {
            p++;
            break;
        }
        std::string key;
        if (!str(key))
            return;
        skip();
        if (p >= h.size() || h[p++] != ':')
            return;
        skip();
        if (key == "descr")
        {
            if (have[0]++)
                maybe = true;
            if (!str(r.descr))
                return;
        }
        else if (key == "fortran_order")
        {
            if (have[1]++)
                maybe = true;
            if (h.compare(p, 4, "True") == 0)
                r.fortran = true, p += 4;
            else if (h.compare(p, 5, "False") == 0)
                r.fortran = false, p += 5;
            else
                return;
        }
        else if (key == "shape")
        {
            if (have[2]++)
                maybe = true;
            r.dims.clear();
            if (p >= h.size() || h[p++] != '(')
                return;
            bool comma = true;
            int commas = 0;
            for (;;)
            {
                skip();
                if (p >= h.size())
                    return;
                if (h[p] == ')')
                {
                    p++;
                    break;
                }
                if (!comma)
                    return;
                if (h[p] < '0' || h[p] > '9')
                    return;
                size_t b = p;
                while (p < h.size() && h[p] >= '0' && h[p] <= '9')
                    p++;
                if (p - b > 18)
                    r.dims.push_back(-1); // not representable
                else
                    r.dims.push_back(atol(h.substr(b, p - b).c_str()));
                if (p - b > 1 && h[b] == '0')
                    maybe = true;
                skip();
                comma = p < h.size() && h[p] == ',';
                if (comma)
                    p++, commas++;
            }
            if (r.dims.size() == 1 && !commas)
                maybe = true; // "(5)" is not a tuple
        }
        else
        {
            maybe = true; // unknown keys: skip a balanced value
            int depth = 0;
            for (;; p++)
            {
                if (p >= h.size())
                    return;
                if (h[p] == '\'' || h[p] == '"')
                {
                    std::string d;
                    if (!str(d))
                        return;
                    p--;
                }
                else if (strchr("([{", h[p]) && h[p])
                    depth++;
                else if (depth && strchr(")]}", h[p]) && h[p])
                    depth--;
                else if (!depth && (h[p] == ',' || h[p] == '}'))
                    break;
            }
        }
        skip();
        if (p < h.size() && h[p] == ',')
            p++;
        else if (p >= h.size() || h[p] != '}')
            return;
    }
    if (!have[0] || !have[1] || !have[2])
        return;
    for (; p < h.size(); p++)
        if (!ws(h[p]))
            maybe = true; // text after the dictionary
    if (h.back() != '\n')
        maybe = true;
    r.verdict = maybe ? Parsed::MAYBE : Parsed::OK;
}
static Parsed parse(const std::string& f)
{
    Parsed r;
    if (f.size() < 10 || f.compare(0, 6, "\x93NUMPY") != 0)
        return r;
    unsigned char v = f[6], minor = f[7];
    if (v < 1 || v > 3 || minor != 0)
        return r;
    auto by       = [&](size_t i) { return (size_t)(unsigned char)f[i]; };
    size_t at     = v == 1 ? 10 : 12;
    if (f.size() < at)
        return r;
    size_t len = v == 1 ? by(8) | by(9) << 8 : by(8) | by(9) << 8 | by(10) << 16 | by(11) << 24;
    if (f.size() < at + len || len == 0)
        return r;
    r.data = at + len;
    parse_header(f.substr(at, len), r);
    return r;
}
template <class T>
static const char* kind_of()
{
    if (std::is_same_v<T, bool>)
        return "b";
    if (std::is_same_v<T, complex<float>> || std::is_same_v<T, complex<double>>)
        return "c";
    if (std::is_floating_point_v<T>)
        return "f";
    return std::is_unsigned_v<T> ? "u" : "i";
}
template <class T>
static std::string code()
{
    return mc::fmt("%s%zu", kind_of<T>(), sizeof(T));
}
static long prod(const V& s)
{
    long p = 1;
    for (long v : s)
        p *= v;
    return p;
}
static V unflat(const V& s, long i)
{
    V r(s.size());
    for (size_t d = s.size(); d-- > 0;)
        r[d] = i % s[d], i /= s[d];
    return r;
}
static std::string str(const V& s)
{
    std::string r = "(";
    for (long v : s)
        r += mc::fmt("%ld,", v);
    return r + ")";
}
template <class T>
static T val(long i, int salt = 0)
{
    T t;
    unsigned char b[sizeof(T)];
    for (size_t k = 0; k < sizeof(T); k++)
        b[k] = (unsigned char)(mc::hash_mix((uint64_t)i * 31 + k + 1, 77 + salt) >> 20);
    if (std::is_same_v<T, bool>)
        b[0] &= 1;
    memcpy(&t, b, sizeof(T));
    return t;
}
template <class T>
static bool same(const T& a, const T& b)
{
    return memcmp(&a, &b, sizeof(T)) == 0;
}
template <index_t D>
static shape<D> sh(const V& v)
{
    shape<D> s;
    for (size_t i = 0; i < D; i++)
        s[i] = (index_t)v[i];
    return s;
}
static const V pick_shape(Ctx& c, int D)
{
    V s;
    for (int d = 0; d < D; d++)
        s.push_back(c.pick(D == 1 ? V{ 1, 2, 3, 7, 16, 33 } : D == 2 ? V{ 1, 2, 3, 5 } : D == 3 ? V{ 1, 2, 3 } : V{ 1, 2 }, "side"));
    return s;
}
// the element bytes of cell x, in the given byte order (components of complex numbers swap separately)
template <class T>
static void put(std::string& out, const T& t, bool big)
{
    char b[sizeof(T)];
    memcpy(b, &t, sizeof(T));
    const size_t w = kind_of<T>()[0] == 'c' ? sizeof(T) / 2 : sizeof(T);
    if (big)
        for (size_t k = 0; k < sizeof(T); k += w)
            std::reverse(b + k, b + k + w);
    out.append(b, sizeof(T));
}
template <class T>
static std::string encode(const V& s, bool fortran, bool big, int version, const std::string& text, int salt = 0)
{
    std::string out = "\x93NUMPY";
    out += (char)version;
    out += (char)0;
    size_t len = text.size();
    for (int k = 0; k < (version == 1 ? 2 : 4); k++)
        out += (char)(len >> (8 * k));
    out += text;
    const long n = prod(s);
    for (long i = 0; i < n; i++)
    {
        // i-th element in file order -> which cell
        V x;
        if (fortran)
        {
            long r = i;
            for (long d : s)
                x.push_back(r % d), r /= d;
        }
        else
            x = unflat(s, i);
        long cell = 0;
        for (size_t d = 0; d < s.size(); d++)
            cell = cell * s[d] + x[d];
        put(out, val<T>(cell, salt), big);
    }
    return out;
}
static std::string tuple(const V& s)
{
    std::string r = "(";
    for (size_t i = 0; i < s.size(); i++)
        r += (i ? ", " : "") + std::to_string(s[i]);
    return r + (s.size() == 1 ? ",)" : ")");
}
template <class T>
static std::string header(const V& s, bool fortran, bool big, int version)
{
    std::string h = "{'descr': '" + std::string(sizeof(T) == 1 ? "|" : big ? ">" : "<") + code<T>() +
                    "', 'fortran_order': " + (fortran ? "True" : "False") + ", 'shape': " + tuple(s) + ", }";
    const size_t pre = version == 1 ? 10 : 12;
    h.append((64 - (pre + h.size() + 1) % 64) % 64, ' ');
    return h + "\n";
}

// ------------------------------------------------------------------------------------------- loading
struct Source
{
    const std::string& f;
    size_t pos   = 0;
    int calls    = 0;
    int fail_at  = -1; // this call fails
    int how      = 0;  // 0: nothing delivered, 1: half delivered
    bool operator()(void* d, size_t n)
    {
        const int k = calls++;
        size_t m    = std::min(n, f.size() - pos);
        if (k == fail_at)
        {
            m = how ? m / 2 : 0;
            memcpy(d, f.data() + pos, m);
            pos += m;
            return false;
        }
        memcpy(d, f.data() + pos, m); // delivers what is left, as a file would
        pos += m;
        return m == n;
    }
};
template <class T, index_t D>
static CMT_NOINLINE npy_decode_result load(tensor<T, D>& t, Source& s)
{
    return load_from_npy(t, s);
}
static const char* name(npy_decode_result r)
{
    switch (r)
    {
    case npy_decode_result::ok: return "ok";
    case npy_decode_result::cannot_read: return "cannot_read";
    case npy_decode_result::invalid_header: return "invalid_header";
    case npy_decode_result::invalid_type: return "invalid_type";
    case npy_decode_result::invalid_shape: return "invalid_shape";
    }
    return "?";
}
// what the loaded tensor must hold if the file is what `p` says it is
template <class T, index_t D>
static CMT_NOINLINE void compare(Ctx& c, const std::string& f, const Parsed& p, tensor<T, D>& t, const char* what)
{
    for (index_t d = 0; d < D; d++)
        MC_CHECK(c, (long)t.shape()[d] == p.dims[d], "%s: axis %d loads as %lld elements, the file says %ld", what, (int)d,
                 (long long)t.shape()[d], p.dims[d]);
    const bool big = p.descr[0] == '>';
    const long n   = prod(p.dims);
    for (long i = 0; i < n; i++)
    {
        V x;
        if (p.fortran)
        {
            long r = i;
            for (long d : p.dims)
                x.push_back(r % d), r /= d;
        }
        else
            x = unflat(p.dims, i);
        std::string got;
        put(got, t.access(sh<D>(x)), big);
        MC_CHECK(c, f.compare(p.data + i * sizeof(T), sizeof(T), got) == 0, "%s: element %s is not the one stored at byte %zu of the file",
                 what, str(x).c_str(), p.data + i * sizeof(T));
    }
    c.eval();
}
// judge one load of the file `f` as T, D
template <class T, index_t D>
static void judge(Ctx& c, const std::string& f, const char* what, bool deliberate = false)
{
    Parsed p = parse(f);
    if (p.verdict != Parsed::BAD)
    {
        // right type and size?
        const std::string cd = code<T>();
        bool type_ok         = p.descr.size() == 1 + cd.size() && p.descr.compare(1, std::string::npos, cd) == 0 && p.descr[0] && strchr("<>|=", p.descr[0]);
        if (type_ok && p.descr[0] == '|' && sizeof(T) > 1)
            p.verdict = Parsed::MAYBE; // numpy reads it as native
        if (type_ok && p.descr[0] == '=')
            p.verdict = Parsed::MAYBE;
        if (!type_ok || p.dims.size() != D)
            p.verdict = Parsed::BAD;
        else
        {
            size_t n = 1;
            for (long d : p.dims)
                if (d < 0 || (d && n > (size_t)1e9 / d))
                    n = (size_t)1e12;
                else
                    n *= d;
            if (n == 0)
                p.verdict = Parsed::BAD; // empty arrays cannot be loaded, by design
            else if (n >= (size_t)1e12 || p.data + n * sizeof(T) > f.size())
                p.verdict = Parsed::BAD; // fewer elements than promised
        }
    }
    tensor<T, D> t;
    Source s{ f };
    npy_decode_result r;
    c.op();
    try
    {
        r = load(t, s);
    }
    catch (const std::exception& e)
    {
        c.fail("%s: loading threw %s instead of reporting an error", what, e.what());
        return;
    }
    c.outcome(mc::hash_mix((uint64_t)r, mc::hash_bytes(f.data(), f.size())));
    if (p.verdict == Parsed::OK)
        MC_CHECK(c, r == npy_decode_result::ok, "%s: a well-formed file is refused with %s", what, name(r));
    if (p.verdict == Parsed::BAD)
        MC_CHECK(c, r != npy_decode_result::ok, "%s: loads as if nothing were wrong", what);
    if (r == npy_decode_result::ok)
        compare<T, D>(c, f, p, t, what);
}

// ------------------------------------------------------------------------------------------- families
// writing: every shape, contiguous or not; the bytes are judged by the parser above
template <class T, int D>
static void writing(Ctx& c, uint64_t)
{
    c.key("save %s/%d", code<T>().c_str(), D);
    const V s     = pick_shape(c, D);
    const int lay = c.choose(D == 1 ? 3 : 4, "contiguous|spread|reversed|transposed storage");
    const long n  = prod(s);
    std::vector<unsigned char> raw((2 * n + 1) * sizeof(T));
    T* mem = (T*)raw.data();
    shape<D> st;
    long acc = 1, base = 0;
    for (int d = D - 1; d >= 0; d--)
        st[d] = (index_t)acc, acc *= s[d];
    if (lay == 3)
        for (int d = 0; d < D; d++)
            st[d] = (index_t)(d == 0 ? 1 : st[d - 1] * s[d - 1]);
    if (lay == 1)
        for (int d = 0; d < D; d++)
            st[d] *= 2;
    auto at = [&](const V& x) {
        long o = base;
        for (int d = 0; d < D; d++)
            o += (long)st[d] * (lay == 2 && d == D - 1 ? s[d] - 1 - x[d] : x[d]);
        return o;
    };
    for (long i = 0; i < n; i++)
        mem[at(unflat(s, i))] = val<T>(i);
    std::string out;
    auto sink = [&](const void* d, size_t m) { out.append((const char*)d, m); };
    tensor<T, D> whole(mem, sh<D>(s), st, nullptr);
    c.op();
    if (lay == 2)
    {
        if constexpr (D == 1)
            save_to_npy(whole(trange(std::nullopt, std::nullopt, -1)), sink);
        else if constexpr (D == 2)
            save_to_npy(whole(trange(), trange(std::nullopt, std::nullopt, -1)), sink);
        else
            return;
    }
    else
        save_to_npy(whole, sink);
    Parsed p = parse(out);
    MC_CHECK(c, p.verdict == Parsed::OK, "saving an array of shape %s does not produce a well-formed file", str(s).c_str());
    MC_CHECK(c, p.descr.size() > 1 && p.descr.substr(1) == code<T>() && (p.descr[0] == '<' || (sizeof(T) == 1 && p.descr[0] == '|')),
             "the file says elements are '%s', expected %s", p.descr.c_str(), code<T>().c_str());
    MC_CHECK(c, p.dims == s, "the file says shape %s, expected %s", str(p.dims).c_str(), str(s).c_str());
    MC_CHECK(c, p.data % 64 == 0, "the elements begin at byte %zu, which is not a multiple of 64", p.data);
    MC_CHECK(c, out.size() == p.data + n * sizeof(T), "the file has %zu bytes, expected %zu", out.size(), p.data + n * sizeof(T));
    for (long i = 0; i < n; i++)
    {
        V x = unflat(s, i);
        if (p.fortran)
        {
            long o = 0, m = 1;
            for (int d = 0; d < D; d++)
                o += x[d] * m, m *= s[d];
            T t = val<T>(i);
            MC_CHECK(c, memcmp(out.data() + p.data + o * sizeof(T), &t, sizeof(T)) == 0, "element %s is stored wrong", str(x).c_str());
        }
        else
        {
            T t = val<T>(i);
            MC_CHECK(c, memcmp(out.data() + p.data + i * sizeof(T), &t, sizeof(T)) == 0, "element %s is stored wrong", str(x).c_str());
        }
    }
    c.eval(n);
    judge<T, D>(c, out, "the saved file");
}
// reading every variant of well-formed file
template <class T, int D>
static void reading(Ctx& c, uint64_t)
{
    c.key("load %s/%d", code<T>().c_str(), D);
    const V s       = pick_shape(c, D);
    const int ver   = 1 + c.choose(3, "version");
    const bool fo   = c.flip("Fortran order");
    const bool big  = sizeof(T) > 1 && c.flip("big-endian");
    judge<T, D>(c, encode<T>(s, fo, big, ver, header<T>(s, fo, big, ver)), "a well-formed file");
}
// the dictionary laid out in every way Python could print it
template <class T, int D>
static void layouts(Ctx& c, uint64_t)
{
    c.key("header layout/%d", D);
    const V s      = D == 1 ? V{ 5 } : D == 2 ? V{ 2, 3 } : V{ 2, 1, 3 };
    const bool fo  = c.flip("Fortran order");
    const char bo  = "<>=|"[c.choose(4, "byte order")];
    const int perm = c.choose(6, "key order"), sep = c.choose(4, "spacing"), tail = c.choose(4, "ending"), pad = c.choose(5, "padding");
    const char* sp[4][2] = { { "", "" }, { "", " " }, { " ", " " }, { "\t ", "\n  " } };
    std::string f[3]     = { mc::fmt("'descr'%s:%s'%c%s'", sp[sep][0], sp[sep][1], bo, code<T>().c_str()),
                             mc::fmt("'fortran_order'%s:%s%s", sp[sep][0], sp[sep][1], fo ? "True" : "False"), "" };
    std::string tup = "(";
    for (size_t i = 0; i < s.size(); i++)
        tup += (i ? std::string(sp[sep][0]) + "," + sp[sep][1] : std::string(sp[sep][0])) + std::to_string(s[i]);
    if (s.size() == 1)
        tup += std::string(sp[sep][0]) + ",";
    tup += std::string(sp[sep][0]) + ")";
    f[2] = mc::fmt("'shape'%s:%s%s", sp[sep][0], sp[sep][1], tup.c_str());
    const int P[6][3] = { { 0, 1, 2 }, { 0, 2, 1 }, { 1, 0, 2 }, { 1, 2, 0 }, { 2, 0, 1 }, { 2, 1, 0 } };
    std::string h     = std::string("{") + sp[sep][0];
    for (int i = 0; i < 3; i++)
        h += (i ? std::string(sp[sep][0]) + "," + sp[sep][1] : std::string()) + f[P[perm][i]];
    h += tail == 0 ? "}" : tail == 1 ? ",}" : tail == 2 ? ", }" : " , }";
    h.append(pad == 0 ? 0 : pad == 1 ? 1 : pad == 2 ? 17 : pad == 3 ? 300 : 70000, ' ');
    h += "\n";
    judge<T, D>(c, encode<T>(s, fo, bo == '>', h.size() > 65535 ? 2 : 1, h), "a well-formed file");
}
// a file cut at every byte
template <class T, int D>
static void cut(Ctx& c, uint64_t)
{
    c.key("truncated %s/%d", code<T>().c_str(), D);
    const V s      = D == 1 ? V{ 5 } : D == 2 ? V{ 2, 3 } : V{ 2, 1, 3 };
    const int ver  = 1 + c.choose(3, "version");
    const bool fo  = c.flip("Fortran order");
    const bool big = sizeof(T) > 1 && c.flip("big-endian");
    const auto f   = encode<T>(s, fo, big, ver, header<T>(s, fo, big, ver));
    const int n    = c.choose((int)f.size(), "length");
    judge<T, D>(c, f.substr(0, n), mc::fmt("a file cut to its first %d of %zu bytes", n, f.size()).c_str());
}
// one byte of the header replaced by every other value, or removed, or doubled
template <class T, int D>
static void damaged(Ctx& c, uint64_t)
{
    c.key("damaged %s/%d", code<T>().c_str(), D);
    const V s      = D == 1 ? V{ 12 } : D == 2 ? V{ 2, 13 } : V{ 2, 1, 3 };
    const int ver  = mc::thorough() ? 1 + c.choose(3, "version") : 1 + (int)(D == 2);
    const bool fo  = c.flip("Fortran order");
    auto f         = encode<T>(s, fo, false, ver, header<T>(s, fo, false, ver));
    const size_t e = parse(f).data;
    const int at   = c.choose((int)e, "position");
    const int how  = c.choose(3, "replace|remove|double");
    const char old = f[at];
    if (how == 0)
    {
        int v = c.choose(255, "value");
        if (v >= (unsigned char)old)
            v++;
        if (ver >= 2 && at == 11 && v > 1)
            return; // a header of gigabytes
        f[at] = (char)v;
    }
    else if (how == 1)
        f.erase(at, 1);
    else
        f.insert(at, 1, old);
    judge<T, D>(c, f, mc::fmt("a file with byte %d %s (%02x, was %02x)", at, how == 0 ? "changed" : how == 1 ? "removed" : "doubled", (unsigned char)f[at], (unsigned char)old).c_str());
}
// header texts assembled from all sequences of tokens
static void tokens(Ctx& c, uint64_t root)
{
    c.key("token sequence");
    static const char* T[] = { "{", "}", "'descr'", "'shape'", "'fortran_order'", "'extra'", ":", ",", "'<f4'", "False", "(3,)", "(", ")", "3", "[1, (2)]", "'a\\'b'", "" };
    const int n = mc::tier(4, 5);
    std::string h = "{'descr': '<f4', 'fortran_order': False, 'shape': (3,), ";
    if (root == 1)
        h = "{'extra': ";
    if (root == 2)
        h = "{'descr': '<f4', 'fortran_order': False, 'shape': (";
    if (root == 3)
        h = "";
    const int m = (int)(sizeof(T) / sizeof(*T));
    for (int i = 0; i < n; i++)
    {
        int k = c.choose(m, "token");
        if (k == m - 1)
            break;
        h += T[k];
    }
    if (root == 1)
        h += ", 'descr': '<f4', 'fortran_order': False, 'shape': (3,)}";
    h += "\n";
    judge<float, 1>(c, encode<float>(V{ 3 }, false, false, 1, h), mc::fmt("a file with the header %s", h.c_str()).c_str());
}
// shapes that cannot be: huge, overflowing, zero, negative
static void sizes(Ctx& c, uint64_t)
{
    c.key("absurd shape");
    static const char* N[] = { "0", "1", "3", "00", "-1", "2147483648", "4294967295", "4294967296", "4294967297", "4611686018427387904", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "99999999999999999999999999", "1L", "1.0", "" };
    const int m = (int)(sizeof(N) / sizeof(*N));
    std::string t = "(";
    for (int i = 0; i < 3; i++)
        t += std::string(i ? ", " : "") + N[c.choose(m, "number")];
    t += ")";
    auto go = [&](auto ty)
    {
        using T = decltype(ty);
        std::string h = "{'descr': '" + std::string(sizeof(T) == 1 ? "|" : "<") + code<T>() + "', 'fortran_order': False, 'shape': " + t + ", }\n";
        judge<T, 3>(c, encode<T>(V{ 3 }, false, false, 1, h), mc::fmt("a file claiming the shape %s", t.c_str()).c_str());
    };
    go(u8{});
    go(double{});
}
// the source of the bytes fails at every call
template <class T, int D>
static void faults(Ctx& c, uint64_t)
{
    c.key("failing source %s/%d", code<T>().c_str(), D);
    const V s      = D == 1 ? V{ 5 } : D == 2 ? V{ 2, 3 } : V{ 2, 1, 3 };
    const int ver  = 1 + c.choose(3, "version");
    const auto f   = encode<T>(s, false, false, ver, header<T>(s, false, false, ver));
    int total;
    {
        Source ok{ f };
        tensor<T, D> t;
        MC_CHECK(c, load(t, ok) == npy_decode_result::ok, "a well-formed file is refused");
        total = ok.calls;
    }
    Source bad{ f };
    bad.fail_at = c.choose(total, "failing call");
    bad.how     = c.choose(2, "nothing|half delivered");
    tensor<T, D> t;
    c.op();
    auto r = load(t, bad);
    MC_CHECK(c, r != npy_decode_result::ok, "the %d-th read of %d failed and the file loads as if nothing were wrong", bad.fail_at, total);
    c.outcome(mc::hash_mix((uint64_t)r, bad.fail_at));
}
// every type of file loaded as every other type, every rank as every other
template <class T, int D, class U>
static void wrong_type(Ctx& c, const V& s, int ver)
{
    auto f = encode<T>(s, false, false, ver, header<T>(s, false, false, ver));
    judge<U, 1>(c, f, mc::fmt("%s loaded as %s/1", code<T>().c_str(), code<U>().c_str()).c_str());
    judge<U, 2>(c, f, mc::fmt("%s loaded as %s/2", code<T>().c_str(), code<U>().c_str()).c_str());
    judge<U, 3>(c, f, mc::fmt("%s loaded as %s/3", code<T>().c_str(), code<U>().c_str()).c_str());
}
template <class T, int D>
static void wrong(Ctx& c, uint64_t)
{
    c.key("wrong type %s/%d", code<T>().c_str(), D);
    const V s     = D == 1 ? V{ 24 } : D == 2 ? V{ 2, 12 } : V{ 2, 3, 4 };
    const int ver = 1 + c.choose(2, "version");
    cforeach(ctypes_t<bool, u8, i8, u16, i16, u32, i32, u64, i64, float, double, complex<float>, complex<double>>{},
             [&](auto u) { wrong_type<T, D, typename decltype(u)::type>(c, s, ver); });
}
#ifndef PART
#define PART 0
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
template <class T>
static void one_type()
{
    const std::string n = code<T>();
    mc::add("save1 " + n, 1, writing<T, 1>);
    mc::add("save2 " + n, 1, writing<T, 2>);
    mc::add("save3 " + n, 1, writing<T, 3>);
    mc::add("load1 " + n, 1, reading<T, 1>);
    mc::add("load2 " + n, 1, reading<T, 2>);
    mc::add("load3 " + n, 1, reading<T, 3>);
    mc::add("load4 " + n, 1, reading<T, 4>);
    mc::add("cut1 " + n, 1, cut<T, 1>);
    mc::add("cut2 " + n, 1, cut<T, 2>);
    mc::add("cut3 " + n, 1, cut<T, 3>);
    mc::add("faults1 " + n, 1, faults<T, 1>);
    mc::add("faults3 " + n, 1, faults<T, 3>);
    mc::add("wrong1 " + n, 1, wrong<T, 1>);
    mc::add("wrong2 " + n, 1, wrong<T, 2>);
    mc::add("wrong3 " + n, 1, wrong<T, 3>);
}
void CAT(mc_register_, PART)();
void CAT(mc_register_, PART)()
{
#if PART == 0
    one_type<bool>();
    one_type<u8>();
    one_type<i8>();
    mc::add("damaged1", 1, damaged<float, 1>);
    mc::add("damaged2", 1, damaged<u8, 2>);
    mc::add("damaged3", 1, damaged<complex<double>, 3>);
    mc::add("layouts1", 1, layouts<float, 1>);
    mc::add("layouts2", 1, layouts<i16, 2>);
    mc::add("layouts3", 1, layouts<complex<float>, 3>);
    mc::add("tokens", 4, tokens, 5);
    mc::add("sizes", 1, sizes);
#elif PART == 1
    one_type<u16>();
    one_type<i16>();
    one_type<u32>();
    one_type<i32>();
#elif PART == 2
    one_type<u64>();
    one_type<i64>();
    one_type<float>();
#else
    one_type<double>();
    one_type<complex<float>>();
    one_type<complex<double>>();
#endif
}
#if PART == 0
void mc_register_1();
void mc_register_2();
void mc_register_3();
void mc_register()
{
    mc_register_0();
    mc_register_1();
    mc_register_2();
    mc_register_3();
}
MC_MAIN()
#endif
