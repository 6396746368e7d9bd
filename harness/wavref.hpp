// An independent reader and writer of RIFF/WAVE and Wave64 files, and in-memory streams with injectable faults.
#pragma once
#include <kfr/base.hpp>
#include <kfr/io/audiofile.hpp>
#include "util.hpp"
using namespace kfr;

namespace wr
{
struct Fault
{
    int calls   = 0;
    int fail_at = -1; // index of the call that fails; every later one fails as well
    int how     = 0;  // 0: nothing transferred, 1: one byte, 2: all but one byte
    size_t grant(size_t n)
    {
        const int k = calls++;
        if (fail_at < 0 || k < fail_at)
            return n;
        if (k > fail_at)
            return 0;
        return how == 0 || n == 0 ? 0 : how == 1 ? 1 : n - 1;
    }
    bool seek_ok()
    {
        const int k = calls++;
        return fail_at < 0 || k < fail_at;
    }
};
struct MemReader final : abstract_reader<void>
{
    const std::string& f;
    Fault* fault;
    mutable size_t pos = 0;
    MemReader(const std::string& f, Fault* fault = nullptr) : f(f), fault(fault) {}
    size_t read(void* d, size_t n) override
    {
        size_t m = pos < f.size() ? std::min(n, f.size() - pos) : 0;
        if (fault)
            m = std::min(m, fault->grant(m));
        memcpy(d, f.data() + pos, m);
        pos += m;
        return m;
    }
    imax tell() const override { return (imax)pos; }
    bool seek(imax o, seek_origin w) override
    {
        if (fault && !fault->seek_ok())
            return false;
        imax b = w == seek_origin::begin ? 0 : w == seek_origin::current ? (imax)pos : (imax)f.size();
        if (b + o < 0 || b + o > (imax)1 << 44) // the limit of ext4
            return false;
        pos = (size_t)(b + o); // beyond the end is allowed, as for files
        return true;
    }
};
struct MemWriter final : abstract_writer<void>
{
    std::string& f;
    Fault* fault;
    size_t pos = 0;
    MemWriter(std::string& f, Fault* fault = nullptr) : f(f), fault(fault) {}
    size_t write(const void* d, size_t n) override
    {
        if (fault)
            n = std::min(n, fault->grant(n));
        if (f.size() < pos + n)
            f.resize(pos + n);
        memcpy(&f[pos], d, n);
        pos += n;
        return n;
    }
    imax tell() const override { return (imax)pos; }
    bool seek(imax o, seek_origin w) override
    {
        if (fault && !fault->seek_ok())
            return false;
        imax b = w == seek_origin::begin ? 0 : w == seek_origin::current ? (imax)pos : (imax)f.size();
        if (b + o < 0)
            return false;
        pos = (size_t)(b + o);
        return true;
    }
};
inline uint64_t le(const std::string& f, size_t at, int n)
{
    uint64_t v = 0;
    for (int i = n; i-- > 0;)
        v = v << 8 | (unsigned char)f[at + i];
    return v;
}
inline void le(std::string& f, uint64_t v, int n)
{
    for (int i = 0; i < n; i++)
        f += (char)(v >> (8 * i));
}
inline const char* type_name(audio_sample_type t)
{
    switch (t)
    {
    case audio_sample_type::i8: return "i8";
    case audio_sample_type::i16: return "i16";
    case audio_sample_type::i24: return "i24";
    case audio_sample_type::i32: return "i32";
    case audio_sample_type::i64: return "i64";
    case audio_sample_type::f32: return "f32";
    case audio_sample_type::f64: return "f64";
    default: return "unknown";
    }
}
struct Header
{
    bool ok = false, w64 = false;
    std::string why;
    unsigned tag = 0, channels = 0, rate = 0, byterate = 0, align = 0, bits = 0;
    size_t data = 0, bytes = 0;
};
static const unsigned char GUID_RIFF[16] = { 0x72, 0x69, 0x66, 0x66, 0x2E, 0x91, 0xCF, 0x11, 0xA5, 0xD6, 0x28, 0xDB, 0x04, 0xC1, 0x00, 0x00 };
static const unsigned char GUID_WAVE[16] = { 0x77, 0x61, 0x76, 0x65, 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
static const unsigned char GUID_FMT[16]  = { 0x66, 0x6D, 0x74, 0x20, 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
static const unsigned char GUID_DATA[16] = { 0x64, 0x61, 0x74, 0x61, 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
inline std::string g(const unsigned char* p) { return std::string((const char*)p, 16); }
// Strict: every size field must agree with the file.
inline Header parse(const std::string& f)
{
    Header h;
    auto bad = [&](const char* w) { h.why = w; return h; };
    size_t at;
    bool fmt = false;
    if (f.compare(0, 4, "RIFF") == 0)
    {
        if (f.size() < 12 || f.compare(8, 4, "WAVE") != 0)
            return bad("no WAVE tag");
        if (le(f, 4, 4) != f.size() - 8)
            return bad("the RIFF size disagrees with the file");
        at = 12;
    }
    else if (f.compare(0, 16, g(GUID_RIFF)) == 0)
    {
        h.w64 = true;
        if (f.size() < 40 || f.compare(24, 16, g(GUID_WAVE)) != 0)
            return bad("no wave identifier");
        if (le(f, 16, 8) != f.size())
            return bad("the Wave64 size disagrees with the file");
        at = 40;
    }
    else
        return bad("neither RIFF nor Wave64");
    while (at < f.size())
    {
        const int hd = h.w64 ? 24 : 8;
        if (f.size() - at < (size_t)hd)
            return bad("a chunk header is cut");
        std::string id = f.substr(at, h.w64 ? 16 : 4);
        uint64_t n     = h.w64 ? le(f, at + 16, 8) - 24 : le(f, at + 4, 4);
        at += hd;
        if (n > f.size() - at)
            return bad("a chunk is larger than the file");
        if (id == (h.w64 ? g(GUID_FMT) : "fmt "))
        {
            if (n < 16)
                return bad("a short format chunk");
            h.tag = le(f, at, 2), h.channels = le(f, at + 2, 2), h.rate = le(f, at + 4, 4), h.byterate = le(f, at + 8, 4);
            h.align = le(f, at + 12, 2), h.bits = le(f, at + 14, 2);
            fmt = true;
        }
        else if (id == (h.w64 ? g(GUID_DATA) : "data"))
        {
            if (!fmt)
                return bad("data before the format");
            h.data = at, h.bytes = n, h.ok = true;
        }
        const size_t a = h.w64 ? 8 : 2;
        at += (n + a - 1) / a * a;
    }
    if (at > f.size())
        return bad("the last chunk is not padded");
    if (!h.ok)
        return bad("no data chunk");
    h.why = "";
    return h;
}
struct Opt
{
    bool w64 = false, extensible = false, fact = false;
    int junk = -1;  // bytes of an unknown chunk before the data
    int after = -1; // bytes of an unknown chunk after it
};
inline std::string encode(audio_sample_type t, unsigned channels, unsigned rate, const std::string& payload, const Opt& o = {})
{
    const unsigned bits = (unsigned)audio_sample_sizeof(t) * 8, tag = t >= audio_sample_type::first_float ? 3 : 1;
    std::string fmt, out;
    le(fmt, o.extensible ? 0xFFFE : tag, 2), le(fmt, channels, 2), le(fmt, rate, 4), le(fmt, rate * channels * bits / 8, 4);
    le(fmt, channels * bits / 8, 2), le(fmt, bits, 2);
    if (o.extensible)
    {
        le(fmt, 22, 2), le(fmt, bits, 2), le(fmt, 3, 4), le(fmt, tag, 2);
        fmt += std::string("\x00\x00\x00\x00\x10\x00\x80\x00\x00\xAA\x00\x38\x9B\x71", 14);
    }
    auto chunk = [&](const char* id, const unsigned char* gid, const std::string& body) {
        out += o.w64 ? g(gid) : std::string(id, 4);
        le(out, body.size() + (o.w64 ? 24 : 0), o.w64 ? 8 : 4);
        out += body;
        while (out.size() % (o.w64 ? 8 : 2))
            out += '\0';
    };
    static const unsigned char GUID_JUNK[16] = { 'j', 'u', 'n', 'k', 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
    static const unsigned char GUID_FACT[16] = { 'f', 'a', 'c', 't', 0xF3, 0xAC, 0xD3, 0x11, 0x8C, 0xD1, 0x00, 0xC0, 0x4F, 0x8E, 0xDB, 0x8A };
    if (o.w64)
        out += g(GUID_RIFF) + std::string(8, '\0') + g(GUID_WAVE);
    else
        out += "RIFF" + std::string(4, '\0') + "WAVE";
    chunk("fmt ", GUID_FMT, fmt);
    if (o.fact)
    {
        std::string b;
        le(b, payload.size() / (channels * bits / 8), o.w64 ? 8 : 4);
        chunk("fact", GUID_FACT, b);
    }
    if (o.junk >= 0)
        chunk("LIST", GUID_JUNK, std::string(o.junk, 'd'));
    chunk("data", GUID_DATA, payload);
    if (o.after >= 0)
        chunk("LIST", GUID_JUNK, std::string(o.after, 'd'));
    std::string n;
    le(n, o.w64 ? out.size() : out.size() - 8, o.w64 ? 8 : 4);
    out.replace(o.w64 ? 16 : 4, n.size(), n);
    return out;
}
// test samples: multiples of full scale / 128, both extremes included
template <class T>
inline T sample(long i, int salt = 0)
{
    const long k = (long)(mc::hash_mix((uint64_t)i + 3, 911 + salt) % 257) - 128;
    if constexpr (std::is_floating_point_v<T>)
        return (T)((double)k / 128);
    else if constexpr (std::is_same_v<T, i24>)
        return i24((int)(k == 128 ? 8388607 : k * 65536 + (k >= 0 ? i % 7 : 0)));
    else
    {
        const int sh = (int)sizeof(T) * 8 - 8;
        return k == 128 ? std::numeric_limits<T>::max() : (T)((int64_t)k * (int64_t(1) << sh) + (sh && k >= 0 ? i % 7 : 0));
    }
}
template <class T>
inline std::string bytes(const T& v)
{
    return std::string((const char*)&v, sizeof(T));
}
// a sample as it must be stored in a file of type t
template <class T>
inline std::string stored(const T& v, audio_sample_type t)
{
    switch (t)
    {
    case audio_sample_type::i8:
    {
        std::string s = bytes(convert_sample<i8>(v));
        s[0] ^= (char)0x80;
        return s;
    }
    case audio_sample_type::i16: return bytes(convert_sample<i16>(v));
    case audio_sample_type::i24: return bytes(convert_sample<i24>(v)).substr(0, 3);
    case audio_sample_type::i32: return bytes(convert_sample<i32>(v));
    case audio_sample_type::i64: return bytes(convert_sample<i64>(v));
    case audio_sample_type::f32: return bytes(convert_sample<f32>(v));
    case audio_sample_type::f64: return bytes(convert_sample<f64>(v));
    default: return "";
    }
}
// ... and as it must be read back as R
template <class R, class S>
inline R load_as(const std::string& f, size_t at)
{
    S s = S(0);
    memcpy((void*)&s, f.data() + at, sizeof(S));
    return convert_sample<R>(s);
}
template <class R>
inline R fetched(const std::string& f, size_t at, audio_sample_type t)
{
    switch (t)
    {
    case audio_sample_type::i8: return convert_sample<R>((i8)(f[at] ^ (char)0x80));
    case audio_sample_type::i16: return load_as<R, i16>(f, at);
    case audio_sample_type::i24:
        return convert_sample<R>(i24((int)((unsigned char)f[at] | (unsigned char)f[at + 1] << 8 | (int)(signed char)f[at + 2] * 65536)));
    case audio_sample_type::i32: return load_as<R, i32>(f, at);
    case audio_sample_type::i64: return load_as<R, i64>(f, at);
    case audio_sample_type::f32: return load_as<R, f32>(f, at);
    case audio_sample_type::f64: return load_as<R, f64>(f, at);
    default: return R(0);
    }
}
template <class R>
inline bool eq(const R& a, const R& b)
{
    return memcmp((const void*)&a, (const void*)&b, sizeof(R)) == 0 || (double)a == (double)b;
}
template <class T>
inline const char* ty()
{
    return type_name(audio_sample_traits<T>::type);
}
} // namespace wr
