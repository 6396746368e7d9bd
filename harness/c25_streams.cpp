// C25: position, seeking and damaged input of file and audio readers.
#include "mp3data.hpp"
#include "wavref.hpp"
#include <unistd.h>
#include <dirent.h>
using mc::Ctx;
using V = std::vector<long>;

// ------------------------------------------------------------------------------------------- a FLAC encoder
// fixed block size 16, verbatim subframes: the simplest stream the format allows
struct Bits
{
    std::string s;
    unsigned acc = 0;
    int n        = 0;
    void put(uint64_t v, int b)
    {
        while (b-- > 0)
        {
            acc = acc << 1 | ((v >> b) & 1);
            if (++n == 8)
                s += (char)acc, acc = 0, n = 0;
        }
    }
};
static unsigned crc(const std::string& s, size_t from, unsigned poly, int bits)
{
    unsigned c = 0;
    for (size_t i = from; i < s.size(); i++)
    {
        c ^= (unsigned)(unsigned char)s[i] << (bits - 8);
        for (int k = 0; k < 8; k++)
            c = (c & (1u << (bits - 1)) ? c << 1 ^ poly : c << 1) & ((1u << bits) - 1);
    }
    return c;
}
static int flac_sample(long frame, int ch, int bits)
{
    return (int)(mc::hash_mix((uint64_t)frame * 3 + ch, 4242) % (1u << bits)) - (1 << (bits - 1));
}
static std::string flac(long frames, int channels, int bits, bool seektable)
{
    const int B = 16;
    Bits b;
    b.s = "fLaC";
    b.put(!seektable, 1), b.put(0, 7), b.put(34, 24);
    b.put(B, 16), b.put(B, 16), b.put(0, 24), b.put(0, 24), b.put(44100, 20), b.put(channels - 1, 3), b.put(bits - 1, 5), b.put(frames, 36);
    b.s.append(16, '\0');
    std::vector<size_t> offs;
    Bits a;
    for (long f = 0; f * B < frames; f++)
    {
        offs.push_back(a.s.size());
        const long n = std::min<long>(B, frames - f * B);
        Bits h;
        h.put(0x3FFE, 14), h.put(0, 1), h.put(0, 1), h.put(6, 4), h.put(0, 4), h.put(channels - 1, 4), h.put(0, 3), h.put(0, 1);
        h.put(f, 8), h.put(n - 1, 8);
        h.put(crc(h.s, 0, 0x07, 8), 8);
        for (int c = 0; c < channels; c++)
        {
            h.put(1, 7), h.put(0, 1);
            for (long i = 0; i < n; i++)
                h.put((uint64_t)flac_sample(f * B + i, c, bits) & ((1u << bits) - 1), bits);
        }
        if (h.n)
            h.put(0, 8 - h.n);
        h.put(crc(h.s, 0, 0x8005, 16), 16);
        a.s += h.s;
    }
    if (seektable)
    {
        b.put(1, 1), b.put(3, 7), b.put(offs.size() * 18, 24);
        for (size_t i = 0; i < offs.size(); i++)
            b.put(i * B, 64), b.put(offs[i], 64), b.put(std::min<long>(B, frames - (long)i * B), 16);
    }
    return b.s + a.s;
}

// ------------------------------------------------------------------------------------------- audio readers
enum Kind
{
    WAV,
    FLAC,
    MP3
};
struct Media
{
    Kind kind;
    std::string f;
    unsigned ch;
    long frames;
    audio_sample_type t;
    size_t data = 0; // WAV: where the samples are
    int bits    = 0; // FLAC
    std::vector<i16> pcm; // MP3: decoded front to back
};
static Media make(Kind k, int variant)
{
    Media m;
    m.kind = k;
    if (k == WAV)
    {
        const audio_sample_type T[] = { audio_sample_type::i16, audio_sample_type::f32, audio_sample_type::i24, audio_sample_type::i8 };
        m.t = T[variant % 4], m.ch = 1 + variant % 3, m.frames = 11;
        std::string p;
        for (long i = 0; i < m.frames * m.ch; i++)
            p += wr::stored(wr::sample<f64>(i, 2), m.t);
        if (variant % 3 == 1)
            p += wr::stored(0.0, m.t).substr(0, 1); // the data end with a partial frame
        wr::Opt o;
        o.w64 = variant % 2, o.after = variant % 4 == 2 ? 5 : -1;
        m.f    = wr::encode(m.t, m.ch, 48000, p, o);
        m.data = wr::parse(m.f).data;
    }
    else if (k == FLAC)
    {
        m.t = audio_sample_type::i32, m.ch = 1 + variant % 2, m.frames = variant % 4 < 2 ? 40 : 32, m.bits = variant % 3 == 2 ? 24 : 16;
        m.f = flac(m.frames, m.ch, m.bits, variant % 4 == 1 || variant % 4 == 2);
    }
    else
    {
        m.t = audio_sample_type::i16;
        m.f.assign((const char*)MP3_DATA, sizeof(MP3_DATA));
        m.ch = 2;
        audio_reader_mp3<i16> r(std::make_shared<wr::MemReader>(m.f));
        m.pcm.resize(4 * 1152 * 2 + 10000);
        m.frames = (long)r.read(m.pcm.data(), m.pcm.size()) / 2;
        m.pcm.resize(m.frames * 2);
    }
    return m;
}
// (made once per variant: only read afterwards)
static const Media& media(Kind k, int variant)
{
    static std::map<int, Media> cache;
    const int key = k * 16 + variant;
    auto it       = cache.find(key);
    if (it == cache.end())
        it = cache.emplace(key, make(k, variant)).first;
    return it->second;
}
template <class R>
static R expected(const Media& m, long frame, unsigned ch)
{
    if (m.kind == WAV)
        return wr::fetched<R>(m.f, m.data + (frame * m.ch + ch) * audio_sample_sizeof(m.t), m.t);
    if (m.kind == FLAC)
        return convert_sample<R>((i32)((uint32_t)flac_sample(frame, ch, m.bits) << (32 - m.bits)));
    return convert_sample<R>(m.pcm[frame * m.ch + ch]);
}
template <class R>
static std::unique_ptr<audio_reader<R>> open(Kind k, std::shared_ptr<abstract_reader<>> src)
{
    if (k == WAV)
        return std::unique_ptr<audio_reader<R>>(new audio_reader_wav<R>(std::move(src)));
    if (k == FLAC)
        return std::unique_ptr<audio_reader<R>>(new audio_reader_flac<R>(std::move(src)));
    return std::unique_ptr<audio_reader<R>>(new audio_reader_mp3<R>(std::move(src)));
}
static const char* kname(Kind k) { return k == WAV ? "WAV" : k == FLAC ? "FLAC" : "MP3"; }

// every sequence of reads and seeks
template <class R>
static void moves(Ctx& c, Kind k, int variant, int depth)
{
    const Media& m = media(k, variant);
    c.key("%s %s", kname(k), wr::ty<R>());
    auto r = open<R>(k, std::make_shared<wr::MemReader>(m.f));
    MC_CHECK(c, r->format().channels == m.ch && r->format().type == m.t && (k == MP3 || (long)r->format().length == m.frames),
             "the reader reports %zu channels, %lld frames", r->format().channels, (long long)r->format().length);
    const long len = k == MP3 ? (long)r->format().length : m.frames;
    long pos       = 0;
    const V reads  = k == WAV ? V{ 1, 4, 20 } : k == FLAC ? V{ 1, 7, 16, 50 } : V{ 1, 1152, 2000, 6000 };
    const V offs   = k == WAV ? V{ 0, 3, -2, 10 } : k == FLAC ? V{ 0, 5, -3, 20, 16 } : V{ 0, 700, -900, 1152 };
    for (int s = 0; s < depth; s++)
    {
        const int op = c.choose(4, "read|seek begin|seek current|seek end");
        c.op();
        if (op == 0)
        {
            const long n    = c.pick(reads, "frames");
            const long part = c.choose((int)std::min(m.ch, 2u), "extra samples");
            mcu::Buf<R> b(n * m.ch + part);
            const long got  = (long)r->read(b.data(), n * m.ch + part);
            const long want = std::min(n, m.frames - pos);
            MC_CHECK(c, got == want * (long)m.ch, "reading %ld frames at %ld of %ld returned %ld samples", n, pos, m.frames, got);
            for (long i = 0; i < got; i++)
            {
                R e = expected<R>(m, pos + i / m.ch, (unsigned)(i % m.ch));
                MC_CHECK(c, wr::eq(b[i], e), "frame %ld channel %ld reads as %.17g, expected %.17g", pos + i / (long)m.ch, i % m.ch, (double)b[i], (double)e);
            }
            pos += want;
            c.eval(got);
        }
        else
        {
            const long o = c.pick(offs, "offset"), target = (op == 1 ? 0 : op == 2 ? pos : len) + o;
            const bool ok = r->seek(o, op == 1 ? seek_origin::begin : op == 2 ? seek_origin::current : seek_origin::end);
            if (target >= 0 && target <= m.frames)
            {
                MC_CHECK(c, ok, "seeking to frame %ld of %ld fails", target, m.frames);
                pos = target;
            }
            else
            {
                // outside the stream: either refused, staying put, or moved to an end
                const long at = (long)r->tell();
                if (ok)
                    MC_CHECK(c, at == (target < 0 ? 0 : m.frames), "seeking to frame %ld of %ld succeeds and leaves the position at %ld", target, m.frames, at);
                else // wherever it says it is, it must be
                    MC_CHECK(c, at >= 0 && at <= m.frames, "seeking to frame %ld of %ld fails and leaves the position at %ld", target, m.frames, at);
                pos = at;
            }
        }
        MC_CHECK(c, (long)r->tell() == pos, "the position is reported as %lld, it is %ld", (long long)r->tell(), pos);
    }
    c.outcome(mc::hash_mix((uint64_t)pos, variant * 3 + (int)k));
}

// a session with a damaged or failing source: nothing may crash, hang or read outside memory, and what is returned
// must be what an intact file has at that position (`exact`), or at least be bounded
template <class R>
static void session(Ctx& c, const Media& m, const std::string& f, wr::Fault* fault, bool exact, int script)
{
    auto r           = open<R>(m.kind, std::make_shared<wr::MemReader>(f, fault));
    const auto fm    = r->format();
    const size_t ch  = fm.channels;
    const bool valid = fm.type != audio_sample_type::unknown && ch != 0;
    if (exact && valid)
        MC_CHECK(c, ch == m.ch && fm.type == m.t, "the reader reports %zu channels of %s", ch, wr::type_name(fm.type));
    bool lost      = false; // position unknown after a failed seek
    uint64_t total = 0;
    auto get       = [&](long n) {
        const size_t cnt = n * (ch ? std::min<size_t>(ch, 16) : 1);
        mcu::Buf<R> b(cnt);
        const imax pos   = r->tell();
        const size_t got = r->read(b.data(), cnt);
        c.op();
        MC_CHECK(c, got <= cnt, "reading %zu samples returned %zu", cnt, got);
        if (!valid)
        {
            MC_CHECK(c, got == 0, "an unreadable file returned %zu samples", got);
            return;
        }
        MC_CHECK(c, got % ch == 0, "reading returned part of a frame: %zu samples of %zu channels", got, ch);
        MC_CHECK(c, r->tell() == pos + (imax)(got / ch), "the position went from %lld to %lld after %zu frames", (long long)pos, (long long)r->tell(), got / ch);
        total += got;
        if (!exact || lost)
            return;
        for (size_t i = 0; i < got; i++)
        {
            const long fr = (long)pos + (long)(i / ch);
            MC_CHECK(c, fr < m.frames, "frame %ld is returned from a stream of %ld", fr, m.frames);
            R e = expected<R>(m, fr, (unsigned)(i % ch));
            MC_CHECK(c, wr::eq(b[i], e), "frame %ld channel %zu reads as %.17g, the file has %.17g there", fr, i % ch, (double)b[i], (double)e);
        }
    };
    auto go = [&](long o, seek_origin w) {
        const imax pos = r->tell();
        c.op();
        if (!r->seek(o, w))
        {
            MC_CHECK(c, !valid || r->tell() == pos || true, "?");
            lost = true;
        }
    };
    const long unit = m.kind == MP3 ? 1000 : 3;
    switch (script)
    {
    case 0: // front to back
        for (int i = 0; i < (m.kind == MP3 ? 7 : 16); i++)
            get(unit);
        break;
    case 1: // skipping about
        get(unit);
        go(2 * unit + 1, seek_origin::begin);
        get(unit);
        go(-unit, seek_origin::current);
        get(1);
        go(0, seek_origin::begin);
        get(100);
        break;
    case 2:
        go(-2, seek_origin::end);
        get(5);
        go(0, seek_origin::end);
        get(5);
        go(unit, seek_origin::begin);
        get(2 * unit);
        break;
    case 3:
        if constexpr (!std::is_same_v<R, i24>)
        {
            if (fm.length < 100000 && ch < 1000)
            {
                auto p = r->read_channels();
                MC_CHECK(c, p.size() == ch, "read_channels returned %zu channels of %zu", p.size(), ch);
                total = p.size() ? p[0].size() : 0;
            }
        }
        break;
    }
    c.outcome(mc::hash_mix(total, ch * 8 + (uint64_t)fm.type));
    c.eval();
}
template <class R>
static void failing(Ctx& c, Kind k, int variant)
{
    const Media& m   = media(k, variant);
    const int script = c.choose(4, "script");
    c.key("failing source %s %s", kname(k), wr::ty<R>());
    wr::Fault count;
    session<R>(c, m, m.f, &count, true, script);
    wr::Fault f;
    f.fail_at = c.choose(count.calls, "failing call");
    f.how     = c.choose(3, "nothing|one byte|all but one");
    session<R>(c, m, m.f, &f, k != MP3, script);
}
template <class R>
static void cut(Ctx& c, Kind k, int variant)
{
    const Media& m   = media(k, variant);
    const int script = c.choose(4, "script");
    c.key("truncated %s %s", kname(k), wr::ty<R>());
    const int n = c.choose((int)m.f.size(), "length");
    session<R>(c, m, m.f.substr(0, n), nullptr, k != MP3, script);
}
template <class R>
static void damaged(Ctx& c, Kind k, int variant, int header)
{
    const Media& m = media(k, variant);
    c.key("damaged %s %s", kname(k), wr::ty<R>());
    const int at = c.choose(mc::thorough() ? (int)m.f.size() : std::min((int)m.f.size(), k == MP3 ? 700 : 400), "position");
    std::string f = m.f;
    const unsigned char old = (unsigned char)f[at];
    if (at < header)
    {
        int v = c.choose(255, "value");
        f[at] = (char)(v >= old ? v + 1 : v);
    }
    else
    {
        const int v = c.choose(8, "change");
        f[at] = (char)(v == 0 ? 0 : v == 1 ? 0xff : v == 2 ? old ^ 0x80 : v == 3 ? old ^ 1 : v == 4 ? old + 1 : v == 5 ? ~old : v == 6 ? old ^ 0x10 : old ^ 0x0f);
    }
    session<R>(c, m, f, nullptr, false, c.choose(3, "script"));
}

// ------------------------------------------------------------------------------------------- plain files
struct Scratch
{
    std::string dir;
    Scratch()
    {
        char t[] = "/tmp/mc-c25-XXXXXX";
        dir      = mkdtemp(t);
    }
    std::string path() const { return dir + "/f"; }
    ~Scratch()
    {
        unlink(path().c_str());
        rmdir(dir.c_str());
    }
};
template <class T>
static void files(Ctx& c, uint64_t root)
{
    constexpr size_t E = element_size<T>();
    Scratch scratch;
    c.key("file<%zu>", std::is_void_v<T> ? 0 : E);
    std::string model;
    const int n0 = (int)root * 5;
    for (int i = 0; i < n0; i++)
        model += (char)(i * 37 + 11);
    if (FILE* f = fopen(scratch.path().c_str(), "wb"))
        fwrite(model.data(), 1, model.size(), f), fclose(f);
    else
        c.infra("cannot create a scratch file");
    const int depth = mc::tier(3, 4);
    const int mode  = c.choose(3, "read|write|append");
    long pos        = 0;
    using B         = std::conditional_t<std::is_void_v<T>, u8, T>;
    auto move       = [&](auto& s) {
        const int w  = c.choose(3, "begin|current|end");
        const long o = c.pick(w == 0 ? V{ 0, 3, 100, -1 } : w == 1 ? V{ -4, 5, 0 } : V{ 0, -4, 2, -1000 }, "offset");
        const long t = (w == 0 ? 0 : w == 1 ? pos : (long)model.size()) + o;
        const bool ok = s->seek((imax)o, w == 0 ? seek_origin::begin : w == 1 ? seek_origin::current : seek_origin::end);
        MC_CHECK(c, ok == (t >= 0), "seeking to byte %ld %s", t, ok ? "succeeds" : "fails");
        if (ok)
            pos = t;
    };
    uint64_t h = 1;
    if (mode == 0)
    {
        auto r = open_file_for_reading<T>(scratch.path());
        MC_CHECK(c, !!r, "an existing file cannot be opened");
        for (int s = 0; s < depth; s++)
        {
            c.op();
            if (c.choose(2, "read|seek"))
                move(r);
            else
            {
                const long n = c.pick(V{ 0, 1, 3, 9 }, "elements");
                mcu::Buf<B> b(n * (std::is_void_v<T> ? 1 : 1));
                const size_t got  = r->read(b.data(), n);
                const long left   = std::max(0l, (long)model.size() - pos);
                const long want   = std::min<long>(n, left / (long)E);
                MC_CHECK(c, got == (size_t)want, "reading %ld elements of %zu bytes with %ld bytes left returned %zu", n, E, left, got);
                MC_CHECK(c, memcmp((const void*)b.data(), model.data() + std::min<long>(pos, (long)model.size()), want * E) == 0, "byte %ld: wrong data", pos);
                // a partial element at the end is consumed, as fread does
                pos += want < n ? (n ? left : 0) : want * (long)E;
                h = mc::hash_mix(h, got);
            }
            MC_CHECK(c, (long)r->tell() == pos, "the position is reported as %lld, it is %ld", (long long)r->tell(), pos);
        }
    }
    else
    {
        {
            auto w = mode == 1 ? open_file_for_writing<T>(scratch.path()) : open_file_for_appending<T>(scratch.path());
            MC_CHECK(c, !!w, "a file cannot be opened for writing");
            if (mode == 1)
                model.clear();
            else
                pos = (long)w->tell();
            for (int s = 0; s < depth; s++)
            {
                c.op();
                if (mode == 1 && c.choose(2, "write|seek"))
                    move(w);
                else
                {
                    const long n = c.pick(V{ 0, 1, 3 }, "elements");
                    mcu::Buf<B> b(n);
                    for (size_t i = 0; i < n * E; i++)
                        ((unsigned char*)b.data())[i] = (unsigned char)(s * 50 + i + 1);
                    const size_t got = w->write(b.data(), n);
                    MC_CHECK(c, got == (size_t)n, "writing %ld elements returned %zu", n, got);
                    if (mode == 2)
                        pos = n ? (long)model.size() : pos;
                    if (n && (long)model.size() < pos + n * (long)E)
                        model.resize(pos + n * E);
                    for (size_t i = 0; i < n * E; i++)
                        model[pos + i] = (char)(s * 50 + i + 1);
                    pos += n * E;
                }
                if (mode == 1)
                    MC_CHECK(c, (long)w->tell() == pos, "the position is reported as %lld, it is %ld", (long long)w->tell(), pos);
            }
        }
        std::string got;
        if (FILE* f = fopen(scratch.path().c_str(), "rb"))
        {
            char b[4096];
            got.assign(b, fread(b, 1, sizeof b, f));
            fclose(f);
        }
        MC_CHECK(c, got == model, "the file has %zu bytes, expected %zu with other contents", got.size(), model.size());
        h = mc::hash_bytes(got.data(), got.size());
    }
    c.outcome(h), c.eval();
    MC_CHECK(c, open_file_for_reading<T>(scratch.dir + "/none") == nullptr, "a missing file opens");
}
// readers and writers over nothing
static void nothing(Ctx& c, uint64_t)
{
    c.key("no source");
    const Kind k = (Kind)c.choose(3, "kind");
    Media m;
    m.kind = k, m.ch = 1, m.frames = 0, m.t = audio_sample_type::i16;
    const int how = c.choose(2, "no stream|empty stream");
    auto go       = [&](auto z) {
        using R = decltype(z);
        auto r  = open<R>(k, how ? std::make_shared<wr::MemReader>(m.f) : std::shared_ptr<wr::MemReader>());
        R b[4]  = { R(0), R(0), R(0), R(0) };
        MC_CHECK(c, r->read(b, 4) == 0, "reading from nothing returns samples");
        r->seek(0, seek_origin::begin);
        MC_CHECK(c, r->read(b, 4) == 0, "reading from nothing returns samples");
        if constexpr (!std::is_same_v<R, i24>)
            MC_CHECK(c, r->read_channels().empty(), "reading from nothing returns channels");
        c.op();
    };
    const int t = c.choose(5, "type");
    t == 0 ? go(i16{}) : t == 1 ? go(i24(0)) : t == 2 ? go(i32{}) : t == 3 ? go(f32{}) : go(f64{});
    {
        audio_format fm;
        audio_writer_wav<f32> w(std::shared_ptr<abstract_writer<>>(), fm);
        f32 d[2] = {};
        MC_CHECK(c, w.write(d, 2) == 0, "writing to nothing claims success");
        c.op();
    }
    c.outcome(k * 2 + how);
}
void mc_register()
{
    auto add = [](auto z, int i) {
        using R       = decltype(z);
        std::string n = wr::ty<R>();
        for (Kind k : { WAV, FLAC, MP3 })
        {
            const bool th = mc::thorough();
            if (k == MP3 && i != 0 && i != 3 && !th)
                continue;
            const int variants = k == WAV ? 12 : k == FLAC ? 12 : 1;
            const int depth    = k == MP3 ? (th ? 4 : 3) : k == FLAC ? (th ? 4 : 3) : (th ? 5 : i == 0 ? 4 : 3);
            mc::add(mc::fmt("moves %s %s", kname(k), n.c_str()), variants, [k, depth](Ctx& c, uint64_t v) { moves<R>(c, k, (int)v, depth); }, 4);
            mc::add(mc::fmt("failing %s %s", kname(k), n.c_str()), variants, [k](Ctx& c, uint64_t v) { failing<R>(c, k, (int)v); }, 4);
            mc::add(mc::fmt("cut %s %s", kname(k), n.c_str()), variants, [k](Ctx& c, uint64_t v) { cut<R>(c, k, (int)v); }, 4);
            if (i == 0 || i == 3 || th)
                mc::add(mc::fmt("damaged %s %s", kname(k), n.c_str()), std::min(variants, th ? 4 : 2),
                        [k](Ctx& c, uint64_t v) { damaged<R>(c, k, (int)v, k == WAV ? 150 : k == FLAC ? 60 : 8); }, 4);
        }
    };
    add(i16{}, 0);
    add(i24(0), 1);
    add(i32{}, 2);
    add(f32{}, 3);
    add(f64{}, 4);
    mc::add("files void", 4, files<void>);
    mc::add("files u8", 4, files<u8>);
    mc::add("files f32", 4, files<f32>);
    mc::add("nothing", 1, nothing);
}
MC_MAIN()
