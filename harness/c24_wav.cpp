// C24: WAV files written in pieces. The bytes are judged by an independent parser (wavref.hpp).
#include "wavref.hpp"
using mc::Ctx;
using V = std::vector<long>;
static const audio_sample_type TYPES[] = { audio_sample_type::i8, audio_sample_type::i16, audio_sample_type::i24, audio_sample_type::i32,
                                           audio_sample_type::i64, audio_sample_type::f32, audio_sample_type::f64 };

// reads a whole file (payload at `data`, `frames` frames) as R with the given call sizes
template <class R>
static CMT_NOINLINE void read_back(Ctx& c, const std::string& f, size_t data, long frames, audio_sample_type t, unsigned ch, unsigned rate, const V& calls,
                      const char* what)
{
    audio_reader_wav<R> r(std::make_shared<wr::MemReader>(f));
    const auto& fm = r.format();
    MC_CHECK(c, fm.channels == ch && fm.type == t && fm.samplerate == rate && (long)fm.length == frames,
             "%s: the reader reports %zu channels of %s at %g Hz, %lld frames; the file has %u of %s at %u, %ld", what, fm.channels,
             wr::type_name(fm.type), (double)fm.samplerate, (long long)fm.length, ch, wr::type_name(t), rate, frames);
    const size_t sz = audio_sample_sizeof(t);
    long pos        = 0;
    size_t k        = 0;
    for (int guard = 0;; guard++)
    {
        const long n = calls[std::min(k++, calls.size() - 1)];
        mcu::Buf<R> b(n);
        const long want = std::min(n / (long)ch, frames - pos);
        const long got  = (long)r.read(b.data(), n);
        c.op();
        MC_CHECK(c, got == want * (long)ch, "%s: reading %ld samples at frame %ld of %ld returned %ld", what, n, pos, frames, got);
        for (long i = 0; i < got; i++)
        {
            R e = wr::fetched<R>(f, data + (pos * ch + i) * sz, t);
            MC_CHECK(c, wr::eq(b[i], e), "%s: sample %ld reads as %.17g, the file holds %.17g", what, pos * ch + i, (double)b[i], (double)e);
        }
        pos += want;
        MC_CHECK(c, (long)r.tell() == pos, "%s: position %lld after %ld frames", what, (long long)r.tell(), pos);
        if (pos == frames && k >= calls.size() + 1)
            break;
        if (n / (long)ch == 0 && k >= calls.size())
            break;
        if (guard > 200)
            break;
    }
    c.eval(pos * ch);
}
template <class R>
static CMT_NOINLINE void read_planar(Ctx& c, const std::string& f, size_t data, long frames, audio_sample_type t, unsigned ch)
{
    audio_reader_wav<R> r(std::make_shared<wr::MemReader>(f));
    univector2d<R> p = r.read_channels();
    MC_CHECK(c, p.size() == ch, "read_channels returned %zu channels of %u", p.size(), ch);
    const size_t sz = audio_sample_sizeof(t);
    for (unsigned k = 0; k < ch; k++)
    {
        MC_CHECK(c, (long)p[k].size() == frames, "channel %u has %zu samples of %ld", k, p[k].size(), frames);
        for (long i = 0; i < frames; i++)
            MC_CHECK(c, wr::eq(p[k][i], wr::fetched<R>(f, data + (i * ch + k) * sz, t)), "read_channels: channel %u sample %ld is wrong", k, i);
    }
    c.op();
}
static V calls_of(Ctx& c, unsigned ch)
{
    const long m = ch;
    switch (c.choose(mc::tier(7, 9), "read calls"))
    {
    case 0: return { 1000 };
    case 1: return { m };
    case 2: return { 2 * m, m, 3 * m };
    case 3: return { 0, 3 * m, 0, m, 1000 };
    case 4: return { 2 * m + (m > 1), m };
    case 5: return { 7 * m, 100 };
    case 6: return { m - (m > 1), m, 5 * m };
    case 7: return { 1, 2 * m, 3 * m - (m > 1), 4 * m };
    default: return { 5 * m, 2 * m, 17 * m };
    }
}
static void read_all(Ctx& c, const std::string& f, size_t data, long frames, audio_sample_type t, unsigned ch, unsigned rate, const char* what)
{
    const int r    = c.choose(5, "reader type");
    const int how  = c.choose(2, "interleaved|planar");
    auto go        = [&](auto z) {
        using R = decltype(z);
        if constexpr (!std::is_same_v<R, i24>) // (no planar form compiles for it)
            if (how)
            {
                read_planar<R>(c, f, data, frames, t, ch);
                return;
            }
        read_back<R>(c, f, data, frames, t, ch, rate, calls_of(c, ch), what);
    };
    r == 0 ? go(i16{}) : r == 1 ? go(i24(0)) : r == 2 ? go(i32{}) : r == 3 ? go(f32{}) : go(f64{});
}
template <class T>
static void history(Ctx& c, uint64_t root)
{
    const audio_sample_type t = TYPES[root % 7];
    const unsigned ch         = root / 7 < 3 ? (unsigned)(root / 7) + 1 : 8;
    const bool w64            = c.flip("Wave64");
    const unsigned rate       = c.pick(std::vector<unsigned>{ 44100, 192000, 1 }, "rate");
    std::string f;
    long frames = 0;
    int ncalls  = 0;
    std::string payload;
    c.key("write %s as %s", wr::ty<T>(), wr::type_name(t));
    {
        audio_format fm;
        fm.channels = ch, fm.type = t, fm.samplerate = rate, fm.use_w64 = w64;
        audio_writer_wav<T> w(std::make_shared<wr::MemWriter>(f), fm);
        const int n = ncalls = c.choose(mc::tier(3, 4) + 1, "calls");
        for (int k = 0; k < n; k++)
        {
            const long m   = c.pick(rate == 1 ? V{ 1, 9 } : V{ 0, 1, 2, 5, 33 }, "frames");
            const int how  = rate == 1 ? c.choose(std::is_same_v<T, i24> ? 2 : 3, "pointer|with a partial frame|planar") : c.choose(2, "pointer|with a partial frame");
            const long cnt = m * ch + (how == 1 ? ch - 1 : 0);
            size_t r;
            if (how < 2)
            {
                mcu::Buf<T> b(cnt);
                for (long i = 0; i < cnt; i++)
                    b[i] = wr::sample<T>(frames * ch + i);
                r = w.write(b.data(), cnt);
                c.op();
                MC_CHECK(c, r == (size_t)m * ch, "writing %ld samples of %u channels returned %zu", cnt, ch, r);
            }
            else if constexpr (!std::is_same_v<T, i24>)
            {
                univector2d<T> p(ch, univector<T>(m));
                for (long i = 0; i < m * ch; i++)
                    p[i % ch][i / ch] = wr::sample<T>(frames * ch + i);
                r = w.write_channels(p);
                c.op();
                MC_CHECK(c, r == (size_t)m, "writing %ld frames returned %zu", m, r);
            }
            for (long i = 0; i < m * ch; i++)
                payload += wr::stored(wr::sample<T>(frames * ch + i), t);
            frames += m;
            MC_CHECK(c, (long)w.format().length == frames && (long)w.tell() == frames, "the writer reports %lld frames (position %lld) after %ld",
                     (long long)w.format().length, (long long)w.tell(), frames);
        }
        if (c.flip("close"))
        {
            w.close();
            T z[8] = { T(0), T(0), T(0), T(0), T(0), T(0), T(0), T(0) };
            MC_CHECK(c, w.write(z, ch) == 0, "writing after close claims success");
            w.close();
        }
    }
    wr::Header h = wr::parse(f);
    MC_CHECK(c, h.ok && h.why.empty(), "the file is malformed: %s", h.why.c_str());
    MC_CHECK(c, h.w64 == w64, "the container is not the one asked for");
    const unsigned bits = (unsigned)audio_sample_sizeof(t) * 8;
    MC_CHECK(c, h.tag == (t >= audio_sample_type::first_float ? 3u : 1u) && h.channels == ch && h.rate == rate && h.bits == bits &&
                    h.align == ch * bits / 8 && h.byterate == rate * ch * bits / 8,
             "the header says tag %u, %u channels, %u Hz, %u bits, %u bytes per frame, %u per second", h.tag, h.channels, h.rate, h.bits, h.align, h.byterate);
    MC_CHECK(c, h.bytes == payload.size(), "the file holds %zu bytes of samples, expected %zu", h.bytes, payload.size());
    for (size_t i = 0; i < payload.size(); i++)
        MC_CHECK(c, f[h.data + i] == payload[i], "byte %zu of sample %zu is %02x, expected %02x", i % (bits / 8), i / (bits / 8), (unsigned char)f[h.data + i], (unsigned char)payload[i]);
    c.outcome(mc::hash_bytes(f.data(), f.size()));
    if (rate == 44100 && !w64 && (ncalls < 2 || (mc::thorough() && ncalls < 3)))
        read_all(c, f, h.data, frames, t, ch, rate, "the written file");
    else
        read_back<T>(c, f, h.data, frames, t, ch, rate, { (long)ch * 3, (long)ch * 1000 }, "the written file");
}
// files made by others
static void foreign(Ctx& c, uint64_t root)
{
    const audio_sample_type t = TYPES[root];
    const unsigned ch         = c.pick(std::vector<unsigned>{ 1, 2, 3, 6 }, "channels");
    const long frames         = c.pick(V{ 0, 1, 2, 7, 40 }, "frames");
    wr::Opt o;
    o.w64        = c.flip("Wave64");
    o.extensible = c.flip("extensible");
    o.fact       = c.flip("fact chunk");
    o.junk       = c.pick({ -1, 0, 1, 2, 7, 100 }, "chunk before the data");
    o.after      = c.pick({ -1, 1, 8 }, "chunk after the data");
    c.key("read %s", wr::type_name(t));
    std::string payload;
    for (long i = 0; i < frames * ch; i++)
        payload += wr::stored(wr::sample<f64>(i, 5), t);
    const std::string f = wr::encode(t, ch, 48000, payload, o);
    wr::Header h        = wr::parse(f);
    if (!h.ok || !h.why.empty())
        c.infra(("the reference encoder is broken: " + h.why).c_str());
    c.outcome(mc::hash_bytes(f.data(), f.size()));
    read_all(c, f, h.data, frames, t, ch, 48000, "a file");
}
// many frames: counts beyond any internal buffer
template <class T>
static void longer(Ctx& c, uint64_t root)
{
    const audio_sample_type t = TYPES[root];
    const unsigned ch         = c.pick(std::vector<unsigned>{ 1, 2, 5 }, "channels");
    const long piece          = c.pick(V{ 100, 4096, 5001 }, "piece");
    std::string f;
    c.key("long write %s as %s", wr::ty<T>(), wr::type_name(t));
    const long frames = 10001;
    {
        audio_format fm;
        fm.channels = ch, fm.type = t;
        audio_writer_wav<T> w(std::make_shared<wr::MemWriter>(f), fm);
        for (long p = 0; p < frames; p += piece)
        {
            const long m = std::min(piece, frames - p);
            mcu::Buf<T> b(m * ch);
            for (long i = 0; i < m * ch; i++)
                b[i] = wr::sample<T>(p * ch + i);
            MC_CHECK(c, w.write(b.data(), m * ch) == (size_t)m * ch, "short write");
            c.op();
        }
    }
    wr::Header h = wr::parse(f);
    MC_CHECK(c, h.ok && h.why.empty() && h.bytes == frames * ch * audio_sample_sizeof(t), "the file is malformed: %s", h.why.c_str());
    const size_t sz = audio_sample_sizeof(t);
    for (long i = 0; i < frames * ch; i++)
        MC_CHECK(c, f.compare(h.data + i * sz, sz, wr::stored(wr::sample<T>(i), t)) == 0, "sample %ld is stored wrong", i);
    read_back<T>(c, f, h.data, frames, t, ch, 44100, { piece * ch }, "the written file");
}
// the target of the file runs out of space at every point
template <class T>
static void full(Ctx& c, uint64_t root)
{
    const audio_sample_type t = TYPES[root % 7];
    const unsigned ch         = 1 + (unsigned)(root / 7);
    c.key("failing target %s as %s", wr::ty<T>(), wr::type_name(t));
    wr::Fault fault;
    fault.fail_at = c.choose(24, "failing call");
    fault.how     = c.choose(3, "nothing|one byte|all but one");
    std::string f;
    audio_format fm;
    fm.channels = ch, fm.type = t;
    long claimed = 0;
    {
        audio_writer_wav<T> w(std::make_shared<wr::MemWriter>(f, &fault), fm);
        for (int k = 0; k < 3; k++)
        {
            mcu::Buf<T> b(4 * ch);
            for (size_t i = 0; i < 4 * ch; i++)
                b[i] = wr::sample<T>(claimed * ch + i);
            size_t r = w.write(b.data(), 4 * ch);
            c.op();
            MC_CHECK(c, r <= 4 * ch && r % ch == 0, "writing %u samples returned %zu", 4 * ch, r);
            claimed += r / ch;
            MC_CHECK(c, (long)w.format().length == claimed, "the writer reports %lld frames, %ld were accepted", (long long)w.format().length, claimed);
            if (r < 4 * ch)
                break;
        }
    }
    // whatever was accepted is in the file
    const size_t sz = audio_sample_sizeof(t);
    if (claimed)
    {
        size_t at = f.find("data");
        MC_CHECK(c, at != std::string::npos && f.size() >= at + 8 + claimed * ch * sz, "%ld frames were accepted but the file has %zu bytes", claimed, f.size());
        for (long i = 0; i < claimed * ch; i++)
            MC_CHECK(c, f.compare(at + 8 + i * sz, sz, wr::stored(wr::sample<T>(i), t)) == 0, "accepted sample %ld is not in the file", i);
    }
    c.outcome(mc::hash_bytes(f.data(), f.size(), claimed));
}
void mc_register()
{
    auto add = [](auto z) {
        using T       = decltype(z);
        std::string n = wr::ty<T>();
        mc::add("history " + n, 28, history<T>);
        mc::add("longer " + n, 7, longer<T>);
        mc::add("full " + n, 14, full<T>);
    };
    add(i16{});
    add(i24(0));
    add(i32{});
    add(f32{});
    add(f64{});
    mc::add("foreign", 7, foreign);
}
MC_MAIN()
