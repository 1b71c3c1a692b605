// F03: no byte string makes a decoder crash, overrun, hang, leak, or allocate out of proportion.
#include <cstdlib>
#include <new>
#include <cstddef>
extern "C" size_t __sanitizer_get_current_allocated_bytes();
// Allocations beyond the cap fail as they would on a machine without that memory; fresh memory is
// filled with a pattern that alternates, so a result that depends on it differs between two decodes.
static unsigned char g_fill = 0xa5;
static size_t g_biggest = 0;
static void* take(size_t n)
{
    if (n > g_biggest) g_biggest = n;
    if (n > (size_t(512) << 20)) throw std::bad_alloc();
    void* p = std::malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    __builtin_memset(p, g_fill, n < 4096 ? n : 4096);
    return p;
}
void* operator new(size_t n) { return take(n); }
void* operator new[](size_t n) { return take(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete[](void* p) noexcept { std::free(p); }
void operator delete(void* p, size_t) noexcept { std::free(p); }
void operator delete[](void* p, size_t) noexcept { std::free(p); }
#include "encoders.hpp"
using namespace huira;
using pbt::Ctx;
struct Result {
    bool ok = false;
    int w = 0, h = 0;
    uint64_t hash = 0;
    std::string err;
};
template <class B> static Result digest(const B& b)
{
    Result r;
    r.ok = true;
    r.w = b.image.width();
    r.h = b.image.height();
    r.hash = pbt::hash_bytes(b.image.data(), b.image.size() * sizeof(*b.image.data()));
    r.hash = pbt::hash_bytes(b.alpha.data(), b.alpha.size() * sizeof(float), r.hash);
    return r;
}
static Result decode(ImageFormat fmt, const Bytes& b, bool mono, bool alpha)
{
    // an exact-size heap copy, so that one byte too far is seen
    std::unique_ptr<unsigned char[]> d(new unsigned char[b.size() ? b.size() : 1]);
    std::copy(b.begin(), b.end(), d.get());
    try {
        return mono ? digest(read_image_mono(fmt, d.get(), b.size(), alpha)) : digest(read_image(fmt, d.get(), b.size(), alpha));
    } catch (const std::exception& e) {
        Result r;
        r.err = e.what();
        return r;
    }
}
static Result decode_fits(const std::string& f)
{
    try {
        auto [im, md] = read_image_fits(f);
        Result r;
        r.ok = true;
        r.w = im.width(), r.h = im.height();
        r.hash = pbt::hash_bytes(im.data(), im.size() * sizeof(float));
        return r;
    } catch (const std::exception& e) {
        Result r;
        r.err = e.what();
        return r;
    }
}
static void mutate(Ctx& c, Bytes& b, size_t head)
{
    int n = c.range(1, 6);
    for (int i = 0; i < n && !b.empty(); ++i) {
        auto at = [&] { return size_t(c.below(c.chance(2, 3) ? std::min(head, b.size()) : b.size())); };
        switch (c.below(9)) {
        case 0: b[at()] ^= (unsigned char)(1u << c.below(8)); break;
        case 1: b[at()] = (unsigned char)c.below(256); break;
        case 2: b[at()] = c.pick<unsigned char>({0, 1, 2, 3, 4, 8, 16, 24, 32, 127, 128, 129, 254, 255}); break;
        case 3: { // a 2-byte field
            size_t p = at();
            unsigned v = c.pick<unsigned>({0, 1, 2, 0x7fff, 0x8000, 0xffff, 0xfffe, 256});
            b[p] = v & 255;
            if (p + 1 < b.size()) b[p + 1] = (unsigned char)(v >> 8);
            break;
        }
        case 4: { // a 4-byte field, either endianness
            size_t p = at();
            uint32_t v = c.pick<uint32_t>({0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu, 0xfffffffeu, 0x10000u, 0x40000000u, 0x00010001u, 65537u, 100000u});
            bool be = c.boolean();
            for (size_t k = 0; k < 4 && p + k < b.size(); ++k) b[p + k] = (unsigned char)(v >> (be ? 24 - 8 * k : 8 * k));
            break;
        }
        case 5: b.resize(c.below(b.size())); break;
        case 6: { // delete a span
            size_t p = at(), k = std::min<size_t>(b.size() - p, size_t(c.range(1, 20)));
            b.erase(b.begin() + long(p), b.begin() + long(p + k));
            break;
        }
        case 7: { // duplicate a span
            size_t p = at(), k = std::min<size_t>(b.size() - p, size_t(c.range(1, 20)));
            Bytes s(b.begin() + long(p), b.begin() + long(p + k));
            b.insert(b.begin() + long(p), s.begin(), s.end());
            break;
        }
        default: { // ASCII digits grow (HDR, FITS)
            size_t p = at();
            b[p] = (unsigned char)c.pick<char>({'9', '0', '-', ' ', '\n', '.', 'E'});
        }
        }
    }
}
static void check(Ctx& c, ImageFormat fmt, const Bytes& b, bool original)
{
    bool mono = c.boolean(), alpha = c.boolean();
    c.note("bytes", b.size());
    c.note("mono", mono);
    std::ostringstream hx;
    for (size_t i = 0; i < b.size() && i < 96; ++i) hx << std::hex << std::setw(2) << std::setfill('0') << int(b[i]);
    c.note("hex", hx.str());
    g_biggest = 0;
    g_fill = 0xa5;
    Result r = decode(fmt, b, mono, alpha);
    size_t biggest = g_biggest;
    c.label(r.ok ? "decoded" : "rejected");
    c.nontrivial(!original || r.ok);
    if (r.ok) PBT_CHECK("dims", r.w >= 0 && r.h >= 0 && (r.w > 0) == (r.h > 0 ? r.w > 0 : false) || r.w == 0 || r.h == 0, "size " << r.w << "x" << r.h);
    else PBT_CHECK("message", !r.err.empty(), "error without a message");
    // what comes out depends on the bytes only
    g_fill = 0x3c;
    Result r2 = decode(fmt, b, mono, alpha);
    PBT_CHECK("deterministic", r.ok == r2.ok && r.hash == r2.hash && r.w == r2.w && r.h == r2.h, "two decodes differ: " << r.w << "x" << r.h << " / " << r2.w << "x" << r2.h << " " << r.err << " / " << r2.err);
    // colour and grey readers agree on what is an image (JPEG aside: its grey conversion refuses some colour spaces)
    if (fmt != IMAGE_FORMAT_JPEG && biggest < (size_t(64) << 20)) {
        Result o = decode(fmt, b, !mono, !alpha);
        PBT_CHECK("agree", o.ok == r.ok && o.w == r.w && o.h == r.h, "colour and grey readers disagree: " << r.err << " / " << o.err);
    }
    // raw formats hold every pixel in the data, so memory is bounded by the data
    if (fmt == IMAGE_FORMAT_BMP) PBT_CHECK("memory", biggest <= 16 * b.size() + 65536, "allocated " << biggest << " bytes for " << b.size() << " bytes of data");
    if (fmt == IMAGE_FORMAT_HDR) PBT_CHECK("memory", biggest <= 2000 * b.size() + 65536, "allocated " << biggest << " bytes for " << b.size() << " bytes of data");
    // nothing is left allocated
    size_t m[4];
    m[0] = __sanitizer_get_current_allocated_bytes();
    for (int i = 1; i < 4; ++i) {
        (void)decode(fmt, b, mono, alpha);
        m[i] = __sanitizer_get_current_allocated_bytes();
    }
    PBT_CHECK("leak", !(m[1] > m[0] && m[2] > m[1] && m[3] > m[2]), "each decode leaves " << m[2] - m[1] << "/" << m[3] - m[2] << " bytes allocated");
}
static struct Setup {
    Setup()
    {
        pbt::hooks().worker_init = [] {
            hc::quiet_logger();
            Logger::set_buffer_size(1);
            TIFFSetWarningHandler(nullptr);
        };
        pbt::hooks().case_cpu_seconds = 20;
    }
} setup_;
static void run(Ctx& c, ImageFormat fmt, Bytes b, size_t head)
{
    bool original = c.chance(1, 12);
    if (!original) mutate(c, b, head);
    check(c, fmt, b, original);
}
PROP(bmp, 12000, 400000) { run(c, IMAGE_FORMAT_BMP, enc::bmp(c).b, 66); }
PROP(tga, 12000, 400000)
{
    Bytes b = enc::tga(c).b;
    unsigned len = unsigned(b[5] | b[6] << 8), entry = b[7] / 8u;
    if (b[1] == 1 && len > 1 && c.chance(1, 4)) { // a colour map some entries short: pixels may point just past its end
        unsigned cut = c.chance(2, 3) ? 1 : unsigned(c.range(1, int(len) - 1));
        auto end = b.begin() + 18 + b[0] + long(len * entry);
        b.erase(end - long(cut * entry), end);
        b[5] = (unsigned char)(len - cut), b[6] = (unsigned char)((len - cut) >> 8);
        return check(c, IMAGE_FORMAT_TGA, b, false);
    }
    run(c, IMAGE_FORMAT_TGA, b, 18);
}
PROP(hdr, 12000, 400000)
{
    auto k = enc::hdr(c);
    run(c, IMAGE_FORMAT_HDR, k.b, k.hdr + 8);
}
static uint32_t crc(const unsigned char* p, size_t n)
{
    uint32_t r = ~0u;
    while (n--) {
        r ^= *p++;
        for (int k = 0; k < 8; ++k) r = r >> 1 ^ (r & 1 ? 0xedb88320u : 0);
    }
    return ~r;
}
PROP(png, 6000, 250000)
{
    Bytes b = enc::png(c).b;
    if (c.chance(1, 3)) return run(c, IMAGE_FORMAT_PNG, b, 64);
    // mutate inside chunks and repair the checksums, so that the decoder gets to see the damage
    Bytes o(b.begin(), b.begin() + 8);
    for (size_t p = 8; p + 12 <= b.size();) {
        size_t n = size_t(b[p]) << 24 | size_t(b[p + 1]) << 16 | size_t(b[p + 2]) << 8 | b[p + 3];
        Bytes body(b.begin() + long(p) + 4, b.begin() + long(p + 8 + n));
        if (c.chance(1, 3) && body.size() > 4) {
            Bytes d(body.begin() + 4, body.end());
            mutate(c, d, 13);
            body.resize(4);
            body.insert(body.end(), d.begin(), d.end());
        }
        int copies = c.chance(1, 20) ? c.range(0, 2) : 1;
        for (int i = 0; i < copies; ++i) {
            size_t l = body.size() - 4;
            for (int k = 24; k >= 0; k -= 8) o.push_back((unsigned char)(l >> k));
            o.insert(o.end(), body.begin(), body.end());
            uint32_t x = crc(body.data(), body.size());
            for (int k = 24; k >= 0; k -= 8) o.push_back((unsigned char)(x >> k));
        }
        p += 12 + n;
    }
    check(c, IMAGE_FORMAT_PNG, o, false);
}
PROP(tiff, 6000, 250000)
{
    auto k = enc::tiff(c);
    // the directory is at the end; its offset is in the header
    if (c.boolean()) {
        Bytes tail(k.b.end() - long(std::min<size_t>(k.b.size(), 250)), k.b.end());
        size_t base = k.b.size() - tail.size();
        mutate(c, tail, tail.size());
        k.b.resize(base);
        k.b.insert(k.b.end(), tail.begin(), tail.end());
    }
    run(c, IMAGE_FORMAT_TIFF, k.b, 8);
}
PROP(jpeg, 4000, 150000)
{
    int w = dim(c, 60), h = dim(c, 60);
    pbt::Rng g = c.bulk();
    Bytes px(size_t(w) * size_t(h) * 3);
    for (auto& v : px) v = (unsigned char)g.u64();
    tjhandle t = tjInitCompress();
    unsigned char* out = nullptr;
    unsigned long n = 0;
    int ss = c.pick({int(TJSAMP_444), int(TJSAMP_420), int(TJSAMP_GRAY), int(TJSAMP_422)});
    int rc = tjCompress2(t, px.data(), w, 0, h, TJPF_RGB, &out, &n, ss, c.range(5, 100), c.chance(1, 4) ? TJFLAG_PROGRESSIVE : 0);
    Bytes b(out, out + n);
    tjFree(out);
    tjDestroy(t);
    if (rc) pbt::discard();
    run(c, IMAGE_FORMAT_JPEG, b, 200);
}
PROP(arbitrary, 6000, 300000)
{
    ImageFormat fmt = ImageFormat(c.range(0, IMAGE_FORMAT_UNKNOWN));
    Bytes b;
    static const std::vector<std::string> magic = {"", "BM", "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y 4 +X 4\n", "\x89PNG\r\n\x1a\n", std::string("II*\0\x08\0\0\0", 8), std::string("MM\0*\0\0\0\x08", 8), "\xff\xd8\xff", "#?RGBE\n\n-Y 1 +X 9\n"};
    auto& m = c.pick(magic);
    b.assign(m.begin(), m.end());
    pbt::Rng g = c.bulk();
    int n = c.range(0, 400), kind = c.range(0, 2);
    for (int i = 0; i < n; ++i) b.push_back(kind == 0 ? (unsigned char)g.u64() : kind == 1 ? (unsigned char)g.below(4) : (unsigned char)(g.below(3) ? 0 : g.u64()));
    c.note("format", int(fmt));
    check(c, fmt, b, false);
}
PROP(fits, 1500, 40000)
{
    int w = dim(c, 20), h = dim(c, 20);
    Image<float> im(w, h);
    pbt::Rng g = c.bulk();
    for (size_t i = 0; i < im.size(); ++i) im[i] = float(g.unit());
    std::string f = pbt::scratch() + "/r.fits";
    FitsMetadata md;
    md.object = "M31";
    md.crpix1 = 1.5;
    md.custom_keywords.push_back({"GAIN", 2.5, "c"});
    md.custom_keywords.push_back({"COUNT", 7, ""});
    md.comments.push_back("hello");
    write_image_fits(f, im, c.pick({8, 16, 32, -32, -64}), md);
    std::ifstream in(f, std::ios::binary);
    Bytes b((std::istreambuf_iterator<char>(in)), {});
    in.close();
    size_t head = std::min<size_t>(b.size(), 2880);
    int n = c.range(0, 4);
    for (int i = 0; i < n; ++i) switch (c.below(4)) {
        case 0: b.resize(c.below(b.size()) + 1); break;
        case 1: { // value of a card
            size_t card = c.below(head / 80);
            size_t p = card * 80 + 10 + c.below(25);
            if (p < b.size()) b[p] = (unsigned char)c.pick<char>({'9', '0', '-', ' ', '.', 'E', '\'', 'T', '/', '1', '2', '3'});
            break;
        }
        case 2: { // keyword
            size_t p = c.below(head / 80) * 80 + c.below(9);
            if (p < b.size()) b[p] = (unsigned char)c.pick<char>({'A', ' ', '1', '2', '=', 'N', 'X'});
            break;
        }
        default: b[c.below(b.size())] = (unsigned char)c.below(256);
        }
    write_bytes(f, b);
    c.note("edits", n);
    c.note("bytes", b.size());
    Result r = decode_fits(f);
    c.label(r.ok ? "decoded" : "rejected");
    c.nontrivial(n > 0);
    if (n == 0) PBT_CHECK("unedited", r.ok && r.w == w && r.h == h, "unedited file: " << r.err);
    Result r2 = decode_fits(f);
    PBT_CHECK("deterministic", r.ok == r2.ok && r.hash == r2.hash, "two reads differ");
}
PBT_MAIN
