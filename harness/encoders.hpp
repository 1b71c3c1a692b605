// Reference encoders: random files of each format with the pixels they stand for.
#pragma once
#include "imageio.hpp"
namespace enc {
using namespace huira;
using pbt::Ctx;
struct Case {
    Ref r;
    Bytes b;
    size_t need = 0, hdr = 0; // bytes that are needed / header bytes
    int chunk = 0;
    double gamma = 1;
};
inline Ref blank(Ctx& c, int w, int h)
{
    Ref r;
    r.w = w;
    r.h = h;
    r.rgb.resize(size_t(w) * size_t(h));
    c.note("w", w);
    c.note("h", h);
    c.nontrivial(w > 1 && h > 1);
    return r;
}
inline Case bmp(Ctx& c)
{
    int w = dim(c, 70), h = dim(c, 50), bpp = c.pick({24, 32});
    bool topdown = c.boolean(), fields = bpp == 32 && c.boolean();
    int dib = fields ? c.pick({40, 108, 124}) : c.pick({40, 52, 56, 108, 124}), gap = c.chance(1, 3) ? c.range(1, 50) : 0;
    Ref r = blank(c, w, h);
    c.note("bpp", bpp);
    c.note("topdown", topdown);
    c.note("bitfields", fields);
    c.note("dib", dib);
    pbt::Rng g = c.bulk();
    int off = 14 + dib + (fields && dib == 40 ? 12 : 0) + gap, stride = (w * bpp / 8 + 3) / 4 * 4;
    Bytes b{'B', 'M'};
    put32(b, uint32_t(off + stride * h)), put32(b, 0), put32(b, uint32_t(off)), put32(b, uint32_t(dib));
    put32(b, uint32_t(w)), put32(b, uint32_t(topdown ? -h : h)), put16(b, 1), put16(b, unsigned(bpp)), put32(b, fields ? 3 : 0), put32(b, 0);
    put32(b, 2835), put32(b, 2835), put32(b, 0), put32(b, 0);
    if (fields) put32(b, 0x00ff0000), put32(b, 0x0000ff00), put32(b, 0x000000ff);
    while (int(b.size()) < off) b.push_back(fields && b.size() == 66 && dib > 40 ? 0 : (unsigned char)g.u64());
    if (bpp == 32) r.alpha.resize(r.rgb.size());
    for (int row = 0; row < h; ++row) {
        int y = topdown ? row : h - 1 - row;
        for (int x = 0; x < w; ++x) {
            unsigned char p[4];
            for (auto& v : p) v = (unsigned char)g.u64();
            for (int k = 0; k < bpp / 8; ++k) b.push_back(p[k]);
            r.at(x, y) = {p[2] / 255.0, p[1] / 255.0, p[0] / 255.0};
            if (bpp == 32) r.alpha[size_t(y) * size_t(w) + size_t(x)] = p[3] / 255.0;
        }
        for (int i = w * bpp / 8; i < stride; ++i) b.push_back((unsigned char)g.u64());
    }
    size_t need = b.size();
    for (int i = c.range(0, 5); i > 0; --i) b.push_back(7); // trailing bytes are allowed
    return {r, b, need};
}
inline Case tga(Ctx& c)
{
    int w = dim(c, 150), h = dim(c, 40);
    int kind = c.range(0, 2); // true colour, gray, colour mapped
    bool rle = c.boolean(), top = c.boolean();
    int depth = kind == 0 ? c.pick({24, 32}) : kind == 1 ? 8 : c.pick({8, 16});
    int entry = c.pick({24, 32}), first = kind == 2 ? c.pick({0, 3, 20}) : 0, len = kind == 2 ? c.range(1, depth == 8 ? 200 : 700) : 0;
    int idlen = c.chance(1, 3) ? c.range(1, 255) : 0;
    bool stray_map = kind != 2 && c.chance(1, 5);
    if (stray_map) len = c.range(1, 20);
    Ref r = blank(c, w, h);
    c.note("kind", kind);
    c.note("rle", rle);
    c.note("depth", depth);
    c.note("entry", entry);
    c.note("top", top);
    c.note("first", first);
    pbt::Rng g = c.bulk();
    Bytes b{(unsigned char)idlen, (unsigned char)(kind == 2 || stray_map), (unsigned char)((kind == 0 ? 2 : kind == 1 ? 3 : 1) + (rle ? 8 : 0))};
    put16(b, unsigned(first)), put16(b, unsigned(len)), b.push_back(len ? (unsigned char)entry : 0), put16(b, unsigned(g.below(9))), put16(b, unsigned(g.below(9)));
    put16(b, unsigned(w)), put16(b, unsigned(h)), b.push_back((unsigned char)depth), b.push_back((unsigned char)((top ? 0x20 : 0) | (depth == 32 ? 8 : 0)));
    for (int i = 0; i < idlen; ++i) b.push_back((unsigned char)g.u64());
    std::vector<std::array<unsigned char, 4>> map(size_t(len), {0, 0, 0, 255});
    for (auto& e : map)
        for (int k = 0; k < entry / 8; ++k) b.push_back(e[size_t(k)] = (unsigned char)g.u64());
    bool alpha = kind == 2 ? entry == 32 : depth == 32;
    if (alpha) r.alpha.resize(r.rgb.size());
    int bpp = depth / 8;
    std::vector<Bytes> px;
    int distinct = int(g.below(5)) + 1; // few values, so that runs occur
    std::vector<Bytes> pool;
    for (int i = 0; i < distinct; ++i) {
        Bytes p;
        if (kind == 2) {
            unsigned idx = unsigned(first) + unsigned(g.below(uint64_t(len)));
            if (depth == 8) idx = std::min(idx, 255u);
            p.push_back(idx & 255);
            if (depth == 16) p.push_back((unsigned char)(idx >> 8));
        } else
            for (int k = 0; k < bpp; ++k) p.push_back((unsigned char)g.u64());
        pool.push_back(p);
    }
    for (int row = 0; row < h; ++row)
        for (int x = 0; x < w; ++x) {
            Bytes p = !px.empty() && g.below(3) ? px.back() : pool[g.below(pool.size())];
            px.push_back(p);
            std::array<unsigned char, 4> v{0, 0, 0, 255};
            if (kind == 2) v = map[size_t((depth == 8 ? p[0] : p[0] | p[1] << 8) - first)];
            else if (kind == 1) v = {p[0], p[0], p[0], 255};
            else
                for (int k = 0; k < bpp; ++k) v[size_t(k)] = p[size_t(k)];
            int y = top ? row : h - 1 - row;
            r.at(x, y) = {v[2] / 255.0, v[1] / 255.0, v[0] / 255.0};
            if (alpha) r.alpha[size_t(y) * size_t(w) + size_t(x)] = v[3] / 255.0;
        }
    if (!rle)
        for (auto& p : px) b.insert(b.end(), p.begin(), p.end());
    else
        for (size_t i = 0; i < px.size();) { // packets of either kind, crossing rows as some writers do
            size_t n = 1;
            while (i + n < px.size() && n < 128 && px[i + n] == px[i]) ++n;
            if (n > 1 || g.below(3) == 0) {
                if (g.below(4) == 0) n = 1 + g.below(n);
                b.push_back((unsigned char)(127 + n));
                b.insert(b.end(), px[i].begin(), px[i].end());
            } else {
                n = 1 + g.below(std::min<size_t>(128, px.size() - i));
                b.push_back((unsigned char)(n - 1));
                for (size_t k = 0; k < n; ++k) b.insert(b.end(), px[i + k].begin(), px[i + k].end());
            }
            i += n;
        }
    size_t need = b.size();
    return {r, b, need};
}
inline Case hdr(Ctx& c)
{
    int w = c.chance(1, 3) ? c.range(8, 300) : dim(c, 20), h = dim(c, 30);
    Ref r = blank(c, w, h);
    int orient = c.range(0, 3);
    bool rle = c.boolean() && w >= 8;
    bool crlf = c.chance(1, 4);
    c.note("orient", orient);
    c.note("rle", rle);
    pbt::Rng g = c.bulk();
    std::string nl = crlf ? "\r\n" : "\n", hd = std::string(c.boolean() ? "#?RADIANCE" : "#?RGBE") + nl;
    if (c.boolean()) hd += "# comment" + nl;
    if (c.boolean()) hd += "EXPOSURE=1.0" + nl;
    hd += "FORMAT=32-bit_rle_rgbe" + nl + nl;
    hd += std::string(orient & 1 ? "+Y " : "-Y ") + std::to_string(h) + (orient & 2 ? " -X " : " +X ") + std::to_string(w) + nl;
    Bytes b(hd.begin(), hd.end());
    size_t hdr = b.size();
    for (int row = 0; row < h; ++row) {
        std::vector<std::array<unsigned char, 4>> line(static_cast<size_t>(w));
        for (int x = 0; x < w; ++x) {
            auto& p = line[size_t(x)];
            if (x && g.below(2)) p = line[size_t(x) - 1];
            else {
                for (int k = 0; k < 3; ++k) p[size_t(k)] = (unsigned char)g.u64();
                p[3] = g.below(8) == 0 ? 0 : (unsigned char)(g.below(5) == 0 ? g.range(1, 250) : g.range(110, 140));
            }
            if (!rle && x == 0 && p[0] == 2 && p[1] == 2) p[0] = 3; // would be read as the RLE marker
            double s = p[3] ? std::ldexp(1.0, int(p[3]) - 136) : 0;
            int dx = orient & 2 ? w - 1 - x : x, dy = orient & 1 ? h - 1 - row : row;
            r.at(dx, dy) = {p[0] * s, p[1] * s, p[2] * s};
        }
        if (!rle)
            for (auto& p : line) b.insert(b.end(), p.begin(), p.end());
        else {
            b.insert(b.end(), {2, 2, (unsigned char)(w >> 8), (unsigned char)(w & 255)});
            for (size_t k = 0; k < 4; ++k)
                for (size_t i = 0; i < size_t(w);) {
                    size_t n = 1;
                    while (i + n < size_t(w) && n < 127 && line[i + n][k] == line[i][k]) ++n;
                    if (n > 1) {
                        b.push_back((unsigned char)(128 + n)), b.push_back(line[i][k]);
                    } else {
                        n = 1 + g.below(std::min<size_t>(128, size_t(w) - i));
                        b.push_back((unsigned char)n);
                        for (size_t q = 0; q < n; ++q) b.push_back(line[i + q][k]);
                    }
                    i += n;
                }
        }
    }
    size_t need = b.size();
    return {r, b, need, hdr};
}
static void png_append(png_structp p, png_bytep d, png_size_t n)
{
    auto* b = static_cast<Bytes*>(png_get_io_ptr(p));
    b->insert(b->end(), d, d + n);
}
inline Case png(Ctx& c)
{
    int w = dim(c, 60), h = dim(c, 40);
    int type = c.pick({PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_PALETTE});
    int depth = type == PNG_COLOR_TYPE_GRAY ? c.pick({1, 2, 4, 8, 16}) : type == PNG_COLOR_TYPE_PALETTE ? c.pick({1, 2, 4, 8}) : c.pick({8, 16});
    bool interlace = c.chance(1, 3), trns = c.chance(1, 3) && !(type & PNG_COLOR_MASK_ALPHA);
    Ref r = blank(c, w, h);
    c.note("type", type);
    c.note("depth", depth);
    c.note("interlaced", interlace);
    c.note("trns", trns);
    pbt::Rng g = c.bulk();
    int ch = type == PNG_COLOR_TYPE_PALETTE ? 1 : (type & 2 ? 3 : 1) + (type & 4 ? 1 : 0);
    int maxv = (1 << depth) - 1;
    int npal = type == PNG_COLOR_TYPE_PALETTE ? 1 + int(g.below(uint64_t(maxv) + 1)) : 0;
    if (npal > maxv + 1) npal = maxv + 1;
    std::vector<png_color> pal(static_cast<size_t>(npal));
    std::vector<png_byte> pt;
    for (auto& e : pal) e = {png_byte(g.u64()), png_byte(g.u64()), png_byte(g.u64())};
    if (npal && trns)
        for (int n = 1 + int(g.below(uint64_t(npal))); n > 0; --n) pt.push_back(png_byte(g.u64()));
    std::vector<std::vector<int>> v(size_t(h), std::vector<int>(size_t(w * ch)));
    int few = int(g.below(2));
    for (auto& row : v)
        for (int& s : row) s = npal ? int(g.below(uint64_t(npal))) : few ? int(g.below(2)) * maxv : int(g.below(uint64_t(maxv) + 1));
    int key[3] = {v[0][0], ch >= 3 ? v[0][1] : v[0][0], ch >= 3 ? v[0][2] : v[0][0]};
    bool alpha = (type & 4) || trns;
    if (alpha) r.alpha.resize(r.rgb.size());
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            const int* s = &v[size_t(y)][size_t(x * ch)];
            size_t i = size_t(y) * size_t(w) + size_t(x);
            double a = 1;
            if (npal) {
                auto& e = pal[size_t(s[0])];
                r.rgb[i] = {e.red / 255.0, e.green / 255.0, e.blue / 255.0};
                if (size_t(s[0]) < pt.size()) a = pt[size_t(s[0])] / 255.0;
            } else if (ch >= 3) {
                r.rgb[i] = {double(s[0]) / maxv, double(s[1]) / maxv, double(s[2]) / maxv};
                if (ch == 4) a = double(s[3]) / maxv;
                else if (trns && s[0] == key[0] && s[1] == key[1] && s[2] == key[2]) a = 0;
            } else {
                r.rgb[i] = {double(s[0]) / maxv, double(s[0]) / maxv, double(s[0]) / maxv};
                if (ch == 2) a = double(s[1]) / maxv;
                else if (trns && s[0] == key[0]) a = 0;
            }
            if (alpha) r.alpha[i] = a;
        }
    Bytes b;
    int chunk = c.range(0, 5);
    double gamma = chunk == 3 ? 1.0 : chunk == 4 ? 0.45455 : c.uniform(0.55, 0.9);
    c.note("colour_chunk", chunk);
    {
        png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
        png_infop inf = png_create_info_struct(p);
        std::vector<Bytes> rows;
        std::vector<png_bytep> ptr;
        if (setjmp(png_jmpbuf(p))) {
            png_destroy_write_struct(&p, &inf);
            pbt::discard();
        }
        png_set_write_fn(p, &b, png_append, nullptr);
        png_set_IHDR(p, inf, png_uint_32(w), png_uint_32(h), depth, type, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
        if (npal) png_set_PLTE(p, inf, pal.data(), npal);
        if (trns) {
            png_color_16 k{};
            k.gray = png_uint_16(key[0]), k.red = png_uint_16(key[0]), k.green = png_uint_16(key[1]), k.blue = png_uint_16(key[2]);
            if (npal) png_set_tRNS(p, inf, pt.data(), int(pt.size()), nullptr);
            else png_set_tRNS(p, inf, nullptr, 0, &k);
        }
        if (chunk == 1) png_set_sRGB(p, inf, PNG_sRGB_INTENT_ABSOLUTE);
        if (chunk >= 2 && chunk <= 4) png_set_gAMA(p, inf, gamma);
        png_write_info(p, inf);
        for (auto& row : v) {
            Bytes o;
            if (depth < 8) {
                int acc = 0, n = 0;
                for (int s : row) {
                    acc = acc << depth | s;
                    if ((n += depth) == 8) o.push_back((unsigned char)acc), acc = n = 0;
                }
                if (n) o.push_back((unsigned char)(acc << (8 - n)));
            } else
                for (int s : row) {
                    if (depth == 16) o.push_back((unsigned char)(s >> 8));
                    o.push_back((unsigned char)s);
                }
            rows.push_back(o);
        }
        for (auto& o : rows) ptr.push_back(o.data());
        png_write_image(p, ptr.data());
        png_write_end(p, inf);
        png_destroy_write_struct(&p, &inf);
    }
    return {r, b, b.size() - 12, 0, chunk, gamma};
}
inline Case tiff(Ctx& c)
{
    int w = dim(c, 70), h = dim(c, 50);
    int fmt = c.pick({8, 16, 32, -32});
    int colour = c.range(0, 3); // gray, inverted gray, rgb, palette
    if (colour == 3) fmt = 8;
    if (colour == 1 && fmt < 0) colour = 0;
    bool planar = colour == 2 && c.chance(1, 3), tiled = c.chance(1, 3), alpha = colour != 3 && c.chance(1, 3);
    int comp = c.pick({COMPRESSION_NONE, COMPRESSION_LZW, COMPRESSION_PACKBITS, COMPRESSION_NONE});
    bool bigendian = c.chance(1, 4);
    bool predictor = comp == COMPRESSION_LZW && fmt > 0 && c.boolean();
    Ref r = blank(c, w, h);
    c.note("format", fmt);
    c.note("colour", colour);
    c.note("planar", planar);
    c.note("tiled", tiled);
    c.note("alpha", alpha);
    c.note("compression", comp);
    c.note("bigendian", bigendian);
    pbt::Rng g = c.bulk();
    int spp = (colour == 2 ? 3 : 1) + alpha, bps = std::abs(fmt) / 8;
    double maxv = fmt == 8 ? 255 : fmt == 16 ? 65535 : 4294967295.0;
    if (alpha) r.alpha.resize(r.rgb.size());
    std::vector<uint16_t> cm[3];
    for (auto& m : cm)
        for (int i = 0; i < 256; ++i) m.push_back(uint16_t(g.below(256) * 257));
    std::vector<std::vector<uint32_t>> s(static_cast<size_t>(spp), std::vector<uint32_t>(r.rgb.size()));
    for (size_t i = 0; i < r.rgb.size(); ++i) {
        double v[4];
        for (int k = 0; k < spp; ++k) {
            uint32_t raw = uint32_t(g.below(5) == 0 ? (g.below(2) ? uint64_t(maxv) : 0) : g.below(uint64_t(maxv) + 1));
            v[k] = raw / maxv;
            if (fmt < 0) {
                float f = float(g.real(-2, 5));
                std::memcpy(&raw, &f, 4);
                v[k] = f;
            }
            s[size_t(k)][i] = raw;
        }
        if (colour == 3) {
            uint32_t x = s[0][i];
            r.rgb[i] = {cm[0][x] / 65535.0, cm[1][x] / 65535.0, cm[2][x] / 65535.0};
        } else if (colour == 2) r.rgb[i] = {v[0], v[1], v[2]};
        else {
            double q = colour == 1 ? 1 - v[0] : v[0];
            r.rgb[i] = {q, q, q};
        }
        if (alpha) r.alpha[i] = v[spp - 1];
    }
    std::string f = pbt::scratch() + "/ref.tif";
    TIFF* t = TIFFOpen(f.c_str(), bigendian ? "wb" : "wl");
    TIFFSetField(t, TIFFTAG_IMAGEWIDTH, w);
    TIFFSetField(t, TIFFTAG_IMAGELENGTH, h);
    TIFFSetField(t, TIFFTAG_SAMPLESPERPIXEL, spp);
    TIFFSetField(t, TIFFTAG_BITSPERSAMPLE, std::abs(fmt));
    TIFFSetField(t, TIFFTAG_SAMPLEFORMAT, fmt < 0 ? SAMPLEFORMAT_IEEEFP : SAMPLEFORMAT_UINT);
    TIFFSetField(t, TIFFTAG_COMPRESSION, comp);
    TIFFSetField(t, TIFFTAG_PHOTOMETRIC, colour == 0 ? PHOTOMETRIC_MINISBLACK : colour == 1 ? PHOTOMETRIC_MINISWHITE : colour == 2 ? PHOTOMETRIC_RGB : PHOTOMETRIC_PALETTE);
    TIFFSetField(t, TIFFTAG_PLANARCONFIG, planar ? PLANARCONFIG_SEPARATE : PLANARCONFIG_CONTIG);
    if (predictor) TIFFSetField(t, TIFFTAG_PREDICTOR, PREDICTOR_HORIZONTAL);
    if (alpha) {
        uint16_t ex = c.pick({EXTRASAMPLE_UNASSALPHA, EXTRASAMPLE_ASSOCALPHA});
        TIFFSetField(t, TIFFTAG_EXTRASAMPLES, 1, &ex);
    }
    if (colour == 3) TIFFSetField(t, TIFFTAG_COLORMAP, cm[0].data(), cm[1].data(), cm[2].data());
    int tw = 16 * c.range(1, 3), th = 16 * c.range(1, 2);
    if (colour == 3) tw = 32, th = 32; // libtiff 4.5 cannot read smaller uncompressed palette tiles from memory
    auto put = [&](unsigned char* d, size_t k, int x, int y) {
        uint32_t raw = x < w && y < h ? s[k][size_t(y) * size_t(w) + size_t(x)] : 77;
        std::memcpy(d, &raw, size_t(bps)); // little-endian host
    };
    bool ok = true;
    if (tiled) {
        TIFFSetField(t, TIFFTAG_TILEWIDTH, tw);
        TIFFSetField(t, TIFFTAG_TILELENGTH, th);
        for (int p = 0; p < (planar ? spp : 1); ++p)
            for (int ty = 0; ty < h; ty += th)
                for (int tx = 0; tx < w; tx += tw) {
                    Bytes buf(size_t(tw * th * bps * (planar ? 1 : spp)));
                    size_t o = 0;
                    for (int y = 0; y < th; ++y)
                        for (int x = 0; x < tw; ++x)
                            for (int k = planar ? p : 0; k < (planar ? p + 1 : spp); ++k, o += size_t(bps)) put(&buf[o], size_t(k), tx + x, ty + y);
                    ok = TIFFWriteTile(t, buf.data(), uint32_t(tx), uint32_t(ty), 0, uint16_t(p)) >= 0 && ok;
                }
    } else {
        TIFFSetField(t, TIFFTAG_ROWSPERSTRIP, c.range(1, h));
        for (int p = 0; p < (planar ? spp : 1); ++p)
            for (int y = 0; y < h; ++y) {
                Bytes buf(size_t(w * bps * (planar ? 1 : spp)));
                size_t o = 0;
                for (int x = 0; x < w; ++x)
                    for (int k = planar ? p : 0; k < (planar ? p + 1 : spp); ++k, o += size_t(bps)) put(&buf[o], size_t(k), x, y);
                ok = TIFFWriteScanline(t, buf.data(), uint32_t(y), uint16_t(p)) >= 0 && ok;
            }
    }
    TIFFClose(t);
    if (!ok) pbt::discard();
    std::ifstream in(f, std::ios::binary);
    Bytes b((std::istreambuf_iterator<char>(in)), {});
    if (colour == 3) r.alpha.assign(r.rgb.size(), 1.0);
    return {r, b, b.size(), 0};
}
} // namespace enc
