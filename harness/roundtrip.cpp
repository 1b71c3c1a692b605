// F01: what is written to an image file is what is read back.
#include "imageio.hpp"
using namespace huira;
using pbt::Ctx;
static float pixval(pbt::Rng& r, int levels)
{
    switch (r.below(10)) {
    case 0: return float(r.below(2));
    case 1: return float(r.real(-1, 2));
    case 2: {
        static const float odd[] = {NAN, INFINITY, -INFINITY, 1e30f, -1e30f, -0.f, 1e-40f};
        return odd[r.below(7)];
    }
    case 3: case 4: case 5: return float(double(r.below(uint64_t(levels) + 1)) / levels);
    default: return float(r.unit());
    }
}
static double q(float v, int levels) // value of the nearest level, ties either way
{
    if (!(v > 0)) return 0;
    if (v >= 1) return 1;
    (void)levels;
    return v;
}
struct Gen {
    ImageBundle<RGB> b;
    ImageBundle<float> m;
    Ref want, want_m;
    int levels = 255;
    bool odd_alpha = false;
};
static Gen gen(Ctx& c, int big)
{
    Gen g;
    int w = dim(c, big), h = dim(c, big);
    int bits = c.pick({8, 16});
    g.levels = (1 << bits) - 1;
    pbt::Rng r = c.bulk();
    g.b.image = Image<RGB>(w, h);
    g.m.image = Image<float>(w, h);
    g.want.w = g.want_m.w = w;
    g.want.h = g.want_m.h = h;
    bool alpha = c.boolean();
    g.odd_alpha = c.chance(1, 10);
    if (g.odd_alpha) g.b.alpha = Image<float>(w + 1, h);
    else if (alpha) g.b.alpha = Image<float>(w, h);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            float p[3], mv = pixval(r, g.levels);
            for (float& v : p) v = pixval(r, g.levels);
            g.b.image(x, y) = RGB{p[0], p[1], p[2]};
            g.m.image(x, y) = mv;
            g.want.rgb.push_back({q(p[0], g.levels), q(p[1], g.levels), q(p[2], g.levels)});
            g.want_m.rgb.push_back({q(mv, g.levels), q(mv, g.levels), q(mv, g.levels)});
            if (alpha && !g.odd_alpha) {
                float a = pixval(r, g.levels);
                g.b.alpha(x, y) = a;
                g.want.alpha.push_back(q(a, g.levels));
            }
        }
    g.want_m.alpha = g.want.alpha;
    g.m.alpha = g.b.alpha;
    g.b.bit_depth = g.m.bit_depth = bits;
    c.note("w", w);
    c.note("h", h);
    c.note("bits", bits);
    c.note("alpha", alpha);
    c.nontrivial(w > 1 && h > 1);
    return g;
}
PROP(png, 1500, 60000)
{
    Gen g = gen(c, 60);
    ColorSpaceHint hint = c.pick({ColorSpaceHint::sRGB, ColorSpaceHint::Linear, ColorSpaceHint::Gamma, ColorSpaceHint::Unknown});
    float gamma = float(c.uniform(1.2, 3.5));
    c.note("hint", int(hint));
    g.b.color_space = g.m.color_space = hint;
    g.b.gamma_value = g.m.gamma_value = gamma;
    std::string f = pbt::scratch() + (c.boolean() ? "/sub/dir/a.png" : "/a.png");
    double tol = 0.5 / g.levels + 1e-6;
    bool ra = c.chance(3, 4);
    for (int mono = 0; mono < 2; ++mono) {
        if (mono) write_image_png(f, g.m);
        else write_image_png(f, g.b);
        auto b = read_image_png(f, ra);
        auto m = read_image_png_mono(f, ra);
        // the three channels of a mono average exactly; for RGB the mean of rounded channels is within tol
        compare(mono ? g.want_m : g.want, b, m, ra, tol);
        for (size_t i = 0; i < b.image.size(); ++i)
            for (size_t k = 0; k < 3; ++k) {
                double l = double(b.image[i][k]) * g.levels;
                PBT_CHECK("level", std::abs(l - std::round(l)) < 1e-2, "not a " << g.levels << "-level value: " << b.image[i][k]);
            }
        bool gamma_is_srgb = std::abs(1 / gamma - 0.45455) < 0.012, sure = std::abs(1 / gamma - 0.45455) < 0.008;
        if (hint == ColorSpaceHint::Gamma) {
            if (sure) PBT_CHECK("gamma_srgb", b.color_space == ColorSpaceHint::sRGB, "hint " << int(b.color_space) << " for gamma " << gamma);
            else if (!gamma_is_srgb) PBT_CHECK("gamma", b.color_space == ColorSpaceHint::Gamma && m.color_space == ColorSpaceHint::Gamma && std::abs(b.gamma_value - gamma) < 1e-3 * gamma && std::abs(m.gamma_value - gamma) < 1e-3 * gamma, "gamma " << b.gamma_value << " want " << gamma);
        } else {
            ColorSpaceHint w = hint == ColorSpaceHint::Unknown ? ColorSpaceHint::sRGB : hint;
            PBT_CHECK("hint", b.color_space == w && m.color_space == w, "hint " << int(b.color_space) << " want " << int(w));
        }
        // the generic reader by extension gives the same
        auto gen_b = read_image(f, ra);
        auto gen_m = read_image_mono(f, ra);
        compare(mono ? g.want_m : g.want, gen_b, gen_m, ra, tol, "read_image");
    }
    ImageBundle<RGB> e = g.b;
    e.bit_depth = c.pick({0, 1, 4, 12, 32, -8});
    PBT_CHECK("depth", hc::throws([&] { write_image_png(f, e); }), "bit depth " << e.bit_depth << " accepted");
    PBT_CHECK("empty", hc::throws([&] { write_image_png(f, ImageBundle<RGB>{}); }), "empty image accepted");
}
PROP(tiff, 1500, 60000)
{
    Gen g = gen(c, 60);
    std::string f = pbt::scratch() + (c.boolean() ? "/sub2/dir/a.tiff" : "/a.tif");
    double tol = 0.5 / g.levels + 1e-6;
    g.want.alpha.clear(); // this writer has no alpha
    g.want_m.alpha.clear();
    g.b.alpha = g.m.alpha = Image<float>();
    bool ra = c.boolean();
    for (int mono = 0; mono < 2; ++mono) {
        std::string desc = c.boolean() ? "" : "a description", artist = c.boolean() ? "" : "someone";
        if (mono) write_image_tiff(f, g.m, desc, artist);
        else write_image_tiff(f, g.b, desc, artist);
        auto b = read_image_tiff_rgb(f, ra);
        auto m = read_image_tiff_mono(f, ra);
        compare(mono ? g.want_m : g.want, b, m, ra, tol);
        auto gb = read_image(f, ra);
        auto gm = read_image_mono(f, ra);
        compare(mono ? g.want_m : g.want, gb, gm, ra, tol, "read_image");
    }
    // spectral images are written as the mean of their bins
    ImageBundle<Visible8> sp{Image<Visible8>(g.b.image.resolution())};
    sp.bit_depth = g.b.bit_depth;
    Ref ws;
    ws.w = g.want.w, ws.h = g.want.h;
    pbt::Rng r = c.bulk();
    for (size_t i = 0; i < sp.image.size(); ++i) {
        double s = 0;
        for (size_t k = 0; k < 8; ++k) s += sp.image[i][k] = float(r.real(0, 1));
        ws.rgb.push_back({s / 8, s / 8, s / 8});
    }
    write_image_tiff(f, sp);
    auto b = read_image_tiff_rgb(f, true);
    auto m = read_image_tiff_mono(f, true);
    compare(ws, b, m, true, tol + 1e-5, "spectral");
    ImageBundle<RGB> e = g.b;
    e.bit_depth = c.pick({0, 1, 4, 12, 32, -8});
    PBT_CHECK("depth", hc::throws([&] { write_image_tiff(f, e); }), "bit depth " << e.bit_depth << " accepted");
}
PROP(jpeg, 800, 30000)
{
    // smooth images survive JPEG closely; every image keeps its size and overall colour
    int w = dim(c, 90), h = dim(c, 90), quality = c.chance(1, 2) ? 95 : c.range(80, 100);
    std::array<std::array<double, 4>, 3> k;
    for (auto& a : k) {
        a = {c.uniform(0.2, 0.8), c.sym(0.15), c.sym(0.15), c.sym(0.05)};
    }
    ImageBundle<RGB> b{Image<RGB>(w, h)};
    ImageBundle<float> m{Image<float>(w, h)};
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            double u = double(x) / 90, v = double(y) / 90;
            RGB p;
            for (size_t i = 0; i < 3; ++i) p[i] = float(k[i][0] + k[i][1] * u + k[i][2] * v + k[i][3] * u * v);
            b.image(x, y) = p;
            m.image(x, y) = p[0];
        }
    c.note("w", w);
    c.note("h", h);
    c.note("quality", quality);
    c.nontrivial(w > 1 && h > 1);
    std::string f = pbt::scratch() + (c.boolean() ? "/s/a.jpg" : "/a.jpeg");
    double tol = quality >= 95 ? 0.025 : 0.05;
    for (int mono = 0; mono < 2; ++mono) {
        if (mono) write_image_jpeg(f, m, quality);
        else write_image_jpeg(f, b, quality);
        auto rb = read_image_jpeg(f);
        auto rm = read_image_jpeg_mono(f);
        auto gb = read_image(f);
        auto gm = read_image_mono(f);
        PBT_CHECK("size", rb.image.resolution() == b.image.resolution() && rm.image.resolution() == b.image.resolution() && gb.image.resolution() == b.image.resolution() && gm.image.resolution() == b.image.resolution(), "size");
        PBT_CHECK("tags", rb.color_space == ColorSpaceHint::sRGB && rb.alpha.empty() && rm.alpha.empty(), "tags");
        for (size_t i = 0; i < b.image.size(); ++i) {
            RGB want = mono ? RGB{m.image[i], m.image[i], m.image[i]} : b.image[i];
            for (size_t ch = 0; ch < 3; ++ch) {
                PBT_CHECK("pixel", std::abs(rb.image[i][ch] - want[ch]) <= tol, "pixel " << i << " channel " << ch << " is " << rb.image[i][ch] << " want " << want[ch]);
                PBT_CHECK("generic", gb.image[i][ch] == rb.image[i][ch], "read_image differs");
            }
            double y = 0.299 * want[0] + 0.587 * want[1] + 0.114 * want[2];
            PBT_CHECK("gray", std::abs(rm.image[i] - y) <= tol && gm.image[i] == rm.image[i], "gray pixel " << i << " is " << rm.image[i] << " want " << y);
        }
    }
    PBT_CHECK("quality", hc::throws([&] { write_image_jpeg(f, b, c.pick({0, 101, -1, 1000})); }), "bad quality accepted");
    PBT_CHECK("empty", hc::throws([&] { write_image_jpeg(f, ImageBundle<RGB>{}); }), "empty accepted");
}
static std::string text(Ctx& c, int maxlen, bool lower = true)
{
    static const char* A = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789-_ abcdefghijklmnopqrstuvwxyz./'()+*:;,";
    int n = c.range(1, maxlen);
    std::string s;
    for (int i = 0; i < n; ++i) s += A[c.below(lower ? std::strlen(A) : 36)];
    while (!s.empty() && s.back() == ' ') s.back() = 'x';
    if (!s.empty() && s[0] == ' ') s[0] = 'y';
    return s;
}
PROP(fits, 2500, 80000)
{
    int w = dim(c, 50), h = dim(c, 50);
    int bits = c.pick({-32, -64, 8, 16, 32});
    int sensor = c.boolean() ? 0 : c.range(4, 16);
    if (bits < 0 && c.boolean()) sensor = 0;
    c.note("w", w);
    c.note("h", h);
    c.note("bitpix", bits);
    c.note("sensor_bits", sensor);
    c.nontrivial(w > 1 && h > 1);
    pbt::Rng r = c.bulk();
    Image<float> im(w, h);
    im.set_sensor_bit_depth(sensor);
    double top = bits == 8 ? 255 : bits == 16 ? 32767 : 2147483647.0;
    double adc = std::min(top, sensor ? std::pow(2.0, sensor) - 1 : top);
    bool holes = c.chance(1, 3);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            float v;
            if (bits < 0) v = r.below(4) == 0 ? float(r.real(-1e6, 1e6)) : r.below(3) == 0 ? float(std::exp(r.real(-60, 60))) : float(r.unit());
            else v = r.below(3) == 0 ? float(double(r.below(uint64_t(adc) + 1)) / adc) : r.below(6) == 0 ? float(r.below(2)) : float(r.unit());
            if (holes && r.below(5) == 0) v = NAN;
            im(x, y) = v;
        }
    FitsMetadata md;
    auto str = [&](std::string& s) { if (c.chance(1, 4)) s = text(c, 30); };
    str(md.object), str(md.telescop), str(md.instrume), str(md.observer), str(md.date_obs), str(md.origin), str(md.filter), str(md.bunit), str(md.ctype1), str(md.ctype2);
    auto num = [&](std::optional<double>& d) { if (c.chance(1, 4)) d = c.chance(1, 4) ? double(c.range(-500, 500)) : c.slogreal(1e-8, 1e8); };
    num(md.datamin), num(md.datamax), num(md.crpix1), num(md.crpix2), num(md.crval1), num(md.crval2), num(md.cdelt1), num(md.cdelt2);
    if (c.boolean()) md.exptime = float(c.logreal(1e-5, 1e5));
    bool wcs = md.crpix1 || md.crpix2 || md.crval1 || md.crval2 || md.cdelt1 || md.cdelt2 || !md.ctype1.empty() || !md.ctype2.empty();
    PBT_CHECK("has_wcs", md.has_wcs() == wcs, "has_wcs() is " << md.has_wcs());
    if (c.boolean()) {
        md.equinox = c.real(1950, 2050);
        md.radesys = c.pick<std::string>({"FK5", "ICRS", "FK4"});
    }
    for (int i = c.range(0, 2); i > 0; --i) md.comments.push_back(std::string(c.below(3), ' ') + text(c, 60));
    for (int i = c.range(0, 2); i > 0; --i) md.history.push_back(std::string(c.below(3), ' ') + text(c, 60));
    int ncustom = c.range(0, 4);
    for (int i = 0; i < ncustom; ++i) {
        FitsKeyword k;
        k.key = "K" + std::to_string(i) + text(c, 5, false);
        switch (c.below(4)) {
        case 0: k.value = text(c, 40); break;
        case 1: k.value = c.chance(1, 3) ? double(c.range(-9, 9)) + 0.5 : c.slogreal(1e-30, 1e30); break;
        case 2: k.value = c.chance(1, 4) ? c.pick({INT_MAX, INT_MIN, 0}) : c.range(-100000, 100000); break;
        default: k.value = c.boolean();
        }
        if (c.boolean()) k.comment = text(c, 20);
        md.custom_keywords.push_back(k);
    }
    std::string f = pbt::scratch() + (c.boolean() ? "/fd/a.fits" : "/a.fits");
    write_image_fits(f, im, bits, md);
    if (c.chance(1, 4)) write_image_fits(f, im, bits, md); // overwriting is fine
    auto [ri, rm] = read_image_fits(f);
    PBT_CHECK("size", ri.width() == w && ri.height() == h, "size " << ri.width() << "x" << ri.height());
    double lo = INFINITY, hi = -INFINITY;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            float a = im(x, y), b = ri(x, y);
            if (std::isnan(a)) {
                PBT_CHECK("undefined", std::isnan(b), "undefined pixel (" << x << "," << y << ") reads " << b);
                continue;
            }
            if (bits < 0) {
                PBT_CHECK("float_pixel", a == b, "pixel (" << x << "," << y << ") " << b << " want " << a);
                lo = std::min(lo, double(a)), hi = std::max(hi, double(a));
            } else {
                double floor8 = bits == 8 ? 1 / adc : 0; // 8-bit files keep 0 for undefined pixels
                double want = std::max(double(a), floor8);
                PBT_CHECK("int_pixel", std::abs(b - want) <= 0.5 / adc + 1.3e-7, "pixel (" << x << "," << y << ") " << b << " want " << want << " (1/" << adc << ")");
                double l = std::max(bits == 8 ? 1.0 : 0.0, std::round(double(a) * adc));
                lo = std::min(lo, l), hi = std::max(hi, l);
            }
        }
    auto near = [](std::optional<double> a, std::optional<double> b) { return a.has_value() == b.has_value() && (!a || std::abs(*a - *b) <= 1e-9 * std::abs(*a)); };
    if (bits > 0) {
        PBT_CHECK("saturate", rm.saturate && std::abs(*rm.saturate - adc) < 0.5, "SATURATE");
        PBT_CHECK("sensor", ri.sensor_bit_depth() == int(std::round(std::log2(adc + 1))), "sensor depth " << ri.sensor_bit_depth() << " for ceiling " << adc);
        PBT_CHECK("bunit_adu", rm.bunit == (md.bunit.empty() ? "adu" : md.bunit), "BUNIT " << rm.bunit);
    } else {
        PBT_CHECK("no_saturate", !rm.saturate, "SATURATE invented");
        PBT_CHECK("bunit", rm.bunit == md.bunit, "BUNIT " << rm.bunit);
    }
    if (lo <= hi) {
        PBT_CHECK("datamin", rm.datamin && (md.datamin ? near(md.datamin, rm.datamin) : std::abs(*rm.datamin - lo) <= 1e-9 * std::abs(lo) + (bits > 0 ? 1 : 0)), "DATAMIN " << rm.datamin.value_or(-1) << " lowest " << lo);
        PBT_CHECK("datamax", rm.datamax && (md.datamax ? near(md.datamax, rm.datamax) : std::abs(*rm.datamax - hi) <= 1e-9 * std::abs(hi) + (bits > 0 ? 1 : 0)), "DATAMAX " << rm.datamax.value_or(-1) << " highest " << hi);
    }
    PBT_CHECK("strings", rm.object == md.object && rm.telescop == md.telescop && rm.instrume == md.instrume && rm.observer == md.observer && rm.date_obs == md.date_obs && rm.origin == md.origin && rm.filter == md.filter, "observation strings");
    PBT_CHECK("exptime", std::abs(rm.exptime - md.exptime) <= 1e-6 * md.exptime, "EXPTIME " << rm.exptime << " want " << md.exptime);
    auto sh = [](std::optional<double> d) { std::ostringstream o; o << std::setprecision(17); if (d) o << *d; else o << "-"; return o.str(); };
    PBT_CHECK("wcs", near(md.crpix1, rm.crpix1) && near(md.crpix2, rm.crpix2) && near(md.crval1, rm.crval1) && near(md.crval2, rm.crval2) && near(md.cdelt1, rm.cdelt1) && near(md.cdelt2, rm.cdelt2) && rm.ctype1 == md.ctype1 && rm.ctype2 == md.ctype2, "WCS " << sh(md.crpix1) << "/" << sh(rm.crpix1) << " " << sh(md.crpix2) << "/" << sh(rm.crpix2) << " " << sh(md.crval1) << "/" << sh(rm.crval1) << " " << sh(md.crval2) << "/" << sh(rm.crval2) << " " << sh(md.cdelt1) << "/" << sh(rm.cdelt1) << " " << sh(md.cdelt2) << "/" << sh(rm.cdelt2) << " '" << md.ctype1 << "'/'" << rm.ctype1 << "' '" << md.ctype2 << "'/'" << rm.ctype2 << "'");
    if (wcs) PBT_CHECK("frame", rm.radesys == md.radesys && std::abs(rm.equinox - md.equinox) < 1e-6, "EQUINOX / RADESYS");
    auto ends_with = [](const std::vector<std::string>& all, const std::vector<std::string>& tail) {
        if (all.size() < tail.size()) return false;
        for (size_t i = 0; i < tail.size(); ++i)
            if (all[all.size() - tail.size() + i] != tail[i]) return false;
        return true;
    };
    PBT_CHECK("comments", ends_with(rm.comments, md.comments) && rm.history == md.history, "comments '" << (md.comments.empty() ? "" : md.comments[0]) << "' last '" << (rm.comments.empty() ? "" : rm.comments.back()) << "' history '" << (md.history.empty() ? "" : md.history[0]) << "'/'" << (rm.history.empty() ? "" : rm.history[0]) << "'");
    for (auto& k : md.custom_keywords) {
        const FitsKeyword* got = nullptr;
        for (auto& g : rm.custom_keywords)
            if (g.key == k.key) got = &g;
        PBT_CHECK("custom_missing", got, "keyword " << k.key << " lost");
        PBT_CHECK("custom_type", got->value.index() == k.value.index(), "keyword " << k.key << " has variant " << got->value.index() << " want " << k.value.index());
        if (auto d = std::get_if<double>(&k.value)) PBT_CHECK("custom_double", std::abs(std::get<double>(got->value) - *d) <= 1e-9 * std::abs(*d), "keyword " << k.key << " " << std::get<double>(got->value) << " want " << *d);
        else PBT_CHECK("custom_value", got->value == k.value, "keyword " << k.key);
        if (!k.comment.empty() && !std::holds_alternative<std::string>(k.value)) PBT_CHECK("custom_comment", got->comment == k.comment, "comment of " << k.key << ": '" << got->comment << "' want '" << k.comment << "'");
    }
    // reading and writing again changes nothing
    write_image_fits(f, ri, bits, rm);
    auto [ri2, rm2] = read_image_fits(f);
    for (size_t i = 0; i < ri.size(); ++i) PBT_CHECK("stable", ri2[i] == ri[i] || (std::isnan(ri[i]) && std::isnan(ri2[i])) || (bits > 0 && std::abs(ri2[i] - ri[i]) < 2e-7), "pixel " << i << " " << ri[i] << " becomes " << ri2[i]);
    PBT_CHECK("depth", hc::throws([&] { write_image_fits(f, im, c.pick({0, 1, 24, 64, -16})); }) && hc::throws([&] { write_image_fits(f, Image<float>{}); }), "bad bit depth or empty image accepted");
}
PROP(dispatch, 300, 5000)
{
    static const std::pair<const char*, ImageFormat> T[] = {
        {".png", IMAGE_FORMAT_PNG}, {".PNG", IMAGE_FORMAT_PNG}, {".jpg", IMAGE_FORMAT_JPEG}, {".jpeg", IMAGE_FORMAT_JPEG}, {".JPG", IMAGE_FORMAT_JPEG}, {".JPEG", IMAGE_FORMAT_JPEG}, {".bmp", IMAGE_FORMAT_BMP}, {".BMP", IMAGE_FORMAT_BMP}, {".tga", IMAGE_FORMAT_TGA}, {".TGA", IMAGE_FORMAT_TGA}, {".hdr", IMAGE_FORMAT_HDR}, {".HDR", IMAGE_FORMAT_HDR}, {".tif", IMAGE_FORMAT_TIFF}, {".tiff", IMAGE_FORMAT_TIFF}, {".TIF", IMAGE_FORMAT_TIFF}, {".TIFF", IMAGE_FORMAT_TIFF}, {".fits", IMAGE_FORMAT_FITS}, {".FITS", IMAGE_FORMAT_FITS}, {".txt", IMAGE_FORMAT_UNKNOWN}, {"", IMAGE_FORMAT_UNKNOWN}, {".pngx", IMAGE_FORMAT_UNKNOWN}};
    auto& [ext, fmt] = T[c.below(sizeof T / sizeof *T)];
    std::string stem = c.pick<std::string>({"a", "dir.png/b", "x.tar", "weird.bmp.name"});
    c.note("path", stem + ext);
    c.nontrivial(fmt != IMAGE_FORMAT_UNKNOWN);
    if (*ext || stem == "a" || stem == "dir.png/b") PBT_CHECK("detect", detect_image_format(stem + ext) == fmt, stem + ext << " detected as " << int(detect_image_format(stem + ext)));
    // missing, empty and foreign files are errors
    std::string f = pbt::scratch() + "/m" + ext;
    fs::remove(f);
    PBT_CHECK("missing", hc::throws([&] { (void)read_image(f); }) && hc::throws([&] { (void)read_image_mono(f); }), "missing file read");
    write_bytes(f, {});
    PBT_CHECK("empty", hc::throws([&] { (void)read_image(f); }) && hc::throws([&] { (void)read_image_mono(f); }), "empty file read");
    Bytes junk;
    for (int i = c.range(1, 60); i > 0; --i) junk.push_back(i == 3 ? 200 : (unsigned char)(65 + c.below(20)));
    write_bytes(f, junk);
    if (fmt != IMAGE_FORMAT_TGA) PBT_CHECK("junk", hc::throws([&] { (void)read_image(f); }) && hc::throws([&] { (void)read_image_mono(f); }), "text file read as an image");
    fs::remove(f);
}
PBT_MAIN
