// F02: decoders against reference encoders written from the format definitions.
#include "encoders.hpp"
using namespace huira;
using namespace enc;
using pbt::Ctx;
template <class FB, class FM> static void both(Ctx& c, const Ref& r, const Bytes& b, const char* ext, ImageFormat fmt, double tol, FB fb, FM fm)
{
    bool ra = c.chance(3, 4);
    c.note("read_alpha", ra);
    compare(r, fb(b.data(), b.size(), ra), fm(b.data(), b.size(), ra), ra, tol);
    compare(r, read_image(fmt, b.data(), b.size(), ra), read_image_mono(fmt, b.data(), b.size(), ra), ra, tol, "generic");
    std::string f = pbt::scratch() + "/x" + ext;
    write_bytes(f, b);
    compare(r, read_image(f, ra), read_image_mono(f, ra), ra, tol, "file");
    if (c.chance(1, 4)) compare(r, read_image(f), read_image_mono(f), true, tol, "default_alpha");
}
PROP(bmp, 10000, 200000)
{
    auto [r, b, need, hdr, chunk, gamma] = enc::bmp(c);
    both(c, r, b, ".bmp", IMAGE_FORMAT_BMP, 1e-6, [](auto... a) { return read_image_bmp(a...); }, [](auto... a) { return read_image_bmp_mono(a...); });
    // every truncation is an error
    size_t cut = c.below(need);
    PBT_CHECK("truncated", hc::throws([&] { (void)read_image_bmp(b.data(), cut); }) && hc::throws([&] { (void)read_image_bmp_mono(b.data(), cut); }), "accepted the first " << cut << " of " << need << " bytes");
}
PROP(tga, 10000, 200000)
{
    auto [r, b, need, hdr, chunk, gamma] = enc::tga(c);
    both(c, r, b, ".tga", IMAGE_FORMAT_TGA, 1e-6, [](auto... a) { return read_image_tga(a...); }, [](auto... a) { return read_image_tga_mono(a...); });
    size_t cut = c.below(need);
    PBT_CHECK("truncated", hc::throws([&] { (void)read_image_tga(b.data(), cut); }) && hc::throws([&] { (void)read_image_tga_mono(b.data(), cut); }), "accepted the first " << cut << " of " << need << " bytes");
}
PROP(hdr, 10000, 200000)
{
    auto [r, b, need, hdr, chunk, gamma] = enc::hdr(c);
    both(c, r, b, ".hdr", IMAGE_FORMAT_HDR, 1e-5, [](const unsigned char* d, size_t n, bool) { return read_image_hdr(d, n); }, [](const unsigned char* d, size_t n, bool) { return read_image_hdr_mono(d, n); });
    PBT_CHECK("linear", read_image_hdr(b.data(), b.size()).color_space == ColorSpaceHint::Linear && read_image_hdr_mono(b.data(), b.size()).color_space == ColorSpaceHint::Linear, "not tagged linear");
    size_t cut = c.boolean() ? hdr + c.below(need - hdr) : c.below(need);
    PBT_CHECK("truncated", hc::throws([&] { (void)read_image_hdr(b.data(), cut); }), "accepted the first " << cut << " of " << need << " bytes");
}
PROP(png, 8000, 100000)
{
    auto [r, b, need, hdr, chunk, gamma] = enc::png(c);
    both(c, r, b, ".png", IMAGE_FORMAT_PNG, 1e-6, [](auto... a) { return read_image_png(a...); }, [](auto... a) { return read_image_png_mono(a...); });
    auto rd = read_image_png(b.data(), b.size(), true);
    ColorSpaceHint want = chunk == 2 ? ColorSpaceHint::Gamma : chunk == 3 ? ColorSpaceHint::Linear : ColorSpaceHint::sRGB;
    PBT_CHECK("colour_space", rd.color_space == want && (chunk != 2 || std::abs(rd.gamma_value - 1 / gamma) < 1e-3), "colour space " << int(rd.color_space) << " gamma " << rd.gamma_value << " want " << int(want) << " " << 1 / gamma);
    size_t cut = c.below(need);
    PBT_CHECK("truncated", hc::throws([&] { (void)read_image_png(b.data(), cut); }) && hc::throws([&] { (void)read_image_png_mono(b.data(), cut); }), "accepted the first " << cut << " of " << b.size() << " bytes");
}
PROP(tiff, 6000, 60000)
{
    auto [r, b, need, hdr, chunk, gamma] = enc::tiff(c);
    both(c, r, b, ".tiff", IMAGE_FORMAT_TIFF, 1e-6, [](auto... a) { return read_image_tiff_rgb(a...); }, [](auto... a) { return read_image_tiff_mono(a...); });
}
PROP(fits, 2500, 30000)
{
    // files written by CFITSIO itself: signed, unsigned (BZERO) and scaled data, with and without SATURATE
    int w = dim(c, 40), h = dim(c, 40);
    int type = c.pick({BYTE_IMG, SHORT_IMG, USHORT_IMG, LONG_IMG, ULONG_IMG, FLOAT_IMG, DOUBLE_IMG});
    double top = type == BYTE_IMG ? 255 : type == SHORT_IMG ? 32767 : type == USHORT_IMG ? 65535 : type == LONG_IMG ? 2147483647.0 : 4294967295.0;
    double sat = c.boolean() ? 0 : std::round(c.real(1, std::min(top, 100000.0)));
    if (type < 0) sat = 0;
    c.note("w", w);
    c.note("h", h);
    c.note("type", type);
    c.note("saturate", sat);
    c.nontrivial(w > 1 && h > 1);
    pbt::Rng g = c.bulk();
    std::vector<double> v(size_t(w) * size_t(h));
    for (double& x : v) x = type < 0 ? double(float(g.real(-10, 10))) : std::floor(g.real(0, sat > 0 ? sat + 0.9 : top));
    std::string f = pbt::scratch() + "/ref.fits";
    fitsfile* p = nullptr;
    int st = 0;
    long naxes[3] = {w, h, 1}, fp[3] = {1, 1, 1};
    int naxis = c.chance(1, 4) ? 3 : 2;
    fits_create_file(&p, ("!" + f).c_str(), &st);
    fits_create_img(p, type, naxis, naxes, &st);
    if (sat > 0) fits_update_key(p, TDOUBLE, "SATURATE", &sat, nullptr, &st);
    double gain = c.uniform(0.1, 9);
    fits_update_key(p, TDOUBLE, "EGAIN", &gain, "gain", &st);
    fits_write_pix(p, TDOUBLE, fp, long(v.size()), v.data(), &st);
    fits_close_file(p, &st);
    if (st) pbt::discard();
    auto [im, md] = read_image_fits(f);
    PBT_CHECK("size", im.width() == w && im.height() == h, "size");
    double div = type < 0 ? 1 : sat > 0 ? sat : top;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            double want = v[size_t(h - 1 - y) * size_t(w) + size_t(x)] / div; // FITS rows go upwards
            PBT_CHECK("pixel", std::abs(im(x, y) - want) <= 1e-6 * std::max(1.0, std::abs(want)), "pixel (" << x << "," << y << ") is " << im(x, y) << " want " << want);
        }
    bool found = false;
    for (auto& k : md.custom_keywords) found = found || (k.key == "EGAIN" && std::holds_alternative<double>(k.value) && std::abs(std::get<double>(k.value) - gain) < 1e-12 * gain && k.comment == "gain");
    PBT_CHECK("keyword", found, "EGAIN lost");
    PBT_CHECK("no_blank_invented", !std::any_of(md.custom_keywords.begin(), md.custom_keywords.end(), [](auto& k) { return k.key == "BLANK"; }), "BLANK");
    // cubes and tables of other dimensions are errors
    fits_create_file(&p, ("!" + f).c_str(), &st);
    long cube[3] = {w, h, c.range(2, 4)};
    int bad = c.boolean() ? 3 : 1;
    fits_create_img(p, type, bad, cube, &st);
    fits_close_file(p, &st);
    PBT_CHECK("cube", hc::throws([&] { (void)read_image_fits(f); }), "accepted " << bad << " axes");
}
PBT_MAIN
