// Shared by the image file harnesses.
#pragma once
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/util/paths.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/convert_pixel.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/io/bmp_io.hpp"
#include "huira/images/io/fits_io.hpp"
#include "huira/images/io/hdr_io.hpp"
#include "huira/images/io/jpeg_io.hpp"
#include "huira/images/io/png_io.hpp"
#include "huira/images/io/tga_io.hpp"
#include "huira/images/io/tiff_io.hpp"
#include "huira/images/io/read_image.hpp"
using Bytes = std::vector<unsigned char>;
struct Ref { // what a decoder has to return
    int w = 0, h = 0;
    std::vector<std::array<double, 3>> rgb;
    std::vector<double> alpha; // empty: none
    std::array<double, 3>& at(int x, int y) { return rgb[size_t(y) * size_t(w) + size_t(x)]; }
};
inline void put16(Bytes& b, unsigned v) { b.push_back(v & 255), b.push_back(v >> 8 & 255); }
inline void put32(Bytes& b, uint32_t v) { put16(b, v & 65535), put16(b, v >> 16); }
inline int dim(pbt::Ctx& c, int big) { return c.chance(1, 5) ? c.range(1, big) : c.range(1, 6); }
// compare an RGB read and a mono read with the reference
template <class BR, class BM> void compare(const Ref& r, const BR& b, const BM& m, bool want_alpha, double tol, const char* tag = "pixel")
{
    PBT_CHECK("size", b.image.width() == r.w && b.image.height() == r.h && m.image.width() == r.w && m.image.height() == r.h, "read " << b.image.width() << "x" << b.image.height() << " / mono " << m.image.width() << "x" << m.image.height() << " want " << r.w << "x" << r.h);
    bool a = want_alpha && !r.alpha.empty();
    PBT_CHECK("alpha_present", b.alpha.empty() == !a && m.alpha.empty() == !a, "alpha " << (a ? "missing" : "invented"));
    for (int y = 0; y < r.h; ++y)
        for (int x = 0; x < r.w; ++x) {
            size_t i = size_t(y) * size_t(r.w) + size_t(x);
            const auto& p = r.rgb[i];
            for (size_t k = 0; k < 3; ++k)
                PBT_CHECK(tag, std::abs(b.image(x, y)[k] - p[k]) <= tol * std::max(1.0, std::abs(p[k])), "pixel (" << x << "," << y << ") channel " << k << " is " << b.image(x, y)[k] << " want " << p[k]);
            double g = (p[0] + p[1] + p[2]) / 3;
            PBT_CHECK("mono", std::abs(m.image(x, y) - g) <= 2 * tol * std::max(1.0, std::abs(g)), "mono pixel (" << x << "," << y << ") is " << m.image(x, y) << " want " << g);
            if (a) PBT_CHECK("alpha", std::abs(b.alpha(x, y) - r.alpha[i]) <= tol && std::abs(m.alpha(x, y) - r.alpha[i]) <= tol, "alpha (" << x << "," << y << ") is " << b.alpha(x, y) << " / " << m.alpha(x, y) << " want " << r.alpha[i]);
        }
}
inline void write_bytes(const std::string& f, const Bytes& b)
{
    std::ofstream o(f, std::ios::binary);
    o.write(reinterpret_cast<const char*>(b.data()), std::streamsize(b.size()));
}
