// I02: image convolution is the zero-padded linear convolution for every kernel and image size.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/images/image.hpp"
using namespace huira;
using pbt::Ctx;
template <class T> static double& ch(T& t, size_t i, double& tmp);
template <class T> static double getc(const T& t, size_t i)
{
    if constexpr (std::is_arithmetic_v<T>) return double(t);
    else if constexpr (IsVec<T>) return double(t[int(i)]);
    else return double(t[i]);
}
template <class T> static void setc(T& t, size_t i, double v)
{
    if constexpr (std::is_arithmetic_v<T>) t = T(v);
    else if constexpr (IsVec<T>) t[int(i)] = float(v);
    else t[i] = float(v);
}
template <class T> static Image<T> gen(Ctx& c, int w, int h, bool sparse)
{
    Image<T> im(w, h, T{0});
    pbt::Rng r = c.bulk();
    size_t n = size_t(ImagePixelTraits<T>::channels);
    for (size_t i = 0; i < im.size(); ++i)
        for (size_t k = 0; k < n; ++k)
            setc(im[i], k, sparse && r.below(4) ? 0.0 : double(r.range(-9, 9)));
    return im;
}
template <class T> static void check(Ctx& c)
{
    int w = c.range(1, c.boolean() ? 6 : 24), h = c.range(1, c.boolean() ? 6 : 24);
    int kw = c.range(1, c.boolean() ? 5 : 13), kh = c.range(1, c.boolean() ? 5 : 13);
    c.note("image", std::to_string(w) + "x" + std::to_string(h));
    c.note("kernel", std::to_string(kw) + "x" + std::to_string(kh));
    c.nontrivial(kw * kh > 1 && w * h > 1);
    c.label(kw * kh <= 25 ? "direct" : "fft");
    if (kw % 2 == 0 || kh % 2 == 0) c.label("even");
    Image<T> im = gen<T>(c, w, h, c.boolean()), k = gen<T>(c, kw, kh, c.boolean());
    Image<T> out = im;
    out.convolve(k);
    PBT_CHECK("dims", out.width() == w && out.height() == h, "size changed");
    size_t n = size_t(ImagePixelTraits<T>::channels);
    for (size_t q = 0; q < n; ++q) {
        double mag = 0;
        for (size_t i = 0; i < k.size(); ++i) mag += std::abs(getc(k[i], q));
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x) {
                double s = 0;
                for (int b = 0; b < kh; ++b)
                    for (int a = 0; a < kw; ++a) {
                        int sx = x - (a - kw / 2), sy = y - (b - kh / 2);
                        if (sx >= 0 && sy >= 0 && sx < w && sy < h)
                            s += getc(im(sx, sy), q) * getc(k(a, b), q);
                    }
                double g = getc(out(x, y), q);
                PBT_CHECK("value", std::abs(g - s) <= 1e-4 * (mag * 9 + 1), "channel " << q << " pixel (" << x << "," << y << "): " << g << " wants " << s);
            }
    }
}
PROP(matches_definition, 4000, 60000)
{
    int k = c.range(0, 3);
    c.note("type", k);
    switch (k) {
    case 0: return check<float>(c);
    case 1: return check<Vec3<float>>(c);
    case 2: return check<RGB>(c);
    default: return check<double>(c);
    }
}
PROP(integer_images_rejected, 200, 200)
{
    Image<uint8_t> a(c.range(1, 5), c.range(1, 5), uint8_t(3)), k(c.range(2, 9), c.range(1, 9), uint8_t(1));
    c.nontrivial();
    PBT_CHECK("reject", hc::throws([&] { a.convolve(k); }), "integer image convolved");
}
PBT_MAIN
