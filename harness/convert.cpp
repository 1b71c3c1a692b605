// C01: pixel value conversions, colour transfer functions, false-colour maps.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/images/image.hpp"
#include "huira/images/io/convert_pixel.hpp"
#include "huira/images/io/color_space.hpp"
#include "huira/images/color_map.hpp"
using namespace huira;
using pbt::Ctx;

template <class T> static double lvl(T v) // the exact normalised value of an integer
{
    long double lo = std::numeric_limits<T>::min(), hi = std::numeric_limits<T>::max();
    return double(((long double)v - lo) / (hi - lo));
}
template <class T> static T any_int(Ctx& c)
{
    switch (c.below(4)) {
    case 0: return c.pick({T(0), T(1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::max() - 1), T(std::numeric_limits<T>::min() + 1)});
    default: return T(c.below(0));
    }
}
static float any_float(Ctx& c)
{
    switch (c.below(7)) {
    case 0: return c.pick({0.f, 1.f, -0.f, 0.5f, 0.99999994f, 1.0000001f, 1e-45f, -1e-45f});
    case 1: return c.pick({INFINITY, -INFINITY, 3e38f, -3e38f, 2.f, -1.f, 1e10f});
    case 2: return float(c.uniform(-0.5, 1.5));
    case 3: return float(c.logreal(1e-9, 1));
    default: return float(c.uniform(0, 1));
    }
}
template <class F> static void with_int(Ctx& c, F&& f)
{
    int k = c.range(0, 7);
    c.note("int_type", k);
    switch (k) {
    case 0: return f(uint8_t{});
    case 1: return f(uint16_t{});
    case 2: return f(int8_t{});
    case 3: return f(int16_t{});
    case 4: return f(uint32_t{});
    case 5: return f(int32_t{});
    case 6: return f(uint64_t{});
    default: return f(int64_t{});
    }
}
template <class T> static void ints(Ctx& c)
{
    T v = any_int<T>(c);
    double lo = c.chance(1, 2) ? 0 : c.sym(8), hi = c.chance(1, 2) ? lo + 1 : lo + c.logreal(0.01, 100);
    float l = float(lo), h = float(hi);
    double span = double(h) - double(l), mag = std::max(std::abs(double(l)), std::abs(double(h)));
    c.note("v", +v);
    c.note("lo", l);
    c.note("hi", h);
    c.nontrivial(v != 0);
    double want = l + lvl(v) * span;
    float got = integer_to_float(v, l, h);
    PBT_CHECK("int_to_float", std::abs(got - want) <= 4e-7 * (mag + span), "integer_to_float " << got << " want " << want);
    float g1 = convert_pixel_to_float<T>(v);
    PBT_CHECK("pixel_to_float", std::abs(g1 - lvl(v)) <= 3e-7 && g1 >= 0 && g1 <= 1, "convert_pixel_to_float " << g1 << " want " << lvl(v));
    Vec3<float> g3 = convert_pixel_to_vec3<T>(v);
    PBT_CHECK("pixel_to_vec3", g3.x == g1 && g3.y == g1 && g3.z == g1, "convert_pixel_to_vec3 " << hc::show(g3));
    // monotone
    T w = any_int<T>(c);
    PBT_CHECK("int_monotone", (v <= w) == true ? integer_to_float(v, l, h) <= integer_to_float(w, l, h) : integer_to_float(v, l, h) >= integer_to_float(w, l, h), "not monotone at " << +v << ", " << +w);
    // round trip: exact where a float holds the integer
    if constexpr (sizeof(T) <= 2) {
        PBT_CHECK("round_trip", convert_float_to_pixel<T>(g1) == v, "round trip " << +convert_float_to_pixel<T>(g1));
        if (mag <= 16 * span || sizeof(T) == 1) {
            T back = float_to_integer<T>(got, l, h);
            double tol = sizeof(T) == 1 && mag < 1000 * span ? 0 : 1;
            PBT_CHECK("round_trip_range", std::abs(double(back) - double(v)) <= tol, "range round trip " << +back);
        }
    } else {
        double back = lvl(convert_float_to_pixel<T>(g1));
        PBT_CHECK("round_trip_wide", std::abs(back - lvl(v)) <= 3e-7, "wide round trip level " << back << " want " << lvl(v));
    }
}
PROP(integer_to_float, 20000, 1500000)
{
    with_int(c, [&](auto t) { ints<decltype(t)>(c); });
}
template <class T> static void floats(Ctx& c)
{
    float l = 0, h = 1;
    if (c.chance(1, 3)) {
        l = float(c.sym(8));
        h = l + float(c.logreal(0.1, 100));
    }
    float u = any_float(c);
    float x = l + u * (h - l);
    c.note("x", x);
    c.note("lo", l);
    c.note("hi", h);
    c.nontrivial(u > 0 && u < 1);
    T got = float_to_integer<T>(x, l, h);
    // nearest level of the clamped value (in real arithmetic; the tolerance is float rounding of x itself)
    double nrm = (double(x) - l) / (double(h) - l);
    if (std::isnan(nrm)) nrm = 0;
    nrm = std::min(1.0, std::max(0.0, nrm));
    double levels = double(std::numeric_limits<T>::max()) - double(std::numeric_limits<T>::min());
    double slack = 0.5 + levels * 3e-7 * (1 + std::max(std::abs(l), std::abs(h)) / (h - l));
    double err = std::abs((lvl(got) - nrm) * levels);
    if (sizeof(T) <= 2 && l == 0 && h == 1) slack = 0.5 + levels * 1.3e-7;
    PBT_CHECK("nearest", err <= slack, "float_to_integer gives " << +got << ", " << err << " levels from the value");
    if (nrm == 0) PBT_CHECK("clamp_low", got == std::numeric_limits<T>::min(), "low clamp " << +got);
    if (nrm == 1) PBT_CHECK("clamp_high", got == std::numeric_limits<T>::max(), "high clamp " << +got);
    // monotone
    float x2 = l + any_float(c) * (h - l);
    T g2 = float_to_integer<T>(x2, l, h);
    if (x <= x2) PBT_CHECK("monotone", got <= g2, "not monotone: " << x << "->" << +got << ", " << x2 << "->" << +g2);
    if (x >= x2) PBT_CHECK("monotone", got >= g2, "not monotone: " << x << "->" << +got << ", " << x2 << "->" << +g2);
    T nan = float_to_integer<T>(NAN, l, h);
    PBT_CHECK("nan", nan == std::numeric_limits<T>::min(), "NaN maps to " << +nan);
    // colour to integer goes through the luminance
    Vec3<float> v{any_float(c), any_float(c), any_float(c)};
    double gray = 0.2126 * v.x + 0.7152 * v.y + 0.0722 * v.z;
    if (std::isfinite(gray) && std::abs(gray) < 1e6) {
        T gv = convert_vec3_to_pixel<T>(v);
        double e = std::abs((lvl(gv) - std::min(1.0, std::max(0.0, gray))) * levels);
        PBT_CHECK("luminance", e <= 0.5 + levels * 1e-6 * (1 + std::abs(gray)), "vec3 " << hc::show(v) << " -> " << +gv);
    }
}
PROP(float_to_integer, 20000, 1500000)
{
    with_int(c, [&](auto t) { floats<decltype(t)>(c); });
}
PROP(float_pixels, 5000, 300000)
{
    float x = float(c.sym(100));
    Vec3<float> v{float(c.sym(10)), float(c.sym(10)), float(c.sym(10))};
    Vec3<double> d(v);
    c.note("x", x);
    c.note("v", hc::show(v));
    c.nontrivial(x != 0 && v.x != v.y);
    double gray = 0.2126 * v.x + 0.7152 * v.y + 0.0722 * v.z;
    PBT_CHECK("scalar", convert_float_to_pixel<float>(x) == x && convert_float_to_pixel<double>(x) == double(x) && convert_pixel_to_float<float>(x) == x && convert_pixel_to_float<double>(double(x)) == x, "scalar");
    auto eq = [](auto a, auto b) { return a.x == b.x && a.y == b.y && a.z == b.z; };
    PBT_CHECK("splat", eq(convert_float_to_pixel<Vec3<float>>(x), Vec3<float>(x)) && eq(convert_float_to_pixel<Vec3<double>>(x), Vec3<double>(x)) && eq(convert_pixel_to_vec3<float>(x), Vec3<float>(x)) && eq(convert_pixel_to_vec3<double>(double(x)), Vec3<float>(x)), "splat");
    PBT_CHECK("vec", eq(convert_vec3_to_pixel<Vec3<float>>(v), v) && eq(convert_vec3_to_pixel<Vec3<double>>(v), d) && eq(convert_pixel_to_vec3<Vec3<float>>(v), v) && eq(convert_pixel_to_vec3<Vec3<double>>(d), v), "vec identity");
    auto near = [&](double g) { return std::abs(g - gray) <= 1e-5; };
    PBT_CHECK("luma", near(convert_vec3_to_pixel<float>(v)) && near(convert_vec3_to_pixel<double>(v)) && near(convert_pixel_to_float<Vec3<float>>(v)) && near(convert_pixel_to_float<Vec3<double>>(d)), "luminance of " << hc::show(v) << " want " << gray);
}
PROP(srgb, 20000, 1000000)
{
    auto fwd = [](double l) { return l <= 0.0031308 ? 12.92 * l : 1.055 * std::pow(l, 1 / 2.4) - 0.055; };
    auto inv = [](double s) { return s <= 0.04045 ? s / 12.92 : std::pow((s + 0.055) / 1.055, 2.4); };
    auto gen = [&]() -> float { return c.chance(1, 4) ? float(c.uniform(0, 0.06)) : c.chance(1, 8) ? float(c.uniform(1, 20)) : c.chance(1, 8) ? float(-c.uniform(0, 1)) : float(c.real(0, 1)); };
    float x = gen(), y = gen();
    c.note("x", x);
    c.note("y", y);
    c.nontrivial(x > 0 && x < 1);
    PBT_CHECK("encode", std::abs(linear_to_srgb(x) - fwd(x)) <= 2e-6 * (1 + std::abs(x)) + (std::abs(x - 0.0031308) < 1e-5 ? 1e-4 : 0), "linear_to_srgb " << linear_to_srgb(x) << " want " << fwd(x));
    PBT_CHECK("decode", std::abs(srgb_to_linear(x) - inv(x)) <= 2e-6 * (1 + std::abs(inv(x))), "srgb_to_linear " << srgb_to_linear(x) << " want " << inv(x));
    PBT_CHECK("inverse", std::abs(srgb_to_linear(linear_to_srgb(x)) - x) <= 4e-6 * (1 + std::abs(x)), "decode(encode(x)) = " << srgb_to_linear(linear_to_srgb(x)));
    PBT_CHECK("inverse2", std::abs(linear_to_srgb(srgb_to_linear(x)) - x) <= 4e-6 * (1 + std::abs(x)) + (std::abs(x - 0.04045) < 1e-4 ? 1e-4 : 0), "encode(decode(x)) = " << linear_to_srgb(srgb_to_linear(x)));
    if (x <= y) PBT_CHECK("monotone", linear_to_srgb(x) <= linear_to_srgb(y) + 1e-6f && srgb_to_linear(x) <= srgb_to_linear(y) + 1e-6f, "not monotone");
    float g = float(c.uniform(0.2, 4)), e = std::abs(x);
    PBT_CHECK("gamma", std::abs(gamma_to_linear(e, g) - std::pow(double(e), double(g))) <= 1e-5 * (1 + std::pow(double(e), double(g))), "gamma_to_linear");
    if (x >= 0 && x <= 1) PBT_CHECK("range", linear_to_srgb(x) >= 0 && linear_to_srgb(x) <= 1.000001f && srgb_to_linear(x) >= 0 && srgb_to_linear(x) <= 1.000001f, "[0,1] not kept");
    // the whole-image forms do the same, keep the alpha and set the tag
    int w = c.range(1, 5), h = c.range(1, 4);
    pbt::Rng r = c.bulk();
    ImageBundle<RGB> b{Image<RGB>(w, h)};
    ImageBundle<float> m{Image<float>(w, h)};
    if (c.boolean()) {
        b.alpha = Image<float>(w, h);
        for (size_t i = 0; i < b.alpha.size(); ++i) b.alpha[i] = float(r.unit());
    }
    m.alpha = b.alpha;
    for (size_t i = 0; i < b.image.size(); ++i) {
        b.image[i] = RGB{float(r.unit()), float(r.unit()), float(r.unit())};
        m.image[i] = float(r.unit());
    }
    auto same_alpha = [&](const Image<float>& a) {
        bool ok = a.size() == b.alpha.size();
        for (size_t i = 0; ok && i < a.size(); ++i) ok = a[i] == b.alpha[i];
        return ok;
    };
    auto be = linear_to_srgb(b), bd = srgb_to_linear(b);
    auto me = linear_to_srgb(m), md = srgb_to_linear(m);
    PBT_CHECK("bundle_dims", be.image.resolution() == b.image.resolution() && bd.image.resolution() == b.image.resolution() && me.image.resolution() == b.image.resolution() && md.image.resolution() == b.image.resolution(), "bundle size");
    for (size_t i = 0; i < b.image.size(); ++i) {
        for (size_t k = 0; k < 3; ++k)
            PBT_CHECK("bundle_rgb", be.image[i][k] == linear_to_srgb(b.image[i][k]) && bd.image[i][k] == srgb_to_linear(b.image[i][k]), "bundle pixel " << i << " channel " << k);
        PBT_CHECK("bundle_mono", me.image[i] == linear_to_srgb(m.image[i]) && md.image[i] == srgb_to_linear(m.image[i]), "bundle pixel " << i);
    }
    PBT_CHECK("bundle_tag", be.color_space == ColorSpaceHint::sRGB && me.color_space == ColorSpaceHint::sRGB && bd.color_space == ColorSpaceHint::Linear && md.color_space == ColorSpaceHint::Linear, "colour space tag");
    PBT_CHECK("bundle_alpha", same_alpha(be.alpha) && same_alpha(bd.alpha) && same_alpha(me.alpha) && same_alpha(md.alpha), "alpha");
}
PROP(false_colour, 3000, 200000)
{
    int w = c.range(1, 6), h = c.range(1, 5);
    pbt::Rng r = c.bulk();
    Image<Vec3<float>> n(w, h);
    Image<float> d(w, h);
    Image<RGB> rgb(w, h);
    bool constant = c.chance(1, 5), near = c.boolean();
    float base = float(c.logreal(1e-2, 1e9));
    double span = base * (near ? 0.01 : 10);
    int ninf = 0;
    for (size_t i = 0; i < n.size(); ++i) {
        V3f:
        Vec3<float> v{float(r.real(-1, 1)), float(r.real(-1, 1)), float(r.real(-1, 1))};
        float l = std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z);
        if (l < 1e-3f) goto V3f;
        n[i] = v / l;
        d[i] = constant ? base : float(base + r.unit() * span);
        if (r.below(4) == 0) d[i] = INFINITY, ++ninf;
        rgb[i] = RGB{float(r.unit()), float(r.unit()), float(r.unit())};
    }
    c.note("w", w);
    c.note("h", h);
    c.note("base", base);
    c.note("constant", constant);
    c.note("infinite", ninf);
    c.nontrivial(w * h > 1);
    auto nm = normal_map(n);
    for (size_t i = 0; i < n.size(); ++i)
        for (int k = 0; k < 3; ++k)
            PBT_CHECK("normal", std::abs(nm[i][size_t(k)] - (n[i][k] + 1) / 2) <= 1e-6, "normal " << hc::show(n[i]));
    auto dm = depth_map(d);
    double lo = INFINITY, hi = -INFINITY;
    for (size_t i = 0; i < d.size(); ++i)
        if (!std::isinf(d[i])) lo = std::min(lo, double(d[i])), hi = std::max(hi, double(d[i]));
    for (size_t i = 0; i < d.size(); ++i) {
        double want = std::isinf(d[i]) ? 1.0 : hi > lo ? 0.8 * (d[i] - lo) / (hi - lo) : 0.0;
        PBT_CHECK("depth", std::abs(dm[i][0] - want) <= 1e-4 && dm[i][0] == dm[i][1] && dm[i][0] == dm[i][2], "depth " << d[i] << " in [" << lo << "," << hi << "] -> " << dm[i][0] << " want " << want);
    }
    auto same = rgb_to_spectral<RGB>(rgb);
    auto sp = rgb_to_spectral<Visible8>(rgb);
    PBT_CHECK("spectral_dims", sp.resolution() == rgb.resolution() && same.resolution() == rgb.resolution(), "size");
    for (size_t i = 0; i < rgb.size(); ++i) {
        Visible8 want = convert_rgb_to_spectral<Visible8>(rgb[i]);
        for (size_t k = 0; k < 8; ++k) PBT_CHECK("spectral", sp[i][k] == want[k], "pixel " << i);
        for (size_t k = 0; k < 3; ++k) PBT_CHECK("spectral_rgb", same[i][k] == rgb[i][k], "pixel " << i);
    }
}
PBT_MAIN
