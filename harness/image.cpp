// I01: image container, checked access and texture sampling against a plain 2-D array model.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/images/image.hpp"
using namespace huira;
using pbt::Ctx;
static std::vector<double> chan(float v) { return {double(v)}; }
static std::vector<double> chan(double v) { return {v}; }
static std::vector<double> chan(uint8_t v) { return {double(v)}; }
static std::vector<double> chan(uint16_t v) { return {double(v)}; }
static std::vector<double> chan(const Vec3<float>& v) { return {v.x, v.y, v.z}; }
template <std::size_t N, auto... A> std::vector<double> chan(const SpectralBins<N, A...>& v) { return {v.begin(), v.end()}; }
template <class T> T mk(Ctx& c, pbt::Rng& r)
{
    auto f = [&]() -> float { return r.below(5) == 0 ? float(r.below(4)) : float(r.real(-2, 2)); };
    if constexpr (std::is_integral_v<T>)
        return T(r.below(4) == 0 ? r.below(2) * std::numeric_limits<T>::max() : r.u64());
    else if constexpr (std::is_floating_point_v<T>)
        return T(f());
    else {
        T t{};
        for (int i = 0; i < int(ImagePixelTraits<T>::channels); ++i)
            t[size_t(i) * 1] = f();
        return t;
    }
    (void)c;
}
template <> Vec3<float> mk(Ctx&, pbt::Rng& r) { return {float(r.real(-2, 2)), float(r.real(-2, 2)), float(r.real(-2, 2))}; }
struct Model {
    int w = 0, h = 0;
    std::vector<std::vector<double>> px;
    const std::vector<double>& at(int x, int y) const { return px[size_t(y) * size_t(w) + size_t(x)]; }
};
template <class T> std::pair<Image<T>, Model> build(Ctx& c, int maxdim)
{
    Model m;
    m.w = c.range(1, c.chance(1, 4) ? maxdim : 5);
    m.h = c.range(1, c.chance(1, 4) ? maxdim : 5);
    pbt::Rng r = c.bulk();
    Image<T> im(m.w, m.h);
    for (int y = 0; y < m.h; ++y)
        for (int x = 0; x < m.w; ++x) {
            T t = mk<T>(c, r);
            im(x, y) = t;
            m.px.push_back(chan(t));
        }
    c.note("w", m.w);
    c.note("h", m.h);
    return {im, m};
}
template <class F> void with_type(Ctx& c, F&& f)
{
    int k = c.range(0, 5);
    c.note("type", k);
    switch (k) {
    case 0: return f(float{});
    case 1: return f(Vec3<float>{});
    case 2: return f(RGB{});
    case 3: return f(uint8_t{});
    case 4: return f(uint16_t{});
    default: return f(Visible8{});
    }
}
static std::string shp(const std::vector<double>& v)
{
    std::ostringstream o;
    for (double d : v) o << d << " ";
    return o.str();
}
template <class T> static void container(Ctx& c)
{
    auto [im, m] = build<T>(c, 40);
    c.nontrivial(m.w > 1 && m.h > 1 && m.w != m.h);
    PBT_CHECK("dims", im.width() == m.w && im.height() == m.h && im.size() == size_t(m.w) * m.h && im.resolution() == Resolution(m.w, m.h) && !im.empty() && bool(im), "dimensions");
    const Image<T>& k = im;
    for (int i = 0; i < 6; ++i) {
        int x = c.range(0, m.w - 1), y = c.range(0, m.h - 1);
        auto w = m.at(x, y);
        PBT_CHECK("read", chan(k(x, y)) == w && chan(k.at(x, y)) == w && chan(k[size_t(y) * m.w + x]) == w && chan(k.at(size_t(y) * m.w + x)) == w &&
                              chan(k.data()[size_t(y) * m.w + x]) == w && chan(k(Pixel(float(x) + 0.5f, float(y) + 0.25f))) == w && chan(k.at(Pixel(float(x), float(y)))) == w,
                  "pixel (" << x << "," << y << ") wants " << shp(w));
    }
    // a write changes that pixel and no other
    {
        int x = c.range(0, m.w - 1), y = c.range(0, m.h - 1);
        pbt::Rng r = c.bulk();
        T t = mk<T>(c, r);
        switch (c.below(6)) {
        case 4: im.at(size_t(y) * m.w + x) = t; break;
        case 5: im(Pixel(float(x) + 0.5f, float(y))) = t; break;
        case 0: im(x, y) = t; break;
        case 1: im.at(x, y) = t; break;
        case 2: im[size_t(y) * m.w + x] = t; break;
        default: im.at(Pixel(float(x), float(y))) = t;
        }
        m.px[size_t(y) * m.w + x] = chan(t);
        for (size_t i = 0; i < m.px.size(); ++i)
            PBT_CHECK("write", chan(im[i]) == m.px[i], "index " << i << " after writing (" << x << "," << y << ")");
    }
    // checked access rejects everything outside
    int x = c.range(-3, m.w + 2), y = c.range(-3, m.h + 2);
    if (c.chance(1, 6)) x = c.pick({INT_MIN, INT_MAX, -m.w, m.w});
    bool in = x >= 0 && y >= 0 && x < m.w && y < m.h;
    c.note("x", x);
    c.note("y", y);
    PBT_CHECK("at_bounds", hc::throws([&] { (void)im.at(x, y); }) == !in && hc::throws([&] { (void)k.at(x, y); }) == !in, "at(" << x << "," << y << ") " << (in ? "threw" : "accepted"));
    PBT_CHECK("at_index", hc::throws([&] { (void)k.at(im.size()); }) && hc::throws([&] { (void)im.at(im.size()); }), "at(size) accepted");
    if (std::abs(x) < 1000 && (in || x < -0 || y < -0 || x >= m.w || y >= m.h)) {
        bool thr = hc::throws([&] { (void)k.at(Pixel(float(x), float(y))); });
        bool mut = hc::throws([&] { (void)im.at(Pixel(float(x), float(y))); });
        PBT_CHECK("at_pixel", thr == !in && mut == !in, "at(Pixel(" << x << "," << y << ")) " << (in ? "threw" : "accepted"));
    }
    // channels
    size_t nch = m.px[0].size();
    for (size_t ch = 0; ch < nch; ++ch) {
        Image<float> g = k.get_channel(ch);
        PBT_CHECK("channel_dims", g.resolution() == k.resolution(), "channel size");
        for (size_t i = 0; i < m.px.size(); ++i)
            PBT_CHECK("channel", double(g[i]) == m.px[i][ch], "channel " << ch << " pixel " << i);
    }
    PBT_CHECK("channel_bounds", hc::throws([&] { (void)k.get_channel(nch); }), "channel out of bounds accepted");
    // value semantics
    Image<T> cp = im;
    pbt::Rng r = c.bulk();
    T v = mk<T>(c, r);
    cp.fill(v);
    for (size_t i = 0; i < m.px.size(); ++i)
        PBT_CHECK("copy", chan(im[i]) == m.px[i] && chan(cp[i]) == chan(v), "copy aliases or fill misses pixel " << i);
    Image<T> filled(Resolution(m.w, m.h), v);
    PBT_CHECK("fill_ctor", filled.size() == im.size() && chan(filled.at(m.w - 1, m.h - 1)) == chan(v), "fill constructor");
    if constexpr (!std::is_integral_v<T>) {
        Image<T> s = im + cp;
        for (size_t i = 0; i < m.px.size(); ++i) {
            auto g = chan(s[i]);
            for (size_t ch = 0; ch < nch; ++ch)
                PBT_CHECK("add", g[ch] == double(float(m.px[i][ch]) + float(chan(v)[ch])), "sum at " << i);
        }
        PBT_CHECK("add_dims", hc::throws([&] { (void)(im + Image<T>(m.w + 1, m.h)); }), "sum of different sizes accepted");
    }
    Image<T> mv = std::move(cp);
    PBT_CHECK("move", mv.size() == im.size(), "moved-to image");
    im.clear();
    PBT_CHECK("clear", im.empty() && im.width() == 0 && im.height() == 0 && !bool(im) && hc::throws([&] { (void)im.at(0, 0); }), "clear");
    (void)im.sample_bilinear(0.3f, 0.4f);
    (void)im.sample_nearest_neighbor(0.3f, 0.4f);
}
PROP(container, 12000, 150000)
{
    with_type(c, [&](auto t) { container<decltype(t)>(c); });
}
static double wrap_ref(WrapMode w, double u)
{
    switch (w) {
    case WrapMode::Clamp: return std::min(1.0, std::max(0.0, u));
    case WrapMode::Repeat: return u - std::floor(u);
    default: {
        double p = std::fmod(std::abs(u), 2.0);
        return p > 1 ? 2 - p : p;
    }
    }
}
static float gen_uv(Ctx& c, int n)
{
    switch (c.below(6)) {
    case 0: return float(c.pick({0.0, 1.0, -1.0, 0.5, 2.0, -0.0}));
    case 1: return n > 1 ? float(c.range(0, n - 1)) / float(n - 1) : 0.25f;
    case 2: return float(c.uniform(-20, 20));
    case 3: return float(c.slogreal(1e-10, 1e12));
    default: return float(c.uniform(0, 1));
    }
}
template <class T, WrapMode W> static void sampling(Ctx& c)
{
    auto [im, m] = build<T>(c, 60);
    c.nontrivial(m.w > 1 && m.h > 1);
    if (c.chance(1, 4)) { // constant image: every sample is that constant
        T k = im[0];
        im.fill(k);
        for (auto& p : m.px) p = m.px[0];
        c.label("constant");
    }
    size_t nch = m.px[0].size();
    std::vector<double> lo(nch, 1e300), hi(nch, -1e300);
    for (auto& p : m.px)
        for (size_t i = 0; i < nch; ++i) {
            lo[i] = std::min(lo[i], p[i]);
            hi[i] = std::max(hi[i], p[i]);
        }
    for (int rep = 0; rep < 8; ++rep) {
        float u = gen_uv(c, m.w), v = gen_uv(c, m.h);
        if (rep == 0) { c.note("u", u); c.note("v", v); }
        auto b = chan(im.template sample_bilinear<W>(u, v));
        auto nn = chan(im.template sample_nearest_neighbor<W>(u, v));
        bool exact = false;
        // within the image's range
        for (size_t i = 0; i < nch; ++i) {
            double e = 1e-5 * std::max(std::abs(lo[i]), std::abs(hi[i]));
            PBT_CHECK("range", b[i] >= lo[i] - e && b[i] <= hi[i] + e && nn[i] >= lo[i] && nn[i] <= hi[i], "sample outside the image's range at (" << u << "," << v << "): " << b[i] << " / " << nn[i]);
            if (lo[i] == hi[i] && std::is_integral_v<T>)
                PBT_CHECK("constant", b[i] == lo[i], "constant image samples as " << b[i] << ", not " << lo[i]);
        }
        (void)exact;
        if (std::abs(u) > 1000 || std::abs(v) > 1000)
            continue;
        // coordinates in pixel space, with the rounding error of wrapping in float
        double eu = 3e-7 * (1 + std::abs(u)) * m.w, ev = 3e-7 * (1 + std::abs(v)) * m.h;
        double px = wrap_ref(W, u) * (m.w - 1), py = wrap_ref(W, v) * (m.h - 1);
        // candidate coordinates: both sides of the repeat seam count when rounding may cross it
        std::vector<double> xs{px}, ys{py};
        if (W == WrapMode::Repeat) {
            if (px < eu || px > m.w - 1 - eu) xs = {0.0, double(m.w - 1)};
            if (py < ev || py > m.h - 1 - ev) ys = {0.0, double(m.h - 1)};
            if (px < eu) xs.push_back(px);
            if (px > m.w - 1 - eu) xs.push_back(px);
            if (py < ev) ys.push_back(py);
            if (py > m.h - 1 - ev) ys.push_back(py);
        }
        bool okn = false, okb = false;
        std::string wanted;
        for (double X : xs)
            for (double Y : ys) {
                for (int x = std::max(0, int(X) - 1); x <= std::min(m.w - 1, int(X) + 2); ++x)
                    for (int y = std::max(0, int(Y) - 1); y <= std::min(m.h - 1, int(Y) + 2); ++y)
                        if (std::abs(x - X) <= 0.5 + eu && std::abs(y - Y) <= 0.5 + ev && m.at(x, y) == nn)
                            okn = true;
                int x0 = std::min(int(X), m.w - 1), y0 = std::min(int(Y), m.h - 1);
                int x1 = std::min(x0 + 1, m.w - 1), y1 = std::min(y0 + 1, m.h - 1);
                double fx = X - x0, fy = Y - y0;
                bool all = true;
                for (size_t i = 0; i < nch; ++i) {
                    double r = m.at(x0, y0)[i] * (1 - fx) * (1 - fy) + m.at(x1, y0)[i] * fx * (1 - fy) + m.at(x0, y1)[i] * (1 - fx) * fy + m.at(x1, y1)[i] * fx * fy;
                    double range = std::max(std::abs(lo[i]), std::abs(hi[i]));
                    double tol = (hi[i] - lo[i]) * 2 * (eu + ev) + 1e-5 * range + (std::is_integral_v<T> ? 0.5 : 0);
                    if (!(std::abs(b[i] - r) <= tol)) all = false;
                    wanted += std::to_string(r) + " ";
                }
                okb = okb || all;
            }
        PBT_CHECK("nearest", okn, "nearest(" << u << "," << v << ")=" << shp(nn) << " is not the pixel nearest to (" << px << "," << py << ")");
        PBT_CHECK("bilinear", okb, "bilinear(" << u << "," << v << ")=" << shp(b) << " wants " << wanted);
    }
}
PROP(sampling, 12000, 200000)
{
    int wm = c.range(0, 2);
    c.note("wrap", wm);
    with_type(c, [&](auto t) {
        using T = decltype(t);
        if (wm == 0) sampling<T, WrapMode::Clamp>(c);
        else if (wm == 1) sampling<T, WrapMode::Repeat>(c);
        else sampling<T, WrapMode::Mirror>(c);
    });
}
PBT_MAIN
