// K02: apertures, defocus blur, point-spread functions and how far they are drawn.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/units/units.hpp"
#include "huira/render/sampler.hpp"
#include "huira/cameras/apertures/circular_aperture.hpp"
#include "huira/cameras/psfs/airy_disk.hpp"
#include "huira_impl/render/psf_lut.ipp"
using namespace huira;
using pbt::Ctx;
struct Two : Sampler<float> {
    Vec2<float> v;
    explicit Two(Vec2<float> x) : v(x) {}
    float get_1d() override { return v.x; }
    Vec2<float> get_2d() override { return v; }
};
static bool near(double a, double b, double rel) { return std::abs(a - b) <= rel * std::abs(b); }
PROP(aperture, 20000, 300000)
{
    double d = c.logreal(1e-4, 10);
    CircularAperture<RGB> a{units::Meter(d)};
    Aperture<RGB>& base = a;
    int n = c.range(0, 4);
    for (int i = 0; i < n; ++i) {
        d = c.logreal(1e-4, 10);
        if (c.boolean()) a.set_diameter(units::Meter(d));
        else base.set_area(units::SquareMeter(M_PI * d * d / 4));
    }
    c.note("diameter", d);
    c.note("changes", n);
    c.nontrivial(n > 0);
    PBT_CHECK("diameter", near(a.get_diameter().to_si(), d, 1e-6), "diameter " << a.get_diameter().to_si());
    PBT_CHECK("area", near(base.get_area().to_si(), M_PI * d * d / 4, 1e-6), "area " << base.get_area().to_si());
    PBT_CHECK("bounding_radius", near(base.get_bounding_radius().to_si(), d / 2, 1e-6), "radius " << base.get_bounding_radius().to_si());
    for (int k = 0; k < 8; ++k) {
        auto u = [&] { return float(c.chance(1, 6) ? c.pick({0.0, 0.5, 0.99999994, 0.25}) : c.uniform(0, 0.9999999)); };
        float x = u(), y = u();
        Two s({x, y});
        auto p = base.sample(s);
        PBT_CHECK("inside", std::hypot(p.x, p.y) <= d / 2 * (1 + 1e-6), "a sample at " << std::hypot(p.x, p.y));
        // area-preserving: the ring below radius r holds the squares below max(|a|,|b|)
        double m = std::max(std::abs(2.0 * x - 1), std::abs(2.0 * y - 1));
        PBT_CHECK("concentric", std::abs(std::hypot(p.x, p.y) - m * d / 2) <= 2e-6 * d, "radius " << std::hypot(p.x, p.y) << " for " << m);
    }
}
PROP(aperture_uniform, 60, 600)
{
    // equal areas receive equal numbers of stratified samples
    double d = c.logreal(1e-3, 1);
    CircularAperture<RGB> a{units::Meter(d)};
    c.note("diameter", d);
    c.nontrivial(true);
    double cx = c.sym(d / 2) * 0.6, cy = c.sym(d / 2) * 0.6, r = c.uniform(0.1, 0.4) * d / 2;
    int half = int(c.below(8));
    double in = 0, sector = 0;
    const int N = 200;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            Two s({float((i + 0.5) / N), float((j + 0.5) / N)});
            auto p = a.sample(s);
            in += std::hypot(p.x - cx, p.y - cy) < r;
            double t = std::atan2(double(p.y), double(p.x)) / (M_PI / 4);
            sector += int(std::floor(t < 0 ? t + 8 : t)) == half;
        }
    in /= N * N, sector /= N * N;
    if (std::hypot(cx, cy) + r < d / 2) PBT_CHECK("uniform", std::abs(in - r * r / (d * d / 4)) < 0.006, "a disc of area share " << r * r / (d * d / 4) << " holds " << in);
    PBT_CHECK("even_angles", std::abs(sector - 0.125) < 0.01, "an eighth of the disc holds " << sector);
}
PROP(defocus, 400, 6000)
{
    double d = c.logreal(1e-3, 0.5), f = c.logreal(0.01, 2), px = c.logreal(2e-6, 2e-5), py = c.boolean() ? px : c.logreal(2e-6, 2e-5);
    double want = c.chance(1, 5) ? c.uniform(0, 0.499) : c.logreal(0.501, 12); // blur radius in pixels
    double dio = want * std::min(px, py) / (f * d / 2) * (c.boolean() ? 1 : -1);
    int banks = c.range(1, 8);
    c.note("blur", want);
    c.note("banks", banks);
    CircularAperture<RGB> a{units::Meter(d)};
    PBT_CHECK("none_at_first", !a.has_defocus() && hc::throws([&] { (void)a.get_defocus_kernel(0, 0); }), "defocus before it is built");
    if (c.boolean()) a.build_defocus_kernel(units::Diopter(dio * c.uniform(0.2, 3)), units::Meter(f), units::Meter(px), units::Meter(py), banks + 1);
    a.build_defocus_kernel(units::Diopter(dio), units::Meter(f), units::Meter(px), units::Meter(py), banks);
    if (std::abs(want - 0.5) < 1e-4) pbt::discard();
    if (want < 0.5) {
        PBT_CHECK("in_focus", !a.has_defocus() && a.get_defocus_radius() == 0 && hc::throws([&] { (void)a.get_defocus_kernel(0, 0); }), "a blur of less than half a pixel");
        return;
    }
    c.nontrivial(true);
    PBT_CHECK("has_defocus", a.has_defocus(), "no defocus");
    PBT_CHECK("radius", near(a.get_defocus_radius(), want, 1e-4), "radius " << a.get_defocus_radius());
    int he = a.get_defocus_half_extent();
    PBT_CHECK("extent", he >= want - 1e-3 && he >= 1, "half extent " << he);
    for (int k = 0; k < 4; ++k) {
        double u = c.chance(1, 6) ? c.pick({0.0, 0.999999, 1.0, -0.001}) : c.uniform(0, 1), v = c.uniform(0, 1);
        auto& K = a.get_defocus_kernel(float(u), float(v));
        PBT_CHECK("size", K.width() == 2 * he + 1 && K.height() == 2 * he + 1, "kernel of " << K.width() << "x" << K.height());
        double bu = std::clamp(std::floor(double(float(u)) * banks), 0.0, banks - 1.0) / banks, bv = std::clamp(std::floor(double(float(v)) * banks), 0.0, banks - 1.0) / banks;
        if (std::abs(u * banks - std::round(u * banks)) < 1e-4 && u > 0 && u < 1) continue;
        if (std::abs(v * banks - std::round(v * banks)) < 1e-4) continue;
        double sum = 0, rs = 0;
        std::vector<double> ref;
        // a disc of that radius about the sub-pixel position, 8x8 per pixel
        for (int y = 0; y < K.height(); ++y)
            for (int x = 0; x < K.width(); ++x) {
                PBT_CHECK("non_negative", K(x, y) >= 0, "weight " << K(x, y));
                sum += K(x, y);
                int in = 0;
                for (int i = 0; i < 8; ++i)
                    for (int j = 0; j < 8; ++j) in += std::hypot(x + (i + 0.5) / 8 - (he + 0.5 + bu), y + (j + 0.5) / 8 - (he + 0.5 + bv)) < want;
                ref.push_back(in / 64.0), rs += in / 64.0;
            }
        PBT_CHECK("sum_one", std::abs(sum - 1) < 1e-4, "kernel sums to " << sum);
        for (int y = 0; y < K.height(); ++y)
            for (int x = 0; x < K.width(); ++x) {
                double w = ref[size_t(y * K.width() + x)] / rs;
                PBT_CHECK("disc", std::abs(K(x, y) - w) < 0.3 / rs + 0.1 * w, "at " << x << "," << y << ": " << K(x, y) << " want " << w << " (area " << rs << ")");
            }
    }
}
template <class S> static void airy_values(Ctx& c)
{
    double f = c.logreal(0.05, 5), D = f / c.logreal(1, 60), px = c.logreal(1e-6, 2e-5), py = c.boolean() ? px : c.logreal(1e-6, 2e-5);
    c.note("fnumber", f / D);
    c.note("pitch", px);
    AiryDisk<S> a(units::Meter(f), units::Meter(px), units::Meter(py), units::Meter(D), 0, 1);
    c.nontrivial(true);
    for (int k = 0; k < 200; ++k) {
        float x = float(c.sym(c.pick({0.3, 3.0, 30.0}))), y = float(c.chance(1, 8) ? 0 : c.sym(c.pick({0.3, 3.0, 30.0})));
        if (c.chance(1, 30)) x = y = 0;
        S v = a.evaluate(x, y);
        double r = std::hypot(double(x) * float(px), double(y) * float(py));
        for (size_t i = 0; i < S::size(); ++i) {
            double t = M_PI * r * D / (f * S::get_bin(i).center_wavelength);
            double w = t < 1e-6 ? 1 : std::pow(2 * std::cyl_bessel_j(1, t) / t, 2);
            PBT_CHECK("airy_pattern", std::abs(v[i] - w) < 1e-6 + 1e-5 * std::min(1.0, 10 / (t + 1)), "intensity " << v[i] << " want " << w << " at argument " << t);
        }
        S m = a.evaluate(-x, y);
        for (size_t i = 0; i < S::size(); ++i) PBT_CHECK("symmetric", m[i] == v[i], "mirrored intensity differs");
    }
}
PROP(airy, 8, 150) { c.boolean() ? airy_values<RGB>(c) : airy_values<Visible8>(c); }
// a cheap, lopsided point-spread function
struct Blob : PSF<RGB> {
    double sx, sy, ox, oy, k;
    bool flat = false;
    RGB evaluate(float x, float y) override
    {
        double g = std::exp(-0.5 * (std::pow((x - ox) / sx, 2) + std::pow((y - oy) / sy, 2)));
        return RGB{float(g), float(g * (1 + 0.3 * std::tanh(k * x))), float(flat ? 0 : std::exp(-(std::abs(x) / sx + std::abs(y) / sy) * 0.3))};
    }
};
template <class P> static void kernels(Ctx& c, P& p, int R, int B, double sharp)
{
    PBT_CHECK("shape", p.get_radius() == R && p.get_banks() == B && p.get_all_kernels().size() == size_t(B) * size_t(B), "radius " << p.get_radius() << " banks " << p.get_banks());
    auto all = p.get_all_kernels();
    for (int by = 0; by < B; ++by)
        for (int bx = 0; bx < B; ++bx) {
            auto& K = p.get_kernel(float((bx + 0.5) / B), float((by + 0.5) / B));
            PBT_CHECK("size", K.width() == 2 * R + 1 && K.height() == 2 * R + 1, "kernel of " << K.width());
            std::vector<std::array<double, 3>> ref;
            std::array<double, 3> s{}, rs{}, peak{};
            for (int y = 0; y <= 2 * R; ++y)
                for (int x = 0; x <= 2 * R; ++x) {
                    std::array<double, 3> v{};
                    const int N = 12;
                    for (int i = 0; i < N; ++i)
                        for (int j = 0; j < N; ++j) {
                            RGB e = p.evaluate(float(x - R - double(bx) / B + (i + 0.5) / N - 0.5), float(y - R - double(by) / B + (j + 0.5) / N - 0.5));
                            for (size_t q = 0; q < 3; ++q) v[q] += e[q] / (N * N);
                        }
                    ref.push_back(v);
                    for (size_t q = 0; q < 3; ++q) {
                        s[q] += K(x, y)[q];
                        rs[q] += v[q];
                        peak[q] = std::max(peak[q], v[q]);
                        PBT_CHECK("non_negative", K(x, y)[q] >= 0, "weight " << K(x, y)[q]);
                    }
                }
            for (size_t q = 0; q < 3; ++q) {
                if (rs[q] < 1e-6) {
                    PBT_CHECK("dark_channel", s[q] == 0, "a channel without light has weight " << s[q]);
                    continue;
                }
                PBT_CHECK("sum_one", std::abs(s[q] - 1) < 1e-4, "channel " << q << " sums to " << s[q]);
                for (int y = 0; y <= 2 * R; ++y)
                    for (int x = 0; x <= 2 * R; ++x) {
                        double w = ref[size_t(y * (2 * R + 1) + x)][q] / rs[q];
                        PBT_CHECK("integrated", std::abs(K(x, y)[q] - w) < sharp * peak[q] / rs[q], "bank " << bx << "," << by << " pixel " << x << "," << y << ": " << K(x, y)[q] << " want " << w);
                    }
            }
            PBT_CHECK("order", all[size_t(by * B + bx)].data() != nullptr && all[size_t(by * B + bx)](0, 0)[0] == K(0, 0)[0], "kernels out of order");
        }
    auto same = [&](float u, float v, float u2, float v2) { return &p.get_kernel(u, v) == &p.get_kernel(u2, v2); };
    float e = 0.4f / float(B);
    PBT_CHECK("clamped", same(1, 1, 1 - e, 1 - e) && same(-0.5f, 2, 0, 1 - e) && same(1.5f, -1e-7f, 1 - e, 0), "sub-pixel position outside [0,1]");
    c.nontrivial(R > 0);
}
PROP(psf_kernels, 12, 250)
{
    Blob b;
    PBT_CHECK("empty_rejected", hc::throws([&] { (void)b.get_kernel(0, 0); }), "a kernel before the cache is built");
    int R = c.range(0, 6), B = c.range(1, 4);
    b.sx = c.uniform(0.3, 2), b.sy = c.uniform(0.3, 2), b.ox = c.sym(0.5), b.oy = c.sym(0.5), b.k = c.sym(2);
    b.flat = c.chance(1, 4);
    c.note("radius", R);
    c.note("banks", B);
    c.note("sx", b.sx);
    if (c.chance(1, 4)) b.build_polyphase_cache(c.range(0, 3), c.range(1, 3));
    b.build_polyphase_cache(R, B);
    kernels(c, b, R, B, 0.01);
}
PROP(psf_airy, 2, 60)
{
    double px = c.logreal(2e-6, 1e-5), N = c.uniform(2, 20);
    int R = c.range(1, 5), B = c.range(1, 3);
    c.note("fnumber", N);
    c.note("pitch", px);
    c.note("radius", R);
    CircularAperture<RGB> ap{units::Meter(0.1)};
    auto p = ap.make_psf(units::Meter(0.1 * N), units::Meter(px), units::Meter(px), R, B);
    AiryDisk<RGB> a(units::Meter(0.1 * N), units::Meter(px), units::Meter(px), units::Meter(0.1), 0, 1);
    float x = float(c.sym(4)), y = float(c.sym(4));
    for (size_t i = 0; i < 3; ++i) PBT_CHECK("aperture_psf", std::abs(p->evaluate(x, y)[i] - a.evaluate(x, y)[i]) < 1e-6, "the aperture's PSF is not its Airy pattern");
    kernels(c, *p, R, B, 0.05);
}
PROP(drawn_radius, 4000, 60000)
{
    // a fainter star is drawn smaller, but nothing visible is cut off
    int R = c.range(1, 10), D = 2 * R + 1;
    double area = c.logreal(1e-6, 1), thr = c.chance(1, 2) ? 0.1 : c.logreal(1e-3, 10);
    int minr = c.chance(1, 2) ? 1 : c.range(0, 4);
    Image<RGB> K(D, D);
    bool lump = c.boolean();
    double fall = c.uniform(0.2, 3);
    for (int y = 0; y < D; ++y)
        for (int x = 0; x < D; ++x)
            for (size_t i = 0; i < 3; ++i) K(x, y)[i] = float(lump ? c.logreal(1e-9, 1) * (c.chance(1, 5) ? 0 : 1) : std::exp(-fall * std::hypot(x - R, y - R)) * (0.5 + 0.5 * double(i)));
    RGB pe = RGB::photon_energies();
    RadiusLUTConfig cfg;
    cfg.photon_threshold = float(thr);
    cfg.min_radius = minr;
    auto lut = build_radius_lut(K, R, float(area), pe, cfg);
    c.note("radius", R);
    c.note("area", area);
    c.note("threshold", thr);
    auto ring = [&](int r) {
        double m = 0;
        for (int y = 0; y < D; ++y)
            for (int x = 0; x < D; ++x)
                if (std::max(std::abs(x - R), std::abs(y - R)) == r)
                    for (size_t i = 0; i < 3; ++i) m = std::max(m, double(K(x, y)[i]) * area / double(pe[i]));
        return m;
    };
    int prev = 0;
    double E0 = 0;
    for (int k = 0; k < 10; ++k) {
        double E = k == 0 ? 0 : thr / std::max(1e-300, ring(c.range(1, R))) * c.logreal(0.3, 3);
        if (!std::isfinite(E) || E > 1e30) continue;
        int r = lookup_effective_radius(lut, float(E), minr);
        PBT_CHECK("range", r >= std::min(minr, R) && r <= std::max(minr, R), "radius " << r);
        int need = 0;
        bool close = false;
        for (int q = 1; q <= R; ++q) {
            double n = ring(q) * E;
            close = close || std::abs(n - thr) < 1e-4 * thr;
            if (n > thr) need = q;
        }
        if (close) continue;
        c.nontrivial(need > 0 && need < R);
        PBT_CHECK("nothing_visible_cut", r == std::max(need, minr), "radius " << r << " but the ring at " << need << " is the last that gets " << thr << " photons");
        if (k > 0) PBT_CHECK("monotone", E >= E0 ? r >= prev : r <= prev, "a fainter source is drawn larger");
        E0 = E, prev = r;
    }
    PBT_CHECK("no_kernel", build_radius_lut(K, 0, float(area), pe, cfg).empty() && lookup_effective_radius({}, 1.f, minr) == minr, "no kernel");
}
PBT_MAIN
