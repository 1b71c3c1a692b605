// K01: lens distortion models and their inverses.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/distortion/brown_distortion.hpp"
#include "huira/cameras/distortion/opencv_distortion.hpp"
#include "huira/cameras/distortion/owen_distortion.hpp"
using namespace huira;
using pbt::Ctx;
struct D2 {
    double x, y;
};
static const char* names[] = {"Brown", "OpenCV", "Owen"};
static const int ncoef[] = {5, 12, 6};
struct Model {
    int kind = 0;
    std::vector<double> k;
    std::unique_ptr<Distortion<RGB>> d;
};
static D2 ref(const Model& m, D2 p)
{
    auto& k = m.k;
    double x = p.x, y = p.y, r2 = x * x + y * y, r = std::sqrt(r2);
    if (m.kind == 0) {
        double f = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2;
        return {x * f + 2 * k[3] * x * y + k[4] * (r2 + 2 * x * x), y * f + k[3] * (r2 + 2 * y * y) + 2 * k[4] * x * y};
    }
    if (m.kind == 1) {
        double f = (1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2) / (1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2);
        return {x * f + 2 * k[6] * x * y + k[7] * (r2 + 2 * x * x) + k[8] * r2 + k[9] * r2 * r2,
                y * f + k[6] * (r2 + 2 * y * y) + 2 * k[7] * x * y + k[10] * r2 + k[11] * r2 * r2};
    }
    double f = k[1] * r2 + k[3] * r2 * r2 + k[4] * y + k[5] * x, g = k[0] * r + k[2] * r * r2;
    return {x + x * f - y * g, y + y * f + x * g};
}
static double denom(const Model& m, double r2) { return m.kind == 1 ? 1 + m.k[3] * r2 + m.k[4] * r2 * r2 + m.k[5] * r2 * r2 * r2 : 1; }
static Model model(Ctx& c, double amp)
{
    Model m;
    m.kind = int(c.below(3));
    m.k.resize(size_t(ncoef[m.kind]));
    for (auto& v : m.k) v = c.chance(1, 4) ? 0 : c.sym(amp);
    if (c.chance(1, 12))
        for (auto& v : m.k) v = 0;
    auto& k = m.k;
    if (m.kind == 0) m.d = std::make_unique<BrownDistortion<RGB>>(BrownCoefficients(k[0], k[1], k[2], k[3], k[4]));
    if (m.kind == 1) m.d = std::make_unique<OpenCVDistortion<RGB>>(OpenCVCoefficients(k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9], k[10], k[11]));
    if (m.kind == 2) m.d = std::make_unique<OwenDistortion<RGB>>(OwenCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]));
    c.label(names[m.kind]);
    c.note("model", names[m.kind]);
    for (size_t i = 0; i < k.size(); ++i) c.note("k" + std::to_string(i), k[i]);
    return m;
}
static double dist(D2 a, Pixel b) { return std::hypot(a.x - double(b[0]), a.y - double(b[1])); }
PROP(distort, 60000, 1000000)
{
    Model m = model(c, c.pick({0.01, 0.3, 2.0}));
    double R = c.pick({0.05, 0.5, 1.5});
    Pixel p{float(c.sym(R)), float(c.sym(R))};
    if (c.chance(1, 10)) p = {0, 0};
    c.note("x", p[0]);
    c.note("y", p[1]);
    double r2 = double(p[0]) * p[0] + double(p[1]) * p[1];
    c.nontrivial(r2 > 0);
    Pixel q = m.d->distort(p);
    if (std::abs(denom(m, r2)) < 0.05) pbt::discard();
    D2 w = ref(m, {p[0], p[1]});
    double scale = 1;
    for (double v : m.k) scale += std::abs(v) * std::max(1.0, r2 * r2 * r2) * 3;
    PBT_CHECK("published_model", dist(w, q) <= 3e-6 * scale * std::sqrt(r2) / std::pow(std::min(1.0, std::abs(denom(m, r2))), 2) + 1e-9, "(" << q[0] << "," << q[1] << ") want (" << w.x << "," << w.y << ")");
    if (r2 == 0) PBT_CHECK("centre_fixed", q[0] == 0 && q[1] == 0, "the principal point moved");
    bool zero = std::all_of(m.k.begin(), m.k.end(), [](double v) { return v == 0; });
    if (zero) PBT_CHECK("identity", q[0] == p[0] && q[1] == p[1] && m.d->undistort(p)[0] == p[0] && m.d->undistort(p)[1] == p[1], "without coefficients points move");
    PBT_CHECK("type_name", m.d->get_type_name() == names[m.kind], "named " << m.d->get_type_name());
}
PROP(coefficients, 3000, 20000)
{
    Model m = model(c, 1);
    auto& k = m.k;
    c.nontrivial(true);
    const Distortion<RGB>& cd = *m.d;
    bool ok = false, w = false;
    if (auto* b = dynamic_cast<const BrownCoefficients*>(cd.get_coefficients())) ok = m.kind == 0 && b->k1 == k[0] && b->k2 == k[1] && b->k3 == k[2] && b->p1 == k[3] && b->p2 == k[4];
    if (auto* b = dynamic_cast<const OpenCVCoefficients*>(cd.get_coefficients()))
        ok = m.kind == 1 && b->k1 == k[0] && b->k2 == k[1] && b->k3 == k[2] && b->k4 == k[3] && b->k5 == k[4] && b->k6 == k[5] && b->p1 == k[6] && b->p2 == k[7] && b->s1 == k[8] && b->s2 == k[9] && b->s3 == k[10] && b->s4 == k[11];
    if (auto* b = dynamic_cast<const OwenCoefficients*>(cd.get_coefficients())) ok = m.kind == 2 && b->e1 == k[0] && b->e2 == k[1] && b->e3 == k[2] && b->e4 == k[3] && b->e5 == k[4] && b->e6 == k[5];
    PBT_CHECK("coefficients", ok, "coefficients are not those given");
    // changing them changes the model
    double v = c.uniform(0.1, 0.4);
    if (auto* b = dynamic_cast<BrownCoefficients*>(m.d->get_coefficients())) b->k1 = k[0] = v, w = true;
    if (auto* b = dynamic_cast<OpenCVCoefficients*>(m.d->get_coefficients())) *b = {}, b->k1 = v, k.assign(12, 0), k[0] = v, w = true;
    if (auto* b = dynamic_cast<OwenCoefficients*>(m.d->get_coefficients())) b->e2 = k[1] = v, w = true;
    Pixel p{float(c.sym(0.5)), float(c.sym(0.5))};
    PBT_CHECK("live", w && dist(ref(m, {p[0], p[1]}), m.d->distort(p)) < 1e-5, "a changed coefficient has no effect");
}
PROP(undistort, 40000, 600000)
{
    double amp = c.pick({0.002, 0.03, 0.15, 0.5});
    Model m = model(c, amp);
    double R = c.pick({0.05, 0.3, 0.8});
    Pixel p{float(c.sym(R)), float(c.sym(R))};
    c.note("x", p[0]);
    c.note("y", p[1]);
    // the displacement must be a contraction around the point: mild distortion
    double L = 0, big = std::hypot(double(p[0]), double(p[1])) * 1.4 + 1e-3, h = 1e-4;
    for (int i = -4; i <= 4; ++i)
        for (int j = -4; j <= 4; ++j) {
            D2 q{big * i / 4, big * j / 4};
            if (std::abs(denom(m, q.x * q.x + q.y * q.y)) < 0.2) pbt::discard();
            D2 a = ref(m, {q.x + h, q.y}), b = ref(m, {q.x - h, q.y}), e = ref(m, {q.x, q.y + h}), f = ref(m, {q.x, q.y - h});
            double xx = (a.x - b.x) / (2 * h) - 1, yx = (a.y - b.y) / (2 * h), xy = (e.x - f.x) / (2 * h), yy = (e.y - f.y) / (2 * h) - 1;
            L = std::max(L, std::sqrt(xx * xx + yx * yx + xy * xy + yy * yy));
        }
    c.note("contraction", L);
    if (L > 0.4) pbt::discard();
    bool any = std::any_of(m.k.begin(), m.k.end(), [](double v) { return v != 0; });
    c.nontrivial(any && R > 0.1);
    // tighter or looser settings
    double tol = 1e-6;
    if (c.chance(1, 4)) {
        tol = c.pick({1e-3, 1e-5, 1e-7});
        m.d->set_tolerance(float(tol));
        PBT_CHECK("settings", m.d->get_tolerance() == float(tol), "tolerance");
    }
    if (c.chance(1, 6)) {
        m.d->set_max_iterations(60);
        PBT_CHECK("settings", m.d->get_max_iterations() == 60, "iterations");
    }
    Pixel q = m.d->distort(p), back = m.d->undistort(q);
    double lim = tol * L / (1 - L) * 1.5 + 1e-6 + std::pow(L, 20) * R * 2;
    PBT_CHECK("inverse", dist({p[0], p[1]}, back) <= lim, "undistort(distort(p)) misses p by " << dist({p[0], p[1]}, back) << " of allowed " << lim);
    Pixel u = m.d->undistort(p), fwd = m.d->distort(u);
    PBT_CHECK("right_inverse", dist({p[0], p[1]}, fwd) <= 2 * lim, "distort(undistort(p)) misses p by " << dist({p[0], p[1]}, fwd) << " of allowed " << 2 * lim);
}
PBT_MAIN
