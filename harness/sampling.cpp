// M02: direction samplers report the density they sample from; shading frames; random numbers.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/render/interaction.hpp"
#include "huira/render/sampler.hpp"
#include "huira/materials/sampling_utils.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using V3 = Vec3<float>;
static const double PI_ = M_PI;
struct Kind {
    const char* name;
    double n;
};
// density over solid angle and fraction of samples with cos(theta) <= z
static double density(int k, double n, double z)
{
    switch (k) {
    case 0: return 1 / (2 * PI_);
    case 1: return z / PI_;
    case 2: return (n + 1) / (2 * PI_) * std::pow(z, n);
    default: return 2 * std::sqrt(std::max(0.0, 1 - z * z)) / (PI_ * PI_);
    }
}
static double cdf(int k, double n, double z)
{
    switch (k) {
    case 0: return z;
    case 1: return z * z;
    case 2: return std::pow(z, n + 1);
    default: return 2 / PI_ * (z * std::sqrt(std::max(0.0, 1 - z * z)) + std::asin(z));
    }
}
static sampling::HemisphereSample draw(int k, double n, float a, float b)
{
    switch (k) {
    case 0: return sampling::uniform_hemisphere(a, b);
    case 1: return sampling::cosine_hemisphere(a, b);
    case 2: return sampling::power_cosine_hemisphere(a, b, float(n));
    default: return sampling::sine_hemisphere(a, b);
    }
}
static float u01(Ctx& c)
{
    return float(c.chance(1, 6) ? c.pick({0.0, 0.5, 0.99999994, 1e-7, 0.25, 0.75}) : c.uniform(0, 0.9999999));
}
static const char* hn[] = {"uniform", "cosine", "power-cosine", "sine"};
PROP(hemisphere_pdf, 40000, 600000)
{
    int k = int(c.below(4));
    double n = c.chance(1, 4) ? c.range(0, 20) : c.uniform(0, 60);
    float a = u01(c), b = u01(c);
    c.label(hn[k]);
    c.note("sampler", hn[k]);
    c.note("n", n);
    c.note("u1", a);
    c.note("u2", b);
    c.nontrivial(a > 0 && b > 0);
    auto s = draw(k, n, a, b);
    PBT_CHECK("unit", std::abs(hc::len(s.direction) - 1) < 1e-5, hn[k] << " |d| = " << hc::len(s.direction));
    PBT_CHECK("upper", s.direction.z >= 0, hn[k] << " z = " << s.direction.z);
    PBT_CHECK("pdf_valid", std::isfinite(s.pdf) && s.pdf >= 0, hn[k] << " pdf " << s.pdf);
    double want = density(k, n, s.direction.z);
    double tol = 1e-4 * want + 1e-5;
    if (k == 3) tol += 2e-4; // sin theta near the zenith
    if (k == 2) tol += want * n * 1e-6;
    PBT_CHECK("pdf", std::abs(s.pdf - want) <= tol, hn[k] << " pdf " << s.pdf << " at cos " << s.direction.z << ", want " << want);
}
PROP(hemisphere_distribution, 1500, 20000)
{
    int k = int(c.below(4));
    double n = c.chance(1, 4) ? c.range(0, 20) : c.uniform(0, 60);
    double z0 = c.uniform(0.02, 0.98), p0 = c.uniform(0, 2 * PI_), p1 = c.uniform(0, 2 * PI_);
    if (p0 > p1) std::swap(p0, p1);
    c.label(hn[k]);
    c.note("sampler", hn[k]);
    c.note("n", n);
    c.note("z0", z0);
    c.note("phi", std::to_string(p0) + ".." + std::to_string(p1));
    c.nontrivial();
    const int N = 100;
    double below = 0, wedge = 0, joint = 0;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            auto d = draw(k, n, float((i + 0.5) / N), float((j + 0.5) / N)).direction;
            double phi = std::atan2(d.y, d.x);
            if (phi < 0) phi += 2 * PI_;
            bool in = phi >= p0 && phi < p1, lo = d.z <= z0;
            below += lo, wedge += in, joint += in && lo;
        }
    double T = double(N) * N, q = cdf(k, n, z0), w = (p1 - p0) / (2 * PI_);
    PBT_CHECK("cos_distribution", std::abs(below / T - q) < 0.012, hn[k] << ": share of samples with cos <= " << z0 << " is " << below / T << ", want " << q);
    PBT_CHECK("azimuth_distribution", std::abs(wedge / T - w) < 0.025, hn[k] << ": share in the wedge " << wedge / T << ", want " << w);
    PBT_CHECK("joint_distribution", std::abs(joint / T - w * q) < 0.04, hn[k] << ": joint share " << joint / T << ", want " << w * q);
}
static double D(double a2, double z2) { double d = z2 * a2 + (1 - z2); return a2 / (PI_ * d * d); }
PROP(ggx, 30000, 500000)
{
    float rough = float(c.chance(1, 6) ? c.pick({1.0, 0.01, 0.5}) : c.uniform(0.01, 1)), a = u01(c), b = u01(c);
    double a2 = std::pow(double(rough), 4);
    double z = c.chance(1, 5) ? 1 : c.uniform(0.01, 1), r = std::sqrt(1 - z * z), ph = c.uniform(0, 2 * PI_);
    V3 wo(float(r * std::cos(ph)), float(r * std::sin(ph)), float(z));
    c.note("roughness", rough);
    c.note("u1", a);
    c.note("u2", b);
    c.note("wo", hc::show(wo));
    c.nontrivial(rough < 1);
    auto hs = sampling::ggx_sample_half_vector(a, b, rough);
    PBT_CHECK("half_unit", std::abs(hc::len(hs.half_vector) - 1) < 1e-4 && hs.half_vector.z >= 0, "half vector " << hc::show(hs.half_vector));
    PBT_CHECK("half_pdf_valid", std::isfinite(hs.pdf) && hs.pdf > 0, "pdf " << hs.pdf);
    auto vs = sampling::ggx_vndf_sample(wo, rough, a, b);
    PBT_CHECK("vndf_unit", std::abs(hc::len(vs.half_vector) - 1) < 1e-4 && vs.half_vector.z >= 0, "half vector " << hc::show(vs.half_vector));
    PBT_CHECK("vndf_pdf_valid", std::isfinite(vs.pdf) && vs.pdf > 0, "pdf " << vs.pdf);
    V3d w(wo), hh(vs.half_vector);
    PBT_CHECK("vndf_visible", glm::dot(w, hh) > -1e-4, "sampled a facet that is turned away: " << glm::dot(w, hh));
    if (rough >= 0.25) {
        double hz = hs.half_vector.z, want = D(a2, hz * hz) * hz;
        PBT_CHECK("half_pdf", std::abs(hs.pdf - want) <= 2e-3 * want + 1e-5, "pdf " << hs.pdf << " want " << want);
        double lam = (std::sqrt(1 + a2 * (1 - w.z * w.z) / (w.z * w.z)) - 1) / 2;
        double wv = D(a2, hh.z * hh.z) / (1 + lam) * std::max(0.0, glm::dot(w, hh)) / w.z;
        PBT_CHECK("vndf_pdf", std::abs(vs.pdf - wv) <= 2e-3 * wv + 1e-5 + 1e-5 * D(a2, hh.z * hh.z) / w.z, "pdf " << vs.pdf << " want " << wv);
    }
}
PROP(ggx_distribution, 400, 6000)
{
    double rough = c.uniform(0.35, 1), a2 = std::pow(rough, 4);
    double z = c.chance(1, 5) ? 1 : c.uniform(0.15, 1), r = std::sqrt(1 - z * z), ph = c.uniform(0, 2 * PI_);
    V3d w(r * std::cos(ph), r * std::sin(ph), z);
    c.note("roughness", rough);
    c.note("wo", hc::show(w));
    c.nontrivial(z < 0.999);
    const int N = 90;
    double e[5] = {}, v[5] = {}, in[5] = {}, iv[5] = {};
    auto g = [](V3d h, double* o, double s) { o[0] += s, o[1] += s * h.x, o[2] += s * h.y, o[3] += s * h.z, o[4] += s * h.x * h.y; };
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            float a = float((i + 0.5) / N), b = float((j + 0.5) / N);
            g(V3d(sampling::ggx_sample_half_vector(a, b, float(rough)).half_vector), e, 1.0 / N / N);
            g(V3d(sampling::ggx_vndf_sample(V3(w), float(rough), a, b).half_vector), v, 1.0 / N / N);
        }
    double lam = (std::sqrt(1 + a2 * (1 - z * z) / (z * z)) - 1) / 2;
    const int nz = 300, np = 120;
    for (int i = 0; i < nz; ++i) {
        // substitution that resolves the peak: cos^2 from the GGX quantile
        double t = (i + 0.5) / nz, q = 1 - t * t, z2 = (1 - q) / (1 + (a2 - 1) * q), hz = std::sqrt(z2), hr = std::sqrt(1 - z2);
        for (int j = 0; j < np; ++j) {
            double p = 2 * PI_ * (j + 0.5) / np;
            V3d h(hr * std::cos(p), hr * std::sin(p), hz);
            double s = 2 * t / nz / np; // weight of D(h) cos(h) dh
            g(h, in, s);
            g(h, iv, s / hz / (1 + lam) * std::max(0.0, glm::dot(w, h)) / z);
        }
    }
    for (int k = 0; k < 5; ++k) {
        PBT_CHECK("half_distribution", std::abs(e[k] - in[k]) < 0.01, "moment " << k << ": sampled " << e[k] << " want " << in[k]);
        PBT_CHECK("vndf_distribution", std::abs(v[k] - iv[k]) < 0.012, "moment " << k << ": sampled " << v[k] << " want " << iv[k]);
    }
}
PROP(frames, 30000, 500000)
{
    V3d nd = hc::unit_vec(c);
    V3 n(nd);
    c.note("normal", hc::show(n));
    c.nontrivial(std::abs(nd.z) < 0.999);
    V3 t, b;
    build_default_tangent_frame(n, t, b);
    V3d T(t), B(b), Nn(n);
    PBT_CHECK("frame_unit", std::abs(hc::len(t) - 1) < 1e-5 && std::abs(hc::len(b) - 1) < 1e-5, "|t| " << hc::len(t) << " |b| " << hc::len(b));
    PBT_CHECK("frame_orthogonal", std::abs(glm::dot(T, Nn)) < 1e-5 && std::abs(glm::dot(B, Nn)) < 1e-5 && std::abs(glm::dot(T, B)) < 1e-5, "not orthogonal");
    PBT_CHECK("frame_right_handed", hc::dist(glm::cross(T, B), Nn) < 1e-5, "t x b = " << hc::show(glm::cross(T, B)));
    V3 l(hc::unit_vec(c));
    V3 w = sampling::local_to_world(l, t, b, n);
    PBT_CHECK("frame_maps_axes", std::abs(double(glm::dot(w, n)) - l.z) < 1e-5 && std::abs(double(glm::dot(w, t)) - l.x) < 1e-5 && std::abs(double(glm::dot(w, b)) - l.y) < 1e-5, "local_to_world");
    PBT_CHECK("frame_round_trip", hc::dist(sampling::world_to_local(w, t, b, n), l) < 1e-5, "world_to_local does not undo local_to_world");
}
template <class T> static void offset_case(Ctx& c, double eps)
{
    using V = Vec3<T>;
    V3d nd = hc::unit_vec(c), pd;
    for (int i = 0; i < 3; ++i) pd[i] = c.chance(1, 5) ? 0 : c.chance(1, 5) ? c.sym(0.04) : (c.boolean() ? -1 : 1) * c.logreal(1e-6, 1e6);
    V n(nd), p(pd);
    c.note("p", hc::show(p));
    c.note("n", hc::show(n));
    c.nontrivial(hc::len(p) > 0.05);
    V o = offset_intersection_(p, n);
    double along = 0;
    for (int i = 0; i < 3; ++i) {
        double d = double(o[i]) - double(p[i]);
        PBT_CHECK("finite", std::isfinite(o[i]), "offset is not finite");
        PBT_CHECK("along_normal", d * double(n[i]) >= 0, "component " << i << " moved by " << d << " against normal component " << double(n[i]));
        PBT_CHECK("small", std::abs(d) <= eps * std::max(1.0 / 32, std::abs(double(p[i]))) * 1.05, "component " << i << " moved by " << d << " at " << double(p[i]));
        along += d * double(n[i]);
    }
    PBT_CHECK("moves", along > 0, "did not move off the surface");
}
PROP(offset, 30000, 500000)
{
    if (c.boolean()) offset_case<float>(c, 6.2e-4);
    else offset_case<double>(c, 3e-8);
}
PROP(phase, 20000, 200000)
{
    IsotropicPhaseFunction<RGB> f;
    RandomSampler<float> rs(uint32_t(c.below(1ull << 32)));
    V3 wo(hc::unit_vec(c)), wi(hc::unit_vec(c));
    auto s = f.sample(wo, rs);
    c.note("wo", hc::show(wo));
    c.nontrivial();
    PBT_CHECK("unit", std::abs(hc::len(s.wi) - 1) < 1e-5, "|wi| " << hc::len(s.wi));
    PBT_CHECK("density", std::abs(f.evaluate(wo, wi) * 4 * PI_ - 1) < 1e-5 && std::abs(s.p * 4 * PI_ - 1) < 1e-5, "isotropic density " << f.evaluate(wo, wi) << ", sampled " << s.p);
}
PROP(random, 300, 3000)
{
    // reproducible from the seed, inside [0, 1), evenly spread, pairs independent; isotropic directions evenly spread
    uint32_t seed = uint32_t(c.below(1ull << 32));
    c.note("seed", seed);
    c.nontrivial();
    RandomSampler<float> a(seed), b(seed);
    RandomSampler<double> d(seed);
    IsotropicPhaseFunction<RGB> f;
    const int N = 4000;
    double sx = 0, sy = 0, sxy = 0, s1 = 0, sq = 0, sd = 0;
    V3d m(0, 0, 0), m2(0, 0, 0);
    for (int i = 0; i < N; ++i) {
        auto u = a.get_2d();
        auto v = b.get_2d();
        float x = a.get_1d(), y = b.get_1d();
        double z = d.get_1d();
        PBT_CHECK("reproducible", u.x == v.x && u.y == v.y && x == y, "same seed, different numbers");
        PBT_CHECK("range", u.x >= 0 && u.x < 1 && u.y >= 0 && u.y < 1 && x >= 0 && x < 1 && z >= 0 && z < 1, "outside [0, 1)");
        sx += u.x, sy += u.y, sxy += (u.x - 0.5) * (u.y - 0.5), s1 += x, sq += x * x, sd += z;
    }
    RandomSampler<float> r(seed ^ 77);
    for (int i = 0; i < N; ++i) {
        V3d w(f.sample(V3(0, 0, 1), r).wi);
        m += w, m2 += w * w;
    }
    // 6.5 standard deviations
    PBT_CHECK("mean", std::abs(sx / N - 0.5) < 0.03 && std::abs(sy / N - 0.5) < 0.03 && std::abs(s1 / N - 0.5) < 0.03 && std::abs(sd / N - 0.5) < 0.03, "mean " << sx / N << " " << sy / N << " " << s1 / N);
    PBT_CHECK("variance", std::abs(sq / N - 1.0 / 3) < 0.031, "second moment " << sq / N);
    PBT_CHECK("independent", std::abs(sxy / N) < 0.0086, "covariance " << sxy / N);
    for (int k = 0; k < 3; ++k) {
        PBT_CHECK("isotropic", std::abs(m[k] / N) < 0.06, "mean direction component " << k << " " << m[k] / N);
        PBT_CHECK("isotropic", std::abs(m2[k] / N - 1.0 / 3) < 0.031, "mean square of component " << k << " " << m2[k] / N);
    }
}
PBT_MAIN
