// M01: scattering laws of every BSDF; M02 uses the samplers in sampling.cpp.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/render/interaction.hpp"
#include "huira/materials/material.hpp"
#include "huira/materials/sampling_utils.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/lommel_seeliger_bsdf.hpp"
#include "huira/materials/bsdfs/hapke_bsdf.hpp"
#include "huira/materials/bsdfs/mcewen_bsdf.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
using namespace huira;
using pbt::Ctx;
using V3 = Vec3<float>;
using hc::V3d;
static const double PI_ = M_PI;
struct Model {
    int kind = 0;
    std::shared_ptr<BSDF<RGB>> b;
    double h = 0, B0 = 0, bb = 0, cc = 0;
    ShadingParams<RGB> p;
    Interaction<RGB> is;
    Mat3<double> f; // columns: tangent, bitangent, normal
    V3 world(const V3d& l) const { return V3(f[0] * l.x + f[1] * l.y + f[2] * l.z); }
    V3d local(const V3& w) const
    {
        V3d d(w);
        return {glm::dot(d, f[0]), glm::dot(d, f[1]), glm::dot(d, f[2])};
    }
};
enum { LAMBERT, LS, MCEWEN, OREN, HAPKE, COOK, NKINDS };
static const char* names[] = {"lambert", "lommel-seeliger", "mcewen", "oren-nayar", "hapke", "cook-torrance"};
static double unit01(Ctx& c) { return c.chance(1, 4) ? c.pick({0.0, 1.0, 0.5}) : c.uniform(0, 1); }
static Model model(Ctx& c, int kind, double minrough)
{
    Model m;
    m.kind = kind;
    switch (kind) {
    case LAMBERT: m.b = std::make_shared<LambertianBSDF<RGB>>(); break;
    case LS: m.b = std::make_shared<LommelSeeligerBSDF<RGB>>(); break;
    case MCEWEN: m.b = std::make_shared<McEwenBSDF<RGB>>(); break;
    case OREN: m.b = std::make_shared<OrenNayarBSDF<RGB>>(); break;
    case HAPKE:
        m.h = c.chance(1, 5) ? 0 : c.uniform(0.01, 0.3), m.B0 = unit01(c), m.bb = c.uniform(0, 0.7), m.cc = unit01(c);
        m.b = std::make_shared<HapkeBSDF<RGB>>(float(m.h), float(m.B0), float(m.bb), float(m.cc));
        c.note("hapke", std::to_string(m.h) + "," + std::to_string(m.B0) + "," + std::to_string(m.bb) + "," + std::to_string(m.cc));
        break;
    default: m.b = std::make_shared<CookTorranceBSDF<RGB>>(); break;
    }
    for (size_t i = 0; i < 3; ++i) m.p.albedo[i] = float(unit01(c));
    m.p.roughness = float(std::max(minrough, c.chance(1, 4) ? c.pick({0.0, 0.3, 1.0}) : c.uniform(0, 1)));
    m.p.metallic = float(unit01(c));
    if (kind == COOK && c.chance(1, 6)) { // out of range, as factors can make them: the nearest sensible value is meant
        if (c.boolean()) m.p.roughness = float(c.uniform(1, 4));
        else m.p.metallic = float(c.pick({-0.5, 1.5}));
    }
    V3d n = hc::unit_vec(c);
    V3d a = std::abs(n.x) < 0.8 ? V3d{1, 0, 0} : V3d{0, 1, 0};
    V3d t = glm::normalize(a - n * glm::dot(a, n));
    double th = hc::angle(c);
    V3d bt = glm::cross(n, t);
    V3d t2 = t * std::cos(th) + bt * std::sin(th);
    m.f = Mat3<double>(t2, glm::cross(n, t2), n);
    m.is.normal_s = m.is.normal_g = V3(n);
    m.is.tangent = V3(t2);
    m.is.bitangent = V3(glm::cross(n, t2));
    c.note("bsdf", names[kind]);
    c.note("albedo", std::to_string(m.p.albedo[0]) + "," + std::to_string(m.p.albedo[1]) + "," + std::to_string(m.p.albedo[2]));
    c.note("roughness", m.p.roughness);
    c.note("metallic", m.p.metallic);
    return m;
}
// a direction of the upper hemisphere in the local frame, at least minc above the horizon
static V3d upper(Ctx& c, double minc)
{
    double z;
    switch (c.below(6)) {
    case 0: z = 1; break;
    case 1: z = 1 - c.logreal(1e-7, 1e-2); break;
    case 2: z = std::max(minc, c.logreal(1e-4, 0.1)); break;
    default: z = c.uniform(minc, 1);
    }
    double p = c.uniform(0, 2 * PI_), r = std::sqrt(std::max(0.0, 1 - z * z));
    return {r * std::cos(p), r * std::sin(p), z};
}
// reference reflectance from the published formulas, in double; lo/hi: the two admissible Smith shadowing terms
static std::pair<double, double> reference(const Model& m, V3d wo, V3d wi, size_t ch)
{
    double A = m.p.albedo[ch], mi = wi.z, mo = wo.z, ca = std::clamp(glm::dot(wi, wo), -1.0, 1.0), a = std::acos(ca);
    double ls = 1 / (4 * PI_ * (mi + mo)), r = 0;
    switch (m.kind) {
    case LAMBERT: r = A / PI_; break;
    case LS: r = A * ls; break;
    case MCEWEN: {
        double b = std::exp(-a / (PI_ / 3));
        r = A * ((1 - b) / PI_ + b * ls);
        break;
    }
    case OREN: {
        double s = m.p.roughness * PI_ / 2, s2 = s * s;
        double ti = std::acos(std::min(1.0, mi)), to = std::acos(std::min(1.0, mo));
        double si = std::hypot(wi.x, wi.y), so = std::hypot(wo.x, wo.y);
        double cp = si > 0 && so > 0 ? (wi.x * wo.x + wi.y * wo.y) / (si * so) : 0;
        double al = std::max(ti, to), be = std::min(ti, to);
        r = A / PI_ * (1 - 0.5 * s2 / (s2 + 0.33) + 0.45 * s2 / (s2 + 0.09) * std::max(0.0, cp) * std::sin(al) * std::tan(be));
        break;
    }
    case HAPKE: {
        auto hg = [&](double g) { return (1 - g * g) / std::pow(1 + g * g - 2 * g * ca, 1.5); };
        double P = (1 - m.cc) * hg(-m.bb) + m.cc * hg(m.bb);
        double B = m.h > 0 ? m.B0 / (1 + std::tan(a / 2) / m.h) : 0;
        double g = std::sqrt(1 - A);
        auto H = [&](double u) { return (1 + 2 * u) / (1 + 2 * u * g); };
        r = A * ls * ((1 + B) * P + H(mi) * H(mo) - 1);
        break;
    }
    default: {
        double rough = std::clamp<double>(m.p.roughness, 0.01, 1), a2 = std::pow(rough, 4), M = std::clamp<double>(m.p.metallic, 0, 1);
        V3d h = glm::normalize(wi + wo);
        double s2 = h.x * h.x + h.y * h.y, d = h.z * h.z * a2 + s2, D = a2 / (PI_ * d * d);
        auto lam = [&](double u) { return (std::sqrt(1 + a2 * (1 - u * u) / (u * u)) - 1) / 2; };
        double f0 = A * M + 0.04 * (1 - M), F = f0 + (1 - f0) * std::pow(1 - glm::dot(wo, h), 5);
        double sep = 1 / ((1 + lam(mi)) * (1 + lam(mo))), cor = 1 / (1 + lam(mi) + lam(mo));
        double k = F * D / (4 * mi * mo), diff = A * (1 - M) / PI_;
        return {diff + k * sep, diff + k * cor};
    }
    }
    return {r, r};
}
PROP(laws, 60000, 1000000)
{
    int kind = int(c.below(NKINDS));
    Model m = model(c, kind, 0);
    V3d lo = upper(c, 0.02), li = upper(c, 0.02);
    if (kind == COOK && c.chance(1, 3)) { // near the mirror direction
        li = {-lo.x, -lo.y, lo.z};
        double e = c.chance(1, 3) ? 0 : c.logreal(1e-4, 0.3);
        li += V3d{c.sym(e), c.sym(e), c.sym(e)};
        li = glm::normalize(li);
        if (li.z < 0.02) li = V3d{-lo.x, -lo.y, lo.z};
    }
    V3 wo = m.world(lo), wi = m.world(li);
    lo = m.local(wo), li = m.local(wi); // as the code sees them
    c.note("wo", hc::show(lo));
    c.note("wi", hc::show(li));
    c.nontrivial(lo.z < 0.999 && li.z < 0.999);
    c.label(names[kind]);
    RGB f = m.b->eval(wo, wi, m.is, m.p), g = m.b->eval(wi, wo, m.is, m.p);
    float pdf = m.b->pdf(wo, wi, m.is, m.p);
    PBT_CHECK("pdf_valid", std::isfinite(pdf) && pdf >= 0, "pdf " << pdf);
    double rough = std::max(0.01f, m.p.roughness);
    // single precision cannot resolve the GGX peak of nearly smooth surfaces
    bool sharp = kind == COOK && rough < 0.2;
    for (size_t i = 0; i < 3; ++i) {
        PBT_CHECK("finite", std::isfinite(f[i]) && f[i] >= -1e-12, "f = " << f[i]);
        auto [a, b] = reference(m, lo, li, i);
        double tol = 2e-4 * std::max(a, b) + 1e-6;
        if (kind == HAPKE) tol += 1e-3 * std::max(a, b) + 2e-6 / (4 * PI_ * (lo.z + li.z)); // acos and tan in single precision; the opposition peak
        if (kind == HAPKE && m.h > 0) tol += 1e-2 * std::max(a, b) * (glm::dot(lo, li) > 0.9999 ? 6 : 0.2);
        if (kind == MCEWEN) tol += 1e-3 * std::max(a, b) * (glm::dot(lo, li) > 0.9999 ? 3 : 1);
        if (kind == OREN) tol += 1e-3 * b; // acos near 0 in single precision
        if (kind == COOK) tol += std::max(a, b) * 1e-5 / (std::pow(rough, 4));
        if (!sharp) PBT_CHECK("formula", f[i] >= std::min(a, b) - tol && f[i] <= std::max(a, b) + tol, names[kind] << " f = " << f[i] << " want " << a << " (or " << b << ")");
        PBT_CHECK("reciprocal", std::abs(f[i] - g[i]) <= 1e-4 * std::max(f[i], g[i]) + 1e-7 + (sharp ? 1e-2 * f[i] : 0), names[kind] << " f(o,i) = " << f[i] << " f(i,o) = " << g[i]);
    }
    // sidedness
    V3d down = li;
    down.z = -down.z;
    V3 wd = m.world(down);
    RGB z = m.b->eval(wo, wd, m.is, m.p);
    PBT_CHECK("below_horizon", z[0] == 0 && z[1] == 0 && z[2] == 0 && m.b->pdf(wo, wd, m.is, m.p) == 0, "light from below reflects " << z[0]);
    if (kind != LAMBERT) {
        V3d dn = lo;
        dn.z = -dn.z;
        RGB y = m.b->eval(m.world(dn), wi, m.is, m.p);
        PBT_CHECK("below_horizon", y[0] == 0 && y[1] == 0 && y[2] == 0, "seen from below reflects " << y[0]);
    }
    // turning everything about the normal changes nothing
    double th = c.uniform(0, 2 * PI_), cs = std::cos(th), sn = std::sin(th);
    auto rot = [&](V3d v) { return V3d{v.x * cs - v.y * sn, v.x * sn + v.y * cs, v.z}; };
    RGB q = m.b->eval(m.world(rot(lo)), m.world(rot(li)), m.is, m.p);
    double slack = kind == COOK ? 1e-5 / std::pow(rough, 4) : kind == HAPKE && m.h > 0 && glm::dot(lo, li) > 0.9999 ? 0.1 : kind == MCEWEN ? 1e-2 : kind == HAPKE ? 3e-3 : 1e-3;
    if (!sharp)
        for (size_t i = 0; i < 3; ++i) PBT_CHECK("isotropic", std::abs(q[i] - f[i]) <= slack * f[i] + 1e-5, names[kind] << " turned about the normal: " << q[i] << " from " << f[i]);
}
PROP(sampling, 40000, 600000)
{
    int kind = int(c.below(NKINDS));
    Model m = model(c, kind, 0);
    V3d lo = upper(c, 1e-3);
    V3 wo = m.world(lo);
    float u1 = float(c.chance(1, 6) ? c.pick({0.0, 0.5, 0.99999994, 1e-7}) : c.uniform(0, 0.9999999)), u2 = float(c.chance(1, 6) ? c.pick({0.0, 0.5, 0.99999994}) : c.uniform(0, 0.9999999));
    c.note("wo", hc::show(lo));
    c.note("u1", u1);
    c.note("u2", u2);
    c.label(names[kind]);
    auto s = m.b->sample(wo, m.is, m.p, u1, u2);
    PBT_CHECK("pdf_valid", std::isfinite(s.pdf) && s.pdf >= 0, names[kind] << " pdf " << s.pdf);
    for (size_t i = 0; i < 3; ++i) PBT_CHECK("value_valid", std::isfinite(s.value[i]) && s.value[i] >= -1e-12, names[kind] << " value " << s.value[i]);
    PBT_CHECK("not_delta", !s.is_delta, "delta");
    if (!s.is_valid()) {
        PBT_CHECK("invalid_is_black", s.value[0] == 0 && s.value[1] == 0 && s.value[2] == 0, "an invalid sample carries light");
        c.label("invalid");
        return;
    }
    c.nontrivial();
    double rough = std::max(0.01f, m.p.roughness);
    V3d wl = m.local(s.wi);
    PBT_CHECK("unit", std::abs(hc::len(s.wi) - 1) < 1e-4, names[kind] << " |wi| = " << hc::len(s.wi));
    PBT_CHECK("upper", wl.z > -1e-6, names[kind] << " sampled below the horizon");
    float p = m.b->pdf(wo, s.wi, m.is, m.p);
    double ptol = 1e-3 * s.pdf + 1e-6;
    PBT_CHECK("pdf_agrees", std::abs(p - s.pdf) <= ptol, names[kind] << " sampled with pdf " << s.pdf << ", pdf() says " << p);
    RGB f = m.b->eval(wo, s.wi, m.is, m.p);
    for (size_t i = 0; i < 3; ++i) {
        double want = double(f[i]) * wl.z / s.pdf;
        if (wl.z > 1e-3) PBT_CHECK("weight", std::abs(s.value[i] - want) <= 2e-3 * std::abs(want) + 1e-6 + (kind == COOK && rough < 0.05 ? 0.05 * std::abs(want) : 0), names[kind] << " value " << s.value[i] << ", f cos/pdf = " << want);
    }
}
PROP(null_bsdf, 2000, 20000)
{
    Model m = model(c, LAMBERT, 0);
    NullBSDF<RGB> b;
    V3 wo(hc::unit_vec(c));
    auto s = b.sample(wo, m.is, m.p, float(c.uniform(0, 1)), float(c.uniform(0, 1)));
    c.nontrivial();
    PBT_CHECK("passes_through", s.wi == -wo && s.is_delta && s.pdf == 1 && s.is_valid() && s.value[0] == 1 && s.value[1] == 1 && s.value[2] == 1, "not a pass-through");
    V3 wi(hc::unit_vec(c));
    PBT_CHECK("no_scatter", b.eval(wo, wi, m.is, m.p)[0] == 0 && b.pdf(wo, wi, m.is, m.p) == 0, "scatters");
    auto r = b.requirements();
    PBT_CHECK("needs_nothing", !r.needs_albedo && !r.needs_normal && !r.needs_metallic && !r.needs_roughness, "requirements");
}
// deterministic quadrature over the hemisphere (midpoints in cos theta and phi)
template <class F> static void hemi(int nz, int np, F f)
{
    for (int i = 0; i < nz; ++i) {
        double z = (i + 0.5) / nz, r = std::sqrt(1 - z * z);
        for (int j = 0; j < np; ++j) {
            double p = 2 * PI_ * (j + 0.5) / np;
            f(V3d{r * std::cos(p), r * std::sin(p), z}, 2 * PI_ / nz / np);
        }
    }
}
PROP(distribution, 500, 8000)
{
    // samples are distributed as pdf() says: for smooth test functions g, the mean of g over stratified samples is the integral of g pdf;
    // and no surface reflects more light than it receives
    int kind = int(c.below(NKINDS));
    Model m = model(c, kind, 0.45);
    V3d lo = upper(c, 0.1);
    V3 wo = m.world(lo);
    c.note("wo", hc::show(lo));
    c.nontrivial(lo.z < 0.999);
    c.label(names[kind]);
    double est[5] = {}, in[5] = {}, alb[3] = {}, mc[3] = {};
    auto g = [](V3d v, double* o, double w) {
        o[0] += w, o[1] += w * v.x, o[2] += w * v.y, o[3] += w * v.z, o[4] += w * v.x * v.y;
    };
    const int N = 96;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            auto s = m.b->sample(wo, m.is, m.p, float((i + 0.5) / N), float((j + 0.5) / N));
            if (!s.is_valid()) continue;
            g(m.local(s.wi), est, 1.0 / N / N);
            for (size_t k = 0; k < 3; ++k) mc[k] += s.value[k] / N / N;
        }
    hemi(80, 160, [&](V3d v, double w) {
        V3 wi = m.world(v);
        g(v, in, w * m.b->pdf(wo, wi, m.is, m.p));
        RGB f = m.b->eval(wo, wi, m.is, m.p);
        for (size_t k = 0; k < 3; ++k) alb[k] += w * f[k] * v.z;
    });
    for (int k = 0; k < 5; ++k) PBT_CHECK("distribution", std::abs(est[k] - in[k]) < 0.02, names[kind] << " moment " << k << ": sampled " << est[k] << ", from pdf " << in[k]);
    if (kind != COOK) PBT_CHECK("pdf_normalised", std::abs(in[0] - 1) < 0.01, names[kind] << " pdf integrates to " << in[0]);
    else PBT_CHECK("pdf_normalised", in[0] < 1.01, "pdf integrates to " << in[0]);
    for (size_t k = 0; k < 3; ++k) {
        PBT_CHECK("unbiased", std::abs(mc[k] - alb[k]) < 0.03 * std::max(1.0, alb[k]), names[kind] << " albedo by sampling " << mc[k] << ", by quadrature " << alb[k]);
        bool conserving = kind != HAPKE && (kind != COOK || m.p.metallic == 1);
        if (conserving) PBT_CHECK("energy", alb[k] <= (kind == OREN ? 1.02 : 1.005), names[kind] << " reflects " << alb[k]);
        if (kind == COOK) PBT_CHECK("energy", alb[k] <= 1.35, names[kind] << " reflects " << alb[k]);
        if (kind == LAMBERT) PBT_CHECK("albedo", std::abs(alb[k] - m.p.albedo[k]) < 0.003, "reflects " << alb[k] << " of albedo " << m.p.albedo[k]);
    }
}
PROP(hapke_phase, 400, 5000)
{
    // the phase function averages to 1 over the sphere (dark surface without opposition surge: f = w/(4 pi (mi+mo)) P)
    double b = c.uniform(0, 0.7), cc = unit01(c);
    HapkeBSDF<RGB> h(0, 0, float(b), float(cc));
    c.note("b", b);
    c.note("c", cc);
    c.nontrivial(b > 0.05);
    ShadingParams<RGB> p;
    const float w = 1e-4f;
    p.albedo = RGB{w};
    Interaction<RGB> is;
    is.normal_s = {0, 0, 1};
    const int N = 400;
    double sum = 0;
    for (int i = 0; i < N; ++i) {
        double ca = -1 + 2 * (i + 0.5) / N, a = std::acos(ca) / 2;
        // wi and wo symmetric about the normal by half the phase angle
        V3 o{float(std::sin(a)), 0, float(std::cos(a))}, in{float(-std::sin(a)), 0, float(std::cos(a))};
        RGB f = h.eval(o, in, is, p);
        sum += f[0] * 4 * PI_ * 2 * std::cos(a) / w / N;
    }
    PBT_CHECK("normalised", std::abs(sum - 1) < 5e-3, "phase function averages to " << sum);
}
PBT_MAIN
