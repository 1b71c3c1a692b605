// M03: Material: textures, factors and normal maps become shading parameters; set and reset histories.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/render/interaction.hpp"
#include "huira/materials/material.hpp"
#include "huira/materials/bsdfs/lambertian_bsdf.hpp"
#include "huira/materials/bsdfs/lommel_seeliger_bsdf.hpp"
#include "huira/materials/bsdfs/oren_nayar_bsdf.hpp"
#include "huira/materials/bsdfs/cook_torrance_bsdf.hpp"
#include "huira/materials/bsdfs/null_bsdf.hpp"
#include "huira/materials/bsdfs/mcewen_bsdf.hpp"
#include "huira/materials/bsdfs/hapke_bsdf.hpp"
using namespace huira;
using pbt::Ctx;
using V3 = Vec3<float>;
using hc::V3d;
template <class T, class F> static std::shared_ptr<Image<T>> image(Ctx& c, F px)
{
    int w = c.range(1, 4), h = c.range(1, 4);
    auto im = std::make_shared<Image<T>>(w, h);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) im->at(x, y) = px();
    return im;
}
static RGB rgb(Ctx& c, double hi) { return RGB{float(c.uniform(0, hi)), float(c.uniform(0, hi)), float(c.uniform(0, hi))}; }
static float unit(Ctx& c) { return float(c.chance(1, 4) ? c.pick({0.0, 1.0}) : c.uniform(0, 1)); }
static bool close(double a, double b) { return std::abs(a - b) <= 1e-5 * std::max(1.0, std::abs(b)); }
static bool close(const RGB& a, const RGB& b) { return close(a[0], b[0]) && close(a[1], b[1]) && close(a[2], b[2]); }
struct State { // the model
    std::shared_ptr<BSDF<RGB>> bsdf;
    std::shared_ptr<Image<RGB>> alb, tra, emi;
    std::shared_ptr<Image<float>> al, me, ro;
    std::shared_ptr<Image<V3>> no;
    RGB falb{1}, ftra{0}, femi{0};
    float fal = 1, fme = 0, fro = 1, fno = 1;
};
static std::shared_ptr<BSDF<RGB>> bsdf(Ctx& c)
{
    switch (c.below(7)) {
    case 4: return std::make_shared<McEwenBSDF<RGB>>();
    case 5: return std::make_shared<HapkeBSDF<RGB>>(float(c.uniform(0.02, 0.2)), float(c.uniform(0, 1)), float(c.uniform(0, 0.5)), float(c.uniform(0, 1)));
    case 0: return std::make_shared<LambertianBSDF<RGB>>();
    case 1: return std::make_shared<LommelSeeligerBSDF<RGB>>();
    case 2: return std::make_shared<OrenNayarBSDF<RGB>>();
    case 3: return std::make_shared<CookTorranceBSDF<RGB>>();
    default: return std::make_shared<NullBSDF<RGB>>();
    }
}
static V3 nmap(Ctx& c)
{
    V3d v = c.chance(1, 3) ? V3d{0, 0, 1} : hc::unit_vec(c);
    v.z = std::abs(v.z) + 0.2;
    return V3(v);
}
PROP(evaluate, 60000, 1000000)
{
    State d;
    bool scene_like = c.boolean();
    auto one = [&](float x) { return std::make_shared<Image<float>>(1, 1, x); };
    if (scene_like) {
        d.alb = d.tra = d.emi = std::make_shared<Image<RGB>>(1, 1, RGB{1});
        d.al = one(1), d.me = one(1), d.ro = one(1);
        d.no = std::make_shared<Image<V3>>(1, 1, V3{0, 0, 1});
    } else {
        d.alb = image<RGB>(c, [&] { return rgb(c, 1); });
        d.tra = image<RGB>(c, [&] { return rgb(c, 1); });
        d.emi = image<RGB>(c, [&] { return rgb(c, 5); });
        d.al = one(1), d.me = image<float>(c, [&] { return unit(c); }), d.ro = image<float>(c, [&] { return unit(c); });
        d.no = image<V3>(c, [&] { return nmap(c); });
    }
    d.bsdf = bsdf(c);
    State s = d;
    Material<RGB> m(d.bsdf, d.alb, d.al, d.me, d.ro, d.no, d.tra, d.emi);
    const RGB zero{0}, ones{1};
    int n = c.range(0, 14);
    std::string hist;
    for (int k = 0; k < n; ++k) {
        int op = int(c.below(22));
        hist += std::to_string(op) + " ";
        switch (op) {
        case 0: m.set_bsdf(s.bsdf = bsdf(c)); break;
        case 1: m.set_albedo(s.alb = image<RGB>(c, [&] { return rgb(c, 1); })); break;
        case 2: m.set_albedo_factor(s.falb = rgb(c, 1)); break;
        case 3: m.reset_albedo(); s.alb = d.alb, s.falb = RGB{1}; break;
        case 4: m.set_alpha(s.al = image<float>(c, [&] { return unit(c); })); break;
        case 5: m.set_alpha_factor(s.fal = unit(c)); break;
        case 6: m.reset_alpha(); s.al = d.al, s.fal = 1; break;
        case 7: m.set_metallic_image(s.me = image<float>(c, [&] { return unit(c); })); if (s.fme == 0) s.fme = 1; break;
        case 8: m.set_metallic_factor(s.fme = unit(c)); break;
        case 9: m.reset_metallic(); s.me = d.me, s.fme = 0; break;
        case 10: m.set_roughness_image(s.ro = image<float>(c, [&] { return unit(c); })); break;
        case 11: m.set_roughness_factor(s.fro = unit(c)); break;
        case 12: m.reset_roughness(); s.ro = d.ro, s.fro = 1; break;
        case 13: m.set_normal_image(s.no = image<V3>(c, [&] { return nmap(c); })); break;
        case 14: m.set_normal_factor(s.fno = float(c.uniform(0, 2))); break;
        case 15: m.reset_normal(); s.no = d.no, s.fno = 1; break;
        case 16: m.set_transmission_image(s.tra = image<RGB>(c, [&] { return rgb(c, 1); })); if (s.ftra == zero) s.ftra = ones; break;
        case 17: m.set_transmission_factor(s.ftra = c.chance(1, 4) ? zero : rgb(c, 1)); break;
        case 18: m.reset_transmission(); s.tra = d.tra, s.ftra = zero; break;
        case 19: m.set_emissive_image(s.emi = image<RGB>(c, [&] { return rgb(c, 5); })); if (s.femi == zero) s.femi = ones; break;
        case 20: m.set_emissive_factor(s.femi = c.chance(1, 4) ? zero : rgb(c, 5)); break;
        default: m.reset_emissive(); s.emi = d.emi, s.femi = zero;
        }
    }
    // surface point
    Interaction<RGB> is;
    V3d N = hc::unit_vec(c), T, B;
    V3 nf(N), tf, bf;
    build_default_tangent_frame(nf, tf, bf);
    int fk = int(c.below(5));
    double th = hc::angle(c);
    T = V3d(tf) * std::cos(th) + V3d(bf) * std::sin(th);
    B = glm::cross(N, T);
    if (fk == 1) B = -B;                                   // mirrored texture
    if (fk == 2) T += N * c.sym(0.5), B += N * c.sym(0.5); // interpolated: not orthogonal
    if (fk == 2) T *= 1 / hc::len(T), B *= 1 / hc::len(B);
    is.normal_s = nf;
    is.normal_g = V3(hc::unit_vec(c));
    is.tangent = fk == 0 ? V3{0.f} : V3(T);
    is.bitangent = fk == 0 ? V3{0.f} : V3(B);
    is.position = V3(hc::vec(c, 10));
    is.wo = V3(hc::unit_vec(c));
    is.uv = {float(c.uniform(-1, 2)), float(c.uniform(-1, 2))};
    is.vertex_albedo = c.boolean() ? RGB{1} : rgb(c, 1);
    c.note("calls", hist);
    c.note("frame", fk);
    c.note("bsdf", s.bsdf->type());
    c.nontrivial(n >= 3);
    auto e = m.evaluate(is);
    float u = is.uv.x, v = is.uv.y;
    auto r = s.bsdf->requirements();
    if (r.needs_albedo) PBT_CHECK("albedo", close(e.params.albedo, s.alb->sample_bilinear(u, v) * s.falb * is.vertex_albedo), "albedo " << e.params.albedo[0]);
    float op = s.al->sample_bilinear(u, v) * s.fal;
    PBT_CHECK("opacity", close(e.params.opacity, op), "opacity " << e.params.opacity << " want " << op);
    PBT_CHECK("has_alpha", !(op < 1) || m.has_alpha(), "opacity " << op << " but has_alpha() is false");
    PBT_CHECK("alpha_factor", m.alpha_factor() == s.fal && m.has_alpha_texture() == (s.al != d.al), "alpha accessors");
    if (r.needs_metallic) PBT_CHECK("metallic", close(e.params.metallic, s.me->sample_bilinear(u, v) * s.fme), "metallic " << e.params.metallic << " want " << s.me->sample_bilinear(u, v) * s.fme);
    if (r.needs_roughness) PBT_CHECK("roughness", close(e.params.roughness, s.ro->sample_bilinear(u, v) * s.fro), "roughness " << e.params.roughness);
    PBT_CHECK("transmission", close(e.params.transmission, s.tra->sample_bilinear(u, v) * s.ftra), "transmission " << e.params.transmission[0]);
    PBT_CHECK("emission", close(e.params.emission, s.emi->sample_bilinear(u, v) * s.femi), "emission " << e.params.emission[0]);
    // geometry is carried over
    PBT_CHECK("carried", e.isect.position == is.position && e.isect.normal_g == is.normal_g && e.isect.wo == is.wo && e.isect.uv == is.uv, "the surface point changed");
    V3d want = N;
    if (r.needs_normal && fk != 0) {
        V3d t(s.no->sample_bilinear(u, v));
        t *= 1 / hc::len(t);
        want = V3d(is.tangent) * (t.x * s.fno) + V3d(is.bitangent) * (t.y * s.fno) + N * t.z;
        double l = hc::len(want);
        if (l < 0.05) pbt::discard();
        want *= 1 / l;
    }
    PBT_CHECK("normal", hc::dist(e.isect.normal_s, want) < 1e-3, "shading normal " << hc::show(e.isect.normal_s) << " want " << hc::show(want));
    if (r.needs_normal && fk != 0 && std::abs(glm::dot(want, V3d(is.tangent))) > 0.999) return; // tangent along the new normal
    V3d t(e.isect.tangent), b(e.isect.bitangent), nn(e.isect.normal_s);
    PBT_CHECK("frame", std::abs(hc::len(t) - 1) < 1e-4 && std::abs(hc::len(b) - 1) < 1e-3 && std::abs(glm::dot(t, nn)) < 3e-3 && hc::dist(glm::cross(nn, t), b) < 1e-3, "frame t " << hc::show(t) << " b " << hc::show(b) << " n " << hc::show(nn));
    if (fk != 0) PBT_CHECK("tangent_kept", glm::dot(t, V3d(is.tangent)) > 0, "tangent turned round");
    // a parameter that is not filled in is one the BSDF does not look at
    auto full = e;
    full.params.albedo = s.alb->sample_bilinear(u, v) * s.falb * is.vertex_albedo;
    full.params.metallic = s.me->sample_bilinear(u, v) * s.fme;
    full.params.roughness = s.ro->sample_bilinear(u, v) * s.fro;
    if (r.needs_albedo) full.params.albedo = e.params.albedo;
    if (r.needs_metallic) full.params.metallic = e.params.metallic;
    if (r.needs_roughness) full.params.roughness = e.params.roughness;
    if (!r.needs_normal) full.isect.normal_s = V3(hc::unit_vec(c));
    // scattering is the BSDF's
    V3 wi(hc::unit_vec(c));
    float a = float(c.uniform(0, 1)), q = float(c.uniform(0, 1));
    auto x = m.bsdf_eval(is.wo, wi, e), y = s.bsdf->eval(is.wo, wi, e.isect, e.params);
    auto sx = m.bsdf_sample(is.wo, e, a, q), sy = s.bsdf->sample(is.wo, e.isect, e.params, a, q);
    PBT_CHECK("delegates", x[0] == y[0] && x[1] == y[1] && x[2] == y[2] && m.bsdf_pdf(is.wo, wi, e) == s.bsdf->pdf(is.wo, wi, e.isect, e.params) && sx.pdf == sy.pdf && sx.wi == sy.wi && sx.value[0] == sy.value[0] && sx.is_delta == sy.is_delta,
              "material scatters differently from its BSDF");
    for (int k = 0; k < 3; ++k) {
        if (k) wi = V3(hc::unit_vec(c));
        if (glm::dot(wi, e.isect.normal_s) < 0) wi = -wi;
        V3 wo = glm::dot(is.wo, e.isect.normal_s) < 0 ? -is.wo : is.wo;
        auto p = s.bsdf->eval(wo, wi, e.isect, e.params), f = s.bsdf->eval(wo, wi, full.isect, full.params);
        auto sp = s.bsdf->sample(wo, e.isect, e.params, a, q), sf = s.bsdf->sample(wo, full.isect, full.params, a, q);
        PBT_CHECK("requirements", p[0] == f[0] && p[1] == f[1] && p[2] == f[2] && s.bsdf->pdf(wo, wi, e.isect, e.params) == s.bsdf->pdf(wo, wi, full.isect, full.params) && sp.wi == sf.wi && sp.pdf == sf.pdf && sp.value[0] == sf.value[0],
                  "the BSDF looks at a parameter it says it does not need: " << p[0] << " against " << f[0]);
    }
}
PBT_MAIN
