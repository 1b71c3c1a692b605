// L01: sphere lights: what they emit, the directions they are sampled in, and the irradiance they give.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/core/physics.hpp"
#include "huira/render/interaction.hpp"
#include "huira/render/sampler.hpp"
#include "huira/units/units.hpp"
#include "huira/assets/lights/sphere_light.hpp"
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using V3 = Vec3<float>;
static const double PI_ = M_PI;
using Mono = UniformSpectralBins<1, 400, 700>;
using Four = UniformSpectralBins<4, 350, 900>;
struct Fixed : Sampler<float> {
    std::vector<float> v;
    std::size_t i = 0;
    float get_1d() override { return v[i++ % v.size()]; }
    Vec2<float> get_2d() override { float a = get_1d(); return {a, get_1d()}; }
};
template <class T> static T spec(Ctx& c, double lo, double hi)
{
    T s{0};
    for (std::size_t i = 0; i < T::size(); ++i) s[i] = c.chance(1, 8) ? 0.f : float(c.logreal(lo, hi));
    return s;
}
struct Scene0 {
    double r, d, ratio;
    V3 centre, pos;
    V3d wc;
    double sin2, cosm, omc; // exact cone of the sphere
    double noise;           // rounding of the positions, relative to d
};
static Scene0 place(Ctx& c, double maxratio, double minratio = 1.0005)
{
    Scene0 s;
    switch (c.below(5)) {
    case 0: s.r = 695700e3, s.d = c.pick({5.79e10, 1.496e11, 2.28e11, 7.78e11, 1.43e12, 4.5e12}); break; // the Sun, from the planets
    case 1: s.r = c.logreal(1e-3, 1), s.d = s.r * c.logreal(minratio, 4); break;
    default: s.r = c.logreal(1e-3, 1e9), s.d = s.r * c.logreal(minratio, maxratio);
    }
    if (s.d / s.r > maxratio || s.d / s.r < minratio) s.d = s.r * c.uniform(minratio, maxratio);
    s.r = float(s.r);
    V3d dir = hc::unit_vec(c);
    V3d at = c.boolean() ? V3d(0) : hc::unit_vec(c) * (s.d * c.uniform(0, 2));
    s.pos = V3(at), s.centre = V3(V3d(s.pos) + dir * s.d);
    if (c.boolean()) std::swap(s.pos, s.centre);
    s.wc = V3d(s.centre) - V3d(s.pos);
    s.d = hc::len(s.wc), s.ratio = s.d / s.r;
    s.sin2 = 1 / (s.ratio * s.ratio), s.cosm = std::sqrt(std::max(0.0, 1 - s.sin2)), s.omc = s.sin2 / (1 + s.cosm);
    s.noise = 1.2e-7 * (1 + (hc::len(s.pos) + hc::len(s.centre)) / s.d);
    c.note("radius", s.r), c.note("distance", s.d);
    c.note("centre", hc::show(s.centre)), c.note("position", hc::show(s.pos));
    c.label(s.ratio < 1.1 ? "at the surface" : s.ratio < 10 ? "near" : s.ratio < 1000 ? "far" : "point-like");
    return s;
}
// relative error the cone may carry: rounding of d, and of 1 - sin^2 close to the surface
static double cone_tol(const Scene0& s) { return 2e-5 + 20 * s.noise + 6e-7 / std::max(s.cosm, 3e-4); }

template <class T> static void sample(Ctx& c)
{
    Scene0 s = place(c, 1e6);
    T L = spec<T>(c, 1e-6, 1e8);
    SphereLight<T> light(units::Meter(s.r), units::SpectralWattsPerMeterSquaredSteradian<T>(L));
    Interaction<T> is;
    is.position = s.pos;
    Transform<float> tf;
    tf.position = s.centre;
    Fixed f;
    f.v = {float(c.chance(1, 6) ? c.pick({0.0, 0.99999994, 0.5}) : c.uniform(0, 0.9999999)), float(c.chance(1, 6) ? c.pick({0.0, 0.99999994, 0.25}) : c.uniform(0, 0.9999999))};
    c.note("u1", f.v[0]), c.note("u2", f.v[1]);
    c.nontrivial(f.v[0] > 0);
    auto ls = light.sample_li(is, tf, f);
    PBT_CHECK("sampled", ls.has_value(), "a point outside the light gets no sample");
    PBT_CHECK("unit", std::abs(hc::len(ls->wi) - 1) < 1e-5, "|wi| = " << hc::len(ls->wi));
    V3d wi(ls->wi), w = s.wc / s.d;
    wi /= hc::len(wi);
    double st = hc::len(glm::cross(wi, w)), ct = glm::dot(wi, w), sm = std::sqrt(s.sin2), ang = 1e-6 + 4 * s.noise;
    PBT_CHECK("hits", ct > -1e-3 && st <= sm * (1 + 1e-4) + ang, "the sampled direction misses the light: sin " << st << ", the light's edge is at " << sm);
    double want = 1 / (2 * PI_ * s.omc);
    PBT_CHECK("pdf", std::abs(ls->pdf - want) <= cone_tol(s) * want, "pdf " << ls->pdf << " want " << want << " (off by a factor " << ls->pdf / want << ")");
    for (std::size_t i = 0; i < T::size(); ++i)
        PBT_CHECK("Li", ls->Li[i] == L[i], "bin " << i << " radiance " << ls->Li[i] << " want " << L[i]);
    double b = s.d * ct, disc = s.r * s.r - s.d * s.d * st * st;
    double root = std::sqrt(std::max(0.0, disc)), dist = b - root;
    double e2 = (2e-6 + 10 * s.noise) * s.d * s.d;
    double tol = root > 0 ? std::min(e2 / root, std::sqrt(e2)) * 2 : std::sqrt(e2) * 2;
    PBT_CHECK("distance", std::isfinite(ls->distance) && std::abs(ls->distance - dist) <= tol + 1e-6 * s.d, "distance " << ls->distance << " want " << dist << " +- " << tol);
    // density of arbitrary directions
    double share = c.chance(1, 4) ? c.uniform(1.02, 4) : c.uniform(0, 1.5);
    double s2 = std::min(1.0, share * sm), c2 = std::sqrt(1 - s2 * s2), ph = c.uniform(0, 2 * PI_);
    if (c.chance(1, 5)) c2 = -c2;
    V3d a = std::abs(w.x) < 0.6 ? V3d(1, 0, 0) : V3d(0, 1, 0), u = glm::normalize(glm::cross(w, a)), v = glm::cross(w, u);
    V3 q(u * (s2 * std::cos(ph)) + v * (s2 * std::sin(ph)) + w * c2);
    c.note("queried sin/edge", share);
    float p = light.pdf_li(is, tf, q);
    if (c2 > 0 && s2 < sm * (1 - 2e-3) - ang && s.cosm > 2e-3)
        PBT_CHECK("pdf_li_inside", std::abs(p - want) <= cone_tol(s) * want, "pdf_li " << p << " want " << want << " for a direction towards the light");
    else if ((c2 < 0 && s.cosm < 0.9999 && s2 < 0.99) || (c2 > 0 && s2 > sm * (1 + 2e-3) + ang) || (c2 < -0.5))
        PBT_CHECK("pdf_li_outside", p == 0, "pdf_li " << p << " for a direction that misses the light: sin " << s2 << " edge " << sm);
    else
        PBT_CHECK("pdf_li_edge", p == 0 || std::abs(p - want) <= cone_tol(s) * want, "pdf_li " << p << " want 0 or " << want);
    float ps = light.pdf_li(is, tf, ls->wi);
    if (st < sm * (1 - 2e-3) - ang && s.cosm > 2e-3)
        PBT_CHECK("consistent", std::abs(ps - ls->pdf) <= cone_tol(s) * want, "sample_li reports " << ls->pdf << ", pdf_li " << ps);
}
PROP(sampled_directions, 60000, 1000000)
{
    switch (c.below(3)) {
    case 0: return sample<RGB>(c);
    case 1: return sample<Mono>(c);
    default: return sample<Four>(c);
    }
}
PROP(cone_is_covered_uniformly, 400, 8000)
{
    Scene0 s = place(c, 3000, 1.01);
    double L = c.logreal(1e-3, 1e6);
    SphereLight<RGB> light(units::Meter(s.r), units::SpectralWattsPerMeterSquaredSteradian<RGB>(RGB(float(L))));
    Interaction<RGB> is;
    is.position = s.pos;
    Transform<float> tf;
    tf.position = s.centre;
    V3d w = s.wc / s.d, a = std::abs(w.x) < 0.6 ? V3d(1, 0, 0) : V3d(0, 1, 0), u = glm::normalize(glm::cross(w, a)), v = glm::cross(w, u);
    double z0 = c.uniform(0.05, 0.95), p0 = c.uniform(-PI_, PI_), p1 = c.uniform(-PI_, PI_);
    if (p0 > p1) std::swap(p0, p1);
    c.nontrivial();
    const int N = 64;
    double inner = 0, wedge = 0, joint = 0, E = 0;
    for (int i = 0; i < N; ++i)
        for (int j = 0; j < N; ++j) {
            Fixed f;
            f.v = {float((i + 0.5) / N), float((j + 0.5) / N)};
            auto ls = light.sample_li(is, tf, f);
            PBT_CHECK("sampled", ls.has_value(), "no sample outside the light");
            V3d wi(ls->wi);
            double x = glm::dot(wi, u), y = glm::dot(wi, v), st2 = x * x + y * y, ct = glm::dot(wi, w);
            double h = st2 / (1 + ct) / s.omc; // (1 - cos) as a share of the cone
            double ph = std::atan2(y, x);
            bool lo = h <= z0, in = ph >= p0 && ph < p1;
            inner += lo, wedge += in, joint += lo && in;
            E += double(ls->Li[1]) * ct / ls->pdf;
        }
    double T = double(N) * N, wq = (p1 - p0) / (2 * PI_);
    PBT_CHECK("radial", std::abs(inner / T - z0) < 0.03, "share of samples in the inner " << z0 << " of the cone: " << inner / T);
    PBT_CHECK("azimuth", std::abs(wedge / T - wq) < 0.04, "share of samples in the wedge: " << wedge / T << " want " << wq);
    PBT_CHECK("joint", std::abs(joint / T - wq * z0) < 0.06, "joint share " << joint / T << " want " << wq * z0);
    double want = L * PI_ * s.sin2;
    PBT_CHECK("estimate", std::abs(E / T - want) <= 2e-3 * want, "sampled irradiance " << E / T << " want " << want);
    double at = light.irradiance_at(s.pos, tf)[1];
    PBT_CHECK("irradiance_at", std::abs(at - want) <= (1e-5 + 10 * s.noise) * want, "irradiance_at " << at << " want " << want);
}
template <class T> static void emit(Ctx& c)
{
    double r = c.logreal(1e-4, 1e9), rf = float(r);
    double A = 4 * PI_ * rf * rf;
    Scene0 s;
    V3 any = V3(hc::unit_vec(c));
    auto check_rad = [&](const SphereLight<T>& l, auto want, const char* how, double tol) {
        T rad = l.radiance(any, V3(hc::unit_vec(c)));
        for (std::size_t i = 0; i < T::size(); ++i)
            PBT_CHECK("radiance", std::abs(rad[i] - want(i)) <= tol * std::abs(want(i)), how << ": bin " << i << " radiance " << rad[i] << " want " << want(i));
        PBT_CHECK("radius", std::abs(l.radius().to_si() - rf) <= 1e-6 * rf, "radius " << l.radius().to_si() << " want " << r);
    };
    c.note("radius", r);
    c.nontrivial();
    switch (c.below(5)) {
    case 0: {
        c.label("spectral power");
        T P = spec<T>(c, 1e-3, 1e25);
        SphereLight<T> l{units::Meter(r), units::SpectralWatts<T>(P)};
        check_rad(l, [&](std::size_t i) { return P[i] / (PI_ * A); }, "spectral power", 1e-5);
        break;
    }
    case 1: {
        c.label("total power");
        double P = c.logreal(1e-3, 1e26);
        c.note("power", P);
        SphereLight<T> l{units::Meter(r), units::Watt(P)};
        T rad = l.radiance(any, any);
        double tot = 0;
        for (std::size_t i = 0; i < T::size(); ++i) {
            tot += rad[i];
            PBT_CHECK("positive", rad[i] > 0, "bin " << i << " of a light with power " << P << " emits " << rad[i]);
        }
        PBT_CHECK("total_power", std::abs(tot * PI_ * A - P) <= 1e-5 * P, "a light of " << P << " W emits " << tot * PI_ * A << " W over its spectrum");
        break;
    }
    case 2: {
        c.label("radiance");
        T P = spec<T>(c, 1e-6, 1e12);
        SphereLight<T> l{units::Meter(r), units::SpectralWattsPerMeterSquaredSteradian<T>(P)};
        check_rad(l, [&](std::size_t i) { return double(P[i]); }, "radiance", 1e-7);
        break;
    }
    case 3: {
        c.label("black body");
        double K = c.uniform(300, 20000);
        c.note("kelvin", K);
        SphereLight<T> l{units::Meter(r), units::Kelvin(K)};
        auto bins = T::get_all_bins();
        std::vector<double> want(T::size());
        for (std::size_t i = 0; i < T::size(); ++i) { // Planck's law, Simpson
            const double h = 6.62607015e-34, cl = 299792458.0, k = 1.380649e-23;
            auto B = [&](double x) { return 2 * h * cl * cl / std::pow(x, 5) / std::expm1(h * cl / (x * k * K)); };
            double lo = bins[i].min_wavelength, hi = bins[i].max_wavelength;
            const int n = 200;
            double sum = B(lo) + B(hi);
            for (int j = 1; j < n; ++j) sum += (j % 2 ? 4 : 2) * B(lo + (hi - lo) * j / n);
            want[i] = sum * (hi - lo) / n / 3;
        }
        check_rad(l, [&](std::size_t i) { return want[i]; }, "black body", 2e-3);
        break;
    }
    default: {
        c.label("bad power");
        double P = c.pick({-1.0, -1e-9, double(INFINITY), 1e39, -double(INFINITY), -1e30});
        c.note("power", P);
        bool t = hc::throws([&] { SphereLight<T> l{units::Meter(r), units::Watt(P)}; });
        PBT_CHECK("rejects", t, "a light of " << P << " W is accepted");
    }
    }
}
PROP(emission, 20000, 300000)
{
    switch (c.below(3)) {
    case 0: return emit<RGB>(c);
    case 1: return emit<Mono>(c);
    default: return emit<Four>(c);
    }
}
PROP(inside, 10000, 100000)
{
    double r = float(c.logreal(1e-3, 1e9));
    V3 ctr(hc::unit_vec(c) * (c.boolean() ? 0.0 : r * c.uniform(0, 3)));
    V3 p(V3d(ctr) + hc::unit_vec(c) * (r * (c.chance(1, 5) ? 0.0 : c.uniform(0, 0.9999))));
    c.note("radius", r), c.note("centre", hc::show(ctr)), c.note("position", hc::show(p));
    c.nontrivial(hc::dist(ctr, p) > 0);
    if (hc::dist(ctr, p) > r * 0.99999) pbt::discard();
    SphereLight<RGB> light(units::Meter(r), units::Watt(10));
    Interaction<RGB> is;
    is.position = p;
    Transform<float> tf;
    tf.position = ctr;
    Fixed f;
    f.v = {float(c.uniform(0, 0.999)), float(c.uniform(0, 0.999))};
    PBT_CHECK("no_sample", !light.sample_li(is, tf, f), "a point inside the light gets a sample");
    PBT_CHECK("no_density", light.pdf_li(is, tf, V3(hc::unit_vec(c))) == 0, "a point inside the light gets a density");
    PBT_CHECK("no_irradiance", light.irradiance_at(p, tf)[0] == 0, "a point inside the light gets irradiance");
}
PBT_MAIN
