// R04: rendered light against closed forms of light transport.
#include "rig.hpp"
using namespace rig;
static constexpr int W = 16;
struct Want {
    std::vector<std::array<double, 3>> v;
    std::vector<char> use;
    Want() : v(W * W, {0, 0, 0}), use(W * W, 1) {}
};
static double sphere_hit(const V3d& o, const V3d& d, const V3d& c0, double r) // nearest distance > 0, or -1
{
    V3d k = c0 - o;
    double b = glm::dot(k, d), q = b * b - glm::dot(k, k) + r * r;
    if (q < 0) return -1;
    double s = std::sqrt(q);
    return b - s > 0 ? b - s : b + s > 0 ? b + s : -1;
}
struct Run {
    FrameBuffer<S> fb;
    Run(SceneView<S>& v, Renderer<S>& r, Ctx&) : fb(cam().h.make_frame_buffer())
    {
        fb.enable_received_power(), fb.enable_received_direct_power(), fb.enable_received_indirect_power();
        r.render(v, fb);
    }
};
static std::string at(size_t i) { return "pixel " + std::to_string(i % W) + "," + std::to_string(i / W); }
// exact: every sample of a pixel gives the same; otherwise the sum over the image is compared with what its own scatter allows
static void judge(Ctx& c, const char* tag, FrameBuffer<S>& fb, const Want& w, bool exact, double rel = 2e-4, double slack = 0.02)
{
    auto& img = fb.received_power();
    for (size_t b = 0; b < 3; ++b) {
        double sd = 0, sq = 0, se = 0, top = 0;
        int n = 0;
        for (size_t i = 0; i < W * W; ++i) {
            if (!w.use[i]) continue;
            double k = double(cam().m->pixel_radiance_to_power(int(i % W), int(i / W))), want = w.v[i][b], got = double(img[i][b]) / k;
            PBT_CHECK("finite", std::isfinite(got), at(i) << " is " << got);
            if (exact) PBT_CHECK(tag, std::abs(got - want) <= rel * std::abs(want) + 1e-30, at(i) << " band " << b << ": radiance " << got << ", want " << want);
            sd += got - want, sq += (got - want) * (got - want), se += want, top = std::max(top, want), ++n;
        }
        if (exact || !n) continue;
        double dev = std::sqrt(sq) * std::sqrt(double(n) / std::max(1, n - 1));
        PBT_CHECK(tag, std::abs(sd) <= 6 * dev + 1e-30 || std::abs(sd) <= slack * se, "band " << b << ": the image's light is " << (se + sd) / n << " per pixel, want " << se / n << " (+- " << dev / n << ")");
    }
    // the parts make the whole
    for (size_t i = 0; i < W * W; ++i)
        for (size_t b = 0; b < 3; ++b) {
            double d = double(fb.received_direct_power()[i][b]), q = double(fb.received_indirect_power()[i][b]), t = double(img[i][b]);
            PBT_CHECK("parts", d >= 0 && q >= 0 && std::abs(d + q - t) <= 1e-4 * (d + q) + 1e-37, at(i) << ": direct " << d << " + indirect " << q << " is not the power received, " << t);
        }
}
static SceneView<S> look(Rig& g) { return SceneView<S>(*g.sc, Interval(Time::from_et(0), Time::from_et(1)), g.camera, ObservationMode::TRUE_STATE, 1); }
static double setup(Ctx& c)
{
    static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    double half = c.uniform(0.1, 0.5);
    configure(cam(), W, W, half);
    cam().h.disable_veiling_glare();
    return half;
}
// rays to the corners of each sub-pixel
template <class F> static void each_ray(F&& f)
{
    for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x)
            for (int k = 0; k < 16; ++k) {
                Ray<S> r = cam().m->cast_ray(Pixel{float(x) + float(k % 4 * 2 + 1) / 8, float(y) + float(k / 4 * 2 + 1) / 8});
                f(size_t(y * W + x), V3d(r.direction()));
            }
}
static void alter(Ctx& c, Renderer<S>& r, SceneView<S>& v, Run& a) // the image does not depend on how it is drawn; glare only spreads it
{
    int what = int(c.below(8));
    if (what == 0) {
        Run b(v, r, c);
        for (size_t i = 0; i < W * W; ++i) PBT_CHECK("again", a.fb.received_power()[i] == b.fb.received_power()[i], at(i) << " differs when drawn again");
    } else if (what == 1) {
        double al = c.uniform(0, 1);
        cam().h.set_veiling_glare(float(al));
        Run b(v, r, c);
        cam().h.disable_veiling_glare();
        for (size_t k = 0; k < 3; ++k) {
            double m = 0;
            for (size_t i = 0; i < W * W; ++i) m += double(a.fb.received_power()[i][k]) / (W * W);
            for (size_t i = 0; i < W * W; ++i) {
                double p = double(a.fb.received_power()[i][k]), want = (1 - al) * p + al * m;
                PBT_CHECK("glare", std::abs(double(b.fb.received_power()[i][k]) - want) <= 1e-4 * (p + m) + 1e-37, at(i) << " with glare " << al << " is " << b.fb.received_power()[i][k] << ", want " << want);
            }
        }
    } else if (what == 2) { // light that came over other surfaces is limited per sample, keeping its colour; the rest stays as it is
        double mean = 0, lim;
        auto rad = [&](const Image<S>& p, size_t i, size_t k) { return double(p[i][k]) / double(cam().m->pixel_radiance_to_power(int(i % W), int(i / W))); };
        int spp = c.boolean() ? 1 : 4;
        r.set_samples_per_pixel(spp), r.set_dynamic_sampling(false);
        Run o(v, r, c);
        for (size_t i = 0; i < W * W; ++i)
            for (size_t k = 0; k < 3; ++k) mean += rad(o.fb.received_indirect_power(), i, k) / (3 * W * W);
        lim = mean * c.logreal(0.1, 10);
        if (lim == 0) lim = 1;
        r.set_indirect_clamp(float(lim));
        Run b(v, r, c);
        c.label("clamped");
        for (size_t i = 0; i < W * W; ++i) {
            double top = 0;
            for (size_t k = 0; k < 3; ++k) top = std::max(top, rad(o.fb.received_indirect_power(), i, k));
            for (size_t k = 0; k < 3; ++k) {
                double d0 = rad(o.fb.received_direct_power(), i, k), d1 = rad(b.fb.received_direct_power(), i, k), q0 = rad(o.fb.received_indirect_power(), i, k), q1 = rad(b.fb.received_indirect_power(), i, k), t1 = rad(b.fb.received_power(), i, k);
                PBT_CHECK("clamp_direct", std::abs(d0 - d1) <= 1e-5 * d0, at(i) << " direct " << d0 << " became " << d1);
                PBT_CHECK("clamp_limit", q1 <= std::min(q0, lim) * (1 + 1e-4), at(i) << " indirect " << q0 << " became " << q1 << " with limit " << lim);
                if (spp == 1) PBT_CHECK("clamp", std::abs(q1 - q0 * (top > lim ? lim / top : 1)) <= 1e-4 * q0, at(i) << " indirect " << q0 << " became " << q1 << " with limit " << lim << ", largest band " << top);
                PBT_CHECK("clamp_parts", std::abs(t1 - d1 - q1) <= 1e-4 * (d1 + q1), at(i) << " " << t1 << " is not " << d1 << " + " << q1);
            }
        }
    } else if (what == 3) { // sampling that may stop early, where nothing lets it stop, is the same as taking every sample
        int spp = c.range(1, 12);
        r.set_samples_per_pixel(spp), r.set_dynamic_sampling(false);
        Run o(v, r, c);
        r.set_dynamic_sampling(true);
        if (c.boolean()) r.set_min_samples(spp + int(c.below(3))), r.set_variance_threshold(float(c.logreal(1e-3, 10)));
        else r.set_min_samples(c.range(1, spp)), r.set_variance_threshold(0);
        Run b(v, r, c);
        c.label("dynamic sampling");
        for (size_t i = 0; i < W * W; ++i) PBT_CHECK("dynamic", o.fb.received_power()[i] == b.fb.received_power()[i] && o.fb.received_indirect_power()[i] == b.fb.received_indirect_power()[i], at(i) << " differs with dynamic sampling that never stops early");
    }
}
static Renderer<S> renderer(Ctx& c, int spp, int bounces)
{
    Renderer<S> r;
    r.set_samples_per_pixel(spp), r.set_max_bounces(bounces);
    c.note("spp", spp), c.note("bounces", bounces);
    return r;
}
static PrimitiveHandle<S> prim(Rig& g, GeometryHandle<S> geo, const S& albedo, double opacity, const S& emission)
{
    auto m = g.sc->new_material(g.sc->new_bsdf_lambertian());
    m.set_albedo_factor(albedo), m.set_alpha_factor(float(opacity)), m.set_emissive_factor(emission);
    return g.sc->add_primitive(geo, m);
}
static PrimitiveHandle<S> ball(Rig& g, double r, const S& absorb, const S& scatter)
{
    auto m = g.sc->new_material(g.sc->new_bsdf_null());
    m.set_transmission_factor(S{1});
    auto med = g.sc->new_medium(g.sc->new_constant_density_field(absorb, scatter), g.sc->new_isotropic_phase_function());
    return g.sc->add_primitive(g.sc->add_ellipsoid(units::Meter(r), units::Meter(r), units::Meter(r)), m, med);
}
// a uniform sky, a convex body in it
PROP(furnace, 600, 15000)
{
    double half = setup(c), size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    Rig g(c, size);
    S L = rgb(c, 0.1, 10), a = rgb(c, 0, 1), col = rgb(c, 0, 1), e = c.boolean() ? S{0} : rgb(c, 0, 5);
    double o = c.chance(2, 3) ? 1 : c.uniform(0.05, 0.95), D = size * c.uniform(1, 5);
    g.sc->set_background_radiance(L);
    bool plane = c.boolean();
    V3d n = nrm(V3d(c.uniform(-0.5, 0.5), c.uniform(-0.5, 0.5), -1));
    if (plane) {
        auto pr = prim(g, g.quad({0, 0, D}, n, 20 * D, col), a, o, e);
        g.place(g.top.new_instance(pr), {0, 0, 0});
    } else {
        double r = D * std::sin(std::min(1.2, half * 1.6));
        auto pr = prim(g, g.sc->add_ellipsoid(units::Meter(r), units::Meter(r), units::Meter(r)), a, o, e);
        g.place(g.top.new_instance(pr), {0, 0, D}, hc::unit_vec(c), c.uniform(-3, 3));
        col = S{1};
    }
    auto v = look(g);
    int bounces = c.range(1, 4), spp = c.boolean() ? c.range(1, 8) : 64;
    auto r = renderer(c, spp, bounces);
    if (o == 1 && c.chance(1, 4)) r.set_dynamic_sampling(), r.set_min_samples(c.range(1, 8));
    Run a1(v, r, c);
    Want w;
    for (auto& x : w.v)
        for (size_t b = 0; b < 3; ++b) {
            double s = double(e[b]) + (bounces > 1 ? double(a[b]) * double(col[b]) * double(L[b]) : 0), through = double(L[b]);
            x[b] = o * s + (1 - o) * through;
            if (!plane && o < 1) { // the far side of the ball is seen from within: what it reflects comes from the ball again
                w.use.assign(W * W, 0);
            }
        }
    c.note("opacity", o), c.note("plane", plane), c.note("size", size);
    judge(c, "furnace", a1.fb, w, o == 1);
    alter(c, r, v, a1);
    c.nontrivial(plane || o == 1);
}
// spherical lights over a diffuse plane, possibly through a clear bubble, a haze of given opacity, or an absorbing ball around the camera
PROP(lit, 1000, 20000)
{
    double half = setup(c), size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    Rig g(c, size);
    S a = rgb(c, 0, 1), e = c.chance(3, 4) ? S{0} : rgb(c, 0, 0.1);
    int veil = int(c.below(3));
    V3d n = veil == 2 ? V3d(0, 0, -1) : nrm(V3d(c.uniform(-0.6, 0.6), c.uniform(-0.6, 0.6), -1));
    double D = size * c.uniform(1, 4);
    V3d P(0, 0, D);
    g.place(g.top.new_instance(prim(g, g.quad(P, n, 20 * D), a, 1, e)), {0, 0, 0});
    struct Lamp {
        V3d p;
        double r;
        S L;
    };
    std::vector<Lamp> lamps;
    int nl = c.range(1, 2);
    for (int i = 0; i < nl; ++i) {
        Lamp l;
        double h = D * (veil == 2 ? c.uniform(1.5, 5) : c.logreal(0.3, 30));
        l.p = P + n * h + perp(n) * (D * c.uniform(-1, 1)) + crs(n, perp(n)) * (D * c.uniform(-1, 1));
        l.r = h * (c.boolean() ? c.uniform(0.3, 0.9) : c.logreal(1e-5, 0.3));
        l.r = std::max(l.r, 1e-4); // lights have a least radius
        l.L = rgb(c, 0.5, 2);
        if (len(l.p) < l.r * 1.05) pbt::discard(); // the camera is not inside it
        auto pw = l.L * float(M_PI * 4 * M_PI * l.r * l.r);
        auto lh = c.boolean() ? g.sc->new_sphere_light(units::Meter(l.r), units::SpectralWatts<S>(pw)) : g.sc->new_sphere_light(units::Meter(l.r), units::SpectralWattsPerMeterSquaredSteradian<S>(l.L));
        g.place(g.top.new_instance(lh), l.p, hc::unit_vec(c), c.uniform(-3, 3));
        lamps.push_back(l);
    }
    // between the lights and the plane: nothing, a clear bubble, or a black haze behind the camera
    double o = 0;
    S k{0};
    double br = 0;
    if (veil == 1) {
        br = D * c.uniform(0.1, 0.3);
        g.place(g.top.new_instance(ball(g, br, S{0}, S{0})), {0, 0, D * c.uniform(0.4, 0.6)});
    } else if (veil == 2) {
        o = c.uniform(0.1, 0.9);
        // parallel to the plane, above everything seen but below the lights
        double h = 0;
        for (auto& l : lamps) h = h == 0 ? glm::dot(l.p - P, n) - l.r : std::min(h, glm::dot(l.p - P, n) - l.r);
        double hc0 = glm::dot(-P, n); // the camera's height
        if (h < 1.4 * hc0) veil = 0, o = 0;
        else {
            auto q = prim(g, g.quad(P + n * (0.5 * (h + hc0)), n, 20 * D), S{0}, o, S{0});
            g.place(g.top.new_instance(q), {0, 0, 0});
        }
    }
    auto v = look(g);
    int bounces = c.range(1, 4) + (veil == 1 ? 5 : 0);
    auto r = renderer(c, 64, bounces);
    Run a1(v, r, c);
    Want w;
    std::vector<int> what(W * W, -9);
    bool clash = false;
    each_ray([&](size_t i, V3d d) {
        double tp = glm::dot(P, n) / glm::dot(d, n);
        int seen = -1;
        double t = tp > 0 ? tp : 1e300;
        if (!(tp > 0)) seen = -3;
        for (size_t q = 0; q < lamps.size(); ++q) {
            double s = sphere_hit({0, 0, 0}, d, lamps[q].p, lamps[q].r);
            if (s > 0 && s < t) t = s, seen = int(q);
        }
        if (what[i] != -9 && what[i] != seen) w.use[i] = 0; // edges
        what[i] = seen;
        if (seen == -3) return;
        if (seen >= 0) {
            for (size_t b = 0; b < 3; ++b) w.v[i][b] += double(lamps[size_t(seen)].L[b]) / 16;
            return;
        }
        V3d x = d * t;
        std::vector<std::pair<V3d, double>> dirs;
        for (auto& l : lamps) {
            V3d k2 = l.p - x;
            double dd = len(k2);
            for (auto& [u, s] : dirs)
                if (std::acos(std::clamp(glm::dot(u, k2 / dd), -1.0, 1.0)) < s + std::asin(l.r / dd)) clash = true;
            dirs.push_back({k2 / dd, std::asin(l.r / dd)});
            double E = M_PI * (l.r / dd) * (l.r / dd) * glm::dot(k2 / dd, n);
            for (size_t b = 0; b < 3; ++b) w.v[i][b] += double(a[b]) / M_PI * E * double(l.L[b]) * (1 - o) / 16;
        }
        for (size_t b = 0; b < 3; ++b) w.v[i][b] += double(e[b]) / 16;
    });
    if (clash) pbt::discard(); // one light in front of the other
    for (size_t i = 0; i < W * W; ++i) { // next to an edge
        for (int j : {-1, 1, -W, W})
            if (long(i) + j >= 0 && size_t(long(i) + j) < W * W && what[size_t(long(i) + j)] != what[i]) w.use[i] = 0;
        if (what[i] == -3) w.use[i] = 0;
    }
    int n1 = 0, n2 = 0;
    double pix = 1.5 * 2 * std::tan(half) / W;
    for (size_t i = 0; i < W * W; ++i) {
        V3d d(cam().m->cast_ray(Pixel{float(i % W) + 0.5f, float(i / W) + 0.5f}).direction());
        for (auto& l : lamps) {
            double far = std::acos(std::clamp(glm::dot(d, nrm(l.p)), -1.0, 1.0)), r = std::asin(l.r / len(l.p));
            if (std::abs(far - r) < pix) w.use[i] = 0; // the light's edge is in the pixel
        }
    }
    for (size_t i = 0; i < W * W; ++i)
        if (w.use[i]) (what[i] >= 0 ? n2 : n1)++;
    c.note("lights", nl), c.note("veil", veil), c.note("opacity", o), c.note("r/h", lamps[0].r / glm::dot(lamps[0].p - P, n)), c.note("h/D", glm::dot(lamps[0].p - P, n) / D), c.note("size", size), c.note("plane pixels", n1), c.note("light pixels", n2);
    judge(c, "lit", a1.fb, w, false);
    for (size_t i = 0; i < W * W; ++i)
        if (w.use[i] && what[i] >= 0 && veil == 0)
            for (size_t b = 0; b < 3; ++b) {
                double got = double(a1.fb.received_power()[i][b]) / double(cam().m->pixel_radiance_to_power(int(i % W), int(i / W)));
                PBT_CHECK("seen", std::abs(got - w.v[i][b]) < 1e-3 * w.v[i][b], at(i) << " looks at a light of radiance " << w.v[i][b] << " and receives " << got);
            }
    alter(c, r, v, a1);
    c.nontrivial(n1 > 20);
}
// inside a diffuse sphere, glowing or around a light
PROP(enclosed, 500, 10000)
{
    setup(c);
    double size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    Rig g(c, size);
    S a = rgb(c, 0, 1), e{0}, L{0};
    double R = size * 10, f = 0;
    V3d at0 = hc::unit_vec(c) * (R * c.uniform(0, 0.4));
    bool lamp = c.boolean();
    if (lamp) {
        double r = R * c.uniform(0.05, 0.3);
        if (len(at0) < 1.1 * r) at0 = nrm(at0 + V3d(1e-9, 0, 0)) * (1.2 * r);
        L = rgb(c, 0.5, 2);
        f = (r / R) * (r / R);
        g.place(g.top.new_instance(g.sc->new_sphere_light(units::Meter(r), units::SpectralWattsPerMeterSquaredSteradian<S>(L))), at0);
        f = r / R;
    } else e = rgb(c, 0, 5);
    g.place(g.top.new_instance(prim(g, g.sc->add_ellipsoid(units::Meter(R), units::Meter(R), units::Meter(R)), a, 1, e)), at0, hc::unit_vec(c), c.uniform(-3, 3));
    auto v = look(g);
    int bounces = c.range(1, 8);
    auto r = renderer(c, lamp || bounces > 4 ? 64 : c.range(1, 4), bounces);
    Run a1(v, r, c);
    Want w;
    std::array<double, 3> wall{0, 0, 0};
    for (size_t b = 0; b < 3; ++b) {
        double A = double(a[b]), F = f * f, direct = lamp ? A * F * double(L[b]) : double(e[b]), x = 0;
        for (int k = 0; k < bounces; ++k) x = direct + A * (1 - F) * x;
        wall[b] = x;
    }
    std::vector<int> what(W * W, -9);
    each_ray([&](size_t i, V3d d) {
        int s = lamp && sphere_hit({0, 0, 0}, d, at0, f * R) > 0;
        if (what[i] != -9 && what[i] != s) w.use[i] = 0;
        what[i] = s;
        for (size_t b = 0; b < 3; ++b) w.v[i][b] = s ? double(L[b]) : wall[b];
    });
    for (size_t i = 0; i < W * W; ++i)
        for (int j : {-1, 1, -W, W})
            if (long(i) + j >= 0 && size_t(long(i) + j) < W * W && what[size_t(long(i) + j)] != what[i]) w.use[i] = 0;
    c.note("lamp", lamp), c.note("size", size);
    judge(c, "enclosed", a1.fb, w, !lamp && bounces <= 4);
    alter(c, r, v, a1);
    c.nontrivial(bounces > 1);
}
// a ball of medium against a uniform sky or before a light
PROP(medium, 500, 10000)
{
    double half = setup(c), size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    Rig g(c, size);
    S L = rgb(c, 0.2, 2);
    double D = size * 10, R = D * std::sin(std::min(1.2, half)) * c.uniform(0.3, 0.9);
    if (c.chance(1, 4)) D = 0; // from within
    // absorbing, scattering (both before the sky), once scattering (lit), so thin that light scatters once (lit, and found by scattering too)
    int kind = int(c.below(4));
    S ab{0}, sc{0};
    for (size_t b = 0; b < 3; ++b) {
        float base = float((kind == 3 ? c.uniform(0.01, 0.04) : c.uniform(0, 0.7)) / R);
        (kind == 0 ? ab : sc)[b] = base;
        if (kind == 3) ab[b] = float(c.uniform(0, 0.02) / R);
        if (kind == 2 && c.boolean()) ab[b] = float(c.uniform(0, 0.4) / R);
    }
    if (kind == 1 && c.boolean()) sc = S{sc[0]};
    V3d at0(0, 0, D);
    g.place(g.top.new_instance(ball(g, R, ab, sc)), at0, hc::unit_vec(c), c.uniform(-3, 3));
    V3d lp;
    double lr = 0;
    if (kind >= 2) {
        double far_ = c.uniform(2, 6);
        lr = std::max(1e-4, R * c.logreal(1e-3, 0.8));
        if (kind == 3) lr = R * c.uniform(0.5, 4), far_ = (1.05 * (R + lr) + R * c.uniform(0, 2)) / R;
        lp = at0 + hc::unit_vec(c) * (R * far_);
        if (len(lp) < 1.05 * lr) pbt::discard();
        g.place(g.top.new_instance(g.sc->new_sphere_light(units::Meter(lr), units::SpectralWattsPerMeterSquaredSteradian<S>(L))), lp);
    } else g.sc->set_background_radiance(L);
    auto v = look(g);
    if (D == 0) { // a camera within a medium is not told so: it starts outside of it
        c.nontrivial(false);
        return;
    }
    int bounces = kind == 0 ? c.range(3, 6) : kind == 1 ? 100 : kind == 3 ? c.range(4, 8) : 2;
    auto r = renderer(c, kind == 3 ? 1024 : 64, bounces);
    Run a1(v, r, c);
    Want w;
    each_ray([&](size_t i, V3d d) {
        V3d k = at0;
        double b0 = glm::dot(k, d), q = b0 * b0 - glm::dot(k, k) + R * R;
        bool in = q > 0;
        double ch = in ? 2 * std::sqrt(q) : 0, t0 = in ? b0 - ch / 2 : 0;
        if (kind >= 2) {
            double tl = sphere_hit({0, 0, 0}, d, lp, lr);
            if (std::abs(glm::dot(lp, d)) > 0 && len(lp - d * glm::dot(lp, d)) < 1.2 * lr + 0.2 * D * half / W) w.use[i] = 0; // the light is seen
            if (tl > 0) w.use[i] = 0;
        }
        for (size_t b = 0; b < 3; ++b) {
            double s = double(ab[b]) + double(sc[b]), x;
            if (kind == 0) x = double(L[b]) * std::exp(-s * ch);
            else if (kind == 1) x = double(L[b]);
            else {
                x = 0;
                int N = 12;
                for (int j = 0; in && j < N; ++j) { // the light is small: its centre stands for it in the attenuation
                    double t = ch * (j + 0.5) / N;
                    V3d p = d * (t0 + t), to = lp - p;
                    double dl = len(to), sin2 = lr * lr / (dl * dl), om = 2 * M_PI * sin2 / (1 + std::sqrt(1 - sin2));
                    V3d u = to / dl, kc = at0 - p;
                    double bb = glm::dot(kc, u), out = bb + std::sqrt(std::max(0.0, bb * bb - glm::dot(kc, kc) + R * R));
                    x += std::exp(-s * t) * double(sc[b]) / (4 * M_PI) * double(L[b]) * om * std::exp(-s * out) * ch / N;
                }
            }
            w.v[i][b] += x / 16;
        }
    });
    c.note("kind", kind), c.note("size", size);
    judge(c, kind == 0 ? "absorbed" : kind == 1 ? "scattered" : kind == 3 ? "thin" : "once", a1.fb, w, false, 0, kind == 3 ? 0.12 : kind == 2 ? 0.03 : 0.01);
    alter(c, r, v, a1);
    c.nontrivial();
}
PBT_MAIN
