// R05: stars and unresolved objects: where they fall, what power they send, what hides them, how they are spread and smeared.
#include "rig.hpp"
#include "huira/stars/io/star_catalog.hpp"
using namespace rig;
static constexpr double CL = 299792458.0, AUM = 149597870700.0;
static V3d aberrate(const V3d& u, const V3d& v)
{
    V3d b = v / CL;
    double g = 1 / std::sqrt(1 - glm::dot(b, b)), ub = glm::dot(u, b);
    return nrm((u / g + b * (1 + g / (g + 1) * ub)) / (1 + ub));
}
static S irr(Ctx& c, double lo = 1e-9, double hi = 1e-3)
{
    double k = c.logreal(lo, hi);
    return rgb(c, 0.1 * k, k);
}
static std::string at(int x, int y) { return "pixel " + std::to_string(x) + "," + std::to_string(y); }
static std::string str(const S& a)
{
    std::ostringstream o;
    o << "[" << a[0] << ", " << a[1] << ", " << a[2] << "]";
    return o.str();
}
static bool near_(const S& a, const S& b, double rel, double abs = 0)
{
    for (size_t i = 0; i < 3; ++i)
        if (!(std::abs(a[i] - b[i]) <= rel * std::abs(b[i]) + abs)) return false;
    return true;
}
struct View {
    int W, H;
    double half, f, N;
    View(Ctx& c, int w, int h, double hf) : W(w), H(h), half(hf), f(0.5 * std::max(w, h) / std::tan(hf)), N(c.uniform(1, 16))
    {
        configure(cam(), w, h, hf);
        cam().h.set_fstop(float(N));
    }
    V3d dir(double x, double y) const { return nrm(V3d((x - W / 2.0) / f, (y - H / 2.0) / f, 1)); }
    void pix(const V3d& d, double& x, double& y) const { x = d.x / d.z * f + W / 2.0, y = d.y / d.z * f + H / 2.0; }
    double area(const V3d& d) const { return M_PI / 4 * std::pow(0.05 / N, 2) * d.z / len(d); }
};
static void one_thread() { static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1); }
static std::unique_ptr<FrameBuffer<S>> draw(SceneView<S>& v, bool depth = false)
{
    auto fb = std::make_unique<FrameBuffer<S>>(cam().h.make_frame_buffer());
    fb->enable_received_power();
    if (depth) fb->enable_depth();
    Renderer<S> r;
    r.set_samples_per_pixel(1), r.set_max_bounces(1);
    r.render(v, *fb);
    return fb;
}
static int extent(Ctx& c) { return c.chance(1, 4) ? c.pick({1, 2, 63, 64, 65, 128, 129}) : c.chance(1, 4) ? c.range(60, 135) : c.range(3, 30); }
PROP(pixels, 500, 20000)
{
    one_thread();
    View w(c, extent(c), extent(c), c.logreal(0.01, 0.5));
    double speed = c.chance(1, 3) ? 0 : c.logreal(1e3, 1e8);
    Rig g(c, 1, speed);
    V3d vel = g.top.get_static_velocity();
    auto mode = c.pick({ObservationMode::TRUE_STATE, ObservationMode::GEOMETRIC_STATE, ObservationMode::ABERRATED_STATE});
    bool ab = mode == ObservationMode::ABERRATED_STATE;
    std::vector<S> want(size_t(w.W * w.H), S{0});
    // a black wall across whole pixels [a+1, b-1] and parts of a and b
    bool wall = c.boolean() && (speed == 0 || mode == ObservationMode::TRUE_STATE);
    double D = c.logreal(1, 1e3);
    int a0 = c.range(-3, w.W - 1), a1 = c.range(a0, w.W + 2), b0 = c.range(-3, w.H - 1), b1 = c.range(b0, w.H + 2);
    if (wall) {
        VertexBuffer<S> vb;
        for (int i = 0; i < 4; ++i) {
            V3d d = w.dir((i == 1 || i == 2 ? a1 : a0) + 0.5, (i > 1 ? b1 : b0) + 0.5);
            Vertex<S> x;
            x.position = Vec3<float>(d * (D / d.z)), x.normal = {0, 0, -1};
            vb.push_back(x);
        }
        if (a0 == a1 || b0 == b1) wall = false;
        else {
            auto m = g.sc->new_material(g.sc->new_bsdf_lambertian());
            m.set_albedo_factor(S{0});
            g.top.new_instance(g.sc->add_primitive(g.sc->add_mesh(IndexBuffer{0, 1, 2, 0, 2, 3}, vb), m));
        }
    }
    auto shade = [&](int x, int y) { // 0 clear, 1 behind the wall, 2 partly
        if (!wall || x < a0 || x > a1 || y < b0 || y > b1) return 0;
        return x == a0 || x == a1 || y == b0 || y == b1 ? 2 : 1;
    };
    int seen = 0, hidden = 0, edges = 0;
    std::vector<Star<S>> stars;
    std::vector<char> vague(want.size(), 0);
    auto place = [&](double& px, double& py) -> bool { // true when it is inside the image
        auto co = [&](int n) { return c.range(-4, n + 3) + c.uniform(0.02, 0.98); };
        px = co(w.W), py = co(w.H);
        return px > 0 && px < w.W && py > 0 && py < w.H;
    };
    int n = c.range(1, 8);
    for (int i = 0; i < n; ++i) {
        double px, py;
        bool in = place(px, py), back = c.chance(1, 8), edge = c.chance(1, 10);
        if (edge) { // on the border itself: in the last pixel or nowhere, and no trouble
            ++edges;
            (c.boolean() ? px : py) = c.boolean() ? 0 : (c.boolean() ? w.W : w.H);
            int x = int(px), y = int(py);
            for (int q = -1; q < 2; ++q)
                for (int r = -1; r < 2; ++r)
                    if (x + q >= 0 && x + q < w.W && y + r >= 0 && y + r < w.H) vague[size_t((y + r) * w.W + x + q)] = 1;
        }
        V3d d = w.dir(px, py) * (back ? -1.0 : 1.0);
        V3d u = g.world(d);
        S e = irr(c);
        stars.push_back(Star<S>(ab ? aberrate(u, -vel) : u, e));
        if (edge || !in || back) continue;
        int x = int(px), y = int(py), s = shade(x, y);
        size_t k = size_t(y * w.W + x);
        if (s == 2) vague[k] = 1;
        if (s == 1) ++hidden;
        if (s == 0) ++seen;
        if (s != 1) want[k] += e * float(w.area(d));
    }
    g.sc->set_stars(stars);
    int m = mode == ObservationMode::TRUE_STATE ? c.range(0, 4) : 0, behind = 0;
    if (m) { // objects that travel with the camera
        double lr = c.logreal(1e-3, 1), ld = c.logreal(10, 1e6);
        V3d lp = nrm(V3d(c.sym(1), c.sym(1), -c.uniform(0.1, 1))) * ld;
        S L = rgb(c, 1e-3, 1e3);
        auto light = g.sc->new_sphere_light(units::Meter(lr), units::SpectralWattsPerMeterSquaredSteradian<S>(L));
        auto li = g.top.new_instance(light);
        g.place(li, lp);
        for (int i = 0; i < m; ++i) {
            int kind = c.range(0, 3);
            S e = irr(c, 1e-6, 1e3);
            double R = c.logreal(1e-3, 0.1), al = c.uniform(0, 1);
            UnresolvedObjectHandle<S> o = kind == 0   ? g.sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(e))
                                          : kind == 1 ? g.sc->new_unresolved_emitter(units::SpectralWatts<S>(e))
                                          : kind == 2 ? g.sc->new_unresolved_sphere(units::Meter(R), li, float(al))
                                                      : g.sc->new_unresolved_object(units::WattsPerMeterSquared(double(e[0])));
            if (kind == 3) e = S::from_total(e[0]);
            int copies = c.range(1, 3);
            for (int q = 0; q < copies; ++q) {
                double px, py, r = c.logreal(0.3, 1e4);
                bool in = place(px, py);
                V3d d = w.dir(px, py);
                int x = int(px), y = int(py), s = in ? shade(x, y) : 0;
                if (wall && std::abs(r * d.z / D - 1) < 0.1) r *= 1.5;
                V3d p = d * r;
                g.place(g.top.new_instance(o), p, hc::unit_vec(c), c.uniform(-3, 3), V3d(2, 2, 2));
                S got = e;
                if (kind == 1) got = e * float(1 / (4 * M_PI * r * r));
                if (kind == 2) {
                    V3d tl = lp - p;
                    double x1 = std::clamp(glm::dot(nrm(tl), -d), -1.0, 1.0), ph = std::acos(x1);
                    double f = (std::sin(ph) + (M_PI - ph) * std::cos(ph)) / M_PI;
                    got = L * float(M_PI * lr * lr / glm::dot(tl, tl) * al * 2 / 3 * R * R / (r * r) * f);
                }
                if (!in) continue;
                size_t k = size_t(y * w.W + x);
                bool hid = s == 1 && p.z > D;
                if (s == 2 && p.z > D) vague[k] = 1;
                if (s == 1 && !hid) ++behind;
                if (!hid) want[k] += got * float(w.area(d)), ++seen;
                else ++hidden;
            }
        }
    }
    bool depth = c.boolean();
    int nt = c.range(1, 4);
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(c.logreal(1e-3, 1))), g.camera, mode, size_t(nt));
    auto fb = draw(v, depth);
    c.note("stars", n), c.note("objects", m), c.note("mode", int(mode)), c.note("speed", speed), c.note("wall", wall), c.note("depth", depth), c.note("nt", nt), c.note("W", w.W), c.note("H", w.H);
    PBT_CHECK("depth_asked", fb->has_depth() == depth, "rendering changed which buffers are enabled");
    if (depth && wall)
        for (int y = std::max(0, b0 + 1); y < std::min(w.H, b1); ++y)
            for (int x = std::max(0, a0 + 1); x < std::min(w.W, a1); ++x) {
                double z = D / w.dir(x + 0.5, y + 0.5).z;
                PBT_CHECK("depth", std::abs(fb->depth()(x, y) / z - 1) < 0.3 * w.half + 1e-3, "depth " << fb->depth()(x, y) << " of a wall at " << z);
            }
    for (int y = 0; y < w.H; ++y)
        for (int x = 0; x < w.W; ++x) {
            size_t k = size_t(y * w.W + x);
            if (vague[k]) continue;
            const S& got = fb->received_power()(x, y);
            PBT_CHECK("power", near_(got, want[k], 2e-4, 1e-36), at(x, y) << " of " << w.W << "x" << w.H << " receives " << str(got) << " from point sources, expected " << str(want[k]));
        }
    c.nontrivial(seen > 1 && (hidden > 0 || speed > 0 || m > 0));
    if (hidden) c.label("hidden");
    if (behind) c.label("in_front");
    if (edges) c.label("edge");
}
// a light that the camera sees hides the points behind it, and none of those beside or in front of it
PROP(lamps, 300, 10000)
{
    one_thread();
    View w(c, c.range(4, 40), c.range(4, 40), c.logreal(0.05, 0.5));
    Rig g(c, 1);
    double D = c.logreal(1, 1e6), R = D * c.logreal(0.02, 0.4) * w.half;
    V3d lp = w.dir(c.uniform(0, 1) * w.W, c.uniform(0, 1) * w.H) * D;
    double px = 1 / w.f;
    g.place(g.top.new_instance(g.sc->new_sphere_light(units::Meter(R), units::SpectralWattsPerMeterSquaredSteradian<S>(S{0}))), lp);
    auto meets = [&](const V3d& d, double r) { // distance to the front of the light
        double b = glm::dot(d, lp), q = b * b - (D * D - r * r);
        return b > 0 && q > 0 ? b - std::sqrt(q) : -1;
    };
    auto shade = [&](int x, int y) { // 0 clear, 1 behind the light, 2 partly
        int in = 0, out = 0;
        for (int k = 0; k < 121; ++k) {
            V3d d = nrm(w.dir(x - 0.05 + 1.1 * (k % 11) / 10, y - 0.05 + 1.1 * (k / 11) / 10));
            in += meets(d, 0.98 * R) > 0, out += meets(d, 1.02 * R) < 0;
        }
        V3d to = nrm(w.dir(x + 0.5, y + 0.5)), m = nrm(lp);
        if (R / D < 3 * px && len(to - m) < R / D + 2 * px) return 2; // a light that slips through the grid
        return in == 121 ? 1 : out == 121 ? 0 : 2;
    };
    std::vector<S> want(size_t(w.W * w.H), S{0});
    std::vector<char> vague(want.size(), 0);
    std::vector<Star<S>> stars;
    int seen = 0, hidden = 0, n = c.range(1, 12);
    for (int i = 0; i < n; ++i) {
        int x = c.range(0, w.W - 1), y = c.range(0, w.H - 1);
        if (c.boolean()) { // near the light
            V3d d = lp + hc::unit_vec(c) * R * c.uniform(0, 2);
            if (d.z <= 0.1 * D) continue;
            double u, v;
            w.pix(d, u, v);
            if (u >= 0 && v >= 0 && u < w.W && v < w.H) x = int(u), y = int(v);
        }
        V3d d = w.dir(x + c.uniform(0.02, 0.98), y + c.uniform(0.02, 0.98));
        int sh = shade(x, y);
        size_t k = size_t(y * w.W + x);
        S e = irr(c);
        bool front = false;
        if (c.boolean()) stars.push_back(Star<S>(g.world(d), e));
        else {
            front = c.chance(1, 3);
            auto o = g.sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(e));
            g.place(g.top.new_instance(o), nrm(d) * (front ? (D - R) * c.uniform(0.1, 0.95) : (D + R) * c.logreal(1.05, 1e3)));
        }
        if (sh == 2 && !front) vague[k] = 1;
        if (front || sh == 0) want[k] += e * float(w.area(d)), ++seen;
        else ++hidden;
    }
    g.sc->set_stars(stars);
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(0)), g.camera, ObservationMode::TRUE_STATE);
    auto fb = draw(v, c.boolean());
    c.note("points", n), c.note("distance", D), c.note("radius", R), c.note("W", w.W), c.note("H", w.H);
    for (int y = 0; y < w.H; ++y)
        for (int x = 0; x < w.W; ++x) {
            size_t k = size_t(y * w.W + x);
            if (vague[k]) continue;
            const S& got = fb->received_power()(x, y);
            PBT_CHECK("power", near_(got, want[k], 2e-4, 1e-36), at(x, y) << " of " << w.W << "x" << w.H << " receives " << str(got) << " from point sources, expected " << str(want[k]) << (shade(x, y) == 1 ? " (a light is there)" : ""));
            if (fb->has_depth()) {
                int sh = shade(x, y);
                double z = fb->depth()(x, y);
                if (sh < 2) PBT_CHECK("depth", sh ? z > (D - R) * 0.999 && z < (D + R) * 1.001 : std::isinf(z), at(x, y) << " has depth " << z << ", the light is at " << D << " with radius " << R);
            }
        }
    c.nontrivial(seen > 0 && hidden > 0);
}
// what the models of unresolved bodies say of any light, body and observer
PROP(irradiance, 8000, 200000)
{
    static Scene<S> sc;
    static auto light = sc.new_sphere_light(units::Meter(1), units::SpectralWattsPerMeterSquaredSteradian<S>(S{1}));
    static auto other = sc.new_sphere_light(units::Meter(1), units::SpectralWattsPerMeterSquaredSteradian<S>(S{5}));
    static auto li = sc.root.new_instance(light);
    static auto lj = sc.root.new_instance(other);
    struct Del {
        UnresolvedObjectHandle<S> h;
        ~Del() { sc.delete_unresolved_object(h); }
    };
    double au = c.boolean() ? AUM : c.logreal(1e6, 1e12);
    V3d p = hc::unit_vec(c) * (au * c.logreal(0.05, 50)), l;
    int where = c.range(0, 3);
    if (where == 0) l = -p * c.logreal(0.01, 100);         // full
    else if (where == 1) l = p * (1 + c.logreal(0.01, 10)); // new
    else l = p + hc::unit_vec(c) * (au * c.logreal(0.05, 50));
    V3d tl = l - p;
    double r = len(tl), d = len(p), x = std::clamp(glm::dot(tl, -p) / r / d, -1.0, 1.0), ph = std::acos(x);
    Transform<float> self, at;
    self.position = Vec3<float>(p), at.position = Vec3<float>(l);
    std::vector<LightInstance<S>> ls;
    if (c.boolean()) ls.push_back({other.get(), {self}});
    ls.push_back({light.get(), {at}});
    S al = rgb(c, 0, 1);
    bool grey = c.boolean();
    if (grey) al = S{al[0]};
    c.note("phase", ph), c.note("distance", d), c.note("light", r);
    if (c.boolean()) {
        c.label("sphere");
        double R = d * c.logreal(1e-9, 1e-3);
        Del h{grey ? sc.new_unresolved_sphere(units::Meter(R), li, al[0]) : sc.new_unresolved_sphere(units::Meter(R), li, al)};
        auto o = h.h.get();
        o->resolve_irradiance(self, ls);
        S e = o->get_irradiance(Time::from_et(0));
        double f = (std::sin(ph) + (M_PI - ph) * std::cos(ph)) / M_PI;
        double E = r > 1 ? M_PI / (r * r) : 0;
        S want = al * float(E * R / d * R / d * 2 / 3 * std::max(f, 0.0));
        PBT_CHECK("sphere", near_(e, want, 2e-3, E * R / d * R / d * 3e-6 + 1e-36), "a sphere of radius " << R << " sends " << str(e) << ", expected " << str(want));
    } else {
        c.label("asteroid");
        double H = c.uniform(-5, 25), G = c.uniform(0, 0.5);
        double t = std::tan(ph / 2), p1 = std::exp(-3.33 * std::pow(t, 0.63)), p2 = std::exp(-1.87 * std::pow(t, 1.22));
        Del h{grey ? sc.new_unresolved_asteroid(H, G, li, al[0]) : sc.new_unresolved_asteroid(H, G, li, al)};
        auto o = h.h.get();
        o->resolve_irradiance(self, ls);
        S e = o->get_irradiance(Time::from_et(0));
        double V = H - 2.5 * std::log10((1 - G) * p1 + G * p2) + 5 * std::log10(r / AUM * (d / AUM));
        S want = visual_magnitude_to_irradiance<S>(V, al);
        PBT_CHECK("asteroid", ph > 3.1 || near_(e, want, 3e-3, 1e-36), "an asteroid of H " << H << ", G " << G << " sends " << str(e) << ", expected " << str(want));
        PBT_CHECK("asteroid_valid", e.valid(), "an asteroid sends " << str(e));
    }
    PBT_CHECK("no_light", hc::throws([&] {
        Del h{sc.new_unresolved_sphere(units::Meter(1), lj, 1.f)};
        std::vector<LightInstance<S>> none{{light.get(), {at}}};
        h.h.get()->resolve_irradiance(self, none);
    }), "a sphere without its light in view was lit");
    c.nontrivial(where >= 2);
}
// a body drawn as a surface and the same body drawn as a point send the same power
PROP(resolved, 24, 800)
{
    one_thread();
    View w(c, 24, 24, c.logreal(0.003, 0.02));
    Rig g(c, 1);
    double D = c.logreal(1, 1e4), R = D * std::tan(w.half) * 0.7, al = c.uniform(0.2, 1), lr = c.logreal(0.1, 10);
    V3d to = hc::unit_vec(c);
    if (to.z > 0.4) to.z = -to.z; // from the side or from behind the camera
    V3d p(0, 0, D), lp = p + to * (D * c.uniform(50, 200));
    S L = rgb(c, 1, 100);
    auto light = g.sc->new_sphere_light(units::Meter(lr), units::SpectralWattsPerMeterSquaredSteradian<S>(L));
    auto li = g.top.new_instance(light);
    g.place(li, lp);
    auto m = g.sc->new_material(g.sc->new_bsdf_lambertian());
    m.set_albedo_factor(S{float(al)});
    auto e = g.top.new_instance(g.sc->add_primitive(g.sc->add_ellipsoid(units::Meter(R), units::Meter(R), units::Meter(R)), m));
    g.place(e, p);
    Interval iv(Time::from_et(0), Time::from_et(1));
    auto draw16 = [&] {
        SceneView<S> v(*g.sc, iv, g.camera, ObservationMode::TRUE_STATE, 1);
        FrameBuffer<S> fb = cam().h.make_frame_buffer();
        fb.enable_received_power();
        Renderer<S> r;
        r.set_samples_per_pixel(24), r.set_max_bounces(1);
        r.render(v, fb);
        S s{0};
        for (size_t i = 0; i < fb.received_power().size(); ++i) s += fb.received_power()[i];
        return s;
    };
    S surface = draw16();
    g.top.delete_instance(e);
    auto o = g.top.new_instance(g.sc->new_unresolved_sphere(units::Meter(R), li, float(al)));
    g.place(o, p);
    S point = draw16();
    double x = glm::dot(to, V3d(0, 0, -1)), f = (std::sin(std::acos(x)) + (M_PI - std::acos(x)) * x) / M_PI;
    c.note("phase", std::acos(x));
    PBT_CHECK("same", near_(point, surface, 0.06 + 3 * w.half * w.half + 0.01 / std::max(f, 0.02)), "a sphere seen at phase " << std::acos(x) << " sends " << str(surface) << " as a surface and " << str(point) << " as a point");
    c.nontrivial(x < 0.9);
}

// what turns past a turning camera leaves its power along its path, in proportion to the time spent there
PROP(streaks, 400, 12000)
{
    one_thread();
    View w(c, c.range(6, 100), c.range(6, 100), c.logreal(0.02, 0.4));
    Rig g(c, 1);
    int nt = c.range(1, 6);
    double dur = c.logreal(1e-2, 10), Lp = c.logreal(0.3, 1.5 * std::max(w.W, w.H)), th = std::min(Lp / w.f, 0.4);
    V3d k = c.chance(1, 4) ? V3d(0, 0, c.boolean() ? 1 : -1) : c.chance(1, 3) ? hc::unit_vec(c) : nrm(V3d(c.sym(1), c.sym(1), 0.01));
    if (std::abs(k.z) > 0.9) th = c.uniform(0.02, 0.4);
    V3d om = g.world(k) * (th / dur);
    g.top.set_angular_velocity(units::RadiansPerSecond(om.x), units::RadiansPerSecond(om.y), units::RadiansPerSecond(om.z));
    std::vector<Star<S>> stars;
    V3d d0[3];
    double I[3];
    for (size_t b = 0; b < 3; ++b) { // one source in each band
        double px = c.uniform(-2, w.W + 2), py = c.uniform(-2, w.H + 2);
        d0[b] = rot(k, nt == 1 ? 0 : th * c.uniform(0, 1), w.dir(px, py));
        I[b] = c.logreal(1e-9, 1e-3);
        S e{0};
        e[b] = float(I[b]);
        V3d u = g.world(d0[b]);
        if (c.boolean()) stars.push_back(Star<S>(u, e));
        else {
            double r = c.logreal(1, 1e6);
            g.place(g.sc->root.new_instance(g.sc->new_unresolved_object(units::SpectralWattsPerMeterSquared<S>(e))), g.p + u * r);
        }
    }
    g.sc->set_stars(stars);
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(dur)), g.camera, ObservationMode::TRUE_STATE, size_t(nt));
    auto fb = draw(v);
    c.note("W", w.W), c.note("H", w.H), c.note("nt", nt), c.note("length", Lp), c.note("angle", th), c.note("axis", std::to_string(k.x) + "," + std::to_string(k.y) + "," + std::to_string(k.z));
    int M = 4000, some = 0, part = 0;
    for (size_t b = 0; b < 3; ++b) {
        std::vector<double> X(size_t(M), 0), Y(size_t(M), 0), P(size_t(M), 0);
        int in = 0;
        for (int i = 0; i < M; ++i) {
            V3d d = rot(k, -th * (nt == 1 ? 0 : (i + 0.5) / M), d0[b]);
            w.pix(d, X[size_t(i)], Y[size_t(i)]);
            P[size_t(i)] = I[b] * w.area(d) / M;
            in += X[size_t(i)] > 0 && X[size_t(i)] < w.W && Y[size_t(i)] > 0 && Y[size_t(i)] < w.H;
        }
        if (in > 0) ++some;
        if (in > M / 20 && in < M) ++part;
        double full = I[b] * w.area(d0[b]), sag = nt == 1 ? 0 : w.f * th * th / (4.0 * (nt - 1) * (nt - 1));
        double de = nt == 1 ? 0.01 : 0.85 + sag;
        for (int q = 0; q < 9; ++q) {
            bool hor = q % 2;
            double cut = q == 0 ? 1e9 : c.range(0, hor ? w.W : w.H), lo = 0, hi = 0, got = 0;
            for (size_t i = 0; i < size_t(M); ++i) {
                double z = hor ? X[i] : Y[i], e = std::min({X[i], w.W - X[i], Y[i], w.H - Y[i], cut - z});
                if (e > de) lo += P[i];
                if (e > -de) hi += P[i];
            }
            for (int y = 0; y < w.H; ++y)
                for (int x = 0; x < w.W; ++x)
                    if ((hor ? x : y) < cut) got += fb->received_power()(x, y)[b];
            double tol = 2e-3 * full;
            PBT_CHECK(q == 0 ? "total" : "along", got >= lo - tol && got <= hi + tol, "band " << b << ": " << got << " W of a source of " << full << " W fall " << (q == 0 ? "in the image" : (hor ? "left of column " : "above row ") + std::to_string(int(cut))) << ", expected between " << lo << " and " << hi);
        }
    }
    c.nontrivial(nt > 1 && some > 0);
    if (part) c.label("partly_in_view");
}
// out of focus, a point becomes the aperture's disc around the place it has in focus
PROP(discs, 120, 4000)
{
    one_thread();
    View w(c, extent(c), extent(c), c.logreal(0.02, 0.4));
    double blur = c.uniform(0.6, 6);
    Rig g(c, 1);
    double foc = w.f * 0.5 * 0.05 / w.N / blur; // blur = f / focus * radius / pitch
    cam().h.set_focus_distance(units::Meter(foc));
    struct Reset {
        ~Reset() { cam().h.set_focus_distance(units::Meter(std::numeric_limits<float>::infinity())); }
    } reset;
    double px[3], py[3], I[3];
    std::vector<Star<S>> stars;
    for (size_t b = 0; b < 3; ++b) {
        px[b] = c.range(0, w.W - 1) + c.uniform(0.01, 0.99), py[b] = c.range(0, w.H - 1) + c.uniform(0.01, 0.99), I[b] = c.logreal(1e-9, 1e-3);
        if (w.W > 64 && c.chance(1, 3)) px[b] = 64 + c.sym(1); // at the border of two tiles
        S e{0};
        e[b] = float(I[b]);
        stars.push_back(Star<S>(g.world(w.dir(px[b], py[b])), e));
    }
    g.sc->set_stars(stars);
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(1)), g.camera, ObservationMode::TRUE_STATE, 1);
    auto fb = draw(v);
    c.note("W", w.W), c.note("H", w.H), c.note("blur", blur);
    int clipped = 0;
    for (size_t b = 0; b < 3; ++b) {
        double P = I[b] * w.area(w.dir(px[b], py[b])), sum = 0, sx = 0, sy = 0, norm = 0, top = 1 / std::max(1.0, M_PI * blur * blur);
        auto cover = [&](int x, int y) { return std::clamp(blur - std::hypot(x + 0.5 - px[b], y + 0.5 - py[b]) + 0.5, 0.0, 1.0); };
        int R = int(blur) + 3, X = int(px[b]), Y = int(py[b]);
        for (int y = Y - R; y <= Y + R; ++y)
            for (int x = X - R; x <= X + R; ++x) norm += cover(x, y);
        for (int y = 0; y < w.H; ++y)
            for (int x = 0; x < w.W; ++x) {
                double got = fb->received_power()(x, y)[b] / P, want = cover(x, y) / norm;
                sum += got, sx += got * (x + 0.5), sy += got * (y + 0.5);
                PBT_CHECK("disc", std::abs(got - want) <= 0.25 * top, at(x, y) << " receives " << got << " of a point at " << px[b] << "," << py[b] << " blurred over " << blur << " pixels, expected " << want);
            }
        double m = blur + 1.7;
        if (px[b] > m && px[b] < w.W - m && py[b] > m && py[b] < w.H - m) {
            PBT_CHECK("whole", std::abs(sum - 1) < 1e-3, "a blurred point in view gives " << sum << " of its power");
            PBT_CHECK("centre", std::hypot(sx - px[b], sy - py[b]) < (blur < 1.5 ? 0.25 : 0.12), "a point at " << px[b] << "," << py[b] << " is blurred around " << sx << "," << sy);
        } else
            ++clipped;
    }
    c.nontrivial();
    if (clipped) c.label("clipped");
}
// with a point spread function, a point becomes its kernel for the place within the pixel
PROP(stamps, 14, 400)
{
    one_thread();
    View w(c, extent(c), extent(c), c.logreal(0.02, 0.4));
    Rig g(c, 1);
    int r = c.range(1, 6), banks = c.range(1, 5);
    cam().h.use_aperture_psf(r, banks);
    struct Reset {
        ~Reset() { cam().h.delete_psf(); }
    } reset;
    std::vector<Star<S>> stars;
    Image<S> want(w.W, w.H, S{0});
    int n = c.range(1, 12);
    for (int i = 0; i < n; ++i) {
        auto co = [&](int m) {
            double o = c.range(0, banks - 1) + c.uniform(0.05, 0.95); // away from the limits of banks
            return c.chance(1, 3) && m > 64 ? 63 + o / banks + 0.5 : c.range(0, m - 1) + std::fmod(o / banks + 0.5, 1.0);
        };
        double px = co(w.W), py = co(w.H);
        if (!(px > 0.001 && px < w.W - 0.001 && py > 0.001 && py < w.H - 0.001)) continue;
        S e = irr(c, 1e-12, 1e-3);
        stars.push_back(Star<S>(g.world(w.dir(px, py)), e));
        double x0 = std::floor(px - 0.5), y0 = std::floor(py - 0.5);
        const Image<S>& K = cam().m->get_psf_kernel(float(px - 0.5 - x0), float(py - 0.5 - y0));
        double A = w.area(w.dir(px, py));
        for (int y = 0; y <= 2 * r; ++y)
            for (int x = 0; x <= 2 * r; ++x) {
                int X = int(x0) - r + x, Y = int(y0) - r + y;
                if (X >= 0 && Y >= 0 && X < w.W && Y < w.H) want(X, Y) += e * K(x, y) * float(A);
            }
    }
    g.sc->set_stars(stars);
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(1)), g.camera, ObservationMode::TRUE_STATE, 1);
    bool conv = c.boolean(); // the kernel is applied once, whatever is asked for surfaces
    cam().h.enable_psf_convolution(conv);
    auto fb = draw(v);
    cam().h.enable_psf_convolution(false);
    c.note("W", w.W), c.note("H", w.H), c.note("radius", r), c.note("banks", banks), c.note("stars", n);
    for (int y = 0; y < w.H; ++y)
        for (int x = 0; x < w.W; ++x) {
            S got = fb->received_power()(x, y);
            PBT_CHECK("kernel", near_(got, want(x, y), 1e-3, 1e-18), at(x, y) << " receives " << str(got) << ", expected " << str(want(x, y)));
        }
    c.nontrivial(n > 1);
}
// many points drawn by any number of threads make the same image
PROP(threads, 16, 500)
{
    View w(c, c.range(20, 200), c.range(20, 200), 0.3);
    Rig g(c, 1);
    if (c.boolean()) cam().h.set_focus_distance(units::Meter(w.f * 0.5 * 0.05 / w.N / c.uniform(0.6, 4)));
    struct Reset {
        ~Reset() { cam().h.set_focus_distance(units::Meter(std::numeric_limits<float>::infinity())); }
    } reset;
    std::vector<Star<S>> stars;
    for (int i = 0; i < 300; ++i) stars.push_back(Star<S>(g.world(w.dir(c.uniform(0, w.W), c.uniform(0, w.H))), irr(c)));
    g.sc->set_stars(stars);
    g.top.set_angular_velocity(units::RadiansPerSecond(0.01), units::RadiansPerSecond(0.02), units::RadiansPerSecond(-0.01));
    SceneView<S> v(*g.sc, Interval(Time::from_et(0), Time::from_et(1)), g.camera, ObservationMode::TRUE_STATE, size_t(c.range(1, 3)));
    auto go = [&](int n) {
        tbb::global_control k(tbb::global_control::max_allowed_parallelism, size_t(n));
        return draw(v);
    };
    auto a = go(1), b = go(c.range(2, 8));
    for (size_t i = 0; i < a->received_power().size(); ++i)
        for (size_t q = 0; q < 3; ++q) {
            float x = a->received_power()[i][q], y = b->received_power()[i][q];
            PBT_CHECK("power", x == y || std::abs(x - y) < 1e-36f, at(int(i) % w.W, int(i) / w.W) << " receives " << x << " drawn by one thread and " << y << " by several");
        }
    c.nontrivial();
}
// stars of a catalogue are where their proper motion has taken them
PROP(epochs, 150, 5000)
{
    one_thread();
    View w(c, 100, 100, 0.01);
    Scene<S> sc;
    auto top = sc.root.new_subframe();
    double ra = c.uniform(0, 6.28), de = c.sym(1.0), temp = c.uniform(3000, 20000), om = c.logreal(1e-18, 1e-14);
    int n = c.range(1, 3), lost = 0;
    std::vector<StarData> in;
    std::vector<V3d> u0, pm;
    double R2 = M_PI / 180 / 3600 / 1000;
    V3d mid{std::cos(de) * std::cos(ra), std::cos(de) * std::sin(ra), std::sin(de)};
    for (int i = 0; i < n; ++i) {
        StarData s;
        s.id = uint64_t(i), s.RA = ra + c.sym(0.004) / std::cos(de), s.DEC = de + c.sym(0.004);
        s.pmRA = float(c.boolean() ? 0 : c.sym(3e4)), s.pmDEC = float(c.sym(3e4));
        s.temperature = float(temp), s.solid_angle = om, s.visual_magnitude = float(c.uniform(0, 10));
        in.push_back(s);
        V3d e{-std::sin(s.RA), std::cos(s.RA), 0}, m{-std::sin(s.DEC) * std::cos(s.RA), -std::sin(s.DEC) * std::sin(s.RA), std::cos(s.DEC)};
        u0.push_back({std::cos(s.DEC) * std::cos(s.RA), std::cos(s.DEC) * std::sin(s.RA), std::sin(s.DEC)});
        pm.push_back(e * (s.pmRA * R2) + m * (s.pmDEC * R2));
    }
    // a camera that looks at the middle of the field
    V3d ax = crs({0, 0, 1}, mid);
    double an = std::acos(mid.z);
    top.set_rotation(Rd::from_local_to_parent(nrm(ax), units::Radian(an)));
    auto camera = top.new_instance(cam().h);
    auto file = pbt::scratch() + "/stars.hrsc";
    StarCatalog(in).write_star_data(file);
    float lim = c.boolean() ? 100.f : float(c.uniform(0, 10));
    bool dyn = c.chance(3, 4);
    auto epoch = [&] { return Time::from_et(c.sym(100) * 365.25 * 86400); };
    Time now = epoch();
    if (dyn) sc.load_dynamic_stars(file, now, lim);
    else sc.load_stars(file, now, lim);
    int ups = c.range(0, 3);
    for (int i = 0; i < ups; ++i) {
        Time t = c.chance(1, 4) ? now : epoch();
        sc.update_star_epoch(t); // without effect on stars that were not loaded to move
        if (dyn) now = t;
    }
    bool cleared = c.chance(1, 6);
    if (cleared) {
        sc.set_stars({});
        sc.update_star_epoch(epoch());
    }
    SceneView<S> v(sc, Interval(Time::from_et(0), Time::from_et(1)), camera, ObservationMode::ABERRATED_STATE, 1);
    auto fb = draw(v);
    double y = now.et() / (365.25 * 86400);
    c.note("stars", n), c.note("years", y), c.note("dynamic", dyn), c.note("limit", lim);
    S total{0}, want{0}, each = black_body<S>(double(float(temp))) * float(om);
    std::vector<int> left(10000, 0);
    for (size_t i = 0; i < in.size(); ++i) {
        if (cleared || in[i].visual_magnitude > lim) {
            ++lost;
            continue;
        }
        V3d d = rot(nrm(ax), -an, nrm(u0[i] + pm[i] * y));
        double px, py;
        w.pix(d, px, py);
        if (std::min({px, 100 - px, py, 100 - py}) < 2) pbt::discard();
        want += each * float(w.area(d));
        double got = 0;
        for (int q = int(py) - 1; q <= int(py) + 1; ++q)
            for (int p = int(px) - 1; p <= int(px) + 1; ++p) got += fb->received_power()(p, q)[1];
        PBT_CHECK("place", got > 0.99 * each[1] * w.area(d), "a star expected at pixel " << px << "," << py << " after " << y << " years is not there");
    }
    for (size_t i = 0; i < 10000; ++i) total += fb->received_power()[i];
    PBT_CHECK("total", near_(total, want, 1e-3, 1e-36), "the stars send " << str(total) << ", expected " << str(want));
    c.nontrivial(dyn && ups > 0 && lost < n);
}
PROP(changing, 3000, 60000)
{
    // the irradiance of a source between its temporal samples lies on the line between the two neighbours
    int n = c.range(1, 7);
    std::vector<S> e;
    for (int i = 0; i < n; ++i) e.push_back(irr(c));
    TrajectoryArc arc(std::vector<Vec3<float>>(size_t(n), Vec3<float>(0, 0, 1)));
    RenderItem<S> item(arc, e, 0);
    c.nontrivial(n > 1);
    c.note("n", n);
    double top = 0;
    for (auto& x : e)
        for (size_t b = 0; b < 3; ++b) top = std::max(top, double(x[b]));
    for (int k = 0; k < 8; ++k) {
        double t = c.chance(1, 3) ? c.pick({0.0, 1.0, 0.5}) : c.uniform(0, 1), u = double(float(t)) * (n - 1);
        size_t i = size_t(std::min(std::floor(u), std::max(0.0, n - 2.0)));
        S got = item.interpolate_irradiances(float(t));
        for (size_t b = 0; b < 3; ++b) {
            double want = n == 1 ? double(e[0][b]) : double(e[i][b]) + (u - double(i)) * (double(e[i + 1][b]) - double(e[i][b]));
            PBT_CHECK("line", std::abs(got[b] - want) <= 1e-6 * top * n, "irradiance " << got[b] << " at " << t << " of " << n << " samples, want " << want);
        }
    }
    PBT_CHECK("brightest", item.max_irradiance() == float(top), "brightest sample " << item.max_irradiance() << ", want " << top);
}
PBT_MAIN
