// A06: handles: what is set through one is what the object behind it does, and nothing works through the handle of a thing that is gone.
#include "rig.hpp"
using namespace rig;
using V3 = Vec3<float>;
using Cm = CameraModel<S>;
using H = CameraModelHandle<S>;
struct Peek : Cm { // the state that decides how a frame is drawn
    static SensorModel<S>& sensor(const Cm& m) { return *(m.*(&Peek::sensor_)); }
    static std::vector<double> state(const Cm& m)
    {
        auto& s = sensor(m);
        std::vector<double> v;
        auto add = [&](auto... x) { (v.push_back(double(x)), ...); };
        add(m.*(&Peek::convolve_psf_), m.*(&Peek::use_aperture_psf_), m.*(&Peek::d_), m.*(&Peek::veiling_alpha_), m.*(&Peek::veiling_glare_enabled_));
        add(m.*(&Peek::scatter_fraction_), m.*(&Peek::scatter_falloff_exponent_), m.*(&Peek::r0_), m.*(&Peek::scatter_radius_), m.*(&Peek::scatter_enabled_), m.*(&Peek::depth_of_field_));
        add(m.resolution().x, m.resolution().y, s.pixel_pitch().x, s.pixel_pitch().y, s.full_well_capacity(), s.simulate_noise(), s.read_noise(), s.dark_current(), s.bias_level_dn(), s.bit_depth(), s.gain_adu(), s.unity_db(), s.rotation().to_si());
        for (size_t i = 0; i < 3; ++i) add(s.quantum_efficiency()[i]);
        add(m.has_psf());
        if (m.has_psf()) {
            add(m.get_psf_radius());
            for (float u : {0.1f, 0.7f}) {
                auto& k = m.get_psf_kernel(u, 0.4f);
                for (size_t i = 0; i < k.size(); ++i) add(k[i][0], k[i][1], k[i][2]);
            }
        }
        add(m.is_blender_convention(), m.get_projected_aperture_area({0.1f, 0.2f, 0.9f}));
        for (float x : {0.1f, 0.5f, 0.95f})
            for (float y : {0.05f, 0.6f}) {
                auto r = m.cast_ray(Pixel{x * float(m.resolution().x), y * float(m.resolution().y)});
                add(r.direction().x, r.direction().y, r.direction().z);
            }
        return v;
    }
};
template <class F> static bool same_outcome(F&& f, F&& g)
{
    return hc::throws(f) == hc::throws(g);
}
static void reset(Cm& m)
{
    m.delete_psf(), m.delete_distortion(), m.enable_psf_convolution(false), m.disable_veiling_glare(), m.disable_harvey_shack_scatter(), m.enable_depth_of_field(false), m.use_blender_convention(false);
    m.set_focus_distance(units::Meter(INFINITY));
    m.set_intrinsics(400, 400, 8, 8, Resolution{16, 16}, units::Millimeter(50));
    SimpleSensorConfig<S> sc;
    sc.resolution = Resolution{16, 16};
    m.set_sensor<SimpleSensor<S>>(sc);
    m.set_focal_length(units::Millimeter(50));
    m.configure_sensor_from_pitch(Resolution{16, 16}, units::Micrometer(8.5));
    m.set_aperture<CircularAperture<S>>(units::Millimeter(20));
}
struct Pair {
    Scene<S> sc;
    H h;
    Cm ref;
    Pair() : h(sc.new_camera_model("cam")) {}
};
// one setting, through the handle or directly
struct Op {
    std::string name;
    std::function<void(H&)> by_handle;
    std::function<void(Cm&)> direct;
};
static double len(Ctx& c, double lo, double hi) { return c.chance(1, 8) ? c.pick<double>({0.0, -1.0}) : c.uniform(lo, hi); } // a quantity cannot be NaN
static float any(Ctx& c, double lo, double hi) { return float(c.chance(1, 8) ? c.pick<double>({0.0, -1.0, NAN, INFINITY}) : c.uniform(lo, hi)); }
static Op op(Ctx& c)
{
    auto res = Resolution{c.range(2, 20), c.range(2, 20)};
    switch (c.below(34)) {
    case 0: { units::Millimeter f(len(c, 20, 100)); return {"focal length", [=](H& h) { h.set_focal_length(f); }, [=](Cm& m) { m.set_focal_length(f); }}; }
    case 1: { float n = any(c, 1, 16); return {"f-stop", [=](H& h) { h.set_fstop(n); }, [=](Cm& m) { m.set_fstop(n); }}; }
    case 2: { double k = c.sym(0.1); return {"Brown", [=](H& h) { BrownCoefficients b; b.k1 = k, b.p2 = k / 10; h.set_brown_conrady_distortion(b); }, [=](Cm& m) { BrownCoefficients b; b.k1 = k, b.p2 = k / 10; m.set_brown_conrady_distortion(b); }}; }
    case 3: { double k = c.sym(0.1); return {"OpenCV", [=](H& h) { OpenCVCoefficients b; b.k2 = k, b.p1 = k / 10; h.set_opencv_distortion(b); }, [=](Cm& m) { OpenCVCoefficients b; b.k2 = k, b.p1 = k / 10; m.set_opencv_distortion(b); }}; }
    case 4: { double k = c.sym(1e-3); return {"Owen", [=](H& h) { OwenCoefficients b; b.e2 = k, b.e5 = k / 10; h.set_owen_distortion(b); }, [=](Cm& m) { OwenCoefficients b; b.e2 = k, b.e5 = k / 10; m.set_owen_distortion(b); }}; }
    case 5: return {"no distortion", [](H& h) { h.delete_distortion(); }, [](Cm& m) { m.delete_distortion(); }};
    case 6: { SimpleSensorConfig<S> s; s.resolution = res, s.bit_depth = c.range(4, 14); return {"sensor", [=](H& h) { h.set_sensor<SimpleSensor<S>>(s); }, [=](Cm& m) { m.set_sensor<SimpleSensor<S>>(s); }}; }
    case 7: {
        units::Micrometer a(len(c, 5, 20)), b(c.uniform(5, 20));
        std::optional<float> cx, cy;
        std::optional<units::Micrometer> pb;
        if (c.boolean()) cx = float(c.uniform(0, 20));
        if (c.boolean()) cy = float(c.uniform(0, 20));
        if (c.boolean()) pb = b;
        return {"pitch", [=](H& h) { h.configure_sensor_from_pitch(res, a, pb, cx, cy); }, [=](Cm& m) { m.configure_sensor_from_pitch(res, a, pb, cx, cy); }};
    }
    case 8: {
        units::Millimeter a(len(c, 2, 20)), b(c.uniform(2, 20));
        std::optional<float> cx, cy;
        std::optional<units::Millimeter> pb;
        if (c.boolean()) cx = float(c.uniform(0, 20));
        if (c.boolean()) cy = float(c.uniform(0, 20));
        if (c.boolean()) pb = b;
        return {"size", [=](H& h) { h.configure_sensor_from_size(res, a, pb, cx, cy); }, [=](Cm& m) { m.configure_sensor_from_size(res, a, pb, cx, cy); }};
    }
    case 9: {
        Mat3<float> k{1};
        k[0][0] = any(c, 100, 900), k[1][1] = float(c.uniform(100, 900)), k[2][0] = float(c.uniform(0, 20)), k[2][1] = float(c.uniform(0, 20));
        units::Millimeter f(c.uniform(20, 80));
        return {"matrix", [=](H& h) { h.set_intrinsic_matrix(k, res, f); }, [=](Cm& m) { m.set_intrinsic_matrix(k, res, f); }};
    }
    case 10: {
        float fx = any(c, 100, 900), fy = float(c.uniform(100, 900)), cx = float(c.uniform(0, 20)), cy = float(c.uniform(0, 20));
        units::Millimeter f(c.uniform(20, 80));
        return {"intrinsics", [=](H& h) { h.set_intrinsics(fx, fy, cx, cy, res, f); }, [=](Cm& m) { m.set_intrinsics(fx, fy, cx, cy, res, f); }};
    }
    case 11: { double q = any(c, 0, 1); return {"efficiency", [=](H& h) { h.set_sensor_quantum_efficiency(q); }, [=](Cm& m) { Peek::sensor(m).set_quantum_efficiency(S{float(q)}); }}; }
    case 12: { S q = rgb(c, 0, 1); return {"efficiencies", [=](H& h) { h.set_sensor_quantum_efficiency(q); }, [=](Cm& m) { Peek::sensor(m).set_quantum_efficiency(q); }}; }
    case 13: { float x = any(c, 1e2, 1e5); return {"full well", [=](H& h) { h.set_sensor_full_well_capacity(x); }, [=](Cm& m) { Peek::sensor(m).set_full_well_capacity(x); }}; }
    case 14: { bool x = c.boolean(); return {"noise", [=](H& h) { h.set_sensor_simulate_noise(x); }, [=](Cm& m) { Peek::sensor(m).set_simulate_noise(x); }}; }
    case 15: { float x = any(c, 0, 50); return {"read noise", [=](H& h) { h.set_sensor_read_noise(x); }, [=](Cm& m) { Peek::sensor(m).set_read_noise(x); }}; }
    case 16: { float x = any(c, 0, 50); return {"dark current", [=](H& h) { h.set_sensor_dark_current(x); }, [=](Cm& m) { Peek::sensor(m).set_dark_current(x); }}; }
    case 17: { float x = any(c, 0, 50); return {"bias", [=](H& h) { h.set_sensor_bias_level(x); }, [=](Cm& m) { Peek::sensor(m).set_bias_level_dn(x); }}; }
    case 18: { int x = c.range(-1, 20); return {"bits", [=](H& h) { h.set_sensor_bit_depth(x); }, [=](Cm& m) { Peek::sensor(m).set_bit_depth(x); }}; }
    case 19: { float x = any(c, 0.1, 5); return {"gain", [=](H& h) { h.set_sensor_gain(x); }, [=](Cm& m) { Peek::sensor(m).set_gain_adu(x); }}; }
    case 20: { float x = any(c, -20, 20); return {"gain in dB", [=](H& h) { h.set_sensor_gain_db(x); }, [=](Cm& m) { Peek::sensor(m).set_gain_db(x); }}; }
    case 21: { float x = any(c, -20, 20); return {"unity dB", [=](H& h) { h.set_sensor_uinty_db(x); }, [=](Cm& m) { Peek::sensor(m).set_unity_db(x); }}; }
    case 22: { units::Radian x(c.sym(3)); return {"rotation", [=](H& h) { h.set_sensor_rotation(x); }, [=](Cm& m) { Peek::sensor(m).set_rotation(x); }}; }
    case 23: { units::Millimeter x(c.uniform(1, 40)); return {"aperture", [=](H& h) { h.set_aperture<CircularAperture<S>>(x); }, [=](Cm& m) { m.set_aperture<CircularAperture<S>>(x); }}; }
    case 24: { units::Micrometer x(c.uniform(2, 20)); int r = c.range(1, 2), b = c.range(1, 2); return {"PSF", [=](H& h) { h.set_psf<AiryDisk<S>>(units::Millimeter(50), x, x, units::Millimeter(10), r, b); }, [=](Cm& m) { m.set_psf<AiryDisk<S>>(units::Millimeter(50), x, x, units::Millimeter(10), r, b); }}; }
    case 25: { int r = c.range(-1, 2), b = c.range(0, 2); return {"aperture PSF", [=](H& h) { h.use_aperture_psf(r, b); }, [=](Cm& m) { m.use_aperture_psf(r, b); }}; }
    case 26: return {"no aperture PSF", [](H& h) { h.use_aperture_psf(false); }, [](Cm& m) { m.delete_psf(); }};
    case 27: { bool x = c.boolean(); return {"convolve", [=](H& h) { h.enable_psf_convolution(x); }, [=](Cm& m) { m.enable_psf_convolution(x); }}; }
    case 28: return {"no PSF", [](H& h) { h.delete_psf(); }, [](Cm& m) { m.delete_psf(); }};
    case 29: {
        float x = any(c, 0, 1);
        if (c.chance(1, 4)) return {"no glare", [](H& h) { h.disable_veiling_glare(); }, [](Cm& m) { m.disable_veiling_glare(); }};
        return {"glare", [=](H& h) { h.set_veiling_glare(x); }, [=](Cm& m) { m.set_veiling_glare(x); }};
    }
    case 30: {
        float a = any(c, 0, 1), b = any(c, 1, 3), r = any(c, 0, 2), s = any(c, 0, 30);
        if (c.chance(1, 4)) return {"no scatter", [](H& h) { h.disable_harvey_shack_scatter(); }, [](Cm& m) { m.disable_harvey_shack_scatter(); }};
        return {"scatter", [=](H& h) { h.set_harvey_shack_scatter(a, b, r, s); }, [=](Cm& m) { m.set_harvey_shack_scatter(a, b, r, s); }};
    }
    case 31: { bool x = c.boolean(); return {"depth of field", [=](H& h) { h.enable_depth_of_field(x); }, [=](Cm& m) { m.enable_depth_of_field(x); }}; }
    case 32: {
        double x = c.chance(1, 10) ? c.pick<double>({0.0, INFINITY}) : c.uniform(30, 1000) * c.pick({-1, 1, 1, 1});
        if (c.boolean()) return {"focus", [=](H& h) { h.set_focus_distance(units::Meter(x)); }, [=](Cm& m) { m.set_focus_distance(units::Meter(x)); }};
        return {"diopters", [=](H& h) { h.set_diopters(units::Diopter(1 / x)); }, [=](Cm& m) { m.set_diopters(units::Diopter(1 / x)); }};
    }
    default: { bool x = c.boolean(); return {"convention", [=](H& h) { h.use_blender_convention(x); }, [=](Cm& m) { m.use_blender_convention(x); }}; }
    }
}
static bool eq(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
PROP(camera, 500, 8000)
{
    static Pair* p = new Pair();
    auto live = p->h.get();
    reset(*live), reset(p->ref);
    int n = c.range(1, 8), refused = 0;
    std::string hist;
    for (int i = 0; i < n; ++i) {
        Op o = op(c);
        hist += o.name + ", ";
        bool a = hc::throws([&] { o.by_handle(p->h); }), b = hc::throws([&] { o.direct(p->ref); });
        refused += a;
        PBT_CHECK("outcome", a == b, o.name << " through the handle " << (a ? "fails" : "works") << " and " << (b ? "fails" : "works") << " directly; after " << hist);
        auto x = Peek::state(*live), y = Peek::state(p->ref);
        PBT_CHECK("state", x.size() == y.size(), "after " << hist << " the cameras differ");
        for (size_t k = 0; k < x.size(); ++k) PBT_CHECK("state", eq(x[k], y[k]), "after " << hist << " value " << k << " of the camera is " << x[k] << " set through the handle and " << y[k] << " directly");
        PBT_CHECK("getters", eq(p->h.focal_length().to_si(), p->ref.focal_length().to_si()) && eq(p->h.fstop(), p->ref.fstop()) && eq(p->h.get_focus_distance().to_si(), p->ref.get_focus_distance().to_si()) && eq(p->h.get_diopters().to_si(), p->ref.get_diopters().to_si()), "getters of the handle after " << hist);
        V3 d{float(c.sym(0.2)), float(c.sym(0.2)), p->ref.is_blender_convention() ? -1.f : 1.f};
        Pixel u = p->h.project_point(d), v = p->ref.project_point(d);
        PBT_CHECK("project", eq(u.x, v.x) && eq(u.y, v.y), "project_point of the handle after " << hist);
        auto fb = p->h.make_frame_buffer();
        PBT_CHECK("frame", fb.width() == p->ref.resolution().x && fb.height() == p->ref.resolution().y, "a frame buffer of " << fb.width() << "x" << fb.height());
    }
    c.note("history", hist);
    c.nontrivial(n > 2);
    if (refused) c.label("refused");
}
template <class T, class F> static Image<T> pic(Ctx& c, F px)
{
    Image<T> im(c.range(1, 3), c.range(1, 3));
    for (size_t i = 0; i < im.size(); ++i) im[i] = px();
    return im;
}
PROP(material, 6000, 100000)
{
    Scene<S> sc;
    auto white = sc.new_material(sc.new_bsdf_lambertian());
    auto mp = white.get();
    // a material made of the same defaults, set directly
    std::shared_ptr<BSDF<S>> lam = std::make_shared<LambertianBSDF<S>>();
    Material<S> ref(lam, mp->albedo_image_, mp->alpha_image_, mp->metallic_image_, mp->roughness_image_, mp->normal_image_, mp->transmission_image_, mp->emissive_image_);
    int n = c.range(1, 10), textures = 0;
    std::string hist;
    auto unit = [&] { return float(c.uniform(0, 1)); };
    for (int i = 0; i < n; ++i) {
        int k = int(c.below(22));
        hist += std::to_string(k) + " ";
        auto colour = [&] { ++textures; return sc.add_texture(pic<S>(c, [&] { return rgb(c, 0, 1); })); };
        auto grey = [&] { ++textures; return sc.add_texture(pic<float>(c, unit)); };
        S f = rgb(c, 0, 1);
        float g = unit();
        switch (k) {
        case 0: { auto t = colour(); white.set_albedo_image(t), ref.set_albedo(t.get()->shared_image()); break; }
        case 1: white.set_albedo_factor(f), ref.set_albedo_factor(f); break;
        case 2: white.reset_albedo(), ref.reset_albedo(); break;
        case 3: { auto t = grey(); white.set_alpha_image(t), ref.set_alpha(t.get()->shared_image()); break; }
        case 4: white.set_alpha_factor(g), ref.set_alpha_factor(g); break;
        case 5: white.reset_alpha(), ref.reset_alpha(); break;
        case 6: { auto t = grey(); white.set_metallic_image(t), ref.set_metallic_image(t.get()->shared_image()); break; }
        case 7: white.set_metallic_factor(g), ref.set_metallic_factor(g); break;
        case 8: white.reset_metallic(), ref.reset_metallic(); break;
        case 9: { auto t = grey(); white.set_roughness_image(t), ref.set_roughness_image(t.get()->shared_image()); break; }
        case 10: white.set_roughness_factor(g), ref.set_roughness_factor(g); break;
        case 11: white.reset_roughness(), ref.reset_roughness(); break;
        case 12: { ++textures; auto t = sc.add_normal_texture(pic<V3>(c, [&] { return V3{unit(), unit(), 1.f}; })); white.set_normal_image(t), ref.set_normal_image(t.get()->shared_image()); break; }
        case 13: white.set_normal_factor(g), ref.set_normal_factor(g); break;
        case 14: white.reset_normal(), ref.reset_normal(); break;
        case 15: { auto t = colour(); white.set_transmission_image(t), ref.set_transmission_image(t.get()->shared_image()); break; }
        case 16: white.set_transmission_factor(f), ref.set_transmission_factor(f); break;
        case 17: white.reset_transmission(), ref.reset_transmission(); break;
        case 18: { auto t = colour(); white.set_emissive_image(t), ref.set_emissive_image(t.get()->shared_image()); break; }
        case 19: white.set_emissive_factor(f), ref.set_emissive_factor(f); break;
        case 20: white.reset_emissive(), ref.reset_emissive(); break;
        default: { std::shared_ptr<BSDF<S>> b; if (c.boolean()) b = std::make_shared<CookTorranceBSDF<S>>(); else b = std::make_shared<OrenNayarBSDF<S>>(); white.set_bsdf(b), ref.set_bsdf(b); }
        }
    }
    Interaction<S> is;
    is.normal_g = is.normal_s = {0, 0, 1}, is.tangent = {1, 0, 0}, is.bitangent = {0, 1, 0};
    is.wo = glm::normalize(V3{0.2f, 0.1f, 1.f});
    is.vertex_albedo = S{1};
    V3 wi = glm::normalize(V3{-0.3f, 0.2f, 1.f});
    for (int q = 0; q < 4; ++q) {
        is.uv = {unit(), unit()};
        auto a = mp->evaluate(is), b = ref.evaluate(is);
        auto all = [&](const MaterialEval<S>& e, const Material<S>& m) {
            auto f = m.bsdf_eval(is.wo, wi, e);
            auto& p = e.params;
            return std::vector<double>{p.albedo[0], p.albedo[1], p.albedo[2], p.metallic, p.roughness, p.opacity, p.transmission[0], p.transmission[2], p.emission[0], p.emission[1], e.isect.normal_s.x, e.isect.normal_s.y, e.isect.normal_s.z, f[0], f[1], f[2]};
        };
        auto x = all(a, *mp), y = all(b, ref);
        for (size_t k = 0; k < x.size(); ++k) PBT_CHECK("material", eq(x[k], y[k]), "after " << hist << " value " << k << " of the material is " << x[k] << " set through the handle and " << y[k] << " directly");
    }
    c.note("history", hist);
    c.nontrivial(textures > 0 && n > 2);
}
// the handle of a thing that is gone refuses whatever it is asked
PROP(gone, 400, 6000)
{
    auto sc = std::make_unique<Scene<S>>();
    auto tex = sc->add_texture(pic<S>(c, [&] { return rgb(c, 0, 1); }), "tex");
    auto mat = sc->new_material(sc->new_bsdf_lambertian());
    auto mesh = sc->add_mesh(IndexBuffer{0, 1, 2}, VertexBuffer<S>(3), "mesh");
    auto ell = sc->add_ellipsoid(units::Meter(1), units::Meter(1), units::Meter(1), "ell");
    auto pr = sc->add_primitive(ell, mat, "prim");
    auto light = sc->new_sphere_light(units::Meter(1), units::Watt(1), "lamp");
    auto irr = units::SpectralWattsPerMeterSquared<S>(S{1});
    auto star = sc->new_unresolved_object(irr, "star");
    auto frame = sc->root.new_subframe();
    auto inst = frame.new_instance(pr);
    std::vector<std::pair<std::string, std::function<void()>>> calls{
        {"texture resolution", [&] { (void)tex.resolution(); }}, {"texture name", [&] { (void)tex.name(); }}, {"set_albedo_image", [&] { mat.set_albedo_image(tex); }}, {"set_albedo_factor", [&] { mat.set_albedo_factor(S{1}); }}, {"reset_normal", [&] { mat.reset_normal(); }},
        {"material id", [&] { (void)mat.id(); }}, {"vertex count", [&] { (void)mesh.get_vertex_count(); }}, {"mesh", [&] { (void)mesh.get_mesh_shared(); }}, {"ellipsoid type", [&] { (void)ell.type(); }}, {"primitive name", [&] { (void)pr.name(); }},
        {"light", [&] { (void)light.get(); }}, {"set_irradiance", [&] { star.set_irradiance(irr); }}, {"set_irradiance in W", [&] { star.set_irradiance(units::WattsPerMeterSquared(1)); }}, {"get_irradiance", [&] { (void)star.get_irradiance(Time::from_et(0)); }},
        {"set_position", [&] { inst.set_position(units::Meter(1), units::Meter(2), units::Meter(3)); }}, {"set_scale", [&] { inst.set_scale(2, 2, 2); }}, {"get_static_position", [&] { (void)inst.get_static_position(); }}, {"new_subframe", [&] { (void)frame.new_subframe(); }}, {"new_instance", [&] { (void)frame.new_instance(light); }}};
    for (auto& [n, f] : calls) PBT_CHECK("works", !hc::throws(f), n << " fails while the scene is there");
    S power = rgb(c, 0, 5);
    star.set_irradiance(units::SpectralWattsPerMeterSquared<S>(power));
    PBT_CHECK("irradiance", star.get_irradiance(Time::from_et(c.sym(1e8))) == power && star.get()->get_irradiance(Time::from_et(0)) == power, "irradiance set through the handle");
    double w = c.uniform(0, 10);
    star.set_irradiance(units::WattsPerMeterSquared(w));
    PBT_CHECK("irradiance", std::abs(star.get_irradiance(Time::from_et(0)).total() - w) < 1e-5 * w + 1e-12, "total irradiance set through the handle");
    PBT_CHECK("vertex_count", mesh.get_vertex_count() == 3, "vertex count");
    PBT_CHECK("wrong_type", hc::throws([&] { (void)GeometryHandle<S>(ell).template get<Mesh<S>>(); }) && hc::throws([&] { (void)MeshHandle<S>(std::weak_ptr<Geometry<S>>(ell.get())).get_vertex_count(); }), "an ellipsoid is taken for a mesh");
    sc.reset();
    PBT_CHECK("valid", !tex.valid() && !mat.valid() && !mesh.valid() && !pr.valid() && !light.valid() && !star.valid() && !inst.valid() && !frame.valid(), "a handle is valid without its scene");
    int n = c.range(1, 6);
    for (int i = 0; i < n; ++i) {
        auto& [name, f] = calls[c.below(calls.size())];
        c.note("call", name);
        PBT_CHECK("refused", hc::throws(f), name << " works without the scene");
    }
    c.nontrivial(n > 2);
}
PBT_MAIN
