// A04: where a camera's pixels look, what it sees, how much light each pixel takes, over histories of settings.
#include "hcommon.hpp"
#include "huira/units/units.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/cameras/camera_model.hpp"
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using S = RGB;
using Cam = CameraModel<S>;
struct D2 {
    double x, y;
};
static D2 distort(int kind, const std::vector<double>& k, D2 p)
{
    double x = p.x, y = p.y, r2 = x * x + y * y, r = std::sqrt(r2);
    if (kind == 0) return p;
    if (kind == 1) {
        double f = 1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2;
        return {x * f + 2 * k[3] * x * y + k[4] * (r2 + 2 * x * x), y * f + k[3] * (r2 + 2 * y * y) + 2 * k[4] * x * y};
    }
    if (kind == 2) {
        double f = (1 + k[0] * r2 + k[1] * r2 * r2 + k[2] * r2 * r2 * r2) / (1 + k[3] * r2 + k[4] * r2 * r2 + k[5] * r2 * r2 * r2);
        return {x * f + 2 * k[6] * x * y + k[7] * (r2 + 2 * x * x) + k[8] * r2 + k[9] * r2 * r2, y * f + k[6] * (r2 + 2 * y * y) + 2 * k[7] * x * y + k[10] * r2 + k[11] * r2 * r2};
    }
    double f = k[1] * r2 + k[3] * r2 * r2 + k[4] * y + k[5] * x, g = k[0] * r + k[2] * r * r2;
    return {x + x * f - y * g, y + y * f + x * g};
}
static D2 undistort(int kind, const std::vector<double>& k, D2 p)
{
    D2 q = p;
    for (int i = 0; i < 200; ++i) {
        D2 e = distort(kind, k, q);
        q.x += p.x - e.x, q.y += p.y - e.y;
    }
    return q;
}
struct Model {
    int w = 8, h = 8, kind = 0;
    double f = 0.05, px = 8.5e-6, py = 8.5e-6, fx = 0, fy = 0, cx = 4, cy = 4, area = 1e-6, focus = INFINITY;
    bool blender = false, dof = false;
    int psf = 0; // radius
    std::vector<double> k;
    void derive() { fx = f / px, fy = f / py; }
    D2 look(D2 p) const { return undistort(kind, k, {(p.x - cx) / fx, (p.y - cy) / fy}); }
    V3d dir(D2 p) const
    {
        D2 n = look(p);
        return blender ? V3d{n.x, -n.y, -1} : V3d{n.x, n.y, 1};
    }
    D2 project(const V3d& v) const
    {
        double d = blender ? -v.z : v.z;
        D2 n = distort(kind, k, {v.x / d, (blender ? -v.y : v.y) / d});
        return {n.x * fx + cx, n.y * fy + cy};
    }
};
static Cam& camera(int i)
{
    static Cam* a[2] = {};
    if (!a[i]) {
        a[i] = new Cam();
        a[i]->configure_sensor_from_pitch(Resolution{4, 4}, units::Micrometer(8.5));
    }
    return *a[i];
}
static double dot(const V3d& a, const V3d& b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
static V3d crs(const V3d& a, const V3d& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static double len(const V3d& a) { return std::sqrt(dot(a, a)); }
// solid angle of a triangle from its corner directions, stable for tiny ones
static double tri(V3d a, V3d b, V3d c)
{
    a = a / len(a), b = b / len(b), c = c / len(c);
    return 2 * std::atan2(std::abs(dot(a, crs(b - a, c - a))), 1 + dot(a, b) + dot(b, c) + dot(c, a));
}
static double omega(const Model& m, int x, int y)
{
    V3d a = m.dir({double(x), double(y)}), b = m.dir({x + 1.0, double(y)}), d = m.dir({x + 1.0, y + 1.0}), e = m.dir({double(x), y + 1.0});
    return tri(a, b, d) + tri(a, d, e);
}
static double corner(const Model& m)
{
    double r = 0;
    for (double x : {0.0, double(m.w)})
        for (double y : {0.0, double(m.h)}) r = std::max(r, std::hypot((x - m.cx) / m.fx, (y - m.cy) / m.fy));
    return r;
}
// does the lens bend the field of view so much that inverting it by fixed-point iteration is hard?
static bool steep(const Model& m)
{
    double R = corner(m), h = 1e-4 * R;
    for (int a = 0; m.kind && a < 16; ++a)
        for (double q : {0.25, 0.5, 0.75, 1.0}) {
            D2 o{q * R * std::cos(a * 0.3926990817), q * R * std::sin(a * 0.3926990817)};
            D2 e = distort(m.kind, m.k, o), ex = distort(m.kind, m.k, {o.x + h, o.y}), ey = distort(m.kind, m.k, {o.x, o.y + h});
            double n = std::abs((ex.x - e.x) / h - 1) + std::abs((ex.y - e.y) / h) + std::abs((ey.x - e.x) / h) + std::abs((ey.y - e.y) / h - 1);
            if (!(n < 0.5) || !(std::hypot(e.x - o.x, e.y - o.y) < 0.1 * R)) return true;
        }
    return false;
}
static void draw_distortion(Ctx& c, Model& m, int kind)
{
    double R = corner(m) * 1.2, a = c.pick({1e-3, 0.02, 0.04}) / (kind == 2 ? 2 : 1);
    m.kind = kind;
    auto q = [&](int p) { return c.chance(1, 4) ? 0.0 : c.sym(a) / std::pow(R, p); };
    if (kind == 1) m.k = {q(2), q(4), q(6), q(1), q(1)};
    if (kind == 2) m.k = {q(2), q(4), q(6), q(2), q(4), q(6), q(1), q(1), q(1), q(3), q(1), q(3)};
    if (kind == 3) m.k = {q(1), q(2), q(3), q(4), q(1), q(1)};
}
static void apply_distortion(Cam& cam, const Model& m)
{
    auto& k = m.k;
    if (m.kind == 0) cam.delete_distortion();
    if (m.kind == 1) cam.set_brown_conrady_distortion(BrownCoefficients(k[0], k[1], k[2], k[3], k[4]));
    if (m.kind == 2) cam.set_opencv_distortion(OpenCVCoefficients(k[0], k[1], k[2], k[3], k[4], k[5], k[6], k[7], k[8], k[9], k[10], k[11]));
    if (m.kind == 3) cam.set_owen_distortion(OwenCoefficients(k[0], k[1], k[2], k[3], k[4], k[5]));
}
static void reset(Cam& cam, Model& m)
{
    m = Model{};
    cam.set_focus_distance(units::Meter(INFINITY));
    cam.delete_distortion();
    cam.use_blender_convention(false);
    cam.delete_psf();
    cam.enable_depth_of_field(false);
    cam.set_focal_length(units::Millimeter(50));
    cam.configure_sensor_from_pitch(Resolution{8, 8}, units::Micrometer(8.5));
    cam.set_fstop(2.8f);
    m.derive();
    m.area = 3.14159265358979 / 4 * std::pow(0.05 / 2.8, 2);
}
static std::string show(const Model& m)
{
    std::ostringstream o;
    o << m.w << "x" << m.h << " f " << m.f << " fx " << m.fx << " fy " << m.fy << " c " << m.cx << "," << m.cy << " distortion " << m.kind << (m.blender ? " blender" : "");
    return o.str();
}
static void pose(Ctx& c, Model& m)
{
    m.w = int(c.chance(1, 4) ? c.range(1, 3) : c.range(1, 24)), m.h = int(c.chance(1, 4) ? c.range(1, 3) : c.range(1, 24));
    double t = c.logreal(1e-5, 1.2), f = c.logreal(1e-3, 10);
    m.f = f;
    m.px = 2 * t * f / std::max(m.w, m.h);
    m.py = c.boolean() ? m.px : m.px * c.real(0.5, 2);
    m.cx = m.w * 0.5, m.cy = m.h * 0.5;
    m.derive();
}
// direction interpolated between the corners of a point's pixel
static V3d between(const Model& m, D2 p)
{
    double x = std::floor(p.x), y = std::floor(p.y), u = p.x - x, v = p.y - y;
    auto n = [&](double a, double b) {
        V3d d = m.dir({a, b});
        return d / len(d);
    };
    V3d d = n(x, y) * ((1 - u) * (1 - v)) + n(x + 1, y) * (u * (1 - v)) + n(x, y + 1) * ((1 - u) * v) + n(x + 1, y + 1) * (u * v);
    return d / len(d);
}
static bool edge(Ctx& c) { return c.chance(1, 4); }
static void look(Ctx& c, const Cam& cam, const Model& m, int n)
{
    PBT_CHECK("resolution", cam.resolution().x == m.w && cam.resolution().y == m.h, "resolution is " << cam.resolution().x << "x" << cam.resolution().y);
    PBT_CHECK("focal_length", std::abs(cam.focal_length().to_si() - m.f) <= 1e-6 * m.f, "focal length is " << cam.focal_length().to_si() << " of " << show(m));
    double F = m.f / std::sqrt(m.area * 4 / 3.14159265358979);
    PBT_CHECK("fstop", std::abs(cam.fstop() - F) <= 1e-5 * F, "f-stop is " << cam.fstop() << ", want " << F);
    PBT_CHECK("blender", cam.is_blender_convention() == m.blender, "is_blender_convention");
    double fm = std::max(m.fx, m.fy), off = std::hypot(m.cx - m.w / 2.0, m.cy - m.h / 2.0), tol = 0.002 + 1e-6 * (m.w + m.h + off) + 3e-7 * fm * corner(m);
    if (m.kind) tol += 4e-6 * fm;
    for (int i = 0; i < n; ++i) {
        D2 p{edge(c) ? (c.boolean() ? 0.0 : std::nextafter(float(m.w), 0.f)) : c.real(0, 0.9999) * m.w, edge(c) ? (c.boolean() ? 0.0 : std::nextafter(float(m.h), 0.f)) : c.real(0, 0.9999) * m.h};
        Pixel P{float(p.x), float(p.y)};
        p = {double(P[0]), double(P[1])};
        Ray<S> r = cam.cast_ray(P);
        V3d d(r.direction());
        PBT_CHECK("ray", len(V3d(r.origin())) == 0 && std::abs(len(d) - 1) < 1e-5 && (m.blender ? -d.z : d.z) > 0, "ray of " << p.x << "," << p.y << " has origin " << len(V3d(r.origin())) << " direction " << d.x << "," << d.y << "," << d.z);
        D2 q = m.project(d);
        double tol1 = tol;
        if (m.kind) {
            D2 e = m.project(between(m, p));
            tol1 += 1.5 * std::hypot(e.x - p.x, e.y - p.y);
        }
        PBT_CHECK("cast_ray", std::hypot(q.x - p.x, q.y - p.y) < tol1, "pixel " << p.x << "," << p.y << " looks along the direction of " << q.x << "," << q.y << " (" << show(m) << ", tolerance " << tol1 << ")");
        if (P[0] == std::floor(P[0]) && P[1] == std::floor(P[1])) PBT_CHECK("cast_ray_int", cam.cast_ray(int(P[0]), int(P[1])).direction() == r.direction(), "cast_ray(int, int)");
        double s = c.logreal(1e-3, 1e12);
        Vec3<float> pt = Vec3<float>(m.dir(p) * s);
        Pixel b = cam.project_point(pt);
        PBT_CHECK("project", std::hypot(b[0] - p.x, b[1] - p.y) < tol, "the point of pixel " << p.x << "," << p.y << " projects to " << b[0] << "," << b[1] << " (" << show(m) << ")");
        double in = std::min(std::min(p.x, m.w - p.x), std::min(p.y, m.h - p.y)), mar = tol + (m.kind ? 0.02 : 0);
        Pixel t = cam.try_project_point(pt);
        if (in > mar) {
            PBT_CHECK("in_fov", cam.in_fov(pt), "the point of pixel " << p.x << "," << p.y << " is out of the field of view of " << show(m));
            PBT_CHECK("try_project", t[0] == b[0] && t[1] == b[1], "try_project_point is not project_point");
        }
        PBT_CHECK("behind", !cam.in_fov(-pt) && std::isnan(cam.try_project_point(-pt)[0]) && std::isnan(cam.try_project_point(-pt)[1]), "a point behind is in the field of view of " << show(m));
        if (!m.kind) {
            D2 o{c.real(-2, 3) * m.w, c.real(-2, 3) * m.h};
            double out = std::max(std::max(-o.x, o.x - m.w), std::max(-o.y, o.y - m.h));
            Vec3<float> po = Vec3<float>(m.dir(o) * s);
            if (out > 2 * tol) PBT_CHECK("outside", !cam.in_fov(po) && std::isnan(cam.try_project_point(po)[0]), "the point of " << o.x << "," << o.y << " is in the field of view of " << show(m));
        }
        PBT_CHECK("frustum", cam.view_frustum().contains(pt) == cam.in_fov(pt), "view_frustum() and in_fov() differ");
        // light
        int x = int(c.below(std::size_t(m.w))), y = int(c.below(std::size_t(m.h)));
        V3d cd = m.dir({x + 0.5, y + 0.5});
        double want = omega(m, x, y) * m.area * std::abs(cd.z) / len(cd), got = cam.pixel_radiance_to_power(x, y);
        double rel = 1e-4 + 1e-6 * (m.w + m.h + off) + 1e-6 * fm * corner(m);
        if (m.kind) {
            V3d b = between(m, {x + 0.5, y + 0.5});
            rel += 4e-6 * fm + 2 * std::abs(b.z * len(cd) / cd.z - 1);
        }
        if (rel < 0.1) PBT_CHECK("power", std::abs(got / want - 1) < rel, "pixel " << x << "," << y << " takes " << got << ", want " << want << " (off by " << got / want - 1 << ", " << show(m) << ")");
        V3d u(c.sym(1), c.sym(1), c.sym(1));
        if (len(u) > 0.1) PBT_CHECK("aperture_area", std::abs(cam.get_projected_aperture_area(Vec3<float>(u * 3.0)) - m.area * std::abs(u.z) / len(u)) < 1e-5 * m.area, "projected aperture area");
    }
    PBT_CHECK("here", !cam.in_fov(Vec3<float>{0, 0, 0}), "the camera sees its own position");
}
PROP(geometry, 2500, 40000)
{
    Model m;
    Cam& cam = camera(0);
    reset(cam, m);
    double area = m.area;
    pose(c, m);
    m.area = area;
    bool pp = c.chance(1, 3);
    if (pp) m.cx = float(c.real(-0.5, 1.5) * m.w), m.cy = float(c.real(-0.5, 1.5) * m.h);
    cam.set_focal_length(units::Meter(m.f));
    if (pp) cam.configure_sensor_from_pitch(Resolution{m.w, m.h}, units::Meter(m.px), units::Meter(m.py), float(m.cx), float(m.cy));
    else cam.configure_sensor_from_pitch(Resolution{m.w, m.h}, units::Meter(m.px), units::Meter(m.py));
    if (c.boolean()) {
        draw_distortion(c, m, int(c.range(1, 3)));
        if (steep(m)) pbt::discard();
        apply_distortion(cam, m);
    }
    if (c.chance(1, 3)) m.blender = true, cam.use_blender_convention();
    c.note("camera", show(m));
    look(c, cam, m, 6);
    // the pixels of a pinhole camera tile its field of view
    if (!m.kind && std::max(m.fx, m.fy) * corner(m) < 1e4) {
        double sum = 0, A = 0;
        V3d a = m.dir({0, 0}), b = m.dir({double(m.w), 0}), d = m.dir({double(m.w), double(m.h)}), e = m.dir({0, double(m.h)});
        for (int x = 0; x < m.w; ++x)
            for (int y = 0; y < m.h; ++y) {
                V3d cd = m.dir({x + 0.5, y + 0.5});
                sum += cam.pixel_radiance_to_power(x, y) / (m.area * std::abs(cd.z) / len(cd));
            }
        A = tri(a, b, d) + tri(a, d, e);
        PBT_CHECK("tiles", std::abs(sum / A - 1) < 1e-3, "the pixels' solid angles sum to " << sum << " of " << A << " (" << show(m) << ")");
    }
    c.nontrivial(m.w > 1 && m.h > 1 && (m.kind || pp || m.blender));
}
PROP(histories, 1200, 20000)
{
    Model m;
    Cam& cam = camera(0);
    reset(cam, m);
    auto setF = [&](double n) { m.area = 3.14159265358979 / 4 * std::pow(m.f / n, 2); };
    int ops = int(c.range(2, 14)), refused = 0, changes = 0;
    for (int o = 0; o < ops; ++o) {
        Model b = m, t;
        int k = int(c.below(12));
        bool ok = true, threw = false;
        std::function<void()> f = [] {};
        switch (k) {
        case 0: {
            double v = c.logreal(1e-3, 1);
            if (c.chance(1, 3)) v = c.pick({0.0, -0.05, double(INFINITY)}), ok = false;
            m.f = v, m.derive();
            f = [&cam, v] { cam.set_focal_length(units::Meter(v)); };
            break;
        }
        case 1: {
            float n = float(c.logreal(0.7, 32));
            if (c.chance(1, 3)) n = c.pick<float>({0.f, -2.f, INFINITY, NAN}), ok = false;
            else setF(n);
            f = [&cam, n] { cam.set_fstop(n); };
            break;
        }
        case 2:
        case 3: {
            pose(c, t);
            m.w = t.w, m.h = t.h, m.py = m.px = t.px / t.f * m.f, m.cx = m.w * 0.5, m.cy = m.h * 0.5;
            std::optional<float> ox, oy;
            std::optional<double> py;
            if (c.boolean()) m.py = m.px * c.real(0.5, 2), py = m.py;
            if (c.chance(1, 3)) ox = float(c.real(0, 1) * m.w), m.cx = *ox;
            if (c.chance(1, 3)) oy = float(c.real(0, 1) * m.h), m.cy = *oy;
            double px = m.px;
            int w = m.w, h = m.h;
            switch (c.below(6)) {
            case 0: (c.boolean() ? ox : oy) = c.pick<float>({NAN, INFINITY, -INFINITY}), ok = false; break;
            case 1: px = c.pick({0.0, -1e-6}), ok = false; break;
            case 2:
                if (c.chance(1, 3)) w = -1, ok = false;
                break;
            }
            m.derive();
            if (k == 2)
                f = [&cam, w, h, px, py, ox, oy] {
                    std::optional<units::Micrometer> u;
                    if (py) u = units::Meter(*py);
                    cam.configure_sensor_from_pitch(Resolution{w, h}, units::Meter(px), u, ox, oy);
                };
            else
                f = [&cam, w, h, px, py, ox, oy] {
                    std::optional<units::Millimeter> u;
                    if (py) u = units::Meter(*py * h);
                    cam.configure_sensor_from_size(Resolution{w, h}, units::Meter(px * w), u, ox, oy);
                };
            break;
        }
        case 4:
        case 5: {
            pose(c, t);
            m.w = t.w, m.h = t.h, m.f = t.f, m.fx = float(t.fx), m.fy = float(t.fy), m.cx = float(c.real(0, 1) * m.w), m.cy = float(c.real(0, 1) * m.h);
            m.px = m.f / m.fx, m.py = m.f / m.fy;
            float fx = float(m.fx), fy = float(m.fy), cx = float(m.cx), cy = float(m.cy);
            if (c.chance(1, 3)) ok = false, (c.boolean() ? fx : fy) = c.pick<float>({0.f, -10.f});
            double an = m.f;
            Resolution res{m.w, m.h};
            if (k == 4) f = [&cam, fx, fy, cx, cy, res, an] { cam.set_intrinsics(fx, fy, cx, cy, res, units::Meter(an)); };
            else
                f = [&cam, fx, fy, cx, cy, res, an] {
                    Mat3<float> K(1.f); // columns
                    K[0][0] = fx, K[1][1] = fy, K[2][0] = cx, K[2][1] = cy;
                    cam.set_intrinsic_matrix(K, res, units::Meter(an));
                };
            break;
        }
        case 6:
        case 7:
            if (c.chance(1, 3)) m.kind = 0, m.k.clear();
            else draw_distortion(c, m, int(c.range(1, 3)));
            f = [&cam, m] { apply_distortion(cam, m); };
            break;
        case 8: {
            pose(c, t);
            m.w = t.w, m.h = t.h, m.px = t.px / t.f * m.f, m.py = t.py / t.f * m.f, m.cx = m.w * 0.5, m.cy = m.h * 0.5, m.derive();
            SimpleSensorConfig<S> sc;
            sc.resolution = Resolution{m.w, m.h}, sc.pitch_x = units::Meter(m.px), sc.pitch_y = units::Meter(m.py);
            f = [&cam, sc] { cam.set_sensor<SimpleSensor<S>>(sc); };
            break;
        }
        case 9: {
            double d = c.logreal(1e-4, 0.1);
            m.area = 3.14159265358979 / 4 * d * d;
            f = [&cam, d] { cam.set_aperture<CircularAperture<S>>(units::Meter(d)); };
            break;
        }
        default: {
            bool v = c.boolean();
            m.blender = v;
            f = [&cam, v] { cam.use_blender_convention(v); };
        }
        }
        // distortions are drawn for a field of view: a much wider one later is another lens
        if (ok && steep(m)) {
            m = b;
            continue;
        }
        c.note("op", std::to_string(k) + (ok ? "" : " (invalid)"));
        try {
            f();
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_CHECK("rejects", threw == !ok, "setting " << k << (ok ? " is refused" : " is accepted"));
        if (!ok) m = b, ++refused;
        else ++changes;
        look(c, cam, m, 2);
    }
    c.nontrivial(changes > 2 && refused > 0);
}
struct Seq : Sampler<float> {
    Ctx& c;
    explicit Seq(Ctx& x) : c(x) {}
    float get_1d() override { return float(c.real(0, 0.999999)); }
    Vec2<float> get_2d() override { return {get_1d(), get_1d()}; }
};
PROP(depth_of_field, 500, 10000)
{
    Model m;
    Cam& cam = camera(0);
    reset(cam, m);
    pose(c, m);
    cam.set_focal_length(units::Meter(m.f));
    cam.configure_sensor_from_pitch(Resolution{m.w, m.h}, units::Meter(m.px), units::Meter(m.py));
    double F = c.chance(1, 4) ? INFINITY : c.logreal(0.1, 1e4) * (c.chance(1, 6) ? -1 : 1);
    double D = c.logreal(1e-3, 0.5), most = 5 * std::min(m.px, m.py) * std::abs(F) / m.f; // blur of a few pixels
    D = std::min(D, most);
    cam.set_fstop(float(m.f / D));
    if (c.boolean()) {
        draw_distortion(c, m, int(c.range(1, 3)));
        if (steep(m)) pbt::discard();
        apply_distortion(cam, m);
    }
    if (c.chance(1, 3)) m.blender = true, cam.use_blender_convention();
    if (c.boolean()) cam.set_focus_distance(units::Meter(F));
    else cam.set_diopters(units::Diopter(std::isinf(F) ? 0.0 : 1 / F));
    PBT_CHECK("focus", std::isinf(F) ? std::isinf(cam.get_focus_distance().to_si()) && cam.get_diopters().to_si() == 0 : std::abs(cam.get_focus_distance().to_si() / F - 1) < 1e-5 && std::abs(cam.get_diopters().to_si() * F - 1) < 1e-5, "focus distance " << cam.get_focus_distance().to_si() << " and diopters " << cam.get_diopters().to_si() << ", set to " << F);
    Seq rnd(c);
    Pixel P{float(c.real(0, 0.999) * m.w), float(c.real(0, 0.999) * m.h)};
    V3d pin(cam.cast_ray(P).direction());
    Ray<S> off = cam.cast_ray(P, rnd);
    PBT_CHECK("off", len(V3d(off.origin())) == 0 && len(V3d(off.direction()) - pin) < 1e-6, "without depth of field the rays leave the pinhole");
    cam.enable_depth_of_field();
    double far_ = 0;
    for (int i = 0; i < 4; ++i) {
        Ray<S> r = cam.cast_ray(P, rnd);
        V3d o(r.origin()), d(r.direction());
        PBT_CHECK("aperture", o.z == 0 && len(o) <= D / 2 * 1.0001, "a ray starts " << len(o) << " m off the centre of an aperture of " << D << " m");
        PBT_CHECK("unit", std::abs(len(d) - 1) < 1e-5, "direction of length " << len(d));
        far_ = std::max(far_, len(o));
        if (std::isinf(F)) PBT_CHECK("parallel", len(d - pin) < 1e-5, "rays of one pixel are not parallel in focus at infinity");
        else {
            V3d focal = pin * (F / std::abs(pin.z)), w = (focal - o) * (F < 0 ? -1.0 : 1.0);
            PBT_CHECK("focal_plane", len(crs(d, w)) < 1e-5 * len(w) && dot(d, w) > 0, "a ray misses the pixel's point in the focal plane by " << len(crs(d, w)) << " m at " << F << " m (" << show(m) << ")");
        }
    }
    if (!std::isinf(F)) {
        PBT_CHECK("rejects", hc::throws([&] { cam.set_focus_distance(units::Meter(0)); }) && std::abs(cam.get_focus_distance().to_si() / F - 1) < 1e-5, "a focus distance of 0");
    }
    cam.enable_depth_of_field(false);
    c.nontrivial(far_ > 0 && !std::isinf(F));
}
// the point-spread function is that of the present aperture, focal length and pixels
PROP(psf_histories, 40, 400)
{
    Model m;
    Cam &cam = camera(0), &ref = camera(1);
    reset(cam, m);
    int radius = int(c.range(1, 6)), banks = int(c.range(1, 3));
    double f = 0.05, px = 8.5e-6, D = 0.05 / 2.8;
    bool on = false, own = false; // own: a PSF that does not come from the aperture, and stays as it is
    std::vector<Image<S>> mine;
    int ops = int(c.range(2, 7)), after = 0;
    for (int i = 0; i < ops; ++i) {
        int k = int(c.below(8));
        if (on) after += k < 5;
        c.note("op", k);
        switch (k) {
        case 0: f = c.real(0.02, 0.2), cam.set_focal_length(units::Meter(f)); break;
        case 1: D = f / c.real(1, 20), cam.set_fstop(float(f / D)); break;
        case 2: px = c.real(2e-6, 2e-5), cam.configure_sensor_from_pitch(Resolution{8, 8}, units::Meter(px)); break;
        case 3: D = c.real(1e-3, 2e-2), cam.set_aperture<CircularAperture<S>>(units::Meter(D)); break;
        case 4: px = c.real(2e-6, 2e-5), cam.set_intrinsics(float(f / px), float(f / px), 4, 4, Resolution{8, 8}, units::Meter(f)); break;
        case 5: {
            int r = c.pick({-1, -7, 2, 3}), b = r > 0 ? c.pick({0, -1, -2}) : int(c.range(1, 2));
            PBT_CHECK("refuses", hc::throws([&] { cam.use_aperture_psf(r, b); }), "a PSF of radius " << r << " with " << b << " banks is accepted");
            break;
        }
        case 6: {
            radius = int(c.range(1, 4)), banks = int(c.range(1, 3));
            auto um = [&] { return units::Micrometer(c.real(2, 20)); };
            auto x = um(), y = um();
            units::Millimeter fl(c.real(20, 200)), ap(c.real(1, 20));
            cam.set_psf<AiryDisk<S>>(fl, x, y, ap, radius, banks);
            AiryDisk<S> a(fl, x, y, ap, radius, banks);
            mine = a.get_all_kernels();
            on = own = true;
            break;
        }
        default:
            if (on && c.boolean()) cam.delete_psf(), on = own = false;
            else radius = int(c.range(1, 6)), cam.use_aperture_psf(radius, banks), on = true, own = false;
        }
        PBT_CHECK("has_psf", cam.has_psf() == on, "has_psf() is " << cam.has_psf());
        if (!on) continue;
        PBT_CHECK("radius", cam.get_psf_radius() == radius, "kernel radius " << cam.get_psf_radius() << ", want " << radius);
        float u = float(c.real(0, 0.99)), v = float(c.real(0, 0.99));
        if (!own) {
            Model t;
            reset(ref, t);
            ref.set_focal_length(units::Meter(f));
            ref.configure_sensor_from_pitch(Resolution{8, 8}, units::Meter(px));
            ref.set_fstop(float(f / D));
            ref.use_aperture_psf(radius, banks);
        }
        const Image<S>&a = cam.get_psf_kernel(u, v), &b = own ? mine[std::size_t(int(v * float(banks)) * banks + int(u * float(banks)))] : ref.get_psf_kernel(u, v);
        double worst = 0;
        for (std::size_t q = 0; q < a.size() && q < b.size(); ++q)
            for (std::size_t s = 0; s < 3; ++s) worst = std::max(worst, double(std::abs(a[q][s] - b[q][s])));
        PBT_CHECK("kernel", a.size() == b.size() && worst < (own ? 1e-6 : 2e-3), "after operation " << k << " the kernel differs by " << worst << (own ? " from the PSF that was set" : " from that of a new camera with the same settings") << " (f " << f << " pitch " << px << " aperture " << D << ")");
    }
    c.nontrivial(after > 0);
}
PROP(settings, 2000, 20000)
{
    Model m;
    Cam& cam = camera(0);
    reset(cam, m);
    float a = c.pick<float>({0.f, 0.3f, 1.f, -0.1f, 1.1f, NAN});
    bool ok = a >= 0 && a <= 1;
    PBT_CHECK("veiling_glare", hc::throws([&] { cam.set_veiling_glare(a); }) == !ok, "veiling glare of " << a);
    cam.disable_veiling_glare();
    double ang = c.sym(6.0);
    SimpleSensorConfig<S> sc;
    sc.resolution = Resolution{4, 4}, sc.rotation = units::Radian(ang);
    cam.set_sensor<SimpleSensor<S>>(sc);
    Rotation<double> r = cam.sensor_rotation();
    V3d x = r * V3d(1, 0, 0), z = r * V3d(0, 0, 1);
    PBT_CHECK("sensor_rotation", std::abs(x.x - std::cos(ang)) < 1e-6 && std::abs(x.y - std::sin(ang)) < 1e-6 && std::abs(z.z - 1) < 1e-9, "a sensor turned by " << ang << " has its x axis along " << x.x << "," << x.y);
    FrameBuffer<S> fb = cam.make_frame_buffer();
    PBT_CHECK("frame_buffer", fb.width() == 4 && fb.height() == 4, "frame buffer is " << fb.width() << "x" << fb.height());
    c.nontrivial(ok);
}
PBT_MAIN
