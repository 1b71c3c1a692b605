// G02: frustum tests and clipping of triangles and trajectory arcs.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/geometry/vertex.hpp"
#include "huira/render/frustum.hpp"
using namespace huira;
using pbt::Ctx;
using V3 = Vec3<float>;
using hc::V3d;
static std::vector<V3> planes(Ctx& c, V3d& axis, double& half)
{
    // a convex cone about an axis, like a camera's, or arbitrary planes
    int k = int(c.below(4));
    std::vector<V3> p;
    axis = hc::unit_vec(c);
    V3d t = glm::cross(axis, std::abs(axis.x) < 0.7 ? V3d{1, 0, 0} : V3d{0, 1, 0});
    t /= hc::len(t);
    V3d b = glm::cross(axis, t);
    half = c.uniform(0.02, 1.2);
    if (k == 0) {
        int n = c.range(0, 6);
        for (int i = 0; i < n; ++i) p.push_back(V3(hc::unit_vec(c) * (c.boolean() ? 1.0 : c.logreal(0.1, 10))));
        return p;
    }
    int n = k == 1 ? 4 : c.range(3, 12);
    for (int i = 0; i < n; ++i) {
        double a = 2 * M_PI * (i + 0.3) / n;
        V3d out = t * std::cos(a) + b * std::sin(a); // plane through the origin: inward normal
        p.push_back(V3(axis * std::sin(half) - out * std::cos(half)));
    }
    if (c.boolean()) p.push_back(V3(axis)); // boresight
    return p;
}
static double margin(const std::vector<V3>& p, V3d d)
{
    double m = std::numeric_limits<double>::infinity();
    for (auto& n : p) m = std::min(m, glm::dot(V3d(n), d) / hc::len(n));
    return m;
}
PROP(contains, 30000, 400000)
{
    V3d ax;
    double half;
    auto p = planes(c, ax, half);
    Frustum<RGB> f(p);
    V3 d(hc::unit_vec(c) * c.logreal(0.01, 100));
    if (c.boolean()) d = V3((ax + hc::vec(c, half)) * c.logreal(0.01, 100));
    double m = margin(p, V3d(d)) / hc::len(d);
    c.note("planes", p.size());
    c.note("direction", hc::show(d));
    c.note("margin", m);
    c.nontrivial(p.size() >= 3);
    PBT_CHECK("planes", f.plane_count() == p.size() && f.plane_normals() == p, "planes changed");
    if (std::abs(m) < 1e-5) pbt::discard();
    PBT_CHECK("contains", f.contains(d) == (m > 0), "contains " << f.contains(d) << " at margin " << m);
    Frustum<RGB> e;
    PBT_CHECK("no_planes", e.contains(d) && e.plane_count() == 0, "a frustum without planes contains everything");
}
static V3d bary(const Triangle<RGB>& t, V3d b) { return V3d(t.vertices[0].position) * b.x + V3d(t.vertices[1].position) * b.y + V3d(t.vertices[2].position) * b.z; }
// barycentric coordinates of p (in the triangle's plane)
static V3d coords(V3d a, V3d b, V3d d, V3d p)
{
    V3d n = glm::cross(b - a, d - a);
    double nn = glm::dot(n, n);
    double v = glm::dot(glm::cross(p - a, d - a), n) / nn, w = glm::dot(glm::cross(b - a, p - a), n) / nn;
    return {1 - v - w, v, w};
}
PROP(clip_triangle, 15000, 200000)
{
    V3d ax;
    double half;
    auto p = planes(c, ax, half);
    Frustum<RGB> f(p);
    double scale = c.chance(1, 3) ? c.logreal(1e-2, 1e4) : 1;
    Triangle<RGB> t;
    bool tan = c.boolean();
    V3d centre = ax * scale * c.uniform(-0.5, 3);
    std::array<Tangent, 3> tg;
    for (size_t i = 0; i < 3; ++i) {
        auto& v = t.vertices[i];
        v.position = V3(centre + hc::vec(c, scale));
        if (c.chance(1, 8) && !p.empty()) { // exactly on a plane through an axis
            v.position[int(c.below(3))] = 0;
        }
        v.normal = V3(hc::unit_vec(c));
        v.uv = {float(c.uniform(0, 1)), float(c.uniform(0, 1))};
        for (size_t k = 0; k < 3; ++k) v.albedo[k] = float(c.uniform(0, 1));
        tg[i] = {V3(hc::unit_vec(c)), V3(hc::unit_vec(c))};
    }
    if (tan) t.tangents = tg;
    V3d A(t.vertices[0].position), B(t.vertices[1].position), C(t.vertices[2].position), n = glm::cross(B - A, C - A);
    if (hc::len(n) < 0.02 * scale * scale) pbt::discard();
    c.note("planes", p.size());
    c.note("scale", scale);
    c.note("a", hc::show(A));
    c.note("b", hc::show(B));
    c.note("c", hc::show(C));
    auto out = f.clip_triangle(t);
    int in = 0;
    for (auto& v : t.vertices) in += margin(p, V3d(v.position)) > 1e-4 * scale;
    if (in == 3) { // the same triangle, whichever vertex it starts from
        bool same = out.size() == 1 && out[0].tangents.has_value() == tan, turn = false;
        for (size_t r = 0; same && r < 3; ++r) {
            bool eq = true;
            for (size_t i = 0; i < 3; ++i) eq = eq && out[0].vertices[i] == t.vertices[(i + r) % 3];
            turn = turn || eq;
        }
        PBT_CHECK("untouched", same && turn, "a triangle inside was changed into " << out.size());
    }
    c.nontrivial(!out.empty() && in < 3);
    double area = 0;
    for (auto& o : out) {
        PBT_CHECK("has_tangents", o.tangents.has_value() == tan, "tangents appeared or vanished");
        V3d a(o.vertices[0].position), b(o.vertices[1].position), d(o.vertices[2].position), m = glm::cross(b - a, d - a);
        double ar = glm::dot(m, n) / hc::len(n);
        PBT_CHECK("winding", ar > -1e-4 * scale * scale, "a piece is turned over: " << ar);
        area += ar;
        for (size_t i = 0; i < 3; ++i) {
            auto& v = o.vertices[i];
            V3d q(v.position);
            PBT_CHECK("inside", margin(p, q) > -1e-5 * (scale + hc::len(centre)) * 3, "a clipped vertex is outside by " << margin(p, q));
            V3d w = coords(A, B, C, q);
            double sl = 1e-3; // the triangle may be thin
            PBT_CHECK("on_triangle", std::min({w.x, w.y, w.z}) > -sl && hc::dist(bary(t, w), q) < 1e-4 * (scale + hc::len(centre)), "a clipped vertex is off the triangle");
            auto mix = [&](auto x, auto y, auto z) { return V3d(x) * w.x + V3d(y) * w.y + V3d(z) * w.z; };
            auto &v0 = t.vertices[0], &v1 = t.vertices[1], &v2 = t.vertices[2];
            double at = 5e-3;
            PBT_CHECK("normal", hc::dist(v.normal, mix(v0.normal, v1.normal, v2.normal)) < at, "normal not interpolated");
            PBT_CHECK("uv", std::abs(v.uv.x - (v0.uv.x * w.x + v1.uv.x * w.y + v2.uv.x * w.z)) < at && std::abs(v.uv.y - (v0.uv.y * w.x + v1.uv.y * w.y + v2.uv.y * w.z)) < at, "uv not interpolated");
            for (size_t k = 0; k < 3; ++k) PBT_CHECK("albedo", std::abs(v.albedo[k] - (v0.albedo[k] * w.x + v1.albedo[k] * w.y + v2.albedo[k] * w.z)) < at, "albedo not interpolated");
            if (tan) PBT_CHECK("tangent", hc::dist((*o.tangents)[i].tangent, mix(tg[0].tangent, tg[1].tangent, tg[2].tangent)) < at && hc::dist((*o.tangents)[i].bitangent, mix(tg[0].bitangent, tg[1].bitangent, tg[2].bitangent)) < at, "tangent not interpolated");
        }
    }
    // every visible point of the triangle is covered exactly once
    double tot = hc::len(n);
    PBT_CHECK("area", area <= tot * (1 + 1e-3), "pieces cover " << area << " of " << tot);
    for (int k = 0; k < 24; ++k) {
        double u = c.uniform(0, 1), v = c.uniform(0, 1);
        if (u + v > 1) u = 1 - u, v = 1 - v;
        V3d q = bary(t, {1 - u - v, u, v});
        double m = margin(p, q);
        if (std::abs(m) < 1e-4 * (scale + hc::len(centre))) continue;
        int cover = 0;
        bool edge = false;
        for (auto& o : out) {
            V3d a(o.vertices[0].position), b(o.vertices[1].position), d(o.vertices[2].position);
            if (hc::len(glm::cross(b - a, d - a)) < 1e-7 * tot) {
                edge = edge || hc::dist(a, q) < 1e-2 * scale;
                continue;
            }
            V3d w = coords(a, b, d, q);
            double mn = std::min({w.x, w.y, w.z});
            // distance from the piece's edges, in units of length
            double hgt = hc::len(glm::cross(b - a, d - a)) / std::max({hc::dist(a, b), hc::dist(b, d), hc::dist(a, d)});
            if (std::abs(mn) * hgt < 1e-4 * (scale + hc::len(centre))) edge = true;
            cover += mn > 0;
        }
        if (edge) continue;
        PBT_CHECK("coverage", cover == (m > 0 ? 1 : 0), "a point " << (m > 0 ? "inside" : "outside") << " the frustum by " << m << " is covered by " << cover << " pieces");
    }
}
// natural cubic spline through uniform knots, double (Thomas algorithm on second derivatives)
struct Ref {
    std::vector<V3d> y, m;
    explicit Ref(const std::vector<V3>& s)
    {
        for (auto& v : s) y.push_back(V3d(v));
        size_t n = y.size();
        m.assign(n, V3d(0, 0, 0));
        if (n < 4) return;
        double h = 1.0 / double(n - 1);
        std::vector<double> cp(n);
        std::vector<V3d> dp(n);
        for (size_t i = 1; i + 1 < n; ++i) {
            V3d r = (y[i + 1] - y[i] * 2.0 + y[i - 1]) * (6 / (h * h));
            double den = 4 - (i > 1 ? cp[i - 1] : 0);
            cp[i] = 1 / den;
            dp[i] = (r - (i > 1 ? dp[i - 1] : V3d(0, 0, 0))) / den;
        }
        for (size_t i = n - 2; i >= 1; --i) m[i] = dp[i] - m[i + 1] * cp[i];
    }
    V3d at(double t) const
    {
        size_t n = y.size();
        if (n == 1) return y[0];
        if (n == 2) return y[0] + (y[1] - y[0]) * t;
        if (n == 3) return y[0] * ((1 - t) * (1 - 2 * t)) + y[1] * (4 * t * (1 - t)) + y[2] * (t * (2 * t - 1));
        double h = 1.0 / double(n - 1);
        size_t i = std::min(size_t(t / h), n - 2);
        double a = (double(i + 1) * h - t) / h, b = 1 - a;
        return y[i] * a + y[i + 1] * b + (m[i] * (a * a * a - a) + m[i + 1] * (b * b * b - b)) * (h * h / 6);
    }
};
static std::vector<V3> track(Ctx& c, V3d start, double step, int n)
{
    // a star's path: rotation about an axis, possibly with jitter or none, or any polyline
    std::vector<V3> s;
    int kind = int(c.below(4));
    V3d k = hc::unit_vec(c);
    for (int i = 0; i < n; ++i) {
        V3d v;
        if (kind == 3) v = start + hc::vec(c, step * 0.7);
        else {
            v = V3d(hc::rodrigues(hc::V3l(k), hc::ld(step * i / std::max(1, n - 1)), hc::V3l(start)));
            if (kind == 2) v += hc::vec(c, step * 0.05);
        }
        s.push_back(V3(v));
    }
    c.note("kind", kind);
    return s;
}
PROP(arc, 12000, 200000)
{
    V3d ax;
    double half;
    auto p = planes(c, ax, half);
    // start near the edge of the cone often
    V3d start = hc::unit_vec(c);
    if (c.chance(3, 4)) {
        V3d s = glm::cross(ax, hc::unit_vec(c));
        if (hc::len(s) > 1e-3) {
            s /= hc::len(s);
            double a = half + c.sym(c.boolean() ? 0.02 : 0.5);
            start = ax * std::cos(a) + s * std::sin(a);
        }
    }
    int n = c.chance(1, 3) ? c.range(1, 4) : c.range(1, 16);
    double step = c.chance(1, 2) ? c.logreal(1e-5, 0.1) : c.uniform(0.05, 2);
    c.note("samples", n);
    c.note("step", step);
    c.note("start", hc::show(start));
    auto s = track(c, start, step, n);
    TrajectoryArc arc(s);
    Ref ref(s);
    PBT_CHECK("sample_count", arc.sample_count() == size_t(n), "sample count");
    for (int i = 0; i < n; ++i) {
        float t = n == 1 ? 0.3f : float(i) / float(n - 1);
        PBT_CHECK("interpolates", hc::dist(arc.evaluate(t), s[size_t(i)]) < 2e-5, "sample " << i << " missed by " << hc::dist(arc.evaluate(t), s[size_t(i)]));
    }
    for (int k = 0; k < 8; ++k) {
        float t = float(c.uniform(0, 1));
        PBT_CHECK("spline", hc::dist(arc.evaluate(t), ref.at(t)) < 5e-5, "at " << t << ": " << hc::show(arc.evaluate(t)) << " want " << hc::show(ref.at(t)));
    }
    if (n >= 4) PBT_CHECK("clamped", arc.evaluate(-1) == arc.evaluate(0) && arc.evaluate(2) == arc.evaluate(1), "outside [0,1]");
    PBT_CHECK("empty_rejected", hc::throws([&] { TrajectoryArc e(std::vector<V3>{}); }), "an arc without samples");
    auto iv = Frustum<RGB>(p).clip_arc(arc);
    bool anyin = false, anyout = false;
    for (size_t i = 0; i < iv.size(); ++i) {
        PBT_CHECK("ordered", iv[i].first >= 0 && iv[i].second <= 1 && iv[i].first < iv[i].second && (i == 0 || iv[i - 1].second <= iv[i].first), "intervals out of order");
    }
    for (int k = 0; k <= 150; ++k) {
        double t = k / 150.0;
        double m = margin(p, ref.at(t));
        bool in = false;
        for (auto& q : iv) in |= t >= q.first && t <= q.second;
        if (std::abs(m) < 3e-6 + 1e-4 * std::min(step, 1.0)) continue;
        (m > 0 ? anyin : anyout) = true;
        PBT_CHECK("visible", in == (m > 0), "at " << t << " the arc is " << (m > 0 ? "inside" : "outside") << " the frustum by " << m << " but clipped " << (in ? "in" : "out") << " (" << iv.size() << " intervals)");
    }
    c.nontrivial(anyin && anyout);
    c.label(anyin && anyout ? "crosses" : anyin ? "inside" : "outside");
    // crossings themselves: sorted, on the plane, and none missed
    if (!p.empty()) {
        auto& nrm = p[0];
        auto xs = arc.find_plane_crossings(nrm);
        for (size_t i = 0; i < xs.size(); ++i) {
            PBT_CHECK("crossing_order", xs[i] >= 0 && xs[i] <= 1 && (i == 0 || xs[i - 1] <= xs[i]), "crossings out of order");
            PBT_CHECK("crossing_on_plane", std::abs(glm::dot(V3d(nrm), ref.at(xs[i]))) / hc::len(nrm) < 5e-6 + 1e-3 * std::min(step, 1.0), "at " << xs[i] << " the arc is off the plane by " << glm::dot(V3d(nrm), ref.at(xs[i])));
        }
    }
}
PBT_MAIN
