// G01 (meshes) and G02 (ellipsoids): ray intersection through Embree and the surface point it resolves to.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/scene/embree_device.hpp"
#include "huira/render/interaction.hpp"
#include "huira/geometry/mesh.hpp"
#include "huira/geometry/ellipsoid.hpp"
using namespace huira;
using pbt::Ctx;
using V3 = Vec3<float>;
using hc::V3d;
static std::shared_ptr<EmbreeDevice> device()
{
    static auto d = std::make_shared<EmbreeDevice>("threads=1");
    return d;
}
template <class G> struct Open : G {
    using G::G;
    RTCScene scene()
    {
        this->set_device(device());
        return this->blas();
    }
};
struct Filter {
    RTCRayQueryContext ctx;
    int mode; // 0 none, 1 reject front faces, 2 reject back faces, 3 reject everything
    V3 dir;
};
static void filter(const RTCFilterFunctionNArguments* a)
{
    auto* f = reinterpret_cast<Filter*>(a->context);
    V3 n{RTCHitN_Ng_x(a->hit, a->N, 0), RTCHitN_Ng_y(a->hit, a->N, 0), RTCHitN_Ng_z(a->hit, a->N, 0)};
    float s = glm::dot(n, f->dir);
    if (!a->ray || a->N != 1) std::abort(); // a filter may look at the ray
    if (f->mode == 3 || (f->mode == 1 && s < 0) || (f->mode == 2 && s >= 0)) a->valid[0] = 0;
}
static RTCRayHit trace(RTCScene s, V3 o, V3 d, float tn, float tf, int mode = 0)
{
    RTCRayHit r{};
    r.ray.org_x = o.x, r.ray.org_y = o.y, r.ray.org_z = o.z;
    r.ray.dir_x = d.x, r.ray.dir_y = d.y, r.ray.dir_z = d.z;
    r.ray.tnear = tn, r.ray.tfar = tf, r.ray.mask = 0xffffffffu;
    r.hit.geomID = RTC_INVALID_GEOMETRY_ID;
    r.hit.instID[0] = RTC_INVALID_GEOMETRY_ID;
    Filter f;
    rtcInitRayQueryContext(&f.ctx);
    f.mode = mode, f.dir = d;
    RTCIntersectArguments a;
    rtcInitIntersectArguments(&a);
    a.context = &f.ctx;
    if (mode) {
        RTCGeometry g = rtcGetGeometry(s, 0);
        rtcSetGeometryIntersectFilterFunction(g, filter);
        rtcCommitGeometry(g);
        rtcCommitScene(s);
    }
    rtcIntersect1(s, &r, &a);
    return r;
}
static HitRecord record(const RTCRayHit& r)
{
    HitRecord h;
    h.t = r.ray.tfar, h.u = r.hit.u, h.v = r.hit.v, h.geom_id = r.hit.geomID, h.prim_id = r.hit.primID;
    h.Ng = {r.hit.Ng_x, r.hit.Ng_y, r.hit.Ng_z};
    return h;
}
PROP(mesh_hit, 30000, 400000)
{
    int nv = c.range(3, 20), nt = c.range(1, 24);
    double scale = c.chance(1, 3) ? c.logreal(1e-2, 1e5) : 1;
    VertexBuffer<RGB> vb;
    IndexBuffer ib;
    TangentBuffer tb;
    bool tan = c.boolean();
    for (int i = 0; i < nv; ++i) {
        Vertex<RGB> v;
        v.position = V3(hc::vec(c, scale));
        v.normal = V3(hc::unit_vec(c));
        v.uv = {float(c.uniform(0, 1)), float(c.uniform(0, 1))};
        for (size_t k = 0; k < 3; ++k) v.albedo[k] = float(c.uniform(0, 1));
        vb.push_back(v);
        tb.push_back({V3(hc::unit_vec(c)), V3(hc::unit_vec(c))});
    }
    for (int i = 0; i < nt; ++i) {
        // distinct corners
        uint32_t a = uint32_t(c.below(uint64_t(nv))), b = uint32_t((a + 1 + c.below(uint64_t(nv - 1))) % uint64_t(nv)), d = a;
        while (d == a || d == b) d = (d + 1) % uint32_t(nv);
        if (nv > 3 && c.boolean()) {
            uint32_t e = uint32_t(c.below(uint64_t(nv)));
            if (e != a && e != b) d = e;
        }
        ib.insert(ib.end(), {a, b, d});
    }
    IndexBuffer ib0 = ib;
    auto vb0 = vb;
    auto m = tan ? std::make_unique<Open<Mesh<RGB>>>(std::move(ib), std::move(vb), tb) : std::make_unique<Open<Mesh<RGB>>>(std::move(ib), std::move(vb));
    PBT_CHECK("contents", m->triangle_count() == size_t(nt) && m->index_count() == ib0.size() && m->vertex_count() == vb0.size() && m->index_buffer() == ib0 && m->vertex_buffer() == vb0 && m->has_tangents() == tan && (m->tangent_buffer().size() == (tan ? vb0.size() : 0)),
              "mesh does not hold what it was built from");
    RTCScene sc = m->scene();
    PBT_CHECK("built_once", m->scene() == sc, "BLAS rebuilt");
    c.note("triangles", nt);
    c.note("scale", scale);
    // aim at a point of a triangle or anywhere
    V3d o = hc::vec(c, 3 * scale), target = hc::vec(c, scale);
    if (c.chance(3, 4)) {
        size_t k = c.below(uint64_t(nt)) * 3;
        double u = c.uniform(0, 1), v = c.uniform(0, 1 - u);
        target = V3d(vb0[ib0[k]].position) * (1 - u - v) + V3d(vb0[ib0[k + 1]].position) * u + V3d(vb0[ib0[k + 2]].position) * v;
    }
    if (hc::dist(o, target) < 1e-3 * scale) pbt::discard();
    V3 of(o), d(V3((target - o) / hc::dist(o, target)));
    c.note("origin", hc::show(of));
    c.note("dir", hc::show(d));
    float tn = float(c.chance(1, 3) ? c.uniform(0, 3) * scale : 0), tf = c.chance(1, 3) ? float(tn + c.uniform(0.1, 4) * scale) : std::numeric_limits<float>::infinity();
    c.note("tnear", tn);
    c.note("tfar", tf);
    // brute force, keeping track of decisions too close to call
    struct H {
        double t, u, v;
        size_t tri;
    };
    std::vector<H> hits;
    V3d D(d), O(of);
    for (size_t k = 0; k < ib0.size() / 3; ++k) {
        V3d p0(vb0[ib0[3 * k]].position), p1(vb0[ib0[3 * k + 1]].position), p2(vb0[ib0[3 * k + 2]].position);
        V3d e1 = p1 - p0, e2 = p2 - p0, pv = glm::cross(D, e2);
        double det = glm::dot(e1, pv), sz = hc::len(e1) * hc::len(e2);
        if (std::abs(det) < 1e-3 * sz || sz < 1e-4 * scale * scale) pbt::discard(); // grazing or degenerate
        V3d s = O - p0;
        double u = glm::dot(s, pv) / det;
        V3d q = glm::cross(s, e1);
        double v = glm::dot(D, q) / det, t = glm::dot(e2, q) / det, w = 1 - u - v;
        double mn = std::min({u, v, w});
        if (std::abs(mn) < 1e-3) pbt::discard();
        if (mn < 0) continue;
        if (std::abs(t - tn) < 1e-3 * scale || std::abs(t - tf) < 1e-3 * scale) pbt::discard();
        if (t > tn && t < tf) hits.push_back({t, u, v, k});
    }
    std::sort(hits.begin(), hits.end(), [](auto& a, auto& b) { return a.t < b.t; });
    if (hits.size() > 1 && hits[1].t - hits[0].t < 1e-3 * scale) pbt::discard();
    c.nontrivial(!hits.empty());
    auto r = trace(sc, of, d, tn, tf);
    bool hit = r.hit.geomID != RTC_INVALID_GEOMETRY_ID;
    PBT_CHECK("hit", hit == !hits.empty(), (hit ? "hit at " : "missed; expected hit at ") << (hit ? double(r.ray.tfar) : hits[0].t) << " with " << hits.size() << " crossings");
    if (!hit) return;
    auto& e = hits[0];
    PBT_CHECK("nearest", r.hit.primID == e.tri && std::abs(r.ray.tfar - e.t) <= 1e-3 * scale, "hit triangle " << r.hit.primID << " at " << r.ray.tfar << ", want " << e.tri << " at " << e.t);
    Interaction<RGB> is;
    HitRecord h = record(r);
    m->compute_surface_interaction(h, is);
    Vec2<float> uv = m->compute_uv(h);
    auto &a = vb0[ib0[3 * e.tri]], &b = vb0[ib0[3 * e.tri + 1]], &g = vb0[ib0[3 * e.tri + 2]];
    double w = 1 - e.u - e.v;
    auto mix = [&](auto x, auto y, auto z) { return V3d(x) * w + V3d(y) * e.u + V3d(z) * e.v; };
    PBT_CHECK("position", hc::dist(is.position, mix(a.position, b.position, g.position)) <= 2e-3 * scale && hc::dist(is.position, O + D * double(r.ray.tfar)) <= 2e-3 * scale, "surface point " << hc::show(is.position));
    PBT_CHECK("normal", hc::dist(is.normal_s, mix(a.normal, b.normal, g.normal)) < 3e-3, "shading normal " << hc::show(is.normal_s));
    PBT_CHECK("uv", std::abs(is.uv.x - (a.uv.x * w + b.uv.x * e.u + g.uv.x * e.v)) < 3e-3 && std::abs(is.uv.y - (a.uv.y * w + b.uv.y * e.u + g.uv.y * e.v)) < 3e-3 && uv == is.uv, "uv " << is.uv.x << "," << is.uv.y);
    for (size_t k = 0; k < 3; ++k) PBT_CHECK("albedo", std::abs(is.vertex_albedo[k] - (a.albedo[k] * w + b.albedo[k] * e.u + g.albedo[k] * e.v)) < 3e-3, "vertex albedo");
    if (tan) {
        auto &x = tb[ib0[3 * e.tri]], &y = tb[ib0[3 * e.tri + 1]], &z = tb[ib0[3 * e.tri + 2]];
        PBT_CHECK("tangent", hc::dist(is.tangent, mix(x.tangent, y.tangent, z.tangent)) < 3e-3 && hc::dist(is.bitangent, mix(x.bitangent, y.bitangent, z.bitangent)) < 3e-3, "tangent frame");
    } else
        PBT_CHECK("tangent", hc::len(is.tangent) == 0 && hc::len(is.bitangent) == 0, "tangents out of nothing");
    V3d face = glm::cross(V3d(b.position) - V3d(a.position), V3d(g.position) - V3d(a.position));
    V3d ng(h.Ng);
    PBT_CHECK("face_normal", std::abs(glm::dot(face, ng)) > 0.999 * hc::len(face) * hc::len(ng), "geometric normal " << hc::show(h.Ng));
}
PROP(mesh_invalid, 3000, 20000)
{
    int nv = c.range(0, 6), ni = c.range(0, 9);
    VertexBuffer<RGB> vb(static_cast<size_t>(nv));
    IndexBuffer ib;
    bool bad = false;
    for (int i = 0; i < ni; ++i) {
        uint32_t k = c.chance(1, 8) ? c.pick({uint32_t(nv), uint32_t(nv + 1), 0xffffffffu}) : uint32_t(c.below(uint64_t(std::max(nv, 1))));
        bad |= k >= uint32_t(nv);
        ib.push_back(k);
    }
    size_t nt = c.chance(1, 2) ? size_t(nv) : c.below(8);
    TangentBuffer tb(nt);
    c.note("vertices", nv);
    c.note("tangents", nt);
    c.nontrivial(ni > 0);
    PBT_CHECK("index", hc::throws([&] { Mesh<RGB> m(ib, vb); }) == bad, bad ? "an index out of range was accepted" : "a valid mesh was rejected");
    PBT_CHECK("tangents", hc::throws([&] { Mesh<RGB> m(ib, vb, tb); }) == (bad || (nt != 0 && nt != size_t(nv))), "tangent buffer of " << nt << " for " << nv << " vertices");
    Mesh<RGB> none;
    PBT_CHECK("empty", none.triangle_count() == 0 && none.vertex_count() == 0 && !none.has_tangents(), "default mesh");
    Open<Mesh<RGB>> o;
    struct X : Mesh<RGB> {
        RTCScene s() { return this->blas(); }
    } x;
    PBT_CHECK("needs_device", hc::throws([&] { (void)x.s(); }), "BLAS without a device");
}
using ld = long double;
PROP(ellipsoid_hit, 80000, 1000000)
{
    double base = c.chance(1, 2) ? 1 : c.logreal(1e-3, 1e7);
    V3d R;
    int shape = int(c.below(3));
    for (int i = 0; i < 3; ++i) R[i] = shape == 0 ? base : base * (shape == 1 ? c.uniform(0.7, 1.3) : c.logreal(0.05, 5));
    V3 rf(R);
    auto el = std::make_unique<Open<Ellipsoid<RGB>>>(units::Meter(double(rf.x)), units::Meter(double(rf.y)), units::Meter(double(rf.z)));
    PBT_CHECK("radii", el->radii() == rf, "radii " << hc::show(el->radii()));
    R = V3d(rf);
    RTCScene sc = el->scene();
    RTCBounds bo;
    rtcGetSceneBounds(sc, &bo);
    PBT_CHECK("bounds", bo.lower_x <= -rf.x && bo.lower_y <= -rf.y && bo.lower_z <= -rf.z && bo.upper_x >= rf.x && bo.upper_y >= rf.y && bo.upper_z >= rf.z, "the ellipsoid " << hc::show(rf) << " is not inside its bounds, which end at " << bo.upper_x << "," << bo.upper_y << "," << bo.upper_z);
    double rmax = std::max({R.x, R.y, R.z}), rmin = std::min({R.x, R.y, R.z});
    c.note("radii", hc::show(R));
    // aim from inside, outside or the surface at a point within reach
    V3d o, tgt;
    int ok = int(c.below(4));
    V3d su = hc::unit_vec(c);
    if (ok == 0) o = R * su * c.uniform(0, 0.95);
    else if (ok == 1) o = R * su * c.logreal(1.05, 30);
    else if (ok == 2) o = R * su * (c.boolean() ? 1.002 : 0.998);
    else o = R * su * 3.0;
    tgt = c.chance(1, 8) ? V3d{0, 0, c.boolean() ? R.z : -R.z} : c.chance(1, 4) ? R * hc::unit_vec(c) : c.boolean() ? R * hc::unit_vec(c) * c.uniform(0, 1.3) : o + hc::unit_vec(c) * rmax;
    if (hc::dist(o, tgt) < 1e-4 * rmin) pbt::discard();
    V3 of(o), d((tgt - o) / hc::dist(o, tgt));
    if (c.chance(1, 4)) d *= float(c.logreal(0.1, 10)); // directions need not be unit
    float inf = std::numeric_limits<float>::infinity();
    float tn = c.chance(1, 4) ? float(c.uniform(0, 4) * rmax) : 0, tf = c.chance(1, 4) ? float(tn + c.uniform(0, 4) * rmax) : inf;
    c.note("origin", hc::show(of));
    c.note("dir", hc::show(d));
    c.note("tnear", tn);
    c.note("tfar", tf);
    int mode = int(c.below(6));
    if (mode > 3) mode = 0;
    c.note("filter", mode);
    // reference in the unit sphere's space, long double
    ld ox = ld(of.x) / R.x, oy = ld(of.y) / R.y, oz = ld(of.z) / R.z, dx = ld(d.x) / R.x, dy = ld(d.y) / R.y, dz = ld(d.z) / R.z;
    ld L2 = dx * dx + dy * dy + dz * dz, L = std::sqrt(L2), b = (ox * dx + oy * dy + oz * dz) / L, cc = ox * ox + oy * oy + oz * oz - 1, disc = b * b - cc;
    double eps = 6e-8, edisc = 40 * eps * double(b * b + std::abs(cc) + 1);
    double scale_t = 1 / double(L);
    if (std::abs(double(disc)) < edisc) pbt::discard(); // grazing: cannot tell in single precision
    std::vector<double> want;
    double terr = 0;
    if (disc > 0) {
        double sq = std::sqrt(double(disc));
        terr = (edisc / sq + 10 * eps * (std::abs(double(b)) + sq) + 1e-7) * scale_t;
        for (double t : {double(-b) - sq, double(-b) + sq}) {
            t *= scale_t;
            if (std::abs(t - tn) <= 4 * terr || std::abs(t - tf) <= 4 * terr) pbt::discard();
            bool front = t == (double(-b) - sq) * scale_t;
            bool rejected = mode == 3 || (mode == 1 && front) || (mode == 2 && !front);
            if (t > tn && t < tf && !rejected) want.push_back(t);
        }
    }
    c.nontrivial(!want.empty());
    c.label(want.empty() ? "miss" : "hit");
    auto r = trace(sc, of, d, tn, tf, mode);
    bool hit = r.hit.geomID != RTC_INVALID_GEOMETRY_ID;
    PBT_CHECK("hit", hit == !want.empty(), (hit ? "hit at " : "missed; expected hit at ") << (hit ? double(r.ray.tfar) : want[0]));
    if (!hit) {
        PBT_CHECK("miss_untouched", r.ray.tfar == tf && r.hit.instID[0] == RTC_INVALID_GEOMETRY_ID, "a miss changed the ray");
        return;
    }
    PBT_CHECK("nearest", std::abs(r.ray.tfar - want[0]) <= 4 * terr, "hit at " << r.ray.tfar << ", want " << want[0] << " (+- " << terr << ")");
    HitRecord h = record(r);
    Interaction<RGB> is;
    el->compute_surface_interaction(h, is);
    PBT_CHECK("uv", h.u >= -1e-6 && h.u <= 1 + 1e-6 && h.v >= 0 && h.v <= 1 && el->compute_uv(h) == is.uv && is.uv == Vec2<float>(h.u, h.v), "uv " << h.u << "," << h.v);
    V3d p = V3d(of) + V3d(d) * want[0], s = p / R;
    double ptol = 2e-3 + 8 * terr * double(L); // in the unit sphere's space
    if (ptol > 0.05) pbt::discard();
    V3d ps = V3d(is.position) / R;
    PBT_CHECK("position", hc::dist(ps, s) <= ptol, "surface point " << hc::show(is.position) << ", ray meets " << hc::show(p));
    PBT_CHECK("on_surface", std::abs(hc::len(ps) - 1) < 1e-5, "surface point off the ellipsoid by " << hc::len(ps) - 1);
    double rho = std::hypot(s.x, s.y);
    if (rho > 0.02) PBT_CHECK("longitude", std::abs(std::remainder(h.u * 2 * M_PI - M_PI - std::atan2(s.y, s.x), 2 * M_PI)) < ptol / rho, "u " << h.u);
    PBT_CHECK("latitude", std::abs(std::cos(h.v * M_PI) - s.z) < ptol, "v " << h.v);
    // outward normal at the resolved point, unit; the hit's own normal agrees
    auto outward = [&](V3d q) {
        V3d n = q / R;
        return n / hc::len(n);
    };
    V3d ng(is.normal_g);
    PBT_CHECK("normal", hc::dist(ng, outward(ps)) < 2e-4, "normal " << hc::show(ng) << " want " << hc::show(outward(ps)));
    double nslack = ptol * rmax / rmin * 4;
    if (nslack < 0.3) PBT_CHECK("hit_normal", hc::dist(V3d(h.Ng) / hc::len(h.Ng), outward(s)) < nslack, "hit normal " << hc::show(h.Ng));
    PBT_CHECK("shading_normal", is.normal_s == is.normal_g, "shading normal differs");
    V3d T(is.tangent), B(is.bitangent);
    PBT_CHECK("frame_unit", std::abs(hc::len(T) - 1) < 1e-4 && std::abs(hc::len(B) - 1) < 1e-4, "tangent " << hc::len(T) << " bitangent " << hc::len(B));
    PBT_CHECK("frame", std::abs(glm::dot(T, ng)) < 2e-3 && hc::dist(glm::cross(ng, T), B) < 3e-3, "tangent . normal = " << glm::dot(T, ng) << ", tangent " << hc::show(T) << " normal " << hc::show(ng));
    if (std::hypot(ps.x, ps.y) > 1e-3) PBT_CHECK("tangent_east", T.x * -R.x * ps.y + T.y * R.y * ps.x > 0 && std::abs(T.z) < 1e-4, "tangent does not point along increasing u");
}
PROP(ellipsoid_tangent_ray, 3000, 30000)
{
    // rays that start on the unit sphere's surface along it: whatever is reported is a real point of the ray
    Open<Ellipsoid<RGB>> el(units::Meter(1.0), units::Meter(1.0), units::Meter(1.0));
    int ax = int(c.below(3));
    V3 o{0.f}, d{0.f};
    o[ax] = c.boolean() ? 1.f : -1.f;
    d[(ax + 1) % 3] = c.boolean() ? 1.f : -1.f;
    if (c.boolean()) d[(ax + 2) % 3] = float(c.sym(1));
    float tn = c.boolean() ? 0 : float(c.logreal(1e-6, 1));
    c.note("tnear", tn);
    c.note("origin", hc::show(o));
    c.note("dir", hc::show(d));
    c.nontrivial();
    auto r = trace(el.scene(), o, d, tn, std::numeric_limits<float>::infinity());
    if (r.hit.geomID == RTC_INVALID_GEOMETRY_ID) return;
    PBT_CHECK("on_ray", std::isfinite(r.ray.tfar) && r.ray.tfar >= tn && r.ray.tfar < tn + 1e-3, "t = " << r.ray.tfar);
    PBT_CHECK("finite", std::isfinite(r.hit.u) && std::isfinite(r.hit.v) && std::isfinite(r.hit.Ng_x), "hit record not finite");
}
PBT_MAIN
