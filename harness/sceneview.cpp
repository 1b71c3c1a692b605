// G03: what a view of a scene intersects: placed, moving, nested, scaled instances, and the surface points there.
#include "hcommon.hpp"
#include "huira/huira.hpp"
#include <tbb/global_control.h>
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using S = RGB;
using FH = FrameHandle<S>;
using Rd = Rotation<double>;
static double len(const V3d& v) { return std::sqrt(glm::dot(v, v)); }
static V3d crs(const V3d& a, const V3d& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static V3d unit(Ctx& c) { return hc::unit_vec(c); }
struct Q { // unit quaternion
    double w = 1;
    V3d v{0, 0, 0};
    V3d operator()(const V3d& x) const { return x + crs(v, crs(v, x) + x * w) * 2.0; }
    Q operator*(const Q& o) const { return {w * o.w - glm::dot(v, o.v), o.v * w + v * o.w + crs(v, o.v)}; }
    Q inv() const { return {w, -v}; }
};
static Q turn(const V3d& a, double t) { return {std::cos(t / 2), a * std::sin(t / 2)}; }
static Q slerp(Q a, Q b, double f)
{
    double d = a.w * b.w + glm::dot(a.v, b.v);
    if (d < 0) b = {-b.w, -b.v}, d = -d;
    double th = std::acos(std::min(1.0, d)), x = 1 - f, y = f;
    if (th > 1e-9) x = std::sin((1 - f) * th) / std::sin(th), y = std::sin(f * th) / std::sin(th);
    return {a.w * x + b.w * y, a.v * x + b.v * y};
}
struct Pose {
    V3d p{0, 0, 0}, s{1, 1, 1};
    Q q;
    V3d pt(const V3d& x) const { return p + q(s * x); }
};
static Pose operator*(const Pose& a, const Pose& b) { return {a.pt(b.p), a.s * b.s, a.q * b.q}; }
// a node's settings
struct Set {
    V3d p{0, 0, 0}, v{0, 0, 0}, w{0, 0, 0}, s{1, 1, 1}, ax{0, 0, 1};
    double an = 0;
    Pose at(double dt) const
    {
        double l = len(w);
        return {p + v * dt, s, (l > 0 ? turn(w / l, l * dt) : Q{}) * turn(ax, an)};
    }
};
template <class H> static void apply(const H& h, const Set& s)
{
    using units::Meter, units::MetersPerSecond, units::RadiansPerSecond;
    h.set_position(Meter(s.p.x), Meter(s.p.y), Meter(s.p.z));
    h.set_velocity(MetersPerSecond(s.v.x), MetersPerSecond(s.v.y), MetersPerSecond(s.v.z));
    h.set_rotation(Rd::from_local_to_parent(s.ax, units::Radian(s.an)));
    h.set_angular_velocity(RadiansPerSecond(s.w.x), RadiansPerSecond(s.w.y), RadiansPerSecond(s.w.z));
    h.set_scale(s.s.x, s.s.y, s.s.z);
}
struct Geo {
    bool ell = false, tan = false, clear = false;
    V3d r{1, 1, 1};
    IndexBuffer ib;
    VertexBuffer<S> vb;
    TangentBuffer tb;
};
struct Inst {
    int geo; // -1 for a light
    double rad = 0;
    std::vector<Set> chain;
    std::vector<Pose> at; // relative to the camera, per temporal sample
};
struct Cand {
    double num = 0; // how far single precision may place a hit on a round shape (m)
    double t, edge, graze, alt; // edge: how far inside the triangle (m); graze: cosine of incidence; alt: the triangle's least altitude
    int inst;
    size_t tri = 0;
    double u = 0, v = 0;
    V3d lp, ng;
};
static Pose interp(const std::vector<Pose>& a, double t)
{
    if (a.size() == 1) return a[0];
    double x = t * double(a.size() - 1);
    size_t i = std::min(a.size() - 2, size_t(std::floor(x)));
    double f = x - double(i);
    return {a[i].p * (1 - f) + a[i + 1].p * f, a[i].s * (1 - f) + a[i + 1].s * f, slerp(a[i].q, a[i + 1].q, f)};
}
static void sphere_hits(const V3d& o, const V3d& d, const V3d& r, int inst, std::vector<Cand>& out)
{
    V3d a = o / r, b = d / r;
    double L = len(b), B = glm::dot(a, b) / L;
    V3d perp = a - b * (B / L);
    double m2 = glm::dot(perp, perp), disc = 1 - m2;
    double slack = 2e-5 * (1 + glm::dot(a, a));
    if (disc < -slack) return;
    if (disc < slack) { // passes along the surface: not judged
        out.push_back({0, 0, 0, 0, 1e-30, inst, 0, 0, 0, o, {0, 0, 1}});
        return;
    }
    for (double sg : {-1.0, 1.0}) {
        double t = (-B + sg * std::sqrt(disc)) / L;
        V3d p = o + d * t;
        out.push_back({0, t, disc, std::sqrt(disc), 1, inst, 0, 0, 0, p, p / (r * r)});
    }
}
static void mesh_hits(const V3d& o, const V3d& d, const Geo& g, int inst, std::vector<Cand>& out)
{
    for (size_t k = 0; k < g.ib.size(); k += 3) {
        V3d a(g.vb[g.ib[k]].position), e1 = V3d(g.vb[g.ib[k + 1]].position) - a, e2 = V3d(g.vb[g.ib[k + 2]].position) - a;
        V3d n = crs(e1, e2), P = crs(d, e2);
        double det = glm::dot(e1, P), an = len(n);
        if (std::abs(det) <= 1e-3 * an * len(d)) { // seen edge-on: not judged
            out.push_back({0, 0, 0, 0, 1e-30, inst, k, 0, 0, a, {0, 0, 1}});
            continue;
        }
        V3d T = o - a, q = crs(T, e1);
        double u = glm::dot(T, P) / det, v = glm::dot(d, q) / det, t = glm::dot(e2, q) / det, m = std::min({u, v, 1 - u - v});
        double graze = std::abs(det) / (an * len(d)), alt = an / std::max({len(e1), len(e2), len(e2 - e1)});
        out.push_back({0, t, m * alt, graze, alt, inst, k, u, v, a + e1 * u + e2 * v, n});
    }
}
struct World {
    std::vector<Geo> geos;
    std::vector<Inst> in;
    double size, dur;
    int N;
};
static Set motion(Ctx& c, double spread, double dur, double vmax, bool spin)
{
    Set s;
    s.p = hc::vec(c, spread);
    s.ax = unit(c), s.an = c.chance(1, 4) ? 0 : c.uniform(-3, 3);
    if (c.boolean()) s.v = hc::vec(c, vmax / dur);
    if (spin && c.boolean()) s.w = unit(c) * c.uniform(0, 0.4) / dur; // less than half a turn between samples in all;
    return s;
}
static V3d any_scale(Ctx& c)
{
    return c.chance(1, 3) ? V3d(1, 1, 1) : c.boolean() ? V3d(1, 1, 1) * c.logreal(0.3, 3) : V3d(c.logreal(0.3, 3), c.logreal(0.3, 3), c.logreal(0.3, 3));
}
static std::string show(const V3d& v)
{
    std::ostringstream o;
    o.precision(9);
    o << v.x << "," << v.y << "," << v.z;
    return o.str();
}
static bool finite(const Vec3<float>& v) { return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z); }
PROP(views, 25000, 500000)
{
    static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    auto sc = std::make_unique<Scene<S>>();
    World w;
    w.size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    w.dur = c.pick({1e-3, 1.0, 60.0});
    w.N = c.boolean() ? 1 : c.range(2, 5);
    double far = c.boolean() ? 0 : c.logreal(1, 1e4) * w.size * 1e4; // everything this far from the barycentre
    auto top = sc->root.new_subframe();
    Set ts = motion(c, 1, w.dur, 0, true);
    ts.p = unit(c) * far, ts.v = hc::vec(c, std::min(1e5, 1e-3 * w.size / w.dur + 30 * w.size / w.dur));
    bool moving_top = c.boolean();
    if (!moving_top) ts = Set{};
    if (!moving_top) ts.p = unit(c) * far;
    ts.w = {0, 0, 0};
    apply(top, ts);
    // geometries
    int ng = c.range(1, 3);
    std::vector<PrimitiveHandle<S>> prims;
    bool clears = c.chance(1, 3); // surfaces of opacity 0 are met by rays, and let light pass
    for (int i = 0; i < ng; ++i) {
        Geo g;
        g.clear = clears && c.boolean();
        auto mat = sc->new_material(sc->new_bsdf_lambertian());
        if (g.clear) mat.set_alpha_factor(0.f);
        g.ell = c.chance(1, 3);
        if (g.ell) {
            g.r = V3d(1, 1, 1) * w.size;
            if (c.boolean()) g.r = V3d(c.logreal(0.3, 1), c.logreal(0.3, 1), c.logreal(0.3, 1)) * w.size;
            prims.push_back(sc->add_primitive(sc->add_ellipsoid(units::Meter(g.r.x), units::Meter(g.r.y), units::Meter(g.r.z)), mat));
        } else {
            int nv = c.range(3, 8), nt = c.range(1, 6);
            g.tan = c.boolean();
            for (int k = 0; k < nv; ++k) {
                Vertex<S> v;
                v.position = Vec3<float>(hc::vec(c, w.size));
                v.normal = Vec3<float>(unit(c));
                v.uv = {float(c.uniform(0, 1)), float(c.uniform(0, 1))};
                for (size_t q = 0; q < 3; ++q) v.albedo[q] = float(c.uniform(0, 1));
                g.vb.push_back(v);
                g.tb.push_back({Vec3<float>(unit(c)), Vec3<float>(unit(c))});
            }
            for (int k = 0; k < nt; ++k) {
                uint32_t a = uint32_t(c.below(uint64_t(nv))), b = uint32_t((a + 1 + c.below(uint64_t(nv - 1))) % uint64_t(nv)), d = a;
                while (d == a || d == b) d = (d + 1) % uint32_t(nv);
                g.ib.insert(g.ib.end(), {a, b, d});
            }
            auto mh = g.tan ? sc->add_mesh(g.ib, g.vb, g.tb) : sc->add_mesh(g.ib, g.vb);
            prims.push_back(sc->add_primitive(mh, mat));
        }
        w.geos.push_back(std::move(g));
    }
    // camera
    static Scene<S>* cams = new Scene<S>();
    static auto cm = cams->new_camera_model(); // building one is slow, and only its pose counts here
    double roll = c.boolean() ? 0 : c.uniform(-3, 3);
    cm.set_sensor_rotation(units::Radian(roll));
    auto camh = top.new_instance(cm);
    Set cs = motion(c, 3 * w.size, w.dur, w.size, true);
    apply(camh, cs);
    // instances
    std::vector<FH> frames{top};
    std::vector<std::vector<Set>> chains{{ts}};
    int ni = c.range(1, 6), nl = int(c.below(3));
    for (int i = 0; i < ni + nl; ++i) {
        size_t f = c.below(frames.size());
        if (c.boolean() && frames.size() < 5) {
            auto nf = frames[f].new_subframe();
            Set s = motion(c, 2 * w.size, w.dur, w.size, true);
            s.s = any_scale(c);
            apply(nf, s);
            auto ch = chains[f];
            ch.push_back(s);
            frames.push_back(nf), chains.push_back(ch);
            f = frames.size() - 1;
        }
        Inst x;
        Set s = motion(c, 3 * w.size, w.dur, w.size, true);
        if (i < ni) {
            x.geo = int(c.below(w.geos.size()));
            s.s = any_scale(c);
            auto ih = frames[f].new_instance(prims[size_t(x.geo)]);
            apply(ih, s);
        } else {
            x.geo = -1, x.rad = w.size * c.logreal(0.05, 1);
            f = 0; // lights keep their size
            auto lh = sc->new_sphere_light(units::Meter(x.rad), units::Watt(1));
            auto ih = frames[f].new_instance(lh);
            apply(ih, s);
        }
        x.chain = chains[f];
        x.chain.push_back(s);
        w.in.push_back(x);
    }
    Time t0 = Time::from_et(double(c.range(-1000, 1000)) * 1e4);
    Interval iv(t0, t0 + units::Second(w.dur));
    auto view = std::make_unique<SceneView<S>>(*sc, iv, camh, ObservationMode::TRUE_STATE, size_t(w.N));
    PBT_CHECK("interval", std::abs(view->duration().to_si() - w.dur) < 1e-6, "duration");
    // poses relative to the camera
    for (int k = 0; k < w.N; ++k) {
        double dt = w.N == 1 ? 0 : w.dur * k / (w.N - 1);
        Pose cam = ts.at(dt) * cs.at(dt);
        cam.q = cam.q * turn({0, 0, 1}, roll);
        for (auto& x : w.in) {
            // relative to the top frame first, so that the far offset costs nothing
            Pose rel;
            for (size_t q = 1; q < x.chain.size(); ++q) rel = rel * x.chain[q].at(dt);
            Pose cr = cs.at(dt);
            cr.q = cr.q * turn({0, 0, 1}, roll);
            Q iq = cr.q.inv();
            x.at.push_back({iq(rel.p - cr.p), rel.s, iq * rel.q});
        }
    }
    bool late = c.boolean();
    if (late) { // a view is a snapshot: what happens to the scene later does not reach it
        switch (c.below(4)) {
        case 0: sc->root.delete_subframe(top); break;
        case 1: sc->delete_primitive(prims[0]); break;
        case 2: apply(camh, motion(c, 3 * w.size, w.dur, w.size, true)); break;
        default: sc.reset();
        }
    }
    double poserr = far * 3e-16 * 50;
    std::vector<Ray<S>> rays;
    std::vector<HitRecord> recs;
    int hits = 0;
    double batch_time = c.uniform(0, 1);
    int nr = 12;
    c.note("size", w.size), c.note("N", w.N), c.note("far", far), c.note("instances", ni), c.note("lights", nl);
    for (int r = 0; r < nr; ++r) {
        double time = w.N == 1 ? c.uniform(0, 1) : c.chance(1, 3) ? c.pick({0.0, 0.5, 1.0}) : c.uniform(0, 1);
        if (c.chance(1, 3)) time = batch_time;
        float tf = float(time);
        std::vector<Pose> now;
        for (auto& x : w.in) now.push_back(interp(x.at, double(tf)));
        V3d o = c.chance(1, 2) ? V3d(0, 0, 0) : hc::vec(c, 6 * w.size), tgt = hc::vec(c, 5 * w.size);
        if (c.chance(4, 5)) {
            size_t k = c.below(w.in.size());
            auto& x = w.in[k];
            V3d l{0, 0, 0};
            if (x.geo < 0) l = unit(c) * x.rad * c.uniform(0, 1.1);
            else if (w.geos[size_t(x.geo)].ell) l = w.geos[size_t(x.geo)].r * unit(c) * c.uniform(0, 1.05);
            else {
                auto& g = w.geos[size_t(x.geo)];
                size_t tr = c.below(g.ib.size() / 3) * 3;
                double u = c.uniform(0, 1), v = c.uniform(0, 1 - u);
                l = V3d(g.vb[g.ib[tr]].position) * (1 - u - v) + V3d(g.vb[g.ib[tr + 1]].position) * u + V3d(g.vb[g.ib[tr + 2]].position) * v;
            }
            tgt = now[k].pt(l);
        }
        V3d d = tgt - o;
        if (len(d) < 1e-3 * w.size) continue;
        Vec3<float> of(o), df(d / len(d));
        df = glm::normalize(df);
        if (c.chance(1, 8)) df *= 2.0f; // directions need not be unit
        o = V3d(of), d = V3d(df);
        Ray<S> ray(of, df);
        HitRecord h = view->intersect(ray, tf);
        if (w.N == 1 || tf == 0.5f) {
            HitRecord h2 = view->intersect(ray);
            PBT_CHECK("default_time", h2.inst_id == h.inst_id && h2.t == h.t && h2.prim_id == h.prim_id, "default time differs");
        }
        std::vector<Cand> cand;
        double reach = 0;
        for (size_t k = 0; k < w.in.size(); ++k) {
            Q iq = now[k].q.inv();
            V3d lo = iq(o - now[k].p) / now[k].s, ld = iq(d) / now[k].s;
            reach = std::max(reach, len(now[k].p));
            auto& x = w.in[k];
            size_t from = cand.size();
            double ms = std::min({now[k].s.x, now[k].s.y, now[k].s.z});
            if (x.geo < 0) sphere_hits(lo, ld, V3d(1, 1, 1) * x.rad, int(k), cand);
            else if (w.geos[size_t(x.geo)].ell) sphere_hits(lo, ld, w.geos[size_t(x.geo)].r, int(k), cand);
            else mesh_hits(lo, ld, w.geos[size_t(x.geo)], int(k), cand);
            for (size_t q = from; q < cand.size(); ++q) {
                bool round = x.geo < 0 || w.geos[size_t(x.geo)].ell;
                double sz = x.geo < 0 ? x.rad : w.size * 0.3;
                if (round) {
                    V3d r = x.geo < 0 ? V3d(1, 1, 1) * x.rad : w.geos[size_t(x.geo)].r;
                    double big = len(o) + len(now[k].p) + 2 * std::max({r.x, r.y, r.z}) * std::max({now[k].s.x, now[k].s.y, now[k].s.z});
                    cand[q].num = 1e-6 * big * big / (std::min({r.x, r.y, r.z}) * ms);
                }
                cand[q].alt *= ms * (round ? sz : 1), cand[q].edge *= ms * (round ? sz : 1);
            }
        }
        double dl = len(d), L = len(o) + reach + 4 * w.size, tol = 2e-5 * L + poserr; // Embree approximates turns to 1e-4
        auto tt = [&](const Cand& k) { return k.graze == 0 ? 1e30 : (tol + k.num + (w.N > 1 ? 5e-4 * w.size * std::max({now[size_t(k.inst)].s.x, now[size_t(k.inst)].s.y, now[size_t(k.inst)].s.z}) : 0)) / dl / std::max(k.graze, 0.02); };
        auto clear = [&](const Cand& k) { return k.edge > 10 * tol && k.graze > 0.05; };
        auto maybe = [&](const Cand& k) { return k.edge > -10 * tol; };
        const Cand* near = nullptr;
        for (auto& k : cand)
            if (clear(k) && k.t > tt(k) && (!near || k.t < near->t)) near = &k;
        if (near) PBT_CHECK("missed", h.hit(), "ray " << show(o) << " -> " << show(d) << " time " << tf << " should hit instance " << near->inst << " at t = " << near->t << ", missed");
        if (h.hit()) {
            ++hits;
            if (near) PBT_CHECK("nearest", double(h.t) < near->t + tt(*near), "ray " << show(o) << " -> " << show(d) << " time " << tf << " hits at t = " << h.t << ", behind instance " << near->inst << " at t = " << near->t);
            std::string why;
            bool ok = false, any = false;
            Interaction<S> is;
            bool resolved = false;
            for (auto& k : cand) {
                if (ok || !maybe(k) || std::abs(k.t - double(h.t)) > 2 * tt(k)) continue;
                auto& x = w.in[size_t(k.inst)];
                const Pose& P = now[size_t(k.inst)];
                const Geo* g = x.geo < 0 ? nullptr : &w.geos[size_t(x.geo)];
                if (g && !g->ell && h.prim_id * 3 != k.tri) continue;
                any = true;
                if (!resolved) is = view->resolve_hit(ray, h), resolved = true;
                bool good = true;
                auto no = [&](const std::string& m) {
                    good = false, why += " [instance " + std::to_string(k.inst) + "] " + m;
                };
                V3d pos = o + d * k.t, n = P.q(k.ng / P.s);
                n /= len(n);
                if (glm::dot(n, d) > 0) n = -n;
                double soft = (g && !g->ell) ? 0 : 1e-3 * (g ? w.size : x.rad) * std::max({P.s.x, P.s.y, P.s.z}), // angles near a pole are good to sqrt(epsilon)
                     nt = 1e-3 + (g && !g->ell ? 0 : 5e-3) + 20 * (tol + k.num) / std::max(k.alt, 1e-30);
                if (k.graze < 0.05 || (g && !g->ell && k.alt < 200 * tol)) {
                    ok = true; // grazing, or a sliver: only the distance is judged
                    continue;
                }
                if (!(len(V3d(is.position) - pos) < soft + 4 * (tol + k.num) / std::max(k.graze, 0.02) + 2 * tt(k) * dl)) no("position " + show(V3d(is.position)) + ", want " + show(pos));
                if (!(len(V3d(is.normal_g) - n) < nt)) no("geometric normal " + show(V3d(is.normal_g)) + ", want " + show(n));
                if (!(len(V3d(is.wo) + d) < 1e-6)) no("wo");
                if (!g || g->ell) {
                    if (!(len(V3d(is.normal_s) - n) < nt)) no("shading normal " + show(V3d(is.normal_s)) + ", want " + show(n));
                    if (g) {
                        V3d l = k.lp / g->r;
                        double st = std::sqrt(l.x * l.x + l.y * l.y);
                        if (st > 0.05) {
                            double u = (std::atan2(l.y, l.x) + M_PI) / (2 * M_PI), v = std::acos(std::clamp(l.z, -1.0, 1.0)) / M_PI, du = std::abs(u - double(is.uv.x));
                            if (!(std::min(du, 1 - du) < 2e-3 + nt / st && std::abs(v - double(is.uv.y)) < 2e-3 + nt / st)) no("texture coordinates");
                            V3d T = P.q(P.s * V3d(-l.y * g->r.x, l.x * g->r.y, 0));
                            T /= len(T);
                            if (!(len(V3d(is.tangent) - T) < 2e-2 + nt / st)) no("tangent " + show(V3d(is.tangent)) + ", want " + show(T));
                        }
                    }
                } else {
                    double uvw[3] = {1 - k.u - k.v, k.u, k.v};
                    V3d ns(0, 0, 0), tg(0, 0, 0), bt(0, 0, 0);
                    double uvx = 0, uvy = 0, al[3] = {0, 0, 0};
                    for (size_t q = 0; q < 3; ++q) {
                        auto& vx = g->vb[g->ib[k.tri + q]];
                        ns += V3d(vx.normal) * uvw[q], uvx += double(vx.uv.x) * uvw[q], uvy += double(vx.uv.y) * uvw[q];
                        for (size_t b = 0; b < 3; ++b) al[b] += double(vx.albedo[b]) * uvw[q];
                        tg += V3d(g->tb[g->ib[k.tri + q]].tangent) * uvw[q], bt += V3d(g->tb[g->ib[k.tri + q]].bitangent) * uvw[q];
                    }
                    double e = 1e-4 + 10 * tol / std::max(k.alt, 1e-30) / std::max(k.graze, 0.02);
                    if (!(std::abs(uvx - double(is.uv.x)) < e && std::abs(uvy - double(is.uv.y)) < e)) no("texture coordinates");
                    for (size_t b = 0; b < 3; ++b)
                        if (!(std::abs(al[b] - double(is.vertex_albedo[b])) < e)) no("vertex colour");
                    double nl = len(ns);
                    V3d m = P.q(ns / P.s);
                    m /= len(m);
                    if (nl > 0.05 && std::abs(glm::dot(m, n)) > 0.02 + 10 * e) {
                        if (glm::dot(m, n) < 0) m = -m;
                        if (!(len(V3d(is.normal_s) - m) < 30 * e / nl + 1e-3)) no("shading normal " + show(V3d(is.normal_s)) + ", want " + show(m));
                    }
                    if (!g->tan) {
                        if (!(is.tangent == Vec3<float>(0.0f) && is.bitangent == Vec3<float>(0.0f))) no("a mesh without tangents has tangent " + show(V3d(is.tangent)));
                    } else if (len(tg) > 0.05 && len(bt) > 0.05) {
                        V3d T = P.q(P.s * tg), B = P.q(P.s * bt);
                        T /= len(T), B /= len(B);
                        if (!(len(V3d(is.tangent) - T) < 30 * e / len(tg) + 1e-3)) no("tangent " + show(V3d(is.tangent)) + ", want " + show(T));
                        if (!(std::min(len(V3d(is.bitangent) - B), len(V3d(is.bitangent) + B)) < 30 * e / len(bt) + 1e-3)) no("bitangent " + show(V3d(is.bitangent)) + ", want +-" + show(B));
                        if (!(glm::dot(crs(V3d(is.tangent), V3d(is.bitangent)), V3d(is.normal_s)) > -1e-5)) no("tangent frame is left-handed");
                    }
                }
                ok = good;
            }
            if (!ok || !any)
                for (auto& k : cand)
                    if (std::abs(k.t - double(h.t)) < 0.1 * std::abs(h.t)) why += " {" + std::to_string(k.inst) + " t " + std::to_string(k.t) + " edge " + std::to_string(k.edge) + " graze " + std::to_string(k.graze) + " tol " + std::to_string(tt(k)) + "}";
            PBT_CHECK("surface", any, "ray " << show(o) << " -> " << show(d) << " time " << tf << " hits nothing that is there: t = " << h.t << " instance id " << h.inst_id << " primitive " << h.prim_id << why);
            PBT_CHECK("resolved", ok, "ray " << show(o) << " -> " << show(d) << " time " << tf << " t = " << h.t << ": " << why);
            PBT_CHECK("finite", !resolved || (finite(is.position) && finite(is.normal_g) && finite(is.normal_s) && finite(is.tangent) && finite(is.bitangent)), "an attribute is not finite");
        }
        // shadow rays: geometry occludes up to the distance asked for, lights do not
        {
            double tfar = c.uniform(0, 12 * w.size) / dl;
            RandomSampler<float> smp(1u);
            S T = view->evaluate_transmittance(ray, float(tfar), MediumStack<S>{}, smp, tf);
            bool must = false, may = false;
            for (auto& k : cand)
                if (w.in[size_t(k.inst)].geo >= 0 && !w.geos[size_t(w.in[size_t(k.inst)].geo)].clear) {
                    bool alone = true; // a ray leaves a surface it passes at a small offset, beyond what touches it
                    for (auto& j : cand) alone = alone && (w.in[size_t(j.inst)].geo < 0 || !w.geos[size_t(w.in[size_t(j.inst)].geo)].clear || std::abs(j.t - k.t) > 2 * (tt(k) + tt(j)));
                    if (alone && clear(k) && k.t > tt(k) && k.t < tfar - tt(k)) must = true;
                    if (maybe(k) && k.t > -2 * tt(k) && k.t < tfar + 2 * tt(k)) may = true;
                }
            if (clears && !may && h.hit() && h.t < tfar) c.label("light passes clear surfaces");
            PBT_CHECK("occluded", !must || T.max() == 0, "light passes an opaque surface within " << tfar << ": " << T.max());
            PBT_CHECK("unoccluded", may || (T[0] == 1 && T[1] == 1 && T[2] == 1), "nothing within " << tfar << " but the transmittance is " << T.max());
        }
        if (time == batch_time) rays.push_back(ray), recs.push_back(h);
    }
    if (!rays.empty()) {
        auto hs = view->intersect(rays, float(batch_time));
        auto is = view->resolve_hits(rays, hs);
        PBT_CHECK("batch_size", hs.size() == rays.size() && is.size() == rays.size(), "sizes");
        for (size_t i = 0; i < hs.size(); ++i) {
            PBT_CHECK("batch", hs[i].hit() == recs[i].hit() && hs[i].inst_id == recs[i].inst_id && hs[i].t == recs[i].t && hs[i].prim_id == recs[i].prim_id, "ray " << i << " of a batch differs from the single ray");
            if (hs[i].hit()) {
                auto one = view->resolve_hit(rays[i], hs[i]);
                PBT_CHECK("batch_resolved", len(V3d(one.position - is[i].position)) <= 1e-6 * len(V3d(one.position)) && len(V3d(one.normal_g - is[i].normal_g)) < 1e-6 && one.uv == is[i].uv, "surface point " << i << " of a batch differs: " << show(V3d(one.position)) << " " << show(V3d(one.normal_g)) << " uv " << one.uv.x << "," << one.uv.y << " and " << show(V3d(is[i].position)) << " " << show(V3d(is[i].normal_g)) << " uv " << is[i].uv.x << "," << is[i].uv.y);
            }
        }
    }
    c.nontrivial(hits > 2 && ni + nl > 1);
}
PBT_MAIN
