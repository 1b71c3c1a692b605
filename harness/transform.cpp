// Transforms: point / direction / velocity action, matrix and embree forms, composition, inverse.
#include "hcommon.hpp"
#include "huira/core/transform.hpp"
using namespace hc;
using huira::Rotation;
using huira::Transform;
namespace u = huira::units;

template <class T> struct Gen {
    Transform<T> t;
    // reference, in long double, from the T-rounded inputs
    V3l p, s, v, w, k;
    ld th;
    V3l rot(V3l x) const { return rodrigues(k, th, x); }
    V3l irot(V3l x) const { return rodrigues(k, -th, x); }
    V3l pt(V3l x) const { return rot(s * x) + p; }
};
enum ScaleKind { UNIT, UNIFORM, ANY };
template <class T> Gen<T> gen(pbt::Ctx& c, ScaleKind sk, double size = 100)
{
    Gen<T> g;
    huira::Vec3<T> k(unit_vec(c));
    double th = angle(c);
    g.k = V3l(k);
    g.th = ld(T(th));
    g.t.rotation = Rotation<T>::from_local_to_parent(k, u::Radian(th));
    g.t.position = huira::Vec3<T>(vec(c, size));
    if (sk == UNIFORM) {
        T s = T(c.boolean() ? 1.0 : c.logreal(0.05, 20));
        g.t.scale = {s, s, s};
    } else if (sk == ANY)
        g.t.scale = {T(c.logreal(0.05, 20)), T(c.logreal(0.05, 20)), T(c.logreal(0.05, 20))};
    g.t.velocity = huira::Vec3<T>(vec(c, 10));
    g.t.angular_velocity = huira::Vec3<T>(vec(c, 2));
    g.p = V3l(g.t.position);
    g.s = V3l(g.t.scale);
    g.v = V3l(g.t.velocity);
    g.w = V3l(g.t.angular_velocity);
    return g;
}
template <class T> void note(pbt::Ctx& c, const char* n, const Gen<T>& g)
{
    std::ostringstream o;
    o << "axis" << show(g.k) << " angle " << double(g.th) << " pos" << show(g.p) << " scale" << show(g.s) << " vel" << show(g.v) << " angvel" << show(g.w);
    c.note(n, o.str());
}
template <class T> constexpr double E = double(std::numeric_limits<T>::epsilon());
#define NEAR(tag, got, want, mag, what)                                                                                \
    do {                                                                                                               \
        auto g_ = (got);                                                                                               \
        auto w_ = (want);                                                                                              \
        double t_ = 200 * E<T> * (mag);                                                                                \
        PBT_CHECK(tag, dist(g_, w_) <= t_, what << ": got " << show(g_) << " expected " << show(w_) << " tolerance " << t_); \
    } while (0)

template <class T> void action(pbt::Ctx& c)
{
    auto g = gen<T>(c, ANY);
    note(c, "t", g);
    huira::Vec3<T> x(vec(c, 100));
    c.note("x", show(x));
    c.nontrivial(std::fabs(std::sin(double(g.th))) > 1e-3 && len(x) > 0);
    V3l xl(x);
    double th = 1 + std::fabs(double(g.th));
    double m = th * (len(x) * len(g.s) + len(g.p) + 1);
    NEAR("point", g.t.apply_to_point(x), g.pt(xl), m, "apply_to_point");
    NEAR("direction", g.t.apply_to_direction(x), g.rot(g.s * xl), m, "apply_to_direction");
    NEAR("velocity", g.t.apply_to_velocity(x), g.rot(g.s * xl) + g.v, m + len(g.v), "apply_to_velocity");
    NEAR("angular-velocity", g.t.apply_to_angular_velocity(x), g.rot(xl) + g.w, m + len(g.w), "apply_to_angular_velocity");
    NEAR("velocity-of-point", g.t.velocity_of_point(x), g.v + glm::cross(g.w, xl - g.p), (m + len(g.p)) * (1 + len(g.w)) + len(g.v), "velocity_of_point");
    NEAR("velocity-of-local-point", g.t.velocity_of_local_point(x), g.v + glm::cross(g.w, g.rot(g.s * xl)), (m + 2 * len(g.p)) * (1 + len(g.w)) + len(g.v), "velocity_of_local_point");
    // homogeneous matrix
    auto M = g.t.to_matrix();
    auto h = M * huira::Vec4<T>(x, T(1));
    PBT_CHECK("matrix", std::fabs(double(h.w) - 1) <= 100 * E<T> * m, "homogeneous coordinate " << double(h.w));
    NEAR("matrix", huira::Vec3<T>(h), g.pt(xl), m, "to_matrix * (x,1)");
    auto hd = M * huira::Vec4<T>(x, T(0));
    PBT_CHECK("matrix", std::fabs(double(hd.w)) <= 100 * E<T> * m, "homogeneous coordinate of a direction " << double(hd.w));
    NEAR("matrix", huira::Vec3<T>(hd), g.rot(g.s * xl), m, "to_matrix * (x,0)");
    // embree decomposition: T * R(q) * S, no skew, no shift
    auto d = g.t.to_embree();
    PBT_CHECK("embree", d.skew_xy == 0 && d.skew_xz == 0 && d.skew_yz == 0 && d.shift_x == 0 && d.shift_y == 0 && d.shift_z == 0, "skew or shift");
    ld qr = d.quaternion_r, qi = d.quaternion_i, qj = d.quaternion_j, qk = d.quaternion_k;
    PBT_CHECK("embree", std::fabs(double(qr * qr + qi * qi + qj * qj + qk * qk) - 1) < 1e-5, "quaternion not unit");
    V3l sx = V3l(d.scale_x, d.scale_y, d.scale_z) * xl, qv(qi, qj, qk);
    V3l r = sx + ld(2) * qr * glm::cross(qv, sx) + ld(2) * glm::cross(qv, glm::cross(qv, sx)) + V3l(d.translation_x, d.translation_y, d.translation_z);
    PBT_CHECK("embree", dist(r, g.pt(xl)) <= 4e-5 * m, "embree form maps x to " << show(r) << " expected " << show(g.pt(xl)));
    // cast
    auto f = static_cast<Transform<float>>(g.t);
    double ef = 200 * E<float> * m;
    PBT_CHECK("cast", dist(f.apply_to_point(huira::Vec3<float>(x)), g.pt(xl)) <= ef && dist(f.velocity, g.v) <= ef && dist(f.angular_velocity, g.w) <= ef && dist(f.scale, g.s) <= ef, "cast to float");
    auto dd = static_cast<Transform<double>>(g.t);
    PBT_CHECK("cast", dist(dd.apply_to_point(V3d(x)), g.pt(xl)) <= 200 * E<T> * m && dist(dd.velocity, g.v) <= 0 && dist(dd.angular_velocity, g.w) <= 0 && dist(dd.scale, g.s) <= 0 && dist(dd.position, g.p) <= 0, "cast to double");
}
PROP(action_double, 30000, 600000) { action<double>(c); }
PROP(action_float, 30000, 600000) { action<float>(c); }

// composition is application in sequence, for points, directions and rigid-body velocities
template <class T> void compose(pbt::Ctx& c)
{
    auto a = gen<T>(c, UNIFORM), b = gen<T>(c, ANY);
    note(c, "a", a);
    note(c, "b", b);
    huira::Vec3<T> x(vec(c, 100));
    V3l xl(x);
    c.note("x", show(x));
    c.nontrivial(std::fabs(std::sin(double(a.th))) > 1e-3 && std::fabs(std::sin(double(b.th))) > 1e-3);
    auto ab = a.t * b.t;
    double th = 1 + std::fabs(double(a.th)) + std::fabs(double(b.th));
    double sa = double(a.s.x);
    double m = th * ((len(x) * len(b.s) + len(b.p) + 1) * (1 + sa) + len(a.p) + 1);
    NEAR("point", ab.apply_to_point(x), a.pt(b.pt(xl)), m, "(a*b)(x)");
    NEAR("point", ab.apply_to_point(x), a.t.apply_to_point(b.t.apply_to_point(x)), m, "(a*b)(x) against a(b(x))");
    NEAR("direction", ab.apply_to_direction(x), a.rot(a.s * b.rot(b.s * xl)), m, "(a*b) on a direction");
    // a point fixed in b: velocity seen from b's parent, then from a's parent
    V3l vb = b.v + glm::cross(b.w, b.rot(b.s * xl));
    V3l want = a.v + a.rot(a.s * vb) + glm::cross(a.w, a.rot(a.s * b.pt(xl)));
    double mv = m * (1 + len(a.w) + len(b.w)) * (1 + sa) + len(a.v) + len(b.v) * sa;
    NEAR("rigid-velocity", ab.velocity_of_local_point(x), want, 4 * mv, "velocity of a point fixed in b");
    NEAR("angular-velocity", ab.angular_velocity, a.w + a.rot(b.w), th * (1 + len(a.w) + len(b.w)), "angular velocity");
    // associativity
    auto d = gen<T>(c, ANY);
    auto l = (a.t * Transform<T>(static_cast<Transform<T>>(b.t))) * d.t;
    if (b.s.x == b.s.y && b.s.y == b.s.z) {
        auto r = a.t * (b.t * d.t);
        NEAR("associativity", l.position, r.position, 20 * m * (1 + len(d.p)) * (1 + len(b.s)), "position of (ab)d and a(bd)");
    }
}
PROP(compose_double, 30000, 600000) { compose<double>(c); }
PROP(compose_float, 30000, 600000) { compose<float>(c); }

template <class T> void inverse(pbt::Ctx& c)
{
    bool aligned = c.chance(1, 4); // no rotation: any scale has an exact inverse
    auto g = gen<T>(c, aligned ? ANY : UNIFORM);
    if (aligned) {
        g.t.rotation = Rotation<T>();
        g.th = 0;
        g.t.angular_velocity = {0, 0, 0}; // a spinning frame of unequal scale has no inverse of this form
        g.w = V3l(0);
    }
    note(c, "t", g);
    huira::Vec3<T> x(vec(c, 100));
    c.note("x", show(x));
    V3l xl(x);
    c.nontrivial(len(g.p) > 0 && (aligned || std::fabs(std::sin(double(g.th))) > 1e-3));
    auto inv = g.t.inverse();
    double th = 1 + std::fabs(double(g.th));
    double smin = double(std::min({g.s.x, g.s.y, g.s.z})), smax = double(std::max({g.s.x, g.s.y, g.s.z}));
    double cond = smax / smin;
    double mi = th * cond * (len(x) + (len(g.p) + 1) / smin + 1);
    double mo = th * cond * (len(x) + len(g.p) + smax * len(x) + 1);
    NEAR("inverse-point", inv.apply_to_point(g.t.apply_to_point(x)), xl, mi + mo / smin, "inverse(t(x))");
    NEAR("inverse-point", g.t.apply_to_point(inv.apply_to_point(x)), xl, mo + smax * mi, "t(inverse(x))");
    auto id1 = g.t * inv, id2 = inv * g.t;
    V3l zero(0), one(1);
    double mw = (1 + len(g.w)) * (1 + len(g.w));
    double mvo = 4 * th * (len(g.v) + (1 + len(g.w)) * (len(g.p) + 1)) * cond;
    for (int side = 0; side < 2; ++side) {
        const auto& id = side ? id2 : id1;
        const char* n = side ? "inverse*t" : "t*inverse";
        double k = side ? 1 / smin : 1.0;
        NEAR("inverse-compose", id.position, zero, th * cond * (len(g.p) + 1) * (k + 1) * 2, n << " position");
        NEAR("inverse-compose", id.scale, one, 4, n << " scale");
        for (int i = 0; i < 3; ++i) {
            V3l e(0);
            e[i] = 1;
            NEAR("inverse-compose", id.rotation.local_to_parent_matrix()[i], e, 2 * th, n << " rotation column " << i);
        }
        NEAR("inverse-velocity", id.velocity, zero, mvo * (k + 1) * 2, n << " velocity");
        NEAR("inverse-velocity", id.angular_velocity, zero, 4 * th * mw, n << " angular velocity");
    }
    // twice
    auto back = inv.inverse();
    NEAR("inverse-twice", back.position, g.p, 4 * mo, "inverse().inverse() position");
    NEAR("inverse-twice", back.velocity, g.v, 8 * mvo * (1 + 1 / smin) * (1 + smax), "inverse().inverse() velocity");
}
PROP(inverse_double, 30000, 600000) { inverse<double>(c); }
PROP(inverse_float, 30000, 600000) { inverse<float>(c); }

// histories: a frame hierarchy built by repeated composition, walked up and down again
template <class T> void hierarchy(pbt::Ctx& c)
{
    int n = c.range(2, 12);
    std::vector<Gen<T>> g;
    for (int i = 0; i < n; ++i) {
        auto x = gen<T>(c, UNIT, 20);
        g.push_back(x);
    }
    c.note("depth", n);
    c.nontrivial();
    huira::Vec3<T> x(vec(c, 20));
    V3l want(x), vel(0);
    for (int i = n; i-- > 0;) {
        V3l p2 = g[size_t(i)].pt(want);
        vel = g[size_t(i)].v + g[size_t(i)].rot(vel) + glm::cross(g[size_t(i)].w, g[size_t(i)].rot(want));
        want = p2;
    }
    Transform<T> left = g[0].t;
    for (int i = 1; i < n; ++i)
        left = left * g[size_t(i)].t;
    Transform<T> right = g[size_t(n - 1)].t;
    for (int i = n - 1; i-- > 0;)
        right = g[size_t(i)].t * right;
    double m = 40.0 * n * n * 10, mv = m * 20 * n;
    NEAR("hierarchy", left.apply_to_point(x), want, m, "left fold position");
    NEAR("hierarchy", right.apply_to_point(x), want, m, "right fold position");
    NEAR("hierarchy-velocity", left.velocity_of_local_point(x), vel, mv, "left fold velocity");
    NEAR("hierarchy-velocity", right.velocity_of_local_point(x), vel, mv, "right fold velocity");
    // the relative transform between two branches is exact when taken through the root
    auto rel = g[0].t.inverse() * left;
    Transform<T> sub = g[1].t;
    for (int i = 2; i < n; ++i)
        sub = sub * g[size_t(i)].t;
    NEAR("relative", rel.apply_to_point(x), sub.apply_to_point(x), 2 * m, "parent.inverse()*world is the local transform");
    NEAR("relative-velocity", rel.velocity_of_local_point(x), sub.velocity_of_local_point(x), 4 * mv, "velocity through parent.inverse()*world");
}
PROP(hierarchy_double, 10000, 200000) { hierarchy<double>(c); }
PROP(hierarchy_float, 10000, 200000) { hierarchy<float>(c); }
PBT_MAIN
