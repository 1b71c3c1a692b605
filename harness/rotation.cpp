// Rotations: every construction agrees with an independent Rodrigues / quaternion model.
#include "hcommon.hpp"
#include "huira/core/rotation.hpp"
using namespace hc;
using huira::Rotation;
namespace u = huira::units;

template <class T> double tol(double th = 0) { return 48.0 * double(std::numeric_limits<T>::epsilon()) * (1 + std::fabs(th)); }

template <class T> void proper(const Rotation<T>& r, const char* what)
{
    auto m = r.local_to_parent_matrix();
    double e = 0;
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            double d = double(glm::dot(m[i], m[j])) - (i == j ? 1 : 0);
            if (!(std::fabs(d) <= tol<T>()))
                pbt::fail("orthonormal", std::string(what) + ": columns not orthonormal, off by " + std::to_string(d));
            e = std::max(e, std::fabs(d));
        }
    double det = double(glm::determinant(m));
    PBT_CHECK("orthonormal", std::fabs(det - 1) <= tol<T>(), what << ": determinant " << det);
    auto t = r.parent_to_local_matrix();
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            PBT_CHECK("matrices", t[i][j] == m[j][i], what << ": the two matrices are not transposes");
    PBT_CHECK("axes", dist(r.x_axis(), r * huira::Vec3<T>(1, 0, 0)) <= tol<T>() && dist(r.y_axis(), r * huira::Vec3<T>(0, 1, 0)) <= tol<T>() &&
                          dist(r.z_axis(), r * huira::Vec3<T>(0, 0, 1)) <= tol<T>(),
              what << ": axes are not the images of the unit vectors");
}
template <class T> void same(const Rotation<T>& r, std::function<V3l(V3l)> model, double t, const char* what)
{
    for (int i = 0; i < 3; ++i) {
        V3l e(0);
        e[i] = 1;
        auto got = r * huira::Vec3<T>(e);
        V3l want = model(e);
        PBT_CHECK("model", dist(got, want) <= t, what << ": e" << i << " -> " << show(got) << " expected " << show(want));
    }
}
template <class T> void all_constructions(pbt::Ctx& c)
{
    V3d k0 = unit_vec(c) * (c.chance(1, 3) ? c.logreal(1e-3, 1e3) : 1.0);
    huira::Vec3<T> k(k0);
    double th0 = angle(c);
    c.note("axis", show(k));
    c.note("angle", th0);
    ld th = ld(T(th0));
    V3l kl(k);
    c.nontrivial(std::fabs(std::sin(th0 / 2)) > 1e-6);
    double t = tol<T>(th0);
    auto fwd = [&](V3l v) { return rodrigues(kl, th, v); };
    auto bwd = [&](V3l v) { return rodrigues(kl, -th, v); };
    auto a = Rotation<T>::from_local_to_parent(k, u::Radian(th0));
    proper(a, "axis-angle");
    same<T>(a, fwd, t, "axis-angle local->parent");
    auto b = Rotation<T>::from_parent_to_local(k, u::Radian(th0));
    same<T>(b, bwd, t, "axis-angle parent->local");
    // degrees
    auto deg = Rotation<T>::from_local_to_parent(k, u::Degree(th0 * 180 / M_PI));
    same<T>(deg, fwd, t, "axis-angle in degrees");
    // quaternion built here
    V3l ku = kl / std::sqrt(glm::dot(kl, kl));
    ld s = std::sin(th / 2);
    huira::Quaternion<T> q(T(std::cos(th / 2)), T(ku.x * s), T(ku.y * s), T(ku.z * s));
    huira::ShusterQuaternion<T> sq(T(ku.x * s), T(ku.y * s), T(ku.z * s), T(std::cos(th / 2)));
    same<T>(Rotation<T>::from_local_to_parent(q), fwd, t, "quaternion local->parent");
    same<T>(Rotation<T>::from_parent_to_local(q), bwd, t, "quaternion parent->local");
    same<T>(Rotation<T>::from_local_to_parent(sq), fwd, t, "vector-first quaternion local->parent");
    same<T>(Rotation<T>::from_parent_to_local(sq), bwd, t, "vector-first quaternion parent->local");
    // matrices
    V3l cx = fwd({1, 0, 0}), cy = fwd({0, 1, 0}), cz = fwd({0, 0, 1});
    huira::Mat3<T> m;
    m[0] = huira::Vec3<T>(cx);
    m[1] = huira::Vec3<T>(cy);
    m[2] = huira::Vec3<T>(cz);
    same<T>(Rotation<T>::from_local_to_parent(m), fwd, t, "matrix local->parent");
    same<T>(Rotation<T>::from_parent_to_local(m), bwd, t, "matrix parent->local");
    same<T>(Rotation<T>::from_basis_vectors(m[0], m[1], m[2]), fwd, t, "basis vectors");
    // getters: quaternion out, and all the way back
    auto qsame = [&](huira::Quaternion<T> g, int sign, const char* what) {
        // compare up to overall sign
        double w = double(std::cos(th / 2)), x = sign * double(ku.x * s), y = sign * double(ku.y * s), z = sign * double(ku.z * s);
        double d1 = std::hypot(std::hypot(double(g.w) - w, double(g.x) - x), std::hypot(double(g.y) - y, double(g.z) - z));
        double d2 = std::hypot(std::hypot(double(g.w) + w, double(g.x) + x), std::hypot(double(g.y) + y, double(g.z) + z));
        PBT_CHECK("quaternion", std::min(d1, d2) <= 4 * t, what << " off by " << std::min(d1, d2));
    };
    qsame(a.local_to_parent_quaternion(), 1, "local_to_parent_quaternion");
    qsame(a.parent_to_local_quaternion(), -1, "parent_to_local_quaternion");
    auto g = a.local_to_parent_shuster_quaternion();
    qsame(huira::Quaternion<T>(g.w, g.x, g.y, g.z), 1, "local_to_parent_shuster_quaternion");
    g = a.parent_to_local_shuster_quaternion();
    qsame(huira::Quaternion<T>(g.w, g.x, g.y, g.z), -1, "parent_to_local_shuster_quaternion");
    same<T>(Rotation<T>::from_parent_to_local(a.parent_to_local_shuster_quaternion()), fwd, 6 * t, "shuster round trip");
    same<T>(Rotation<T>::from_parent_to_local(a.parent_to_local_matrix()), fwd, 2 * t, "matrix round trip");
    // inverse
    same<T>(a.inverse(), bwd, t, "inverse");
    // cast
    auto f = static_cast<Rotation<float>>(a);
    proper(f, "cast to float");
    same<float>(f, fwd, tol<float>() + t, "cast to float");
    auto d = static_cast<Rotation<double>>(a);
    proper(d, "cast to double");
    same<double>(d, fwd, 2 * t, "cast to double");
    // elementary matrices
    int ax = int(c.below(3));
    V3l e(0);
    e[ax] = 1;
    u::Radian ra(th0);
    auto el = ax == 0 ? Rotation<T>::local_to_parent_x(ra) : ax == 1 ? Rotation<T>::local_to_parent_y(ra) : Rotation<T>::local_to_parent_z(ra);
    auto ep = ax == 0 ? Rotation<T>::parent_to_local_x(ra) : ax == 1 ? Rotation<T>::parent_to_local_y(ra) : Rotation<T>::parent_to_local_z(ra);
    for (int i = 0; i < 3; ++i) {
        V3l b0(0);
        b0[i] = 1;
        PBT_CHECK("elementary", dist(el * huira::Vec3<T>(b0), rodrigues(e, th, b0)) <= t, "local_to_parent about axis " << ax);
        PBT_CHECK("elementary", dist(ep * huira::Vec3<T>(b0), rodrigues(e, -th, b0)) <= t, "parent_to_local about axis " << ax);
    }
}
PROP(constructions_double, 40000, 800000) { all_constructions<double>(c); }
PROP(constructions_float, 40000, 800000) { all_constructions<float>(c); }

template <class T> void euler(pbt::Ctx& c)
{
    static const char* names[3] = {"xX1", "yY2", "zZ3"};
    std::string seq;
    int ax[3];
    double a[3];
    for (int i = 0; i < 3; ++i) {
        ax[i] = int(c.below(3));
        seq += names[ax[i]][c.below(3)];
        a[i] = angle(c);
    }
    bool degrees = c.boolean();
    c.note("sequence", seq);
    c.note("angles", std::to_string(a[0]) + "," + std::to_string(a[1]) + "," + std::to_string(a[2]));
    c.nontrivial(ax[0] != ax[1] && std::fabs(std::sin(a[0])) > 1e-6 && std::fabs(std::sin(a[1])) > 1e-6);
    auto el = [&](int i, V3l v) {
        V3l k(0);
        k[ax[i]] = 1;
        return rodrigues(k, a[i], v);
    };
    double t = 3 * tol<T>(std::fabs(a[0]) + std::fabs(a[1]) + std::fabs(a[2]));
    auto mk = [&](double x) { return degrees ? u::Radian(u::Degree(x * 180 / M_PI)) : u::Radian(x); };
    auto in = Rotation<T>::intrinsic_euler_angles(mk(a[0]), mk(a[1]), mk(a[2]), seq);
    auto ex = Rotation<T>::extrinsic_euler_angles(mk(a[0]), mk(a[1]), mk(a[2]), seq);
    proper(in, "intrinsic");
    proper(ex, "extrinsic");
    same<T>(in, [&](V3l v) { return el(0, el(1, el(2, v))); }, t, "intrinsic euler");
    same<T>(ex, [&](V3l v) { return el(2, el(1, el(0, v))); }, t, "extrinsic euler");
    // default sequence is XYZ
    if (ax[0] == 0 && ax[1] == 1 && ax[2] == 2) {
        auto d = Rotation<T>::intrinsic_euler_angles(mk(a[0]), mk(a[1]), mk(a[2]));
        same<T>(d, [&](V3l v) { return el(0, el(1, el(2, v))); }, t, "default sequence");
    }
    // malformed sequences are rejected
    std::string bad = seq;
    switch (c.below(4)) {
    case 0: bad += "X"; break;
    case 1: bad.pop_back(); break;
    case 2: bad[c.below(3)] = c.pick({'w', '0', '4', ' ', 'a'}); break;
    default: bad = ""; break;
    }
    PBT_CHECK("bad-sequence", throws([&] { Rotation<T>::intrinsic_euler_angles(mk(1), mk(1), mk(1), bad); }), "intrinsic accepts '" << bad << "'");
    PBT_CHECK("bad-sequence", throws([&] { Rotation<T>::extrinsic_euler_angles(mk(1), mk(1), mk(1), bad); }), "extrinsic accepts '" << bad << "'");
}
PROP(euler_double, 16000, 300000) { euler<double>(c); }
PROP(euler_float, 16000, 300000) { euler<float>(c); }

// histories: a chain of compositions tracks the model and never drifts from a proper rotation
template <class T> void chain(pbt::Ctx& c)
{
    int n = c.range(1, 40);
    c.note("steps", n);
    c.nontrivial(n >= 2);
    Rotation<T> r;
    glm::mat<3, 3, long double> ref(1);
    double sum = 0;
    V3d v0 = vec(c, 10);
    for (int i = 0; i < n; ++i) {
        V3d k = unit_vec(c);
        double th = angle(c);
        huira::Vec3<T> kt(k);
        V3l kl(kt);
        auto x = Rotation<T>::from_local_to_parent(kt, u::Radian(th));
        glm::mat<3, 3, long double> m;
        for (int j = 0; j < 3; ++j) {
            V3l e(0);
            e[j] = 1;
            m[j] = rodrigues(kl, ld(T(th)), e);
        }
        sum += 1 + std::fabs(th);
        switch (c.below(5)) {
        case 0: r = r * x; ref = ref * m; break;
        case 1: r = x * r; ref = m * ref; break;
        case 2: r *= x; ref = ref * m; break;
        case 3: r = r.inverse(); ref = glm::transpose(ref); break;
        case 4: {
            auto lhs = (r * x) * huira::Vec3<T>(v0), rhs = r * (x * huira::Vec3<T>(v0));
            PBT_CHECK("associativity", dist(lhs, rhs) <= tol<T>(sum) * (1 + len(v0)), "(r*x)*v != r*(x*v)");
            break;
        }
        }
        proper(r, "chain");
        for (int j = 0; j < 3; ++j)
            PBT_CHECK("drift", dist(r.local_to_parent_matrix()[j], ref[j]) <= tol<T>(sum), "after step " << i << " column " << j << " is " << show(r.local_to_parent_matrix()[j]) << " expected " << show(ref[j]));
    }
    auto back = r.inverse() * (r * huira::Vec3<T>(v0));
    PBT_CHECK("inverse", dist(back, v0) <= tol<T>() * (1 + len(v0)), "r.inverse()*(r*v) != v");
    PBT_CHECK("length", std::fabs(len(r * huira::Vec3<T>(v0)) - len(v0)) <= tol<T>() * (1 + len(v0)), "length not preserved");
}
PROP(chain_double, 6000, 120000) { chain<double>(c); }
PROP(chain_float, 6000, 120000) { chain<float>(c); }

// matrices: accepted ones (slightly off) become proper rotations; far ones are refused
template <class T> void matrices(pbt::Ctx& c)
{
    V3d k = unit_vec(c);
    double th = angle(c);
    glm::mat<3, 3, double> m;
    for (int j = 0; j < 3; ++j) {
        V3l e(0);
        e[j] = 1;
        m[j] = V3d(rodrigues(V3l(k), th, e));
    }
    int mode = int(c.below(4));
    c.note("mode", mode);
    c.note("angle", th);
    c.nontrivial();
    if (mode == 0) { // small perturbation
        double e = c.logreal(1e-7, 1e-4);
        for (int j = 0; j < 3; ++j)
            m[j] += vec(c, e);
        auto r = Rotation<T>::from_local_to_parent(huira::Mat3<T>(m));
        proper(r, "perturbed matrix");
        for (int j = 0; j < 3; ++j)
            PBT_CHECK("perturbed", dist(r.local_to_parent_matrix()[j], m[j]) <= 20 * e + tol<T>(th), "perturbed by " << e << " column " << j << " moved by " << dist(r.local_to_parent_matrix()[j], m[j]));
    } else {
        if (mode == 1)
            m[int(c.below(3))] *= -1.0; // reflection
        else if (mode == 2) {
            double s = c.boolean() ? c.uniform(1.01, 5) : c.uniform(0.0, 0.99);
            m = m * s;
            c.note("scale", s);
        } else
            m[int(c.below(3))] = m[int(c.below(3))] * c.pick({0.0, 1e-3, 2.0}); // singular, or a scaled column
        double det = glm::determinant(m);
        if (std::fabs(det - 1) < 3e-3)
            pbt::discard();
        PBT_CHECK("accepts-non-rotation", throws([&] { Rotation<T>::from_local_to_parent(huira::Mat3<T>(m)); }), "accepted a matrix of determinant " << det);
        PBT_CHECK("accepts-non-rotation", throws([&] { Rotation<T>::from_parent_to_local(huira::Mat3<T>(m)); }), "accepted a matrix of determinant " << det);
        PBT_CHECK("accepts-non-rotation", throws([&] { Rotation<T>::from_basis_vectors(huira::Vec3<T>(m[0]), huira::Vec3<T>(m[1]), huira::Vec3<T>(m[2])); }), "accepted a basis of determinant " << det);
    }
}
PROP(matrices_double, 12000, 300000) { matrices<double>(c); }
PROP(matrices_float, 12000, 300000) { matrices<float>(c); }
PBT_MAIN
