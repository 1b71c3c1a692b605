// A small camera and a rig of objects placed in its frame, posed anywhere in the world: shared by the renderer's harnesses.
#pragma once
#include "hcommon.hpp"
#include "huira/huira.hpp"
#include <tbb/global_control.h>
namespace rig {
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using S = RGB;
using Rd = Rotation<double>;
inline double len(const V3d& v) { return std::sqrt(glm::dot(v, v)); }
inline V3d crs(const V3d& a, const V3d& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
inline V3d nrm(const V3d& v) { return v / len(v); }
inline V3d rot(const V3d& a, double t, const V3d& x) { return x * std::cos(t) + crs(a, x) * std::sin(t) + a * (glm::dot(a, x) * (1 - std::cos(t))); }
inline S rgb(Ctx& c, double lo, double hi)
{
    S s;
    for (size_t i = 0; i < 3; ++i) s[i] = float(c.uniform(lo, hi));
    return s;
}
// any vector perpendicular to n
inline V3d perp(const V3d& n) { return nrm(std::abs(n.x) < 0.6 ? crs(n, V3d(1, 0, 0)) : crs(n, V3d(0, 1, 0))); }
struct Cam {
    CameraModelHandle<S> h;
    std::shared_ptr<CameraModel<S>> m;
};
inline Cam& cam()
{
    static Scene<S>* sc = new Scene<S>();
    static Cam* k = [] {
        auto h = sc->new_camera_model(); // slow, so only once
        return new Cam{h, h.get()};
    }();
    return *k;
}
// w by h pixels across a field of view of about 2 * half radians
inline void configure(Cam& k, int w, int h, double half)
{
    double f = 0.5 * std::max(w, h) / std::tan(half);
    k.h.set_intrinsics(float(f), float(f), float(w) / 2, float(h) / 2, Resolution{w, h}, units::Millimeter(50));
}
struct Rig {
    std::unique_ptr<Scene<S>> sc = std::make_unique<Scene<S>>();
    FrameHandle<S> top;
    InstanceHandle<S> camera;
    V3d p, ax;
    double an;
    Rig(Ctx& c, double size, double speed = 0) : top(sc->root.new_subframe()), camera(top.new_instance(cam().h))
    {
        p = c.boolean() ? V3d(0, 0, 0) : hc::vec(c, size * c.logreal(1, 1e6));
        ax = hc::unit_vec(c), an = c.chance(1, 3) ? 0 : c.uniform(-3, 3);
        top.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z));
        top.set_rotation(Rd::from_local_to_parent(ax, units::Radian(an)));
        V3d v = hc::unit_vec(c) * speed;
        top.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z));
    }
    V3d world(const V3d& d) const { return rot(ax, an, d); } // a direction of the rig's frame
    template <class H> void place(const H& h, const V3d& at, const V3d& axis = {0, 0, 1}, double angle = 0, const V3d& scale = {1, 1, 1})
    {
        h.set_position(units::Meter(at.x), units::Meter(at.y), units::Meter(at.z));
        h.set_rotation(Rd::from_local_to_parent(axis, units::Radian(angle)));
        h.set_scale(scale.x, scale.y, scale.z);
    }
    // a square of half-width w around p, facing n
    MeshHandle<S> quad(const V3d& at, const V3d& n, double w, const S& colour = S{1})
    {
        V3d u = perp(n), v = crs(n, u);
        VertexBuffer<S> vb;
        for (int i = 0; i < 4; ++i) {
            Vertex<S> x;
            x.position = Vec3<float>(at + u * (w * (i == 1 || i == 2 ? 1 : -1)) + v * (w * (i > 1 ? 1 : -1)));
            x.normal = Vec3<float>(n), x.albedo = colour;
            x.uv = {i == 1 || i == 2 ? 1.f : 0.f, i > 1 ? 1.f : 0.f};
            vb.push_back(x);
        }
        return sc->add_mesh(IndexBuffer{0, 1, 2, 0, 2, 3}, vb);
    }
};
} // namespace rig
