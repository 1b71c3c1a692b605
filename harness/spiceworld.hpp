// Random analytic bodies and frames for the CSPICE stand-in.
#pragma once
#include "hcommon.hpp"
#include "cspice/SpiceUsr.h"
namespace sw {
using minispice::FrameState;
using minispice::M;
using minispice::State;
using minispice::V;
inline V unit(pbt::Ctx& c)
{
    for (;;) {
        V v = {c.sym(1.0), c.sym(1.0), c.sym(1.0)};
        double l = std::sqrt(minispice::dot(v, v));
        if (l > 0.1) return {v[0] / l, v[1] / l, v[2] / l};
        if (l == 0) return {0, 0, 1};
    }
}
inline M axis_angle(const V& u, double a) // rotates vectors
{
    double s = std::sin(a), k = 1 - std::cos(a);
    M r = minispice::ident(), x = {{{0, -u[2], u[1]}, {u[2], 0, -u[0]}, {-u[1], u[0], 0}}}, xx = minispice::mul(x, x);
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j) r[i][j] += s * x[i][j] + k * xx[i][j];
    return r;
}
// near et0: a drifting circle; distances in km up to r, speeds up to v
inline void add_body(pbt::Ctx& c, const std::string& n, double et0, double r, double v)
{
    V p0 = unit(c), vel = unit(c), u = unit(c), w = unit(c);
    double d = c.logreal(r * 1e-6, r), s = c.real(0, v), ra = c.logreal(1, r * 1e-3), om = c.real(0, v / ra), ph = c.real(0, 6.28);
    if (c.chance(1, 8)) s = 0, om = 0;
    V q = minispice::cross(u, w);
    double l = std::sqrt(minispice::dot(q, q));
    if (l < 1e-3) q = {0, 1, 0}, u = {1, 0, 0};
    else for (auto& x : q) x /= l;
    c.note("body_" + n, d);
    minispice::world().bodies[n] = [=](double et) {
        double t = et - et0, a = om * t + ph;
        State st;
        for (std::size_t i = 0; i < 3; ++i) {
            st.p[i] = d * p0[i] + s * t * vel[i] + ra * (std::cos(a) * u[i] + std::sin(a) * q[i]);
            st.v[i] = s * vel[i] + ra * om * (-std::sin(a) * u[i] + std::cos(a) * q[i]);
        }
        return st;
    };
}
inline void add_frame(pbt::Ctx& c, const std::string& n, double et0, double rate)
{
    V u = unit(c), w = unit(c);
    double a0 = c.real(0, 3.1), om = c.chance(1, 5) ? 0 : c.real(0, rate);
    M b0 = axis_angle(u, a0);
    minispice::world().frames[n] = [=](double et) {
        M b = minispice::mul(axis_angle(w, om * (et - et0)), b0);
        return FrameState{minispice::tr(b), {om * w[0], om * w[1], om * w[2]}};
    };
}
} // namespace sw
