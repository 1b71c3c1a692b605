// A03: where the nodes of a scene are, how fast they move, and how they appear to an observer.
#include "hcommon.hpp"
#include "huira/huira.hpp"
#include "spiceworld.hpp"
using namespace huira;
using pbt::Ctx;
using hc::V3d;
using S = RGB;
using FH = FrameHandle<S>;
using minispice::M;
using minispice::V;
static double len(const V3d& v) { return std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }
static V3d vec(const V& v) { return {v[0], v[1], v[2]}; }
static V arr(const V3d& v) { return {v.x, v.y, v.z}; }
static V3d mv(const M& m, const V3d& v) { return vec(minispice::mul(m, arr(v))); }
static V3d crs(const V3d& a, const V3d& b) { return {a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x}; }
static Rotation<double> rot(const V3d& u, double a) { return Rotation<double>::from_local_to_parent(u, units::Radian(a)); }
static Scene<S>& scene()
{
    static Scene<S>* s = new Scene<S>();
    return *s;
}
// callbacks with known derivatives
struct PosLaw {
    V3d c, u, boom;
    double om, t0;
    V3d p(double t, const M& r) const { return c + u * std::sin(om * (t - t0)) + mv(r, boom); }
    V3d v(double t, const M& r, const V3d& w) const { return u * (om * std::cos(om * (t - t0))) + crs(w, mv(r, boom)); }
};
struct PosCb : PositionCallback {
    PosLaw l;
    explicit PosCb(PosLaw x) : l(x) {}
    void evaluate(const Time& t, const Rotation<double>& r, const Vec3<double>& w) override
    {
        double a = l.om * (t.et() - l.t0);
        V3d b = r * l.boom;
        position = l.c + l.u * std::sin(a) + b, velocity = l.u * (l.om * std::cos(a)) + crs(w, b);
    }
};
struct RotLaw {
    V3d u;
    double rate, t0, k;
    double angle(double t, const V3d& p) const { return rate * (t - t0) + k * p.x; }
    V3d w(const V3d& v) const { return u * (rate + k * v.x); }
};
struct RotCb : RotationCallback {
    RotLaw l;
    explicit RotCb(RotLaw x) : l(x) {}
    void evaluate(const Time& t, const Vec3<double>& p, const Vec3<double>& v) override { rotation = rot(l.u, l.angle(t.et(), p)), angular_velocity = l.w(v); }
};
struct AllCb : StateCallback {
    PosLaw p;
    RotLaw r;
    AllCb(PosLaw a, RotLaw b) : p(a), r(b) {}
    void evaluate(const Time& t) override
    {
        double a = p.om * (t.et() - p.t0);
        state.position = p.c + p.u * std::sin(a), state.velocity = p.u * (p.om * std::cos(a));
        state.rotation = rot(r.u, r.rate * (t.et() - r.t0)), state.angular_velocity = r.u * r.rate;
        state.scale = {7, 7, 7}; // the node's own scale counts
    }
};
enum { MAN, SPI, CB, ALL };
struct Node_ {
    FH h;
    int parent, pm = MAN, rm = MAN;
    V3d p{0, 0, 0}, v{0, 0, 0}, w{0, 0, 0}, s{1, 1, 1}, axis{0, 0, 1};
    double ang = 0;
    bool body = false;
    std::string org, frm;
    PosLaw pl{};
    RotLaw rl{};
};
struct St {
    V3d p, v, w, s;
    M r;
};
static St eval(const std::vector<Node_>& n, int i, double t, double epoch)
{
    if (i < 0) return {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1, 1, 1}, minispice::ident()};
    auto& x = n[std::size_t(i)];
    St P{{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {1, 1, 1}, minispice::ident()}, o;
    bool spice = x.pm == SPI && x.rm == SPI;
    if (!spice) P = eval(n, x.parent, t, epoch); // a fully SPICE node has its own scale only
    M rt = minispice::tr(P.r);
    o.s = P.s * x.s;
    double d = t - epoch;
    M lr{};
    V3d lw, lp, lv;
    minispice::State bs{};
    minispice::FrameState fs{};
    if (x.rm == SPI) {
        minispice::frame(x.frm, t, fs);
        o.r = minispice::tr(fs.r), o.w = vec(fs.w);
        lr = minispice::mul(rt, o.r), lw = mv(rt, o.w - P.w);
    } else if (x.rm == MAN) {
        double l = len(x.w);
        M r0 = sw::axis_angle(arr(x.axis), x.ang), dr = l > 0 ? sw::axis_angle(arr(x.w / l), l * d) : minispice::ident();
        lr = x.body ? minispice::mul(r0, dr) : minispice::mul(dr, r0);
        lw = x.body ? mv(r0, x.w) : x.w;
    } else if (x.rm == ALL) {
        lr = sw::axis_angle(arr(x.rl.u), x.rl.rate * (t - x.rl.t0)), lw = x.rl.u * x.rl.rate;
    }
    if (x.pm == SPI) {
        minispice::body(x.org, t, bs);
        o.p = vec(bs.p) * 1e3, o.v = vec(bs.v) * 1e3;
        lp = mv(rt, o.p - P.p) / P.s;
        lv = mv(rt, o.v - P.v - crs(P.w, o.p - P.p)) / P.s;
    } else if (x.pm == MAN) lp = x.p + x.v * d, lv = x.v;
    else if (x.pm == CB) lp = x.pl.p(t, x.rm == CB ? minispice::ident() : lr), lv = x.pl.v(t, lr, lw);
    else lp = x.pl.c + x.pl.u * std::sin(x.pl.om * (t - x.pl.t0)), lv = x.pl.u * (x.pl.om * std::cos(x.pl.om * (t - x.pl.t0)));
    if (x.rm == CB) lr = sw::axis_angle(arr(x.rl.u), x.rl.angle(t, lp)), lw = x.rl.w(lv);
    if (x.pm != SPI) {
        V3d a = mv(P.r, P.s * lp);
        o.p = P.p + a, o.v = P.v + mv(P.r, P.s * lv) + crs(P.w, a);
    }
    if (x.rm != SPI) o.r = minispice::mul(P.r, lr), o.w = P.w + mv(P.r, lw);
    return o;
}
static V3d rv(Ctx& c, double m) { return vec(sw::unit(c)) * c.logreal(m * 1e-6, m); }
static PosLaw pos_law(Ctx& c, double t0, bool boom) { return {rv(c, 1e7), rv(c, 1e4), boom ? rv(c, 1e3) : V3d(0, 0, 0), c.real(0, 1e-2), t0}; }
static RotLaw rot_law(Ctx& c, double t0, bool k) { return {vec(sw::unit(c)), c.real(0, 1e-2), t0, k ? 1e-7 : 0.0}; }
struct Tree {
    std::vector<Node_> n;
    FH top;
    explicit Tree(FH h) : top(h) {}
    ~Tree()
    {
        try {
            scene().root.delete_subframe(top);
        } catch (...) {
        }
    }
};
static void world_for(Ctx& c, double t0)
{
    auto& w = minispice::world();
    w = {};
    sw::add_body(c, "A", t0, c.boolean() ? 1e9 : 1e6, 40);
    sw::add_body(c, "B", t0, 1e6, 10);
    sw::add_frame(c, "FA", t0, 1e-3);
    sw::add_frame(c, "FB", t0, 1e-2);
}
static void build(Ctx& c, Tree& t, double epoch, double t0)
{
    int n = int(c.range(1, 5));
    for (int i = 0; i < n; ++i) {
        int par = i == 0 ? -1 : int(c.below(std::size_t(i)));
        FH h = i == 0 ? t.top : t.n[std::size_t(par)].h.new_subframe();
        Node_ x{h, par};
        bool ps = par < 0 || t.n[std::size_t(par)].pm == SPI, rs = par < 0 || t.n[std::size_t(par)].rm == SPI;
        x.pm = int(c.pick<int>({MAN, SPI, CB, ALL})), x.rm = int(c.pick<int>({MAN, SPI, CB}));
        if (x.pm == SPI && !ps) x.pm = MAN;
        if (x.rm == SPI && !rs) x.rm = MAN;
        if (x.pm == ALL) x.rm = ALL;
        x.s = c.chance(1, 3) ? V3d(1, 1, 1) : c.chance(2, 3) ? V3d(1, 1, 1) * c.logreal(0.1, 10) : V3d(c.logreal(0.1, 10), c.logreal(0.1, 10), c.logreal(0.1, 10));
        h.set_scale(x.s.x, x.s.y, x.s.z);
        auto nd = h.get();
        if (x.pm == MAN) {
            x.p = rv(c, 1e8), x.v = c.boolean() ? V3d(0, 0, 0) : rv(c, 1e4);
            h.set_position(units::Meter(x.p.x), units::Meter(x.p.y), units::Meter(x.p.z));
            h.set_velocity(units::MetersPerSecond(x.v.x), units::MetersPerSecond(x.v.y), units::MetersPerSecond(x.v.z));
        }
        if (x.rm == MAN) {
            x.axis = vec(sw::unit(c)), x.ang = c.real(0, 3), x.w = c.chance(1, 3) ? V3d(0, 0, 0) : rv(c, 1e-2), x.body = c.boolean();
            h.set_rotation(rot(x.axis, x.ang));
            auto W = [&](double q) { return units::RadiansPerSecond(q); };
            if (x.body) h.set_body_angular_velocity(W(x.w.x), W(x.w.y), W(x.w.z));
            else h.set_angular_velocity(W(x.w.x), W(x.w.y), W(x.w.z));
        }
        if (x.pm == SPI || x.rm == SPI) {
            x.org = c.pick<std::string>({"A", "B"}), x.frm = c.pick<std::string>({"FA", "FB", "J2000"});
            if (x.pm == SPI && x.rm == SPI && c.boolean()) h.set_spice(x.org, x.frm);
            else {
                if (x.pm == SPI) h.set_spice_origin(x.org);
                if (x.rm == SPI) h.set_spice_frame(x.frm);
            }
        }
        if (x.pm == CB) x.pl = pos_law(c, t0, x.rm != CB), nd->set_custom_position_callback<PosCb>(x.pl);
        if (x.rm == CB) x.rl = rot_law(c, t0, true), nd->set_custom_rotation_callback<RotCb>(x.rl);
        if (x.pm == ALL) x.pl = pos_law(c, t0, false), x.rl = rot_law(c, t0, false), nd->set_custom_state_callback<AllCb>(x.pl, x.rl);
        static const char* nm[] = {"manual", "spice", "callback", "state"};
        c.note("node", std::to_string(i) + "<" + std::to_string(par) + " " + nm[x.pm] + "/" + nm[x.rm] + (x.body ? " body" : ""));
        t.n.push_back(x);
    }
    (void)epoch;
}
static std::string show(const V3d& v)
{
    std::ostringstream o;
    o.precision(12);
    o << v.x << "," << v.y << "," << v.z;
    return o.str();
}
static void compare(const Transform<double>& g, const St& w, double dist, const char* what)
{
    double speed = len(w.v) + 1, tp = 1e-6 * speed + 1e-11 * dist + 1e-10 * len(w.p) + 1e-3;
    PBT_CHECK("position", len(g.position - w.p) < tp, what << ": position " << show(g.position) << ", want " << show(w.p) << " (off by " << len(g.position - w.p) << " m)");
    PBT_CHECK("velocity", len(g.velocity - w.v) < 1e-6 * speed + 1e-4 + 1e-12 * len(w.p), what << ": velocity " << show(g.velocity) << ", want " << show(w.v));
    for (int k = 0; k < 3; ++k) {
        V3d e(k == 0, k == 1, k == 2);
        PBT_CHECK("rotation", len(g.rotation * e - mv(w.r, e)) < 3e-6, what << ": axis " << k << " points to " << show(g.rotation * e) << ", want " << show(mv(w.r, e)));
    }
    PBT_CHECK("angular_velocity", len(g.angular_velocity - w.w) < 1e-7, what << ": angular velocity " << show(g.angular_velocity) << ", want " << show(w.w));
    PBT_CHECK("scale", len(g.scale - w.s) < 1e-9 * len(w.s), what << ": scale " << show(g.scale) << ", want " << show(w.s));
}
PROP(states, 3000, 60000)
{
    double t0 = double(c.range(-1000, 1000)) * 1e4, epoch = t0 + double(c.range(-600, 600)), t = t0 + double(c.range(-600, 600));
    world_for(c, t0);
    Tree tr(scene().root.new_subframe());
    build(c, tr, epoch, t0);
    int i = int(c.below(tr.n.size()));
    Time E = Time::from_et(epoch), T = Time::from_et(t);
    Transform<double> obs;
    obs.position = rv(c, c.boolean() ? 1e12 : 1e7), obs.velocity = c.chance(1, 4) ? rv(c, 1e8) : rv(c, 1e5);
    c.note("node_asked", i), c.note("t-epoch", t - epoch);
    auto nd = tr.n[std::size_t(i)].h.get();
    St now = eval(tr.n, i, t, epoch);
    Transform<double> tt = nd->get_apparent_transform(ObservationMode::TRUE_STATE, E, T, obs);
    compare(tt, now, 0, "true state");
    const double C = 299792458.0;
    double dt = len(obs.position - now.p) / C;
    St em = now;
    for (int k = 0; k < 40; ++k) em = eval(tr.n, i, t - dt, epoch), dt = len(obs.position - em.p) / C;
    if (len(em.v) > 0.01 * C || len(now.v) > 0.01 * C) return; // ten iterations are not claimed to be enough then
    Transform<double> gg = nd->get_apparent_transform(ObservationMode::GEOMETRIC_STATE, E, T, obs);
    compare(gg, em, C * dt, "state at emission");
    Transform<double> aa = nd->get_apparent_transform(ObservationMode::ABERRATED_STATE, E, T, obs);
    V3d rel = em.p - obs.position, b = obs.velocity / C;
    double d = len(rel), be = len(b);
    St ab = em;
    if (d > 1 && be > 0) {
        V3d u = rel / d, bh = b / be;
        double cs = glm::dot(u, bh), c2 = (cs + be) / (1 + be * cs);
        V3d perp = u - bh * cs;
        double s = len(perp), s2 = s * std::sqrt(1 - be * be) / (1 + be * cs);
        ab.p = obs.position + (bh * c2 + (s > 0 ? perp * (s2 / s) : perp)) * d;
        compare(aa, ab, d, "aberrated state");
    }
    int deep = 0;
    for (int k = i; k >= 0; k = tr.n[std::size_t(k)].parent) ++deep;
    c.nontrivial(deep > 1 && d > C * 1e-3);
}
// SPICE's own corrected positions agree
PROP(spice_light_time, 1500, 20000)
{
    double t0 = double(c.range(-1000, 1000)) * 1e4;
    world_for(c, t0);
    Tree tr(scene().root.new_subframe());
    tr.top.set_spice_origin("A");
    if (c.boolean()) tr.top.set_spice_frame("FA");
    Time T = Time::from_et(t0);
    auto [op, ov, l0] = spice::spkezr<double>("B", T, "J2000", "NONE", "SSB");
    Transform<double> obs;
    obs.position = op, obs.velocity = ov;
    auto g = tr.top.get()->get_apparent_transform(ObservationMode::GEOMETRIC_STATE, T, T, obs);
    auto a = tr.top.get()->get_apparent_transform(ObservationMode::ABERRATED_STATE, T, T, obs);
    auto [rp, rvv, lt] = spice::spkezr<double>("A", T, "J2000", "CN", "B");
    auto [sp, sv, ls] = spice::spkezr<double>("A", T, "J2000", "CN+S", "B");
    double d = len(rp);
    PBT_CHECK("geometric", len(g.position - op - rp) < 1e-9 * d + 1, "light-time corrected position is " << len(g.position - op - rp) << " m off SPICE's at " << d << " m");
    // the two aberration formulae differ in the second order of v/c
    double be = len(ov) / 299792458.0;
    PBT_CHECK("aberrated", len(a.position - op - sp) < d * (2 * be * be + 1e-10) + 1, "aberrated position is " << len(a.position - op - sp) << " m off SPICE's at " << d << " m, v/c " << be);
    c.nontrivial(be > 0 && lt > 0.1);
}
// the setters' rules, over histories
PROP(histories, 2500, 40000)
{
    world_for(c, 0);
    Tree tr(scene().root.new_subframe());
    tr.n.push_back(Node_{tr.top, -1});
    int ops = int(c.range(3, 25)), refused = 0;
    auto pmode = [](int m) { return m == MAN ? TransformMode::MANUAL_TRANSFORM : m == SPI ? TransformMode::SPICE_TRANSFORM : m == CB ? TransformMode::POSITION_CALLBACK : TransformMode::TRANSFORM_CALLBACK; };
    auto rmode = [](int m) { return m == MAN ? TransformMode::MANUAL_TRANSFORM : m == SPI ? TransformMode::SPICE_TRANSFORM : m == CB ? TransformMode::ROTATION_CALLBACK : TransformMode::TRANSFORM_CALLBACK; };
    for (int o = 0; o < ops; ++o) {
        std::size_t i = c.below(tr.n.size());
        Node_& x = tr.n[i];
        bool kp = false, kr = false;
        for (auto& y : tr.n) kp = kp || (y.parent == int(i) && y.pm == SPI), kr = kr || (y.parent == int(i) && y.rm == SPI);
        bool pp = x.parent < 0 || tr.n[std::size_t(x.parent)].pm == SPI, pr = x.parent < 0 || tr.n[std::size_t(x.parent)].rm == SPI;
        auto nd = x.h.get();
        int k = int(c.below(16));
        bool ok = true, threw = false;
        V3d a = rv(c, 1e6);
        double ang = c.real(0, 3);
        V3d ax = vec(sw::unit(c));
        Node_ before = x;
        std::function<void()> f;
        switch (k) {
        case 0:
            if (tr.n.size() >= 6) continue;
            if (c.boolean()) {
                FH h = x.h.new_subframe();
                tr.n.push_back(Node_{h, int(i)});
            } else {
                bool good = x.pm == SPI && x.rm == SPI;
                try {
                    FH h = x.h.new_spice_subframe("B", "FB");
                    Node_ y{h, int(i)};
                    y.pm = y.rm = SPI, y.org = "B", y.frm = "FB";
                    tr.n.push_back(y);
                    PBT_CHECK("spice_under_manual", good, "new_spice_subframe under a node that is not SPICE");
                } catch (const std::runtime_error&) {
                    PBT_CHECK("spice_under_spice", !good, "new_spice_subframe refused under a SPICE node");
                    // the half-made subframe has default state
                    auto kids = x.h.get()->get_children();
                    if (!kids.empty() && kids.size() > 0) {
                        int known = 0;
                        for (auto& y : tr.n) known += y.parent == int(i);
                        if (int(kids.size()) > known) x.h.get()->delete_child(kids.back());
                    }
                }
            }
            continue;
        case 1: ok = !kp, f = [&] { x.h.set_position(units::Meter(a.x), units::Meter(a.y), units::Meter(a.z)); }; x.pm = MAN, x.p = a; break;
        case 2: ok = !kp, f = [&] { nd->set_position(a); }; x.pm = MAN, x.p = a; break;
        case 3: ok = !kr, f = [&] { x.h.set_rotation(rot(ax, ang)); }; x.rm = MAN, x.axis = ax, x.ang = ang; break;
        case 4: ok = x.pm == MAN, f = [&] { x.h.set_velocity(units::MetersPerSecond(a.x), units::MetersPerSecond(a.y), units::MetersPerSecond(a.z)); }; x.v = a; break;
        case 5: ok = x.pm == MAN, f = [&] { nd->set_velocity(a); }; x.v = a; break;
        case 6: a = a * 1e-9, ok = x.rm == MAN, f = [&] { x.h.set_angular_velocity(units::RadiansPerSecond(a.x), units::RadiansPerSecond(a.y), units::RadiansPerSecond(a.z)); }; x.w = a, x.body = false; break;
        case 7: a = a * 1e-9, ok = x.rm == MAN, f = [&] { nd->set_angular_velocity(a); }; x.w = a, x.body = false; break;
        case 8: a = a * 1e-9, ok = x.rm == MAN, f = [&] { x.h.set_body_angular_velocity(units::RadiansPerSecond(a.x), units::RadiansPerSecond(a.y), units::RadiansPerSecond(a.z)); }; x.w = a, x.body = true; break;
        case 9: ok = pp, f = [&] { x.h.set_spice_origin("A"); }; x.pm = SPI, x.org = "A"; break;
        case 10: ok = pr, f = [&] { x.h.set_spice_frame("FA"); }; x.rm = SPI, x.frm = "FA"; break;
        case 11: ok = pp && pr, f = [&] { x.h.set_spice("B", "FB"); }; x.pm = x.rm = SPI, x.org = "B", x.frm = "FB"; break;
        case 12: {
            ok = !kp && !kr;
            f = [&] {
                Transform<double> t;
                t.position = a, t.velocity = a * 1e-3, t.rotation = rot(ax, ang), t.angular_velocity = ax * 1e-3, t.scale = {2, 2, 2};
                nd->set_manual_transform(t);
            };
            x.pm = x.rm = MAN, x.p = a, x.v = a * 1e-3, x.axis = ax, x.ang = ang, x.w = ax * 1e-3, x.s = {2, 2, 2}, x.body = false;
            break;
        }
        case 13:
            if (kp) continue;
            x.pl = pos_law(c, 0, false), x.pm = CB;
            f = [&] { nd->set_custom_position_callback<PosCb>(x.pl); };
            break;
        case 14:
            if (kr) continue;
            x.rl = rot_law(c, 0, false), x.rm = CB;
            f = [&] { nd->set_custom_rotation_callback<RotCb>(x.rl); };
            break;
        default:
            if (kp || kr) continue;
            if (c.boolean()) {
                double s = c.logreal(0.1, 10);
                x.s = {s, s, s};
                f = [&] { x.h.set_scale(x.s.x); };
            } else {
                x.pl = pos_law(c, 0, false), x.rl = rot_law(c, 0, false), x.pm = x.rm = ALL;
                f = [&] { nd->set_custom_state_callback<AllCb>(x.pl, x.rl); };
            }
        }
        c.note("op", std::to_string(i) + ":" + std::to_string(k));
        try {
            f();
        } catch (const std::runtime_error&) {
            threw = true;
        }
        PBT_CHECK("rule", threw == !ok, "operation " << k << " on node " << i << " is " << (ok ? "refused" : "accepted") << " (spice child position/rotation " << kp << kr << ", spice parent " << pp << pr << ")");
        if (!ok) x = before, ++refused;
        for (std::size_t j = 0; j < tr.n.size(); ++j) {
            Node_& y = tr.n[j];
            auto q = y.h.get();
            PBT_CHECK("modes", q->get_position_mode() == pmode(y.pm) && q->get_rotation_mode() == rmode(y.rm), "after operation " << k << " on node " << i << " node " << j << " has modes " << int(q->get_position_mode()) << "/" << int(q->get_rotation_mode()) << ", want " << int(pmode(y.pm)) << "/" << int(rmode(y.rm)));
            bool m = y.pm == MAN, r = y.rm == MAN;
            auto get = [&](bool can, const char* what, auto g, auto want) {
                bool th = false, eq = false;
                try {
                    eq = want(g());
                } catch (const std::runtime_error&) {
                    th = true;
                }
                PBT_CHECK("getters", th == !can && (th || eq), what << " of node " << j << (th ? " is refused" : " gives another value or is accepted") << " (position mode " << y.pm << ", rotation mode " << y.rm << ")");
            };
            get(m, "get_static_position", [&] { return y.h.get_static_position(); }, [&](const V3d& v) { return v == y.p; });
            get(m, "get_static_velocity", [&] { return y.h.get_static_velocity(); }, [&](const V3d& v) { return v == y.v; });
            get(r, "get_static_rotation", [&] { return y.h.get_static_rotation(); }, [&](const Rotation<double>& v) { return len(v * V3d(1, 2, 3) - rot(y.axis, y.ang) * V3d(1, 2, 3)) < 1e-9; });
            get(r, "get_static_angular_velocity", [&] { return y.h.get_static_angular_velocity(); }, [&](const V3d& v) { return v == y.w; });
            get(y.pm == SPI, "get_spice_origin", [&] { return y.h.get_spice_origin(); }, [&](const std::string& v) { return v == y.org; });
            get(y.rm == SPI, "get_spice_frame", [&] { return y.h.get_spice_frame(); }, [&](const std::string& v) { return v == y.frm; });
            PBT_CHECK("scale", len(y.h.get_static_scale() - y.s) < 1e-12 * len(y.s), "scale of node " << j);
        }
    }
    // the states follow the last setting of each part
    double t = double(c.range(-100, 100)), epoch = double(c.range(-100, 100));
    for (std::size_t j = 0; j < tr.n.size(); ++j) {
        const Node_& y = tr.n[j];
        Transform<double> g = y.h.get()->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(epoch), Time::from_et(t), Transform<double>{});
        compare(g, eval(tr.n, int(j), t, epoch), 0, "state at the end");
    }
    c.nontrivial(refused > 0 && tr.n.size() > 1);
}
// nadir frames
PROP(nadir, 2000, 20000)
{
    V3d p = rv(c, 1e9), v = rv(c, 1e4);
    V3d h = crs(p, v);
    if (len(h) < 1e-3 * len(p) * len(v)) pbt::discard();
    bool up = c.boolean();
    minispice::world() = {};
    Tree tr(scene().root.new_subframe());
    tr.top.set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z));
    tr.top.set_velocity(units::MetersPerSecond(v.x), units::MetersPerSecond(v.y), units::MetersPerSecond(v.z));
    if (up) tr.top.get()->set_z_up_y_forward_callback();
    else tr.top.get()->set_z_down_y_forward_callback();
    double d = double(c.range(-100, 100));
    V3d q = p + v * d;
    if (len(crs(q, v)) < 1e-3 * len(q) * len(v)) pbt::discard();
    Transform<double> g = tr.top.get()->get_apparent_transform(ObservationMode::TRUE_STATE, Time::from_et(0), Time::from_et(d), Transform<double>{});
    V3d z = g.rotation * V3d(0, 0, 1), y = g.rotation * V3d(0, 1, 0), x = g.rotation * V3d(1, 0, 0);
    PBT_CHECK("z", len(z - q / len(q) * (up ? 1.0 : -1.0)) < 1e-9, "the z axis is " << len(z - q / len(q) * (up ? 1.0 : -1.0)) << " off the vertical");
    PBT_CHECK("y_forward", glm::dot(y, v) > 0 && std::abs(glm::dot(y, crs(q, v))) < 1e-9 * len(crs(q, v)), "the y axis is not forward in the orbit plane");
    PBT_CHECK("right_handed", len(crs(x, y) - z) < 1e-9, "the axes are not right handed");
    c.nontrivial();
}
// handles and ownership, over histories
PROP(graph, 1500, 20000)
{
    minispice::world() = {};
    auto& sc = scene();
    Tree tr(sc.root.new_subframe());
    struct G {
        FH h;
        int parent;
        bool alive;
    };
    std::vector<G> g{{tr.top, -1, true}};
    auto dead = [&](auto&& self, int i) -> void {
        g[std::size_t(i)].alive = false;
        for (std::size_t k = 0; k < g.size(); ++k)
            if (g[k].parent == i && g[k].alive) self(self, int(k));
    };
    int ops = int(c.range(2, 20)), del = 0;
    for (int o = 0; o < ops; ++o) {
        std::size_t i = c.below(g.size());
        if (c.chance(2, 3)) {
            bool threw = hc::throws([&] { g.push_back({g[i].h.new_subframe(), int(i), true}); });
            PBT_CHECK("new_subframe", threw == !g[i].alive, "new_subframe on a " << (g[i].alive ? "live" : "deleted") << " frame");
        } else {
            int p = c.chance(1, 4) ? int(c.below(g.size())) : g[i].parent;
            if (i == 0 || p < 0) continue;
            bool ok = g[std::size_t(p)].alive && g[i].alive && g[i].parent == p;
            bool threw = hc::throws([&] { g[std::size_t(p)].h.delete_subframe(g[i].h); });
            c.note("delete", int(i));
            PBT_CHECK("delete_subframe", threw == !ok, "delete_subframe(" << i << ") from " << p << (threw ? " is refused" : " is accepted"));
            if (ok) dead(dead, int(i)), ++del;
        }
        for (std::size_t k = 0; k < g.size(); ++k) {
            PBT_CHECK("valid", g[k].h.valid() == g[k].alive, "handle " << k << " is " << (g[k].alive ? "invalid" : "still valid"));
            if (!g[k].alive) {
                PBT_CHECK("stale", hc::throws([&] { g[k].h.get(); }) && hc::throws([&] { g[k].h.set_scale(2); }) && hc::throws([&] { g[k].h.name(); }), "a stale handle can be used");
                continue;
            }
            auto n = g[k].h.get();
            std::size_t kids = 0;
            for (auto& x : g) kids += x.alive && x.parent == int(k);
            PBT_CHECK("children", n->get_children().size() == kids, "node " << k << " has " << n->get_children().size() << " children, want " << kids);
            if (g[k].parent >= 0) {
                PBT_CHECK("parent", g[k].h.get_parent().id() == g[std::size_t(g[k].parent)].h.id(), "the parent of " << k << " is another node");
                auto pa = g[k].h.get_parent_as<FrameNode<S>>();
                PBT_CHECK("parent_as", pa.id() == g[std::size_t(g[k].parent)].h.id() && hc::throws([&] { g[k].h.get_parent_as<Instance<S>>(); }), "get_parent_as");
            }
            for (std::size_t m = 0; m < k; ++m)
                if (g[m].alive) PBT_CHECK("ids", g[m].h.id() != g[k].h.id(), "two nodes share an id");
        }
    }
    PBT_CHECK("root", hc::throws([&] { sc.root.get_parent(); }), "the root has a parent");
    c.nontrivial(del > 0);
}
PBT_MAIN
