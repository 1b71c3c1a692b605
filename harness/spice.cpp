// A02: what huira asks of SPICE, and what it makes of the answers.
#include "hcommon.hpp"
#include "huira/units/units.hpp"
#include "huira/core/time.hpp"
#include "huira/util/paths.hpp"
#include "huira/scene/state_callbacks/keplerian_orbit.hpp"
#include "spiceworld.hpp"
#include <sys/wait.h>
#include <fstream>
using namespace huira;
using pbt::Ctx;
using hc::V3d;
static double len(const V3d& v) { return std::sqrt(v.x * v.x + v.y * v.y + v.z * v.z); }
static V3d vec(const minispice::V& v) { return {v[0], v[1], v[2]}; }
static void make(Ctx& c, double t0)
{
    auto& w = minispice::world();
    w = {};
    sw::add_body(c, "A", t0, 1e9, 30);
    sw::add_body(c, "B", t0, 1e6, 10);
    sw::add_frame(c, "FA", t0, 1e-3);
    sw::add_frame(c, "FB", t0, 1e-1);
}
static std::string pickf(Ctx& c) { return c.pick<std::string>({"J2000", "FA", "FB"}); }
PROP(states, 4000, 60000)
{
    double t0 = c.sym(1e9), t = t0 + c.sym(1e4);
    make(c, t0);
    Time tm = Time::from_et(t);
    std::string tg = c.pick<std::string>({"A", "B", "SSB"}), ob = c.pick<std::string>({"SSB", "B", "A"}), fr = pickf(c);
    if (tg == ob) pbt::discard();
    std::string ab = c.pick<std::string>({"NONE", "LT", "CN", "CN+S"});
    c.note("query", tg + " from " + ob + " in " + fr + " " + ab);
    auto [p, v, lt] = spice::spkezr<double>(tg, tm, fr, ab, ob);
    double st[6], l;
    spkezr_c(tg.c_str(), t, fr.c_str(), ab.c_str(), ob.c_str(), st, &l);
    V3d wp(st[0] * 1e3, st[1] * 1e3, st[2] * 1e3), wv(st[3] * 1e3, st[4] * 1e3, st[5] * 1e3);
    PBT_CHECK("state_si", len(p - wp) <= 1e-12 * len(wp) && len(v - wv) <= 1e-12 * len(wv) + 1e-12, "spkezr gives a position of " << len(p) << " m and speed of " << len(v) << " m/s, SPICE has " << len(wp) / 1e3 << " km and " << len(wv) / 1e3 << " km/s");
    PBT_CHECK("light_time", lt == l, "light time " << lt << ", SPICE has " << l);
    if (ab == "NONE") PBT_CHECK("light_time_si", std::abs(lt - len(p) / SPEED_OF_LIGHT<double>()) <= 1e-9 * lt, "light time " << lt << " s for " << len(p) << " m");
    auto [pf, vf, lf] = spice::spkezr<float>(tg, tm, fr, ab, ob);
    PBT_CHECK("float", len(V3d(pf) - wp) <= 1e-6 * len(wp) && len(V3d(vf) - wv) <= 1e-6 * len(wv) + 1e-9, "spkezr<float>");
    c.nontrivial(fr != "J2000" && ab != "NONE");
}
PROP(rotations, 4000, 60000)
{
    double t0 = c.sym(1e9), t = t0 + c.sym(1e4);
    make(c, t0);
    Time tm = Time::from_et(t);
    std::string a = pickf(c), b = pickf(c);
    c.note("frames", a + " to " + b);
    minispice::M r{}, dr{};
    minispice::relative(a.c_str(), b.c_str(), t, r, dr);
    Rotation<double> R = spice::pxform<double>(a, b, tm);
    minispice::V x = sw::unit(c);
    V3d in_b = vec(minispice::mul(r, x));
    PBT_CHECK("pxform", len(R.inverse() * vec(x) - in_b) < 1e-12 && len(R * in_b - vec(x)) < 1e-12, "pxform(" << a << ", " << b << ") turns a vector of " << a << " by something else than SPICE's matrix");
    auto [S, w] = spice::sxform<double>(a, b, tm);
    PBT_CHECK("sxform_rotation", len(S * in_b - vec(x)) < 1e-12, "sxform and pxform give different rotations");
    // angular velocity: a point fixed in `b` moves in `a` with w x r
    minispice::M drt = minispice::tr(dr);
    V3d vel = vec(minispice::mul(drt, minispice::V{in_b.x, in_b.y, in_b.z})), want = glm::cross(w, vec(x));
    PBT_CHECK("angular_velocity", len(vel - want) < 1e-10, "a point fixed in " << b << " moves in " << a << " at " << vel.x << "," << vel.y << "," << vel.z << " but the angular velocity implies " << want.x << "," << want.y << "," << want.z);
    auto [Sf, wf] = spice::sxform<float>(a, b, tm);
    PBT_CHECK("float", len(V3d(Sf * Vec3<float>(in_b)) - vec(x)) < 1e-5 && len(V3d(wf) - w) < 1e-6, "sxform<float>");
    c.nontrivial(a != b && len(w) > 0);
}
PROP(errors, 3000, 40000)
{
    // a failing call throws with SPICE's own words and leaves the interface usable
    double t0 = c.sym(1e9);
    make(c, t0);
    Time tm = Time::from_et(t0);
    int n = int(c.range(1, 8)), bad = 0;
    V3d ref = std::get<0>(spice::spkezr<double>("A", tm, "FA", "NONE", "B"));
    for (int i = 0; i < n; ++i) {
        int k = int(c.below(9));
        c.note("call", k);
        std::string what;
        try {
            switch (k) {
            case 0: spice::spkezr<double>("NOBODY", tm, "FA", "NONE", "B"); break;
            case 1: spice::spkezr<double>("A", tm, "NOFRAME", "NONE", "B"); break;
            case 2: spice::pxform<double>("NOFRAME", "FA", tm); break;
            case 3: spice::sxform<double>("FA", "NOFRAME", tm); break;
            case 4: spice::furnsh("/nonexistent/kernel.bsp"); break;
            case 5: spice::unitim(1.0, "XYZ", "TT"); break;
            case 6: spice::spkezr<double>("A", tm, "FA", "WRONG", "B"); break;
            case 7: spice::conics<double>({1e4, 0.1, 0, 0, 0, 0, 0, -1.0}, tm); break;
            default: spice::str2et("nonsense"); break;
            }
            pbt::fail("accepted", "a call SPICE refuses returned normally");
        } catch (const std::runtime_error& e) {
            what = e.what();
        }
        static const char* sh[] = {"IDCODENOTFOUND", "UNKNOWNFRAME", "UNKNOWNFRAME", "UNKNOWNFRAME", "NOSUCHFILE", "BADTIMETYPE", "INVALIDOPTION", "NONPOSITIVEMASS", "UNPARSEDTIME"};
        static const char* lo[] = {"'NOBODY' is not known", "'NOFRAME' is not known", "'NOFRAME' is not known", "'NOFRAME' is not known", "/nonexistent/kernel.bsp", "'XYZ'", "'WRONG'", "not positive", "'nonsense'"};
        PBT_CHECK("message", what.find(sh[k]) != std::string::npos && what.find(lo[k]) != std::string::npos, "the exception says: " << what);
        PBT_CHECK("cleared", !failed_c(), "SPICE is left in its error state");
        PBT_CHECK("mode", minispice::world().action == "RETURN" || minispice::world().action == "ABORT", "error action " << minispice::world().action);
        ++bad;
        if (c.boolean()) {
            // an error left by somebody else does not spoil the next call
            minispice::fail("SPICE(OTHER)", "left over");
        }
        V3d again = std::get<0>(spice::spkezr<double>("A", tm, "FA", "NONE", "B"));
        PBT_CHECK("recovers", again == ref, "after an error the same query gives another position");
    }
    c.nontrivial(bad > 1);
}
PROP(kernel_files, 1200, 12000)
{
    auto& w = minispice::world();
    w = {};
    fs::path root = fs::canonical(pbt::scratch()) / "kern", old = fs::current_path();
    fs::remove_all(root);
    fs::create_directories(root / "sub dir" / "deep");
    fs::create_directories(root / "work");
    struct Back {
        fs::path p, r;
        ~Back()
        {
            fs::current_path(p);
            fs::remove_all(r);
        }
    } back{old, root};
    for (auto f : {"a.bsp", "sub dir/b.tm", "sub dir/deep/c.tls", "work/a.bsp"}) std::ofstream(root / f) << f;
    fs::current_path(root / "work");
    std::vector<std::string> want;
    int n = int(c.range(1, 8)), rel = 0, miss = 0;
    for (int i = 0; i < n; ++i) {
        std::string f = c.pick<std::string>({"../a.bsp", "a.bsp", "../sub dir/b.tm", "../sub dir/deep/c.tls", "../none.bsp", "none.bsp", "../nodir/x.bsp"});
        fs::path p = f;
        if (c.boolean()) p = (root / "work" / f).lexically_normal();
        bool exists = fs::exists(p), r = c.boolean(), threw = false;
        c.note(r ? "relative" : "furnsh", p.string().substr(p.string().find("kern") == std::string::npos ? 0 : p.string().find("kern")));
        try {
            if (r) spice::furnsh_relative_to_file(p);
            else spice::furnsh(p);
        } catch (const std::exception&) {
            threw = true;
        }
        PBT_CHECK("throws", threw == !exists, "loading a kernel that " << (exists ? "exists failed" : "does not exist succeeded"));
        PBT_CHECK("cwd", fs::current_path() == root / "work", "the working directory is left at " << fs::current_path().string());
        if (exists) want.push_back(fs::canonical(p).string());
        rel += r, miss += !exists;
    }
    PBT_CHECK("loaded", w.loaded == want, w.loaded.size() << " kernels loaded, expected " << want.size() << " in order");
    c.nontrivial(rel > 0 && miss > 0);
}
// a leap-second kernel is loaded once, on first use, only when none is there
static int in_child(const std::function<int()>& f)
{
    fflush(nullptr);
    pid_t p = fork();
    if (p == 0) {
        int r = 99;
        try {
            r = f();
        } catch (...) {
        }
        _exit(r);
    }
    int st = 0;
    waitpid(p, &st, 0);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
PROP(leap_seconds, 400, 3000)
{
    fs::path root = fs::canonical(pbt::scratch()) / "lsk";
    fs::remove_all(root);
    fs::create_directories(root / "kernels" / "lsk");
    fs::create_directories(root / "kernels" / "pck");
    bool have = c.boolean(), file = have || !c.chance(1, 3), junk = file && c.chance(1, 4);
    bool user = c.boolean(), retry = c.boolean(), pck = c.boolean();
    int first = int(c.below(5));
    std::string action = c.boolean() ? "ABORT" : "REPORT";
    c.note("lsk already loaded", have), c.note("default file", file ? (junk ? "junk" : "good") : "missing"), c.note("first call", first);
    fs::path lsk = root / "kernels" / "lsk" / "naif0012.tls";
    auto write = [&](bool good) { std::ofstream(lsk) << (good ? "DELTET/DELTA_T_A = 32.184\n" : "nothing here\n"); };
    if (file) write(!junk);
    std::ofstream(root / "kernels" / "pck" / "pck00011.tpc") << "BODY399_RADII\n";
    int r = in_child([&]() -> int {
        auto& w = minispice::world();
        w = {};
        w.lsk = have, w.action = action;
        huira::set_data_dir(root);
        if (spice::get_default_lsk_path() != lsk) return 1;
        auto use = [&](int k) -> double {
            switch (k) {
            case 0: return Time("2020-01-01T00:00:00").et() - 631108869.183907;
            case 1: return spice::unitim(0, "TAI", "TT") - 32.184;
            case 2: return Time::from_julian_date(2451545.0, TimeScale::TT).to_julian_date(TimeScale::TT) - 2451545.0;
            case 3: return Time::from_et(631108869.183907).to_iso_8601() == "2020-01-01T00:00:00.000Z" ? 0 : 1;
            default: return spice::deltet(631108869.183907, "ET") - 69.183907;
            }
        };
        if (user && !have && file && !junk) { // the user loads one first
            spice::furnsh(lsk);
            w.loaded.clear();
            have = true;
        }
        bool ok = have || (file && !junk), threw = false;
        double d = 0;
        try {
            d = use(first);
        } catch (const std::runtime_error&) {
            threw = true;
        }
        if (threw != !ok) return 2;
        if (ok && std::abs(d) > 1e-4) return 3;
        if (ok && w.loaded.size() != (have ? 0u : 1u)) return 4;
        if (failed_c()) return 5;
        if (!ok && retry) {
            write(true); // the file turns up later
            if (junk) return 0; // the junk kernel counts as loaded; not judged further
            if (std::abs(use(int(c.below(5)))) > 1e-4) return 6;
            if (w.loaded.size() != 1) return 7;
            ok = true;
        }
        if (ok) {
            std::size_t n = w.loaded.size();
            for (int i = 0; i < 5; ++i)
                if (std::abs(use(i)) > 1e-4) return 8;
            if (w.loaded.size() != n) return 9; // only once
            if (w.action != "RETURN") return 10; // huira handles the errors
            if (pck) {
                spice::load_default_pck();
                if (w.loaded.size() != n + 1 || w.loaded.back() != (root / "kernels" / "pck" / "pck00011.tpc").string()) return 11;
            }
        }
        return 0;
    });
    static const char* why[] = {"", "the default path is another one", "the first use throws or not against the presence of a leap-second kernel", "the first use gives a wrong value", "kernels were loaded although one was there, or not exactly one was", "SPICE is left in its error state", "after a failed first use a kernel that has turned up is not used", "the retry loaded another number of kernels", "a later use gives a wrong value", "the kernel is loaded again", "the error action is not RETURN after use", "load_default_pck does not load the planetary constants"};
    fs::remove_all(root);
    PBT_CHECK("lazy_lsk", r == 0, (r < 12 ? why[r] : "the process died") << " (code " << r << ")");
    c.nontrivial(!have);
}
PROP(conic_orbits, 4000, 60000)
{
    minispice::world() = {};
    double e = c.chance(1, 6) ? 0 : c.chance(1, 5) ? c.uniform(1.05, 3.0) : c.uniform(0.0, 0.95), mu = c.logreal(1, 1e11), ak = c.logreal(1e3, 1e9) * (e > 1 ? -1 : 1);
    double n = std::sqrt(mu / std::abs(ak)) / std::abs(ak), t0 = c.sym(1e8), dt = c.sym(e > 1 ? 2.0 : 7.0) / n;
    double inc = c.real(0, 3.1), raan = c.real(0, 6.2), w = c.real(0, 6.2), m0 = e > 1 ? c.sym(2.0) : c.real(0, 6.2);
    if (std::abs(dt) > 1e12) dt = c.sym(1e12);
    c.note("a km", ak), c.note("e", e), c.note("mu", mu);
    Time t = Time::from_et(t0 + dt);
    dt = t.et() - t0;
    V3d r, v;
    if (c.boolean()) {
        auto s = spice::conics<double>({ak, e, inc, raan, w, m0, t0, mu}, t);
        r = s.first, v = s.second;
    } else {
        KeplerianOrbitCallback k(units::Kilometer(ak), e, units::Radian(inc), units::Radian(raan), units::Radian(w), units::Radian(m0), Time::from_et(t0), mu);
        k.evaluate(t, Rotation<double>{}, V3d(0, 0, 0));
        r = k.position, v = k.velocity;
    }
    double M = mu * 1e9, a = ak * 1e3, R = len(r), tol = 1e-6;
    PBT_CHECK("finite", std::isfinite(R) && std::isfinite(len(v)), "the state is not finite");
    double energy = len(v) * len(v) / 2 - M / R;
    PBT_CHECK("semi_major_axis", std::abs(energy + M / (2 * a)) < tol * (M / R + M / std::abs(a)), "the orbit's semi-major axis is " << -M / (2 * energy) << " m, want " << a);
    V3d h = glm::cross(r, v);
    PBT_CHECK("angular_momentum", std::abs(len(h) - std::sqrt(M * a * (1 - e * e))) < tol * len(h) + 1e-9 * R * len(v), "the eccentricity differs");
    V3d pole(std::sin(raan) * std::sin(inc), -std::cos(raan) * std::sin(inc), std::cos(inc));
    PBT_CHECK("plane", len(h / len(h) - pole) < 1e-5, "the orbit plane differs");
    // Kepler's equation in the orbit plane
    V3d P(std::cos(raan) * std::cos(w) - std::sin(raan) * std::sin(w) * std::cos(inc), std::sin(raan) * std::cos(w) + std::cos(raan) * std::sin(w) * std::cos(inc), std::sin(w) * std::sin(inc)), Q = glm::cross(pole, P);
    double x = glm::dot(r, P), y = glm::dot(r, Q), m = m0 + n * dt;
    PBT_CHECK("direction", glm::dot(glm::cross(r, v), pole) > 0, "the orbit runs backwards");
    if (e < 1) {
        double E = std::atan2(y / (a * std::sqrt(1 - e * e)), x / a + e), got = E - e * std::sin(E);
        PBT_CHECK("mean_anomaly", std::abs(std::remainder(got - m, 2 * M_PI)) < 1e-6 + 1e-12 * std::abs(m), "mean anomaly " << got << ", want " << m);
    } else {
        double H = std::asinh(y / (std::abs(a) * std::sqrt(e * e - 1))), got = e * std::sinh(H) - H;
        PBT_CHECK("mean_anomaly", std::abs(got - m) < 1e-5 * (1 + std::abs(m)), "mean anomaly " << got << ", want " << m);
    }
    c.nontrivial(e > 0 && dt != 0);
}
PBT_MAIN
