// A small stand-in for the part of CSPICE that huira calls. CSPICE is not available offline; the
// functions below follow the NAIF documentation (time systems with the leap-second table of naif0012,
// states and rotations of analytic bodies and frames that the harness defines, two-body conics), so
// that the code around them can be exercised. The harness defines bodies and frames in `minispice`.
#pragma once
#include <unistd.h>
#include <array>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <functional>
#include <map>
#include <string>
#include <vector>
typedef char SpiceChar;
typedef const char ConstSpiceChar;
typedef double SpiceDouble;
typedef const double ConstSpiceDouble;
typedef int SpiceInt;
typedef int SpiceBoolean;
namespace minispice {
using V = std::array<double, 3>;
using M = std::array<V, 3>; // M[row][column]
struct State { V p, v; };   // km, km/s, relative to the solar system barycentre in J2000
struct FrameState { M r; V w; }; // J2000 to the frame, angular velocity of the frame in J2000 axes
struct World {
    bool failed = false, lsk = true;
    std::string shortm, longm, action = "ABORT", print = "SHORT,LONG";
    std::vector<std::string> loaded; // absolute paths, in order
    std::map<std::string, std::function<State(double)>> bodies;
    std::map<std::string, std::function<FrameState(double)>> frames;
    long calls = 0;
};
inline World& world()
{
    static World w;
    return w;
}
inline void fail(const char* s, const std::string& l)
{
    auto& w = world();
    if (!w.failed) w.failed = true, w.shortm = s, w.longm = l;
}
inline double dot(const V& a, const V& b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline V add(const V& a, const V& b, double s = 1) { return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; }
inline V mul(const M& m, const V& v) { return {dot(m[0], v), dot(m[1], v), dot(m[2], v)}; }
inline M mul(const M& a, const M& b)
{
    M r{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j)
            for (int k = 0; k < 3; ++k) r[i][j] += a[i][k] * b[k][j];
    return r;
}
inline M tr(const M& a)
{
    M r{};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) r[i][j] = a[j][i];
    return r;
}
inline V cross(const V& a, const V& b) { return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]}; }
inline M ident() { return {{{1, 0, 0}, {0, 1, 0}, {0, 0, 1}}}; }
inline std::string up(std::string s)
{
    for (auto& c : s) c = char(toupper(c));
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s;
}
inline bool body(const std::string& n, double et, State& s)
{
    auto& w = world();
    std::string k = up(n);
    if (k == "SSB" || k == "0" || k == "SOLAR SYSTEM BARYCENTER") {
        s = {};
        return true;
    }
    auto it = w.bodies.find(k);
    if (it == w.bodies.end()) {
        fail("SPICE(IDCODENOTFOUND)", "The body '" + n + "' is not known.");
        return false;
    }
    s = it->second(et);
    return true;
}
inline bool frame(const std::string& n, double et, FrameState& f)
{
    std::string k = up(n);
    if (k == "J2000") {
        f = {ident(), {0, 0, 0}};
        return true;
    }
    auto it = world().frames.find(k);
    if (it == world().frames.end()) {
        fail("SPICE(UNKNOWNFRAME)", "The frame '" + n + "' is not known.");
        return false;
    }
    f = it->second(et);
    return true;
}
inline const std::vector<std::pair<double, int>>& leaps() // UTC seconds past J2000 (noon), TAI - UTC
{
    static std::vector<std::pair<double, int>> t = [] {
        static const int d[][3] = {{1972, 1, 10}, {1972, 7, 11}, {1973, 1, 12}, {1974, 1, 13}, {1975, 1, 14}, {1976, 1, 15}, {1977, 1, 16}, {1978, 1, 17}, {1979, 1, 18}, {1980, 1, 19}, {1981, 7, 20}, {1982, 7, 21}, {1983, 7, 22}, {1985, 7, 23}, {1988, 1, 24}, {1990, 1, 25}, {1991, 1, 26}, {1992, 7, 27}, {1993, 7, 28}, {1994, 7, 29}, {1996, 1, 30}, {1997, 7, 31}, {1999, 1, 32}, {2006, 1, 33}, {2009, 1, 34}, {2012, 7, 35}, {2015, 7, 36}, {2017, 1, 37}};
        std::vector<std::pair<double, int>> v;
        for (auto& x : d) {
            std::tm tm{};
            tm.tm_year = x[0] - 1900, tm.tm_mon = x[1] - 1, tm.tm_mday = 1;
            v.push_back({double(timegm(&tm)) - 946728000.0, x[2]});
        }
        return v;
    }();
    return t;
}
inline int tai_utc(double utc)
{
    int l = 9; // before 1972
    for (auto& [t, n] : leaps())
        if (utc >= t) l = n;
    return l;
}
inline double tdb_tt(double t) // argument TT or TDB (the difference does not matter at this level)
{
    double m = 6.239996 + 1.99096871e-7 * t;
    return 1.657e-3 * std::sin(m + 1.671e-2 * std::sin(m));
}
inline double tt_of_tdb(double et)
{
    double tt = et;
    for (int i = 0; i < 4; ++i) tt = et - tdb_tt(tt);
    return tt;
}
inline double delta_utc(double utc)
{
    double tt = utc + tai_utc(utc) + 32.184;
    return tai_utc(utc) + 32.184 + tdb_tt(tt);
}
inline double delta_et(double et)
{
    double tai = tt_of_tdb(et) - 32.184, utc = tai - tai_utc(tai - 37);
    for (int i = 0; i < 4; ++i) utc = tai - tai_utc(utc);
    return et - utc;
}
inline bool have_lsk()
{
    if (!world().lsk) fail("SPICE(NOLEAPSECONDS)", "No leap seconds are loaded.");
    return world().lsk;
}
} // namespace minispice

inline SpiceBoolean failed_c() { return minispice::world().failed; }
inline void reset_c()
{
    auto& w = minispice::world();
    w.failed = false, w.shortm.clear(), w.longm.clear();
}
inline void getmsg_c(ConstSpiceChar* o, SpiceInt n, SpiceChar* out)
{
    auto& w = minispice::world();
    std::snprintf(out, std::size_t(n), "%s", (minispice::up(o) == "SHORT" ? w.shortm : w.longm).c_str());
}
inline void erract_c(ConstSpiceChar* op, SpiceInt n, SpiceChar* a)
{
    auto& w = minispice::world();
    if (minispice::up(op) == "SET") w.action = a;
    else std::snprintf(a, std::size_t(n), "%s", w.action.c_str());
}
inline void errprt_c(ConstSpiceChar* op, SpiceInt n, SpiceChar* a)
{
    auto& w = minispice::world();
    if (minispice::up(op) == "SET") w.print = a;
    else std::snprintf(a, std::size_t(n), "%s", w.print.c_str());
}
inline void furnsh_c(ConstSpiceChar* f)
{
    if (failed_c()) return;
    std::ifstream in(f);
    if (!in) {
        minispice::fail("SPICE(NOSUCHFILE)", std::string("The attempt to load '") + f + "' failed.");
        return;
    }
    std::string text((std::istreambuf_iterator<char>(in)), {});
    char* p = realpath(f, nullptr);
    minispice::world().loaded.push_back(p ? p : f);
    free(p);
    if (text.find("DELTET/") != std::string::npos) minispice::world().lsk = true;
}
inline void str2et_c(ConstSpiceChar* s, SpiceDouble* et)
{
    using namespace minispice;
    if (failed_c() || !have_lsk()) return;
    int y = 0, mo = 1, d = 1, h = 0, mi = 0, n = 0;
    double sec = 0;
    char sep = 0;
    std::string t = s;
    bool doy = false;
    if (std::sscanf(s, "%4d-%2d-%2d%n", &y, &mo, &d, &n) == 3 && n == 10) {
    } else if (n = 0, mo = 1, std::sscanf(s, "%4d-%3d%n", &y, &d, &n) == 2 && n == 8) {
        doy = true;
    } else {
        fail("SPICE(UNPARSEDTIME)", "Cannot read the time '" + t + "'.");
        return;
    }
    std::string r = t.substr(std::size_t(n));
    if (!r.empty()) {
        int k = 0;
        if (std::sscanf(r.c_str(), "%c%2d:%2d:%lf%n", &sep, &h, &mi, &sec, &k) < 4 || (sep != 'T' && sep != ' ')) {
            fail("SPICE(UNPARSEDTIME)", "Cannot read the time '" + t + "'.");
            return;
        }
        r = r.substr(std::size_t(k));
        if (!(r.empty() || r == "Z" || r == " UTC")) {
            fail("SPICE(UNPARSEDTIME)", "Cannot read the time '" + t + "'.");
            return;
        }
    }
    std::tm tm{};
    tm.tm_year = y - 1900, tm.tm_mon = mo - 1, tm.tm_mday = doy ? 1 : d, tm.tm_hour = h, tm.tm_min = mi;
    double utc = double(timegm(&tm)) - 946728000.0 + (doy ? (d - 1) * 86400.0 : 0.0) + sec;
    *et = utc + delta_utc(utc);
}
inline void deltet_c(SpiceDouble e, ConstSpiceChar* type, SpiceDouble* d)
{
    using namespace minispice;
    if (failed_c() || !have_lsk()) return;
    std::string t = up(type);
    if (t == "UTC") *d = delta_utc(e);
    else if (t == "ET") *d = delta_et(e);
    else fail("SPICE(INVALIDEPOCH)", "Unknown epoch type '" + t + "'.");
}
inline SpiceDouble unitim_c(SpiceDouble e, ConstSpiceChar* in, ConstSpiceChar* out)
{
    using namespace minispice;
    if (failed_c() || !have_lsk()) return 0;
    std::string a = up(in), b = up(out);
    double tt;
    if (a == "TDB" || a == "ET") tt = tt_of_tdb(e);
    else if (a == "TT" || a == "TDT") tt = e;
    else if (a == "TAI") tt = e + 32.184;
    else return fail("SPICE(BADTIMETYPE)", "Unknown time system '" + a + "'."), 0;
    if (b == "TDB" || b == "ET") return tt + tdb_tt(tt);
    if (b == "TT" || b == "TDT") return tt;
    if (b == "TAI") return tt - 32.184;
    return fail("SPICE(BADTIMETYPE)", "Unknown time system '" + b + "'."), 0;
}
inline void timout_c(SpiceDouble et, ConstSpiceChar* pic, SpiceInt lenout, SpiceChar* out)
{
    using namespace minispice;
    if (failed_c() || !have_lsk()) return;
    std::string p = pic, body;
    bool rnd = false, utcs = false;
    for (std::size_t i = 0; i < p.size();) {
        if (p.compare(i, 5, "::UTC") == 0) utcs = true, i += 5;
        else if (p.compare(i, 5, "::RND") == 0) rnd = true, i += 5;
        else if (p.compare(i, 5, "::TDB") == 0) i += 5;
        else body += p[i++];
    }
    while (!body.empty() && body.back() == ' ') body.pop_back();
    double t = utcs ? et - delta_et(et) : et;
    int digits = 0;
    for (char c : body) digits += c == '#';
    double unit = std::pow(10.0, digits);
    double base = std::floor(t), frac = t - base;
    double k = rnd ? std::floor(frac * unit + 0.5) : std::floor(frac * unit + 1e-9);
    if (k >= unit) k -= unit, base += 1;
    std::time_t tt = std::time_t(base + 946728000.0);
    std::tm tm{};
    gmtime_r(&tt, &tm);
    std::string o;
    char b[64];
    for (std::size_t i = 0; i < body.size();) {
        auto is = [&](const char* w) { return body.compare(i, std::strlen(w), w) == 0; };
        if (is("YYYY")) std::snprintf(b, 64, "%04d", tm.tm_year + 1900), o += b, i += 4;
        else if (is("DOY")) std::snprintf(b, 64, "%03d", tm.tm_yday + 1), o += b, i += 3;
        else if (is("MM")) std::snprintf(b, 64, "%02d", tm.tm_mon + 1), o += b, i += 2;
        else if (is("DD")) std::snprintf(b, 64, "%02d", tm.tm_mday), o += b, i += 2;
        else if (is("HR")) std::snprintf(b, 64, "%02d", tm.tm_hour), o += b, i += 2;
        else if (is("MN")) std::snprintf(b, 64, "%02d", tm.tm_min), o += b, i += 2;
        else if (is("SC")) std::snprintf(b, 64, "%02d", tm.tm_sec), o += b, i += 2;
        else if (body[i] == '#') {
            std::snprintf(b, 64, "%0*.0f", digits, k), o += b;
            while (i < body.size() && body[i] == '#') ++i;
        } else o += body[i++];
    }
    std::snprintf(out, std::size_t(lenout), "%s", o.c_str());
}
inline void spkezr_c(ConstSpiceChar* target, SpiceDouble et, ConstSpiceChar* ref, ConstSpiceChar* abcorr, ConstSpiceChar* obs, SpiceDouble st[6], SpiceDouble* lt)
{
    using namespace minispice;
    ++world().calls;
    if (failed_c()) return;
    State o, t, t2;
    FrameState f;
    if (!body(obs, et, o) || !body(target, et, t) || !frame(ref, et, f)) return;
    const double c = 299792.458;
    V p = add(t.p, o.p, -1), v = add(t.v, o.v, -1);
    double l = std::sqrt(dot(p, p)) / c;
    std::string ab = up(abcorr);
    if (ab != "NONE" && ab != "LT" && ab != "LT+S" && ab != "CN" && ab != "CN+S") {
        fail("SPICE(INVALIDOPTION)", "Unknown correction '" + ab + "'.");
        return;
    }
    if (ab != "NONE") {
        int n = ab[0] == 'C' ? 3 : 1;
        for (int i = 0; i < n; ++i) {
            if (!body(target, et - l, t2)) return;
            p = add(t2.p, o.p, -1);
            l = std::sqrt(dot(p, p)) / c;
        }
        v = add(t2.v, o.v, -1);
        if (ab.find("+S") != std::string::npos) { // stellar aberration
            double r = std::sqrt(dot(p, p));
            V u = {p[0] / r, p[1] / r, p[2] / r}, h = cross(u, {o.v[0] / c, o.v[1] / c, o.v[2] / c});
            double s = std::sqrt(dot(h, h));
            if (s > 0) {
                double phi = std::asin(s);
                V ax = {h[0] / s, h[1] / s, h[2] / s};
                V q = add(add({p[0] * std::cos(phi), p[1] * std::cos(phi), p[2] * std::cos(phi)}, cross(ax, p), std::sin(phi)), ax, dot(ax, p) * (1 - std::cos(phi)));
                p = q;
            }
        }
    }
    V pf = mul(f.r, p), vf = mul(f.r, add(v, cross(f.w, p), -1));
    for (int i = 0; i < 3; ++i) st[i] = pf[std::size_t(i)], st[i + 3] = vf[std::size_t(i)];
    *lt = l;
}
namespace minispice {
// rotation from frame a to frame b, and its derivative
inline bool relative(const char* a, const char* b, double et, M& r, M& dr)
{
    FrameState fa, fb;
    if (!frame(a, et, fa) || !frame(b, et, fb)) return false;
    r = mul(fb.r, tr(fa.r));
    // d(R_f)/dt = -R_f * skew(w_f), w_f in J2000
    auto deriv = [](const FrameState& f) {
        M s = {{{0, -f.w[2], f.w[1]}, {f.w[2], 0, -f.w[0]}, {-f.w[1], f.w[0], 0}}}, m = mul(f.r, s);
        for (auto& row : m)
            for (auto& x : row) x = -x;
        return m;
    };
    M x = mul(deriv(fb), tr(fa.r)), y = mul(fb.r, tr(deriv(fa)));
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j) dr[i][j] = x[i][j] + y[i][j];
    return true;
}
} // namespace minispice
inline void pxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[3][3])
{
    using namespace minispice;
    ++world().calls;
    if (failed_c()) return;
    M r{}, dr{};
    if (!relative(from, to, et, r, dr)) return;
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j) m[i][j] = r[i][j];
}
inline void sxform_c(ConstSpiceChar* from, ConstSpiceChar* to, SpiceDouble et, SpiceDouble m[6][6])
{
    using namespace minispice;
    ++world().calls;
    if (failed_c()) return;
    M r{}, dr{};
    if (!relative(from, to, et, r, dr)) return;
    for (std::size_t i = 0; i < 3; ++i)
        for (std::size_t j = 0; j < 3; ++j) m[i][j] = m[i + 3][j + 3] = r[i][j], m[i + 3][j] = dr[i][j], m[i][j + 3] = 0;
}
// NAIF: a point p fixed in the second frame has in the first the velocity av x (rot^t p).
inline void xf2rav_c(const SpiceDouble x[6][6], SpiceDouble rot[3][3], SpiceDouble av[3])
{
    double om[3][3] = {};
    for (int i = 0; i < 3; ++i)
        for (int j = 0; j < 3; ++j) {
            rot[i][j] = x[i][j];
            for (int k = 0; k < 3; ++k) om[i][j] += x[3 + k][i] * x[k][j];
        }
    av[0] = om[2][1], av[1] = om[0][2], av[2] = om[1][0];
}
inline void conics_c(ConstSpiceDouble e[8], SpiceDouble et, SpiceDouble st[6])
{
    using namespace minispice;
    if (failed_c()) return;
    double rp = e[0], ecc = e[1], inc = e[2], node = e[3], argp = e[4], m0 = e[5], t0 = e[6], mu = e[7];
    if (!(mu > 0)) return fail("SPICE(NONPOSITIVEMASS)", "MU is not positive.");
    if (!(rp > 0)) return fail("SPICE(BADPERIAPSEVALUE)", "The periapsis distance is not positive.");
    if (ecc < 0) return fail("SPICE(BADECCENTRICITY)", "The eccentricity is negative.");
    double px, py, vx, vy;
    if (ecc < 1) {
        double a = rp / (1 - ecc), n = std::sqrt(mu / a) / a, m = std::remainder(m0 + n * (et - t0), 2 * M_PI), E = ecc > 0.8 ? M_PI * (m < 0 ? -1 : 1) : m;
        for (int i = 0; i < 60; ++i) E -= (E - ecc * std::sin(E) - m) / (1 - ecc * std::cos(E));
        double b = a * std::sqrt(1 - ecc * ecc), dE = n / (1 - ecc * std::cos(E));
        px = a * (std::cos(E) - ecc), py = b * std::sin(E), vx = -a * std::sin(E) * dE, vy = b * std::cos(E) * dE;
    } else {
        double a = rp / (ecc - 1), n = std::sqrt(mu / a) / a, m = m0 + n * (et - t0), H = std::asinh(m / std::max(ecc, 1.0001));
        for (int i = 0; i < 60; ++i) H -= (ecc * std::sinh(H) - H - m) / (ecc * std::cosh(H) - 1);
        double b = a * std::sqrt(ecc * ecc - 1), dH = n / (ecc * std::cosh(H) - 1);
        px = a * (ecc - std::cosh(H)), py = b * std::sinh(H), vx = -a * std::sinh(H) * dH, vy = b * std::cosh(H) * dH;
    }
    double cO = std::cos(node), sO = std::sin(node), ci = std::cos(inc), si = std::sin(inc), cw = std::cos(argp), sw = std::sin(argp);
    double P[3] = {cO * cw - sO * sw * ci, sO * cw + cO * sw * ci, sw * si}, Q[3] = {-cO * sw - sO * cw * ci, -sO * sw + cO * cw * ci, cw * si};
    for (int i = 0; i < 3; ++i) st[i] = P[i] * px + Q[i] * py, st[i + 3] = P[i] * vx + Q[i] * vy;
}
