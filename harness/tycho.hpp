// lines of the Tycho-2 text files, generated from the catalogue's byte-by-byte description
#pragma once
#include "hcommon.hpp"
using pbt::Ctx;
static const double D2R = M_PI / 180, MAS = M_PI / 180 / 3600 / 1000;
static double nan_() { return std::numeric_limits<double>::quiet_NaN(); }
static std::string fmt(const char* f, double v)
{
    char b[64];
    std::snprintf(b, sizeof b, f, v);
    return b;
}
struct Line {
    std::string s;
    bool keep = false;
    int t1 = 0, t2 = 0, t3 = 0;
    double ra = 0, dec = 0, pmra = 0, pmdec = 0, era = 2000, edec = 2000, bt = nan_(), vt = nan_();
};
// put a field at 1-based bytes [a,b], right aligned
static void field(std::string& s, int a, int b, const std::string& v)
{
    size_t w = size_t(b - a + 1);
    if (v.size() > w) pbt::fail("generator", "field too wide: " + v);
    s.replace(size_t(a - 1), w, std::string(w - v.size(), ' ') + v);
}
static double dec_(Ctx& c) { return c.chance(1, 6) ? c.pick({0.0, 89.0, -89.0, 45.0}) : c.uniform(-89, 89); }
static double rnd(double v, int d) { return std::stod(fmt(("%." + std::to_string(d) + "f").c_str(), v)); }
// kind: 0 main catalogue, 1 supplement
static Line star_line(Ctx& c, int kind)
{
    Line l;
    bool main = kind == 0;
    size_t len = main ? 206 : 122;
    std::string s(len, ' ');
    for (int b : main ? std::vector<int>{13, 15, 28, 41, 49, 57, 61, 65, 69, 74, 83, 88, 93, 96, 100, 104, 108, 110 + 7, 123, 130, 136, 140, 142, 152, 165, 178, 183, 188, 194, 200, 202}
                      : std::vector<int>{13, 15, 28, 41, 49, 57, 63, 69, 75, 81, 83, 90, 96, 103, 109, 113, 115})
        if (b <= int(len)) s[size_t(b - 1)] = '|';
    if (main) s[109] = '|', s[116] = '|';
    l.t1 = c.range(1, 9537);
    l.t2 = c.range(1, 12121);
    l.t3 = c.range(1, 3);
    field(s, 1, 4, fmt("%04.0f", l.t1));
    field(s, 6, 10, fmt("%05.0f", l.t2));
    field(s, 12, 12, fmt("%.0f", l.t3));
    bool mean = true;
    if (main) {
        char flag = c.pick({' ', ' ', 'P', 'X'});
        s[13] = flag;
        mean = flag != 'X';
    } else
        s[13] = c.pick({'H', 'T'});
    double ra = rnd(c.chance(1, 5) ? c.pick({0.0, 359.99999999, 100.0, 99.99999999, 9.5}) : c.uniform(0, 360), 8), de = rnd(dec_(c), 8);
    double ora = rnd(std::fmod(ra + 0.001, 360), 8), ode = rnd(de * 0.999999, 8);
    if (c.chance(1, 8)) ora = rnd(c.uniform(0, 360), 8), ode = rnd(dec_(c), 8);
    double pra = rnd(c.chance(1, 4) ? c.sym(9999) : c.sym(60), 1), pde = rnd(c.chance(1, 4) ? c.sym(9999) : c.sym(60), 1);
    bool have_pm = mean ? (main || !c.chance(1, 3)) : c.chance(1, 2); // a line without a mean position may still give a motion
    if (mean) {
        field(s, 16, 27, fmt("%.8f", ra));
        field(s, 29, 40, fmt("%.8f", de));
        l.ra = ra, l.dec = de;
    }
    if (have_pm) {
        field(s, 42, 48, fmt("%.1f", pra));
        field(s, 50, 56, fmt("%.1f", pde));
        l.pmra = pra, l.pmdec = pde;
    }
    if (main && mean) {
        field(s, 58, 60, "68"), field(s, 62, 64, "73"), field(s, 66, 68, "1.7"), field(s, 70, 73, "1.8");
        field(s, 75, 82, "1958.89"), field(s, 84, 87, "1951"), field(s, 89, 92, "4");
    }
    if (main) {
        double e1 = rnd(c.uniform(0.81, 2.13), 2), e2 = rnd(c.uniform(0.72, 2.36), 2);
        field(s, 153, 164, fmt("%.8f", ora));
        field(s, 166, 177, fmt("%.8f", ode));
        field(s, 179, 182, fmt("%.2f", e1));
        field(s, 184, 187, fmt("%.2f", e2));
        field(s, 189, 193, "88.0");
        field(s, 195, 199, "100.8");
        field(s, 203, 206, "-0.2");
        if (!mean) l.ra = ora, l.dec = ode, l.era = 1990 + e1, l.edec = 1990 + e2;
    } else
        l.era = l.edec = 1991.25;
    int mags = int(c.below(8)); // 0: none 1: BT only 2: VT only
    double bt = rnd(c.uniform(2, 15), 3), vt = rnd(bt - c.uniform(-0.4, 2.2), 3);
    int bcol = main ? 111 : 84, vcol = main ? 124 : 97;
    if (mags != 0 && mags != 2) field(s, bcol, bcol + 5, fmt("%.3f", bt)), field(s, bcol + 7, bcol + 11, "0.158"), l.bt = bt;
    if (mags != 0 && mags != 1) field(s, vcol, vcol + 5, fmt("%.3f", vt)), field(s, vcol + 7, vcol + 11, "0.223"), l.vt = vt;
    l.keep = mags != 0;
    if (!mean) c.label(have_pm ? "observed position with motion" : "no mean position");
    if (!l.keep) c.label("no magnitude");
    // a line without a position is skipped
    if (c.chance(1, 12)) {
        if (mean) field(s, 16, 27, "");
        else field(s, 153, 164, "");
        l.keep = false;
        c.label("no position");
    }
    if (main && !mean && c.chance(1, 12)) field(s, 179, 182, ""), l.keep = false;
    // the last columns are optional for the reader: trailing spaces may be stripped
    if (c.chance(1, 6)) s.erase(s.find_last_not_of(' ') + 1);
    l.s = s;
    return l;
}
