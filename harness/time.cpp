// A01: instants, time scales and exposure intervals.
#include "hcommon.hpp"
#include "huira/units/units.hpp"
#include "huira/core/time.hpp"
#include "huira/core/interval.hpp"
using namespace huira;
using pbt::Ctx;
static const TimeScale SC[] = {TimeScale::UTC, TimeScale::TAI, TimeScale::TT, TimeScale::TDB};
// an instant between 1973 and 2060, often close to a leap second
static double draw_et(Ctx& c)
{
    switch (c.below(4)) {
    case 0: {
        auto& l = minispice::leaps();
        double utc = l[1 + c.below(l.size() - 1)].first + c.sym(c.boolean() ? 3.0 : 100000.0);
        return utc + minispice::delta_utc(utc);
    }
    case 1: return c.sym(1e6);
    default: return c.uniform(-8.5e8, 1.9e9);
    }
}
// UTC seconds past J2000 at which TAI-UTC is constant within the margin
static bool near_leap(double et, double m)
{
    for (auto& [t, n] : minispice::leaps())
        if (std::abs(et - minispice::delta_utc(t) - t) < m) return true;
    return false;
}
PROP(scales, 6000, 120000)
{
    double et = draw_et(c);
    c.note("et", et);
    Time t = c.boolean() ? Time::from_et(et) : Time::from_ephemeris_time(et);
    PBT_CHECK("et", t.et() == et && t.ephemeris_time() == et, "et() gives " << t.et());
    double jd[4], y[4];
    for (int i = 0; i < 4; ++i) {
        jd[i] = t.to_julian_date(SC[i]);
        y[i] = t.julian_years_since_j2000(SC[i]);
        double mjd = t.to_modified_julian_date(SC[i]);
        PBT_CHECK("mjd", std::abs(jd[i] - mjd - 2400000.5) < 1e-8, "JD " << jd[i] << " MJD " << mjd);
        PBT_CHECK("years", std::abs(y[i] - (jd[i] - 2451545.0) / 365.25) < 4e-12, "julian years " << y[i] << " for JD " << jd[i]);
    }
    PBT_CHECK("default_scales", t.to_julian_date() == jd[3] && t.to_modified_julian_date() == t.to_modified_julian_date(TimeScale::TDB) && t.julian_years_since_j2000() == y[2], "the default scale of a date is TDB and that of Julian years is TT");
    const double D = 86400, Y = 365.25 * D; // differences from the (precise) Julian years
    double utc = y[0] * Y, tai = y[1] * Y, tt = y[2] * Y, tdb = y[3] * Y;
    PBT_CHECK("tdb", std::abs(tdb - et) < 1e-5, "TDB seconds " << tdb);
    PBT_CHECK("tt_tai", std::abs(tt - tai - 32.184) < 1e-5, "TT - TAI = " << tt - tai);
    PBT_CHECK("tdb_tt", std::abs(tdb - tt) < 2e-3, "TDB - TT = " << tdb - tt);
    if (!near_leap(et, 3)) {
        double n = minispice::tai_utc(utc);
        PBT_CHECK("tai_utc", std::abs(tai - utc - n) < 1e-5, "TAI - UTC = " << tai - utc << ", leap seconds " << n);
        c.nontrivial(et != 0);
    }
    for (int i = 0; i < 4; ++i) {
        if (i == 0 && near_leap(et, 3)) continue;
        Time a = Time::from_julian_date(jd[i], SC[i]), b = Time::from_modified_julian_date(t.to_modified_julian_date(SC[i]), SC[i]);
        PBT_CHECK("jd_round_trip", std::abs(a.et() - et) < 1e-4, "from_julian_date(to_julian_date) in scale " << i << " moves by " << a.et() - et << " s");
        PBT_CHECK("mjd_round_trip", std::abs(b.et() - et) < 1e-4, "from_modified_julian_date(to_modified_julian_date) in scale " << i << " moves by " << b.et() - et << " s");
    }
}
PROP(epoch_j2000, 1500, 15000)
{
    // dates in one scale, read in another
    int i = int(c.below(4)), j = int(c.below(4));
    double mjd = c.chance(1, 4) ? 51544.5 : c.boolean() ? double(c.range(41800, 70000)) : c.uniform(41800.0, 70000.0);
    c.note("mjd", mjd);
    Time a = Time::from_modified_julian_date(mjd, SC[i]), b = Time::from_julian_date(mjd + 2400000.5, SC[i]), d = Time::from_modified_julian_date(mjd, SC[j]);
    PBT_CHECK("jd_mjd", std::abs((a - b).to_si()) < 1e-4, "the same date as JD and MJD differ by " << (a - b).to_si() << " s");
    double utc = (mjd - 51544.5) * 86400, n = minispice::tai_utc(utc);
    auto off = [&](int s) { return s == 0 ? 0.0 : s == 1 ? n : n + 32.184; }; // scale - UTC
    bool edge = false;
    for (auto& [t, k] : minispice::leaps()) edge = edge || std::abs(t - utc) < 80;
    if (edge) pbt::discard();
    // the same reading in a scale that runs ahead happens earlier
    PBT_CHECK("offset", std::abs((a - d).to_si() - (off(j) - off(i))) < 4e-3, "reading " << mjd << " in scales " << i << " and " << j << " differ by " << (a - d).to_si() << " s");
    c.nontrivial(i != j);
}
static void civil(double utc, int y[7])
{
    long s = std::lround(std::floor(utc)) + 946728000L;
    long days = s >= 0 ? s / 86400 : -((-s + 86399) / 86400), r = s - days * 86400;
    // civil_from_days
    long z = days + 719468, era = (z >= 0 ? z : z - 146096) / 146097;
    unsigned doe = unsigned(z - era * 146097), yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    y[2] = int(doy - (153 * mp + 2) / 5 + 1), y[1] = int(mp < 10 ? mp + 3 : mp - 9), y[0] = int(long(yoe) + era * 400 + (y[1] <= 2));
    y[3] = int(r / 3600), y[4] = int(r / 60 % 60), y[5] = int(r % 60);
    y[6] = int(std::floor((utc - std::floor(utc)) * 1000));
}
PROP(strings, 4000, 60000)
{
    double utc = c.boolean() ? double(c.range64(-850000000L, 1900000000L)) : c.uniform(-8.5e8, 1.9e9);
    utc = std::floor(utc) + double(c.below(1000)) / 1000 + 1e-4; // 0.1 ms inside the millisecond
    for (auto& [t, k] : minispice::leaps())
        if (std::abs(t - utc) < 2) pbt::discard();
    int y[7];
    civil(utc, y);
    char iso[64], sp[64], days[64];
    std::snprintf(iso, 64, "%04d-%02d-%02dT%02d:%02d:%02d.%03d", y[0], y[1], y[2], y[3], y[4], y[5], y[6]);
    std::snprintf(sp, 64, "%04d-%02d-%02d %02d:%02d:%02d.%03d UTC", y[0], y[1], y[2], y[3], y[4], y[5], y[6]);
    std::snprintf(days, 64, "%04d/%02d/%02d", y[0], y[1], y[2]);
    c.note("utc", iso);
    Time t(iso);
    double want = utc - 1e-4 + minispice::delta_utc(utc);
    PBT_CHECK("parse", std::abs(t.et() - want) < 1e-5, "Time(" << iso << ") is et " << t.et() << ", want " << want);
    // UTC - et is the difference the Julian dates show too
    Time u = Time::from_julian_date(2451545.0 + utc / 86400, TimeScale::UTC);
    PBT_CHECK("agrees_with_dates", std::abs(u.et() - t.et()) < 3e-4, "the string and the Julian date differ by " << u.et() - t.et() << " s");
    std::string out = t.to_iso_8601();
    PBT_CHECK("iso", out == std::string(iso) + "Z", "to_iso_8601 gives " << out);
    PBT_CHECK("iso_round_trip", std::abs(Time(out).et() - t.et()) < 6e-4, "the ISO string reads back " << Time(out).et() - t.et() << " s away");
    Time m = t + units::Second(1e-4);
    PBT_CHECK("utc_string", m.to_utc_string() == sp, "to_utc_string gives " << m.to_utc_string() << ", want " << sp);
    PBT_CHECK("format", m.to_utc_string("YYYY/MM/DD") == days && m.to_utc_string("YYYY/MM/DD ::UTC") == days, "to_utc_string(YYYY/MM/DD) gives " << m.to_utc_string("YYYY/MM/DD"));
    // rounding, not truncation, in the ISO string
    double f = c.uniform(0.0, 0.00049);
    std::string same = (t + units::Second(f)).to_iso_8601(), back = (t + units::Second(-f)).to_iso_8601();
    PBT_CHECK("iso_rounds", same == out && back == out, "within half a millisecond of " << out << ": " << same << " and " << back);
    static const char* bad[] = {"", "yesterday", "2020", "2020-1", "2020-01-01T99", "not a time", "2020-01-01Tabc"};
    std::string b = bad[c.below(7)];
    PBT_CHECK("unreadable", hc::throws([&] { Time x(b); }), "Time(\"" << b << "\") is accepted");
    PBT_CHECK("recovers", Time(iso).et() == t.et(), "after an unreadable string the next one reads differently");
    c.nontrivial();
}
PROP(arithmetic, 4000, 60000)
{
    double a = draw_et(c), d = c.boolean() ? c.sym(1e3) : c.sym(1e8);
    if (c.chance(1, 10)) d = 0;
    c.note("a", a), c.note("d", d);
    Time t = Time::from_et(a), u = t + units::Second(d), zero;
    PBT_CHECK("default", zero.et() == 0, "a default Time has et " << zero.et());
    PBT_CHECK("add", u.et() == a + d, "t + d = " << u.et());
    PBT_CHECK("minutes", std::abs((t + units::Minute(d / 60)).et() - u.et()) < 1e-6 && std::abs((t + units::Hour(d / 3600)).et() - u.et()) < 1e-6, "adding minutes or hours differs from adding seconds");
    PBT_CHECK("subtract", (u - t).to_si() == u.et() - a && (t - u).to_si() == a - u.et(), "u - t = " << (u - t).to_si());
    double x = u.et();
    PBT_CHECK("order", (t < u) == (a < x) && (t <= u) == (a <= x) && (t > u) == (a > x) && (t >= u) == (a >= x) && (t == u) == (a == x) && (t != u) == (a != x), "comparison of et " << a << " and " << x << " is not that of the numbers");
    Time w = Time::from_et(a);
    PBT_CHECK("reflexive", w == t && w <= t && w >= t && !(w != t) && !(w < t) && !(w > t), "an instant differs from itself");
    c.nontrivial(d != 0);
}
PROP(intervals, 4000, 60000)
{
    double a = draw_et(c), d = c.chance(1, 10) ? 0 : c.logreal(1e-4, 1e6);
    c.note("a", a), c.note("d", d);
    double tol = 1e-6 + 1e-12 * d;
    Time t = Time::from_et(a);
    Interval s = Interval::from_start(t, units::Second(d)), m = Interval::from_centered(t, units::Second(d)), b = Interval::from_bounds(s.start, s.end);
    PBT_CHECK("start", s.start == t && std::abs(s.end.et() - a - d) < tol, "from_start: " << s.start.et() << ".." << s.end.et());
    PBT_CHECK("centred", std::abs(m.start.et() - (a - d / 2)) < tol && std::abs(m.end.et() - (a + d / 2)) < tol && std::abs(m.center().et() - a) < tol, "from_centered: " << m.start.et() << ".." << m.end.et());
    PBT_CHECK("bounds", b.start == s.start && b.end == s.end, "from_bounds");
    PBT_CHECK("duration", std::abs(s.duration().to_si() - d) < tol && std::abs(m.duration().to_si() - d) < tol, "duration " << s.duration().to_si());
    PBT_CHECK("centre", std::abs(s.center().et() - (a + d / 2)) < tol, "centre " << s.center().et());
    PBT_CHECK("units", std::abs(Interval::from_centered(t, units::Minute(d / 60)).duration().to_si() - d) < tol && std::abs(Interval::from_start(t, units::Millisecond(d * 1000)).duration().to_si() - d) < tol, "an interval of minutes or milliseconds has another length");
    std::size_t n = c.chance(1, 8) ? 0 : c.range(1, 40);
    if (n == 0) {
        PBT_CHECK("no_samples", hc::throws([&] { s.samples(0); }), "samples(0) is accepted");
        return;
    }
    auto v = s.samples(n);
    PBT_CHECK("count", v.size() == n, v.size() << " samples for " << n);
    if (n == 1) PBT_CHECK("one", v[0] == s.center(), "the only sample is at " << v[0].et());
    else
        for (std::size_t i = 0; i < n; ++i) {
            double want = a + d * double(i) / double(n - 1);
            PBT_CHECK("sample", std::abs(v[i].et() - want) < tol, "sample " << i << " of " << n << " is at +" << v[i].et() - a << " of " << d);
        }
    c.nontrivial(n > 2 && d > 0);
}
PBT_MAIN
