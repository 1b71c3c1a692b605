// Units: every unit against an independent table of SI values; conversion, arithmetic and order laws.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/units/units.hpp"
using namespace huira::units;
using pbt::Ctx;

static double value(Ctx& c)
{
    switch (c.below(6)) {
    case 0: return 0.0;
    case 1: return double(c.range(-10, 10));
    case 2: return c.slogreal(1e-12, 1e12);
    case 3: return c.slogreal(1e-3, 1e3);
    default: return c.sym(1000);
    }
}
static bool nearly(double a, double b, double k = 16) { return pbt::close(a, b, k * 2.3e-16, 0); }

// The independent table: SI value of one unit (1959 international yard, IAU 2012 au, 2019 SI eV, ...)
template <class U> struct Info {
    using unit = U;
    const char* name;
    long double si;  // scale
    long double off; // SI value of zero
};
#define L(U, si) f(Info<U>{#U, si, 0.0L})
template <class F> void lengths(F f)
{
    L(Kilometer, 1000.0L), L(Meter, 1.0L), L(Centimeter, 0.01L), L(Millimeter, 0.001L), L(Micrometer, 1e-6L), L(Nanometer, 1e-9L),
        L(AstronomicalUnit, 149597870700.0L), L(Foot, 0.3048L), L(Yard, 0.9144L), L(Mile, 1609.344L);
}
template <class F> void masses(F f) { L(Kilogram, 1.0L), L(Gram, 1e-3L), L(Milligram, 1e-6L); }
template <class F> void times(F f)
{
    L(SiderealDay, 86164.0905L), L(Day, 86400.0L), L(Hour, 3600.0L), L(Minute, 60.0L), L(Second, 1.0L), L(Millisecond, 1e-3L), L(Microsecond, 1e-6L),
        L(Nanosecond, 1e-9L), L(Femtosecond, 1e-15L);
}
template <class F> void temps(F f)
{
    f(Info<Kelvin>{"Kelvin", 1.0L, 0.0L}), f(Info<Celsius>{"Celsius", 1.0L, 273.15L}), f(Info<Fahrenheit>{"Fahrenheit", 5.0L / 9.0L, 459.67L * 5.0L / 9.0L});
}
static const long double PIl = 3.141592653589793238462643383279502884L;
template <class F> void angles(F f) { L(Radian, 1.0L), L(Degree, PIl / 180), L(Arcminute, PIl / 10800), L(Arcsecond, PIl / 648000); }
template <class F> void solids(F f) { L(Steradian, 1.0L), L(SquareDegree, (PIl / 180) * (PIl / 180)); }
template <class F> void diopters(F f) { L(Diopter, 1.0L), L(Millidiopter, 1e-3L), L(Microdiopter, 1e-6L); }
template <class F> void velocities(F f) { L(MetersPerSecond, 1.0L), L(KilometersPerSecond, 1000.0L), L(MilesPerHour, 0.44704L), L(KilometersPerHour, 1.0L / 3.6L); }
template <class F> void rates(F f) { L(RadiansPerSecond, 1.0L), L(DegreesPerSecond, PIl / 180); }
template <class F> void freqs(F f) { L(Hertz, 1.0L), L(Kilohertz, 1e3L), L(Megahertz, 1e6L), L(Gigahertz, 1e9L), L(Terahertz, 1e12L); }
template <class F> void forces(F f) { L(Newton, 1.0L), L(Kilonewton, 1e3L); }
template <class F> void pressures(F f) { L(Pascal, 1.0L), L(Kilopascal, 1e3L); }
template <class F> void energies(F f) { L(Joule, 1.0L), L(Kilojoule, 1e3L), L(Megajoule, 1e6L), L(ElectronVolt, 1.602176634e-19L); }
template <class F> void areas(F f) { L(SquareMeter, 1.0L), L(SquareCentimeter, 1e-4L), L(SquareMillimeter, 1e-6L); }
template <class F> void powers(F f) { L(Milliwatt, 1e-3L), L(Watt, 1.0L), L(Kilowatt, 1e3L), L(Megawatt, 1e6L), L(Gigawatt, 1e9L); }
#undef L
// compile-time ratios are 64-bit: leave out pairs whose combined ratio does not fit one
template <class S> constexpr double num() { if constexpr (requires { S::num; }) return double(S::num); else return 1; }
template <class S> constexpr double den() { if constexpr (requires { S::num; }) return double(S::den); else return 1; }
template <class A, class B> constexpr bool mul_ok = num<typename A::scale_type>() * num<typename B::scale_type>() < 1e18 && den<typename A::scale_type>() * den<typename B::scale_type>() < 1e18;
template <class A, class B> constexpr bool div_ok = num<typename A::scale_type>() * den<typename B::scale_type>() < 1e18 && den<typename A::scale_type>() * num<typename B::scale_type>() < 1e18;
template <class A> double si_of(const Info<A>& i, double v) { return double((long double)v * i.si + i.off); }

// Everything below is compared by these two plain functions, to keep the templates small.
static const char *g_a, *g_b;
static double g_va, g_vb;
__attribute__((noinline)) static std::string where()
{
    std::ostringstream o;
    o << std::setprecision(17) << g_a << "(" << g_va << ") with " << g_b << "(" << g_vb << ")";
    return o.str();
}
__attribute__((noinline)) static void eq(const char* tag, const char* what, double got, double want, double rel, double ab = 0)
{
    if (!pbt::close(got, want, rel, ab)) {
        std::ostringstream o;
        o << std::setprecision(17) << where() << ": " << what << " is " << got << " expected " << want;
        pbt::fail(tag, o.str());
    }
}
__attribute__((noinline)) static void tru(const char* tag, const char* what, bool ok)
{
    if (!ok)
        pbt::fail(tag, where() + ": " + what);
}
template <class A, class B> void pair_laws(Ctx& c, const Info<A>& ia, const Info<B>& ib)
{
    double va = value(c), vb = value(c);
    constexpr bool affine = std::is_same_v<typename A::dimension_type, Temperature>;
    if (affine) // keep cancellation out of the affine scales
        va = std::fabs(va) + 1, vb = std::fabs(vb) + 1;
    A a(va);
    B b(vb);
    g_a = ia.name, g_b = ib.name, g_va = va, g_vb = vb;
    double sa = si_of(ia, va), sb = si_of(ib, vb);
    double k = affine ? 2e-14 : 4e-15;
    tru("raw", "raw value", a.value() == va && a.raw_value() == va);
    eq("si", "to_si", a.to_si(), sa, k);
    eq("si", "to_si_f", a.to_si_f(), float(sa), 1e-6, 1e-38);
    // conversion, three ways, against the table
    double want = double(((long double)va * ia.si + ia.off - ib.off) / ib.si);
    double absb = affine ? 1e-11 * (1 + std::fabs(sa)) : 0;
    B conv(a);
    eq("convert", "conversion", conv.value(), want, 1e-14, absb);
    eq("convert", "as<unit>()", a.template as<B>().value(), want, 1e-14, absb);
    eq("convert", "as<scale>()", a.template as<typename B::scale_type>().value(), want, 1e-14, absb);
    B assigned;
    tru("default", "default is not zero", assigned.value() == 0);
    assigned = a;
    tru("convert", "assignment differs from construction", assigned.value() == conv.value());
    eq("round-trip", "there and back", A(conv).value(), va, 1e-14, affine ? 1e-11 * (1 + std::fabs(va)) : 0);
    // order follows the SI values, whatever the units
    if (!nearly(sa, sb, 200)) {
        bool lt = sa < sb;
        tru("order", "order", (a < b) == lt && (a > b) == !lt && (a <= b) == lt && (a >= b) == !lt && a != b && !(a == b));
        tru("order", "order reversed", (b < a) == !lt && (b > a) == lt && (b <= a) == !lt && (b >= a) == lt);
    }
    if constexpr (!affine) {
        // addition of mixed units: value in SI adds; result is in the unit of the left operand
        auto s = a + b;
        auto d = a - b;
        static_assert(std::is_same_v<decltype(s), A> && std::is_same_v<decltype(d), A>);
        double tol = 1e-14 * (std::fabs(sa) + std::fabs(sb));
        eq("add", "sum", s.to_si(), sa + sb, 0, tol);
        eq("subtract", "difference", d.to_si(), sa - sb, 0, tol);
        A acc(va);
        acc += A(b);
        eq("add", "+=", acc.to_si(), sa + sb, 0, tol);
        acc -= A(b);
        acc -= A(b);
        eq("subtract", "-=", acc.to_si(), sa - sb, 0, 3 * tol);
        // ratio of like quantities is a plain number
        if constexpr (div_ok<A, B>)
            if (sb != 0) {
                auto r = a / b;
                static_assert(std::is_same_v<typename decltype(r)::dimension_type, Dimensionless>);
                double asdouble = r;
                eq("ratio", "ratio", r.to_si(), sa / sb, 1e-14);
                eq("ratio", "ratio as double", asdouble, sa / sb, 1e-14);
            }
        if constexpr (mul_ok<A, B>)
            eq("product", "product", (a * b).to_si(), sa * sb, 1e-14);
    }
}
template <class Fam> void family(Ctx& c, Fam fam)
{
    fam([&](auto ia) { fam([&](auto ib) { pair_laws(c, ia, ib); }); });
}
template <class A> void scalar_laws(Ctx& c, const Info<A>& ia)
{
    double v = value(c), k = value(c);
    int n = c.range(-9, 9);
    A a(v);
    g_a = ia.name, g_b = "number", g_va = v, g_vb = k;
    double s = si_of(ia, v);
    eq("scalar", "q*k", (a * k).to_si(), s * k, 1e-14);
    eq("scalar", "k*q", (k * a).to_si(), s * k, 1e-14);
    eq("scalar", "q*n", (a * n).to_si(), s * n, 1e-14);
    eq("scalar", "n*q", (n * a).to_si(), s * n, 1e-14);
    eq("scalar", "-q", (-a).to_si(), -s, 1e-14);
    A b(v);
    b *= k;
    eq("scalar", "q*=k", b.to_si(), s * k, 1e-14);
    if (k != 0) {
        eq("scalar", "q/k", (a / k).to_si(), s / k, 1e-14);
        A d(v);
        d /= k;
        eq("scalar", "q/=k", d.to_si(), s / k, 1e-14);
    }
    if (v != 0) {
        auto r = k / a;
        auto one = r * a;
        static_assert(std::is_same_v<typename decltype(one)::dimension_type, Dimensionless>);
        eq("reciprocal", "k/q", r.to_si(), k / s, 1e-14);
        eq("reciprocal", "(k/q)*q", one.to_si(), k, 1e-14);
    }
    A copy(a);
    A asg;
    asg = a;
    tru("copy", "copy", copy == a && asg == a && copy.value() == v);
    tru("nan", "NaN accepted", hc::throws([] { A x(std::nan("")); (void)x; }));
}
#define FAMILY(n, q, t)                                                                                                \
    PROP(n, q, t)                                                                                                      \
    {                                                                                                                  \
        c.nontrivial();                                                                                                \
        c.note("family", #n);                                                                                          \
        family(c, [](auto f) { n(f); });                                                                               \
        n([&](auto i) { scalar_laws(c, i); });                                                                         \
    }
FAMILY(lengths, 6000, 100000)
FAMILY(masses, 6000, 100000)
FAMILY(times, 6000, 100000)
PROP(temps, 6000, 100000)
{
    c.nontrivial();
    family(c, [](auto f) { temps(f); });
    // differences of temperature on one absolute scale
    double v = c.real(1, 1000);
    PBT_CHECK("absolute", nearly(Kelvin(Celsius(v)).to_si(), v + 273.15), "kelvin of " << v << " C");
    PBT_CHECK("absolute", pbt::close(Celsius(Fahrenheit(v)).value(), (v - 32) / 1.8, 1e-12, 1e-10), "celsius of " << v << " F: " << Celsius(Fahrenheit(v)).value());
    PBT_CHECK("nan", hc::throws([] { Celsius x(std::nan("")); (void)x; }) && hc::throws([] { Fahrenheit x(std::nan("")); (void)x; }), "NaN accepted");
    c.note("v", v);
}
FAMILY(angles, 6000, 100000)
FAMILY(solids, 6000, 100000)
FAMILY(diopters, 6000, 100000)
FAMILY(velocities, 6000, 100000)
FAMILY(rates, 6000, 100000)
FAMILY(freqs, 6000, 100000)
FAMILY(forces, 6000, 100000)
FAMILY(pressures, 6000, 100000)
FAMILY(energies, 6000, 100000)
FAMILY(areas, 6000, 100000)
FAMILY(powers, 6000, 100000)

// products and quotients across dimensions: SI values multiply, dimensions combine
template <bool DIV, class A, class B> constexpr bool ok() { return DIV ? div_ok<A, B> : mul_ok<A, B>; }
#define FAM(n) [](auto f) { n(f); }
template <class R, bool DIV, class FA, class FB> void combine(Ctx& c, FA fa, FB fb)
{
    fa([&](auto ia) {
        fb([&](auto ib) {
            double va = value(c), vb = value(c);
            if (vb == 0)
                vb = 1;
            double sa = si_of(ia, va), sb = si_of(ib, vb);
            g_a = ia.name, g_b = ib.name, g_va = va, g_vb = vb;
            if constexpr (ok<DIV, typename std::remove_reference_t<decltype(ia)>::unit, typename std::remove_reference_t<decltype(ib)>::unit>()) {
            typename std::remove_reference_t<decltype(ia)>::unit qa(va);
            typename std::remove_reference_t<decltype(ib)>::unit qb(vb);
            auto r = [&] {
                if constexpr (DIV)
                    return qa / qb;
                else
                    return qa * qb;
            }();
            double want = DIV ? sa / sb : sa * sb;
            static_assert(std::is_same_v<typename decltype(r)::dimension_type, typename R::dimension_type>);
            eq("derived", "combination", r.to_si(), want, 1e-13, 1e-300);
            eq("derived", "combination as the named unit", R(r).to_si(), want, 1e-13, 1e-300);
            }
        });
    });
}
PROP(derived_units, 6000, 100000)
{
    c.nontrivial();
    switch (c.below(8)) {
    case 0: combine<MetersPerSecond, true>(c, FAM(lengths), FAM(times)); break;
    case 1: combine<SquareMeter, false>(c, FAM(lengths), FAM(lengths)); break;
    case 2: combine<Joule, false>(c, FAM(forces), FAM(lengths)); break;
    case 3: combine<Watt, true>(c, FAM(energies), FAM(times)); break;
    case 4: combine<RadiansPerSecond, true>(c, FAM(angles), FAM(times)); break;
    case 5: combine<WattsPerMeterSquared, true>(c, FAM(powers), FAM(areas)); break;
    case 6: combine<Pascal, true>(c, FAM(forces), FAM(areas)); break;
    case 7: combine<WattsPerSteradian, true>(c, FAM(powers), FAM(solids)); break;
    }
}
// text form names the SI unit and prints the SI value
PROP(text, 4000, 50000)
{
    double v = c.sym(1e6);
    c.note("v", v);
    c.nontrivial(v != 0);
    auto chk = [&](auto q, const std::string& unit) {
        std::string want = std::to_string(q.to_si()) + (unit.empty() ? "" : " " + unit);
        std::ostringstream o;
        o << q;
        PBT_CHECK("text", q.to_string() == want && o.str() == want, "'" << q.to_string() << "' expected '" << want << "'");
    };
    chk(Kilometer(v), "m"), chk(Gram(v), "Kg"), chk(Hour(v), "s"), chk(Celsius(v), "K"), chk(Mole(v), "mol"), chk(Candela(v), "cd"), chk(Degree(v), "rad");
    chk(SquareDegree(v), "sr"), chk(Kilohertz(v), "Hz"), chk(Kilonewton(v), "N"), chk(Pascal(v), "Pa"), chk(ElectronVolt(v), "J"), chk(Kilowatt(v), "W");
    chk(Coulomb(v), "C"), chk(WattsPerMeterSquared(v), "W / m^2"), chk(WattsPerSteradian(v), "W / sr"), chk(WattsPerMeterSquaredSteradian(v), "W / m^2 sr"), chk(Lumen(v), "lm");
    chk(KilometersPerHour(v), "m / s"), chk(SquareCentimeter(v), "(m)^2"), chk(DegreesPerSecond(v), "rad / s"), chk(Diopter(v), "1 / m");
    chk(Ampere(v), "A");
    chk(Meter(v) / Meter(1), "");
    chk(MetersPerSecond(v) / Second(1), "m / (s)^2");
}
// literals
PROP(literals_table, 50, 200)
{
    using namespace huira::units::literals;
    c.nontrivial();
    c.below(1000);
    auto chk = [](double a, double b, const char* n) { PBT_CHECK("literal", nearly(a, b, 32), n << " is " << a << " expected " << b); };
#define LIT(sfx, si) chk((3_##sfx).to_si(), double(3 * (si)), "3_" #sfx), chk((2.5_##sfx).to_si(), double(2.5L * (si)), "2.5_" #sfx)
    LIT(Km, 1000.0L), LIT(m, 1.0L), LIT(cm, 0.01L), LIT(mm, 1e-3L), LIT(um, 1e-6L), LIT(nm, 1e-9L), LIT(au, 149597870700.0L), LIT(ft, 0.3048L), LIT(yd, 0.9144L), LIT(mi, 1609.344L);
    LIT(Kg, 1.0L), LIT(g, 1e-3L), LIT(mg, 1e-6L), LIT(day, 86400.0L), LIT(h, 3600.0L), LIT(min, 60.0L), LIT(s, 1.0L), LIT(ms, 1e-3L), LIT(us, 1e-6L), LIT(ns, 1e-9L);
    LIT(rad, 1.0L), LIT(deg, PIl / 180), LIT(K, 1.0L), LIT(J, 1.0L), LIT(KJ, 1e3L), LIT(eV, 1.602176634e-19L), LIT(m2, 1.0L), LIT(cm2, 1e-4L), LIT(mm2, 1e-6L);
    LIT(mW, 1e-3L), LIT(W, 1.0L), LIT(KW, 1e3L), LIT(MW, 1e6L), LIT(dpt, 1.0L), LIT(mdpt, 1e-3L), LIT(udpt, 1e-6L), LIT(mps, 1.0L), LIT(Kmps, 1e3L), LIT(Miph, 0.44704L), LIT(Kmph, 1 / 3.6L);
    LIT(radps, 1.0L), LIT(degps, PIl / 180), LIT(Hz, 1.0L), LIT(KHz, 1e3L), LIT(MHz, 1e6L), LIT(GHz, 1e9L);
    chk((3_C).to_si(), 276.15, "3_C"), chk((2.5_C).to_si(), 275.65, "2.5_C"), chk((3_F).to_si(), (3 + 459.67) * 5 / 9, "3_F"), chk((2.5_F).to_si(), (2.5 + 459.67) * 5 / 9, "2.5_F");
}
// per-bin (spectral) quantities follow the same scale
PROP(spectral_quantities, 20000, 300000)
{
    using S = huira::RGB;
    S s{0};
    for (size_t i = 0; i < S::size(); ++i)
        s[i] = float(c.slogreal(1e-6, 1e6));
    c.note("s", s[0]);
    c.nontrivial();
    auto chk = [&](auto q, double scale, const char* n) {
        auto si = q.to_si();
        for (size_t i = 0; i < S::size(); ++i)
            PBT_CHECK("spectral-si", q.value()[i] == s[i] && pbt::close(si[i], double(s[i]) * scale, 2e-7, 1e-44), n << " bin " << i << ": " << si[i]);
    };
    SpectralMilliwatts<S> mw(s);
    SpectralWatts<S> w(s);
    SpectralKilowatts<S> kw(s);
    SpectralMegawatts<S> Mw(s);
    SpectralGigawatts<S> gw(s);
    chk(mw, 1e-3, "mW"), chk(w, 1, "W"), chk(kw, 1e3, "kW"), chk(Mw, 1e6, "MW"), chk(gw, 1e9, "GW");
    chk(SpectralWattsPerMeterSquared<S>(s), 1, "W/m2"), chk(SpectralWattsPerMeterSquaredSteradian<S>(s), 1, "W/m2/sr");
    SpectralWatts<S> from_mw(mw), from_gw(gw);
    SpectralGigawatts<S> mw_gw(mw);
    auto asmw = kw.template as<std::milli>();
    for (size_t i = 0; i < S::size(); ++i) {
        PBT_CHECK("spectral-convert", pbt::close(from_mw.value()[i], double(s[i]) * 1e-3, 2e-7, 0) && pbt::close(from_gw.value()[i], double(s[i]) * 1e9, 2e-7, 0) &&
                                          pbt::close(mw_gw.value()[i], double(s[i]) * 1e-12, 2e-7, 0) && pbt::close(asmw.value()[i], double(s[i]) * 1e6, 2e-7, 0),
                  "bin " << i);
    }
    PBT_CHECK("spectral-equal", w == SpectralWatts<S>(s) && !(w != SpectralWatts<S>(s)), "equality");
    S s2 = s;
    size_t j = size_t(c.below(S::size()));
    s2[j] = s2[j] * 2;
    PBT_CHECK("spectral-equal", w != SpectralWatts<S>(s2) && !(w == SpectralWatts<S>(s2)), "inequality in bin " << j);
    SpectralWatts<S> z;
    for (size_t i = 0; i < S::size(); ++i)
        PBT_CHECK("spectral-default", z.value()[i] == 0, "default is not zero");
}
PBT_MAIN
