// P01: radiometry (Planck, black body, photometric magnitudes) and aberration follow the physics.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using pbt::Ctx;
using hc::V3d;
static constexpr long double h_ = 6.62607015e-34L, c_ = 299792458.0L, k_ = 1.380649e-23L;
static long double planck(long double T, long double l)
{
    return 2 * h_ * c_ * c_ / (l * l * l * l * l) / std::expm1(h_ * c_ / (l * k_ * T));
}
static __attribute__((noinline)) void close(const char* tag, double got, double want, double tol)
{
    PBT_CHECK(tag, std::abs(got - want) <= tol || got == want, "got " << got << " want " << want << " tol " << tol);
}
PROP(photon_energy_is_hc_over_lambda, 20000, 200000)
{
    double l = c.logreal(1e-12, 1e3);
    c.note("lambda", l);
    c.nontrivial();
    double w = double(h_ * c_ / l);
    close("E", photon_energy(l), w, 1e-12 * w);
}
PROP(planck_matches_reference, 20000, 300000)
{
    double T = c.logreal(3, 5e4);
    std::vector<double> l;
    int n = c.range(0, 12);
    for (int i = 0; i < n; ++i)
        l.push_back(c.logreal(1e-7, 1e-4));
    c.note("T", T);
    auto r = plancks_law(T, l);
    PBT_CHECK("size", r.size() == l.size(), "size " << r.size());
    for (int i = 0; i < n; ++i) {
        double w = double(planck(T, l[size_t(i)]));
        double x = double(h_ * c_ / (l[size_t(i)] * k_ * T));
        if (x > 700) { // exp overflows a double: the radiance is as good as zero
            PBT_CHECK("underflow", r[size_t(i)] >= 0 && r[size_t(i)] < 1e-100, "B(" << l[size_t(i)] << ")=" << r[size_t(i)]);
            continue;
        }
        c.nontrivial();
        // exp(x)-1 loses relative accuracy 1/x for small x
        close("B", r[size_t(i)], w, w * (1e-11 + 1e-14 * x + 1e-14 / x));
        auto hot = plancks_law(T * 1.1, {l[size_t(i)]});
        PBT_CHECK("monotone", hot[0] >= r[size_t(i)], "B falls with T");
    }
}
PROP(linspace_and_integrate, 20000, 300000)
{
    double a = c.sym(100), b = c.sym(100);
    size_t n = 2 + c.below(60);
    c.note("a", a); c.note("b", b); c.note("n", n);
    c.nontrivial(a != b && n > 2);
    auto x = linspace<double>(a, b, n);
    double sc = std::abs(a) + std::abs(b);
    PBT_CHECK("n", x.size() == n, "size");
    for (size_t i = 0; i < n; ++i)
        close("x", x[i], a + (b - a) * double(i) / double(n - 1), 1e-13 * sc);
    auto xf = linspace<float>(float(a), float(b), n);
    for (size_t i = 0; i < n; ++i)
        close("xf", xf[i], a + (b - a) * double(i) / double(n - 1), 1e-5 * sc);
    // trapezoid rule: exact for functions linear between the samples, for any sample placement
    std::vector<double> u, y;
    double t = a;
    long double want = 0, mag = 0;
    for (size_t i = 0; i < n; ++i) {
        u.push_back(t);
        y.push_back(c.sym(10));
        if (i) {
            want += 0.5L * (y[i] + y[i - 1]) * (u[i] - u[i - 1]);
            mag += 0.5L * (std::abs(y[i]) + std::abs(y[i - 1])) * (u[i] - u[i - 1]);
        }
        t += c.logreal(1e-3, 30);
    }
    close("trapezoid", integrate(u, y), double(want), double(1e-12L * mag));
    double p = c.sym(5), q = c.sym(5);
    for (size_t i = 0; i < n; ++i)
        y[i] = p + q * u[i];
    double A = u.front(), B = u.back();
    close("linear", integrate(u, y), p * (B - A) + q * (B * B - A * A) / 2, 1e-10 * (B - A) * (std::abs(p) + std::abs(q) * (std::abs(A) + std::abs(B))));
}
template <class S> static void bb(Ctx& c, double T)
{
    size_t steps = 20 + c.below(120);
    S r = black_body<S>(T, steps), d = black_body<S>(T);
    double tot = 0;
    for (size_t i = 0; i < S::size(); ++i) {
        Bin b = S::get_bin(i);
        long double w = 0;
        const int n = 400; // Simpson
        long double hh = (b.max_wavelength - b.min_wavelength) / n;
        for (int j = 0; j <= n; ++j)
            w += (j == 0 || j == n ? 1 : (j % 2 ? 4 : 2)) * planck(T, b.min_wavelength + j * hh);
        w *= hh / 3;
        double x = double(h_ * c_ / (b.min_wavelength * k_ * T));
        double dx = x * double((b.max_wavelength - b.min_wavelength) / b.min_wavelength);
        // trapezoid error of an exponential with exponent range dx in `steps` samples
        double rel = 1e-4 + 2 * std::pow((dx + 6) / double(steps - 1), 2);
        if (w > 1e-30) {
            close("band", r[i], double(w), double(w) * rel);
            close("band_default", d[i], double(w), double(w) * (1e-4 + 2 * std::pow((dx + 6) / 99, 2)));
            tot += r[i];
        }
        PBT_CHECK("nonneg", r[i] >= 0, "negative band radiance");
    }
    S hot = black_body<S>(T * 1.2, steps);
    for (size_t i = 0; i < S::size(); ++i)
        PBT_CHECK("monotone", hot[i] >= r[i], "bin " << i << " falls with T");
}
PROP(black_body_integrates_planck, 1500, 30000)
{
    double T = c.real(300, 20000);
    c.note("T", T);
    c.nontrivial();
    switch (c.below(4)) {
    case 0: return bb<RGB>(c, T);
    case 1: return bb<Visible8>(c, T);
    case 2: return bb<SWIR8>(c, T);
    // wide band: Stefan-Boltzmann
    default: {
        // 20 nm .. 2 mm in 400 uneven bins would need a custom layout: sum plancks_law instead
        std::vector<double> l;
        for (int i = 0; i <= 4000; ++i)
            l.push_back(std::exp(std::log(1e-8) + (std::log(1e-2) - std::log(1e-8)) * i / 4000));
        double got = integrate(l, plancks_law(T, l));
        double want = 5.670374419e-8 * T * T * T * T / M_PI;
        close("stefan", got, want, 2e-4 * want);
        double wien = 2.897771955e-3 / T;
        auto p = plancks_law(T, {wien * 0.99, wien, wien * 1.01});
        PBT_CHECK("wien", p[1] >= p[0] && p[1] >= p[2], "maximum is not at the Wien wavelength");
    }
    }
}
PROP(vband, 2000, 20000)
{
    size_t n = 2 + c.below(600);
    std::vector<double> l(c.below(10), 7.0);
    c.note("n", n);
    c.nontrivial();
    auto e = johnson_vband_approximation(n, l);
    PBT_CHECK("size", e.size() == n && l.size() == n, "size");
    double best = -1, at = 0;
    for (size_t i = 0; i < n; ++i) {
        close("grid", l[i], 350e-9 + 500e-9 * double(i) / double(n - 1), 1e-18);
        double d = l[i] - 551e-9;
        close("gauss", e[i], std::exp(-d * d / (2 * 38e-9 * 38e-9)), 1e-9);
        PBT_CHECK("range", e[i] >= 0 && e[i] <= 1, "efficiency " << e[i]);
        if (e[i] > best) { best = e[i]; at = l[i]; }
    }
    PBT_CHECK("peak", std::abs(at - 551e-9) <= 500e-9 / double(n - 1) + 1e-12, "peak at " << at);
    double m = c.uniform(-30, 30), dm = c.uniform(-10, 10);
    double f0 = v_band_irradiance(m), f1 = v_band_irradiance(m + dm);
    close("pogson", f1 / f0, std::pow(100.0, -dm / 5), 1e-10 * std::pow(100.0, -dm / 5));
    close("zero", v_band_irradiance(0), 8.75e9, 1);
}
template <class S> static void vm(Ctx& c, double m, double dm)
{
    S a = visual_magnitude_to_irradiance<S>(m), b = visual_magnitude_to_irradiance<S>(m + dm);
    double k = std::pow(100.0, -dm / 5);
    S alb;
    for (auto& f : alb) f = float(c.real(0, 1));
    S ca = visual_magnitude_to_irradiance<S>(m, alb);
    S bb = black_body<S>(5778.0, 400);
    S pe = S::photon_energies();
    for (size_t i = 0; i < S::size(); ++i) {
        PBT_CHECK("positive", a[i] > 0 && std::isfinite(a[i]), "irradiance " << a[i]);
        close("pogson", b[i], a[i] * k, 2e-5 * a[i] * k);
        close("albedo", ca[i], a[i] * alb[i], 1e-5 * a[i]);
        // photons per bin follow the solar (5778 K) distribution
        double r = (a[i] / pe[i]) / (a[0] / pe[0]), w = bb[i] / double(bb[0]);
        close("solar_shape", r, w, 0.01 * w);
    }
}
PROP(visual_magnitude, 1500, 30000)
{
    double m = c.uniform(-27, 15), dm = c.uniform(-8, 8);
    c.note("m", m); c.note("dm", dm);
    c.nontrivial(dm != 0);
    switch (c.below(3)) {
    case 0: return vm<RGB>(c, m, dm);
    case 1: return vm<Visible8>(c, m, dm);
    default: return vm<SpectralBins<4, 400, 450, 520, 600, 800>>(c, m, dm);
    }
}
// a band's flux is its own: the same in bins that leave gaps or come in any order as in bins beside each other
template <class S> static void layout(double m)
{
    S a = visual_magnitude_to_irradiance<S>(m), pe = S::photon_energies();
    using F = UniformSpectralBins<450, 300, 1200>; // 2 nm
    F f = visual_magnitude_to_irradiance<F>(m), pf = F::photon_energies();
    for (size_t i = 0; i < S::size(); ++i) {
        double w = 0;
        auto b = S::get_bin(i);
        for (size_t k = 0; k < F::size(); ++k) {
            double x = F::get_bin(k).center_wavelength;
            if (x > b.min_wavelength && x < b.max_wavelength) w += double(f[k]) / pf[k];
        }
        close("own_band", double(a[i]) / pe[i], w, 0.01 * w);
    }
}
PROP(visual_magnitude_layouts, 300, 4000)
{
    double m = c.uniform(-27, 15);
    c.note("m", m);
    c.nontrivial();
    switch (c.below(6)) {
    case 0: return layout<SpectralBins<2, 400, 450, 700, 750>>(m);
    case 1: return layout<SpectralBins<2, 500, 600, 780, 900>>(m);
    case 2: return layout<SpectralBins<2, 1000, 1150, 400, 900>>(m);
    case 3: return layout<SpectralBins<3, 800, 1100, 380, 500, 520, 540>>(m);
    case 4: return layout<SpectralBins<1, 900, 1000>>(m);
    default: return layout<RGB>(m);
    }
}
// the photon irradiance a V-band detector would see is that of the magnitude, whatever the layout
PROP(v_band_calibration, 600, 6000)
{
    double m = c.uniform(-27, 15);
    c.note("m", m);
    c.nontrivial();
    using F = UniformSpectralBins<100, 350, 850>;
    F e = visual_magnitude_to_irradiance<F>(m), pe = F::photon_energies();
    double s = 0;
    for (size_t i = 0; i < F::size(); ++i) {
        double d = F::get_bin(i).center_wavelength - 551e-9;
        s += double(e[i]) / pe[i] * std::exp(-d * d / (2 * 38e-9 * 38e-9));
    }
    double w = v_band_irradiance(m);
    close("flux", s, w, 0.01 * w);
    // and splitting the bins does not change the energy of a band
    using G = UniformSpectralBins<50, 350, 850>;
    G g = visual_magnitude_to_irradiance<G>(m);
    for (size_t i = 0; i < G::size(); ++i)
        close("split", g[i], double(e[2 * i]) + e[2 * i + 1], 0.01 * g[i]);
}
PROP(aberration, 40000, 600000)
{
    V3d u = hc::unit_vec(c), bdir = hc::unit_vec(c);
    double b = c.chance(1, 12) ? 0.0 : (c.boolean() ? c.logreal(1e-9, 0.1) : c.uniform(0, 0.99));
    const double C = 299792458.0;
    V3d v = bdir * (b * C);
    c.note("u", hc::show(u)); c.note("beta", hc::show(bdir * b));
    double mu = glm::dot(u, bdir);
    c.nontrivial(b > 1e-8 && std::abs(mu) < 0.999999);
    V3d w = compute_aberrated_direction(u, v);
    double g = 1 / std::sqrt(1 - b * b), tol = 1e-12 * g * g * g * g;
    close("unit", hc::len(w), 1, tol);
    // cos of the angle from the velocity: (mu + beta) / (1 + mu beta)
    close("angle", glm::dot(w, bdir), (mu + b) / (1 + mu * b), tol);
    // stays in the plane of u and v, on the same side
    V3d n = glm::cross(u, bdir);
    close("plane", glm::dot(w, n), 0, tol);
    PBT_CHECK("side", glm::dot(glm::cross(w, bdir), n) >= -tol, "crossed over");
    if (b == 0)
        PBT_CHECK("rest", hc::dist(w, u) <= 1e-15, "moves at rest");
    // boosting back gives the original direction
    V3d back = compute_aberrated_direction(w, -v);
    PBT_CHECK("inverse", hc::dist(back, u) <= 100 * tol, "back to " << hc::show(back));
    if (c.chance(1, 8))
        PBT_CHECK("superluminal", hc::throws([&] { compute_aberrated_direction(u, bdir * (C * c.uniform(1, 10))); }), "superluminal observer accepted");
}
PBT_MAIN
