// S01: spectral bins behave as the vector of band quantities they document.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/core/spectral_bins.hpp"
using namespace huira;
using pbt::Ctx;
template <class S, std::size_t N> struct Lay {
    using type = S;
    static constexpr std::size_t n = N;
};
// layout number -> expected edges in nm
static const std::vector<std::vector<std::pair<double, double>>>& expected()
{
    static std::vector<std::vector<std::pair<double, double>>> e = [] {
        auto uni = [](int n, double a, double b) {
            std::vector<std::pair<double, double>> r;
            for (int i = 0; i < n; ++i)
                r.push_back({a + (b - a) * i / n, a + (b - a) * (i + 1) / n});
            return r;
        };
        return std::vector<std::vector<std::pair<double, double>>>{
            {{600, 750}, {500, 600}, {380, 500}},
            uni(8, 380, 750),
            uni(8, 900, 2500),
            uni(1, 400, 700),
            {{400, 450}, {450, 520}, {520, 600}, {600, 800}},
            {{700, 800}, {400, 500}, {550, 560}},
            uni(5, 300, 1200),
            uni(16, 350, 1000),
        };
    }();
    return e;
}
using L0 = RGB;
using L1 = Visible8;
using L2 = SWIR8;
using L3 = SpectralBins<1, 400, 700>;
using L4 = SpectralBins<4, 400, 450, 520, 600, 800>;
using L5 = SpectralBins<3, 700, 800, 400, 500, 550, 560>;
using L6 = UniformSpectralBins<5, 300, 1200>;
using L7 = UniformSpectralBins<16, 350, 1000>;
template <class F> void with_layout(int k, F&& f)
{
    switch (k) {
    case 0: return f(L0{});
    case 1: return f(L1{});
    case 2: return f(L2{});
    case 3: return f(L3{});
    case 4: return f(L4{});
    case 5: return f(L5{});
    case 6: return f(L6{});
    default: return f(L7{});
    }
}
using FV = std::vector<float>;
template <class S> S make(const FV& v)
{
    S s;
    for (std::size_t i = 0; i < S::size(); ++i)
        s[i] = v[i];
    return s;
}
template <class S> FV getv(const S& s) { return FV(s.begin(), s.end()); }
static std::string shv(const FV& v)
{
    std::ostringstream o;
    o << std::setprecision(9) << "[";
    for (float f : v)
        o << f << " ";
    return o.str() + "]";
}
static float gen_f(Ctx& c)
{
    switch (c.below(6)) {
    case 0: return 0.f;
    case 1: return 1.f;
    case 2: return float(c.slogreal(1e-6, 1e6));
    case 3: return float(c.range(-8, 8));
    default: return float(c.uniform(-3, 3));
    }
}
static FV gen_v(Ctx& c, std::size_t n)
{
    FV v(n);
    for (auto& f : v)
        f = gen_f(c);
    return v;
}
static __attribute__((noinline)) void same(const char* tag, const FV& got, const FV& want, double rel = 1e-6)
{
    PBT_CHECK(tag, got.size() == want.size(), "size " << got.size() << " vs " << want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        double w = want[i], g = got[i];
        bool ok = (std::isnan(w) && std::isnan(g)) || g == w || std::abs(g - w) <= rel * std::abs(w) + 1e-37;
        PBT_CHECK(tag, ok, "bin " << i << ": got " << shv(got) << " want " << shv(want));
    }
}
static __attribute__((noinline)) void close(const char* tag, double got, double want, double tol)
{
    PBT_CHECK(tag, std::abs(got - want) <= tol || got == want, "got " << got << " want " << want << " tol " << tol);
}
template <class G> FV map2(const FV& a, const FV& b, G g)
{
    FV r(a.size());
    for (size_t i = 0; i < a.size(); ++i)
        r[i] = g(a[i], b[i]);
    return r;
}

template <class S> static void arithmetic_is_binwise_on(Ctx& c, int k)
{
        const size_t n = S::size();
        FV a = gen_v(c, n), b = gen_v(c, n);
        float s = gen_f(c);
        c.note("a", shv(a));
        c.note("b", shv(b));
        c.note("s", s);
        FV sv(n, s);
        S A = make<S>(a), B = make<S>(b);
        c.nontrivial(a != b && s != 0 && n > 1);
        auto add = [](float x, float y) { return x + y; };
        auto sub = [](float x, float y) { return x - y; };
        auto mul = [](float x, float y) { return x * y; };
        auto div = [](float x, float y) { return x / y; };
        same("a+b", ::getv(A + B), ::map2(a, b, add));
        same("a-b", ::getv(A - B), ::map2(a, b, sub));
        same("a*b", ::getv(A * B), ::map2(a, b, mul));
        same("a/b", ::getv(A / B), ::map2(a, b, div));
        same("a+s", ::getv(A + s), ::map2(a, sv, add));
        same("a-s", ::getv(A - s), ::map2(a, sv, sub));
        same("a*s", ::getv(A * s), ::map2(a, sv, mul));
        same("a/s", ::getv(A / s), ::map2(a, sv, div));
        same("s+a", ::getv(s + A), ::map2(sv, a, add));
        same("s-a", ::getv(s - A), ::map2(sv, a, sub));
        same("s*a", ::getv(s * A), ::map2(sv, a, mul));
        same("s/a", ::getv(s / A), ::map2(sv, a, div));
        same("-a", ::getv(-A), ::map2(sv, a, [](float, float y) { return -y; }));
        same("+a", ::getv(+A), a);
        { S t = A; t += B; same("+=", ::getv(t), ::map2(a, b, add)); }
        { S t = A; t -= B; same("-=", ::getv(t), ::map2(a, b, sub)); }
        { S t = A; t *= B; same("*=", ::getv(t), ::map2(a, b, mul)); }
        { S t = A; t /= B; same("/=", ::getv(t), ::map2(a, b, div)); }
        { S t = A; t += s; same("+=s", ::getv(t), ::map2(a, sv, add)); }
        { S t = A; t -= s; same("-=s", ::getv(t), ::map2(a, sv, sub)); }
        { S t = A; t *= s; same("*=s", ::getv(t), ::map2(a, sv, mul)); }
        { S t = A; t /= s; same("/=s", ::getv(t), ::map2(a, sv, div)); }
        { S t = A; t *= double(s); same("*=double", ::getv(t), ::map2(a, sv, mul)); }
        { S t = A; t += t; same("self+=", ::getv(t), ::map2(a, a, add)); }
        { S t = A; t /= t; same("self/=", ::getv(t), ::map2(a, a, div)); }
        PBT_CHECK("eq", (A == B) == (a == b) && (A != B) == (a != b), "== disagrees with the values");
        { S t; t.fill(s); same("fill", ::getv(t), sv); }
        same("ctor1", ::getv(S(s)), sv);
        same("zero", ::getv(S()), FV(n, 0.f));
        PBT_CHECK("at", hc::throws([&] { (void)A.at(n); }) && A.at(n - 1) == a[n - 1] && A.front() == a[0] && A.back() == a[n - 1], "element access");
}
PROP(arithmetic_is_binwise, 20000, 400000)
{
    int k = c.range(0, 7);
    c.note("layout", k);
    with_layout(k, [&](auto tag) { arithmetic_is_binwise_on<decltype(tag)>(c, k); });
}

template <class S> static void reductions_on(Ctx& c, int k)
{
        const size_t n = S::size();
        FV a = gen_v(c, n);
        int poison = c.chance(1, 4) ? c.range(1, 4) : 0;
        size_t at = c.below(n);
        if (poison == 1) a[at] = std::numeric_limits<float>::quiet_NaN();
        if (poison == 2) a[at] = std::numeric_limits<float>::infinity();
        if (poison == 3) a[at] = -1e-20f;
        if (poison == 4) a[at] = std::nextafter(1.f, 2.f);
        bool nonneg = c.boolean();
        if (nonneg)
            for (size_t i = 0; i < n; ++i)
                if (!poison || i != at) a[i] = std::abs(a[i]);
        c.note("a", shv(a));
        S A = make<S>(a);
        bool v = true, vr = true;
        for (float f : a) {
            if (!(f >= 0) || std::isinf(f)) v = false;
            if (!(f >= 0 && f <= 1)) vr = false;
        }
        PBT_CHECK("valid", A.valid() == v, "valid() says " << A.valid() << " for " << shv(a));
        PBT_CHECK("valid_ratio", A.valid_ratio() == vr, "valid_ratio() says " << A.valid_ratio() << " for " << shv(a));
        if (poison == 1 || poison == 2)
            return;
        c.nontrivial(n > 1);
        double sum = 0, sq = 0, mag = 0, in = 0, mx = a[0], mn = a[0], inabs = 0;
        auto& e = expected()[size_t(k)];
        for (size_t i = 0; i < n; ++i) {
            double w = (e[i].second - e[i].first) * 1e-9;
            sum += a[i]; mag += std::abs(a[i]); sq += double(a[i]) * a[i];
            in += a[i] * w; inabs += std::abs(a[i]) * w;
            mx = std::max(mx, double(a[i])); mn = std::min(mn, double(a[i]));
        }
        close("total", A.total(), sum, 1e-5 * mag);
        close("magnitude", A.magnitude(), std::sqrt(sq), 1e-5 * std::sqrt(sq) + 1e-18);
        close("max", A.max(), mx, 0);
        close("min", A.min(), mn, 0);
        close("integrate", A.integrate(), in, 1e-5 * inabs);
        double lo = c.uniform(250, 2600), hi = c.chance(1, 5) ? lo : c.uniform(lo, 2700);
        if (c.chance(1, 3)) lo = e[c.below(n)].first;
        if (c.chance(1, 3)) hi = e[c.below(n)].second;
        if (hi < lo) std::swap(lo, hi);
        double want = 0, wa = 0;
        for (size_t i = 0; i < n; ++i) {
            double ov = std::max(0.0, std::min(hi, e[i].second) - std::max(lo, e[i].first)) * 1e-9;
            want += ov * a[i];
            wa += ov * std::abs(a[i]);
        }
        c.note("lo", lo);
        c.note("hi", hi);
        close("integrate_over_band", A.integrate_over_band(lo * 1e-9, hi * 1e-9), want, 1e-5 * wa + 1e-19 * mag);
        // additive over adjacent bands
        double mid = (lo + hi) / 2;
        double two = double(A.integrate_over_band(lo * 1e-9, mid * 1e-9)) + A.integrate_over_band(mid * 1e-9, hi * 1e-9);
        close("band_additive", two, want, 1e-5 * wa + 1e-19 * mag);
        if (v) {
            FV r = ::getv(A.sqrt());
            for (size_t i = 0; i < n; ++i)
                close("sqrt", double(r[i]), std::sqrt(double(a[i])), 1e-6 * std::sqrt(double(a[i])));
        }
        float tot = gen_f(c);
        S T = S::from_total(tot);
        double full = 0;
        for (auto& p : e) full += p.second - p.first;
        for (size_t i = 0; i < n; ++i)
            close("from_total", T[i], tot * (e[i].second - e[i].first) / full, 1e-5 * std::abs(tot));
        close("from_total_sum", T.total(), tot, 1e-5 * std::abs(tot));
}
PROP(reductions, 20000, 400000)
{
    int k = c.range(0, 7);
    c.note("layout", k);
    with_layout(k, [&](auto tag) { reductions_on<decltype(tag)>(c, k); });
}

template <class S> static void bin_tables_on(Ctx& c, int k)
{
        auto& e = expected()[size_t(k)];
        auto all = S::get_all_bins();
        PBT_CHECK("count", all.size() == e.size() && S::size() == e.size(), "bin count");
        S pe = S::photon_energies();
        for (size_t i = 0; i < e.size(); ++i) {
            Bin b = S::get_bin(i);
            close("min", b.min_wavelength, e[i].first * 1e-9, 1e-18);
            close("max", b.max_wavelength, e[i].second * 1e-9, 1e-18);
            close("centre", b.center_wavelength, (e[i].first + e[i].second) / 2 * 1e-9, 1e-18);
            PBT_CHECK("all", all[i].min_wavelength == b.min_wavelength && all[i].max_wavelength == b.max_wavelength, "get_all_bins differs from get_bin");
            double E = 6.62607015e-34 * 299792458.0 / ((e[i].first + e[i].second) / 2 * 1e-9);
            close("photon", pe[i], E, 1e-5 * E);
        }
        for (size_t i = 1; i < e.size(); ++i)
            if (k != 0 && k != 5)
                PBT_CHECK("contiguous", all[i].min_wavelength >= all[i - 1].max_wavelength && all[i].min_wavelength - all[i - 1].max_wavelength < 1e-17, "gap or overlap before bin " << i);
}
PROP(bin_tables, 64, 64)
{
    int k = c.range(0, 7);
    c.nontrivial();
    c.note("layout", k);
    with_layout(k, [&](auto tag) { bin_tables_on<decltype(tag)>(c, k); });
}

// Reference for integrate_over_data: the mean over the bin of the piecewise-linear function through
// the samples, 0 before the first sample, constant after the last; 0 for a bin beyond the last sample.
static double ref_mean(const std::vector<double>& w, const FV& v, double a, double b)
{
    if (w.back() < a)
        return 0;
    long double s = 0;
    auto seg = [&](double x0, double x1, double y0, double y1) { // linear on [x0,x1] clipped to [a,b]
        double l = std::max(a, x0), h = std::min(b, x1);
        if (h <= l) return;
        auto f = [&](double x) { return y0 + (y1 - y0) * (x - x0) / (x1 - x0); };
        s += 0.5L * (f(l) + f(h)) * (h - l);
    };
    for (size_t i = 0; i + 1 < w.size(); ++i)
        seg(w[i], w[i + 1], v[i], v[i + 1]);
    if (b > w.back())
        s += (b - std::max(a, w.back())) * (long double)v.back();
    return double(s / (b - a));
}
PROP(integrate_over_data, 20000, 400000)
{
    int k = c.range(0, 7);
    size_t m = 1 + c.below(c.chance(1, 3) ? 40 : 6);
    std::vector<double> w;
    FV v;
    double x = c.uniform(200, 1200);
    bool snap = c.boolean(); // samples on bin edges
    for (size_t i = 0; i < m; ++i) {
        double y = x;
        if (snap && c.chance(1, 2)) {
            auto& e = expected()[size_t(k)];
            auto& p = e[c.below(e.size())];
            double q = c.boolean() ? p.first : p.second;
            if (w.empty() || q > w.back()) y = q;
        }
        if (!w.empty() && y <= w.back()) y = w.back() + 1;
        w.push_back(y);
        v.push_back(std::abs(gen_f(c)) + (c.chance(1, 6) ? 0.f : 0.1f));
        x = y + c.logreal(0.05, 400);
    }
    c.note("layout", k);
    for (size_t i = 0; i < m; ++i)
        c.append("(" + std::to_string(w[i]) + "," + std::to_string(v[i]) + ") ");
    c.nontrivial(m > 1);
    double vmax = 0;
    for (float f : v) vmax = std::max(vmax, double(f));
    with_layout(k, [&](auto tag) {
        using S = decltype(tag);
        S r = S::integrate_over_data(w, v);
        for (size_t i = 0; i < S::size(); ++i) {
            auto& e = expected()[size_t(k)][i];
            // a sample exactly on an edge makes "beyond the range" a matter of rounding
            if (std::abs(w.back() - e.first) < 1e-6)
                continue;
            double want = ref_mean(w, v, e.first, e.second);
            close("mean", r[i], want, 1e-5 * vmax);
        }
        if (c.chance(1, 4)) {
            auto w2 = w; auto v2 = v;
            switch (c.below(3)) {
            case 0: v2.push_back(1.f); break;
            case 1: w2.clear(); v2.clear(); break;
            default:
                w2.push_back(w2[c.below(w2.size())]);
                v2.push_back(0.f);
            }
            PBT_CHECK("reject", hc::throws([&] { S::integrate_over_data(w2, v2); }), "malformed table accepted");
        }
    });
}

PROP(rgb_to_spectral, 20000, 300000)
{
    int k = c.range(0, 7);
    RGB rgb{float(c.real(0, 1)), float(c.real(0, 1)), float(c.real(0, 1))};
    c.note("layout", k);
    c.note("rgb", shv(::getv(rgb)));
    c.nontrivial(rgb[0] != rgb[1] || rgb[1] != rgb[2]);
    static const double re[3][2] = {{600, 750}, {500, 600}, {380, 500}};
    auto& e = expected()[size_t(k)];
    with_layout(k, [&](auto tag) {
        using S = decltype(tag);
        S s = convert_rgb_to_spectral<S>(rgb);
        double mx = std::max({rgb[0], rgb[1], rgb[2]});
        for (size_t i = 0; i < S::size(); ++i) {
            PBT_CHECK("range", s[i] >= 0 && s[i] <= mx * (1 + 1e-5) + 1e-7, "bin " << i << " is " << s[i]);
            double want = 0;
            if (k == 2)
                want = (rgb[0] + rgb[1] + rgb[2]) / 3;
            else
                for (int j = 0; j < 3; ++j)
                    want += rgb[size_t(j)] * std::max(0.0, std::min(e[i].second, re[j][1]) - std::max(e[i].first, re[j][0])) / (e[i].second - e[i].first);
            close("energy", s[i], want, 2e-5 * mx + 1e-7);
        }
    });
    // bands that overlap one RGB channel mostly: the channel's energy arrives whatever the overlap
    using B1 = SpectralBins<1, 390, 480>;
    using B2 = SpectralBins<2, 400, 500, 600>;
    using B3 = SpectralBins<2, 420, 460, 520>;
    B1 b1 = convert_rgb_to_spectral<B1>(rgb);
    close("blue_only", b1[0], rgb[2], 1e-5);
    B2 b2 = convert_rgb_to_spectral<B2>(rgb);
    close("blue_green", b2[0], rgb[2], 1e-5);
    close("blue_green", b2[1], rgb[1], 1e-5);
    B3 b3 = convert_rgb_to_spectral<B3>(rgb);
    close("blue_edge", b3[0], rgb[2], 1e-5);
}
PBT_MAIN
