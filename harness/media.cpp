// V01: participating media: extinction, free paths, and which medium a ray is inside.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/assets/primitive.hpp"
#include "huira/volumes/medium.hpp"
#include "huira/volumes/medium_stack.hpp"
#include "huira/volumes/density/constant_density_field.hpp"
#include "huira/volumes/scattering/isotropic_scatter.hpp"
using namespace huira;
using pbt::Ctx;
using V3 = Vec3<float>;
template <class S> static std::pair<S, S> coeffs(Ctx& c)
{
    S a{0}, s{0};
    double scale = c.logreal(1e-4, 10);
    for (size_t i = 0; i < S::size(); ++i) {
        a[i] = float(c.chance(1, 5) ? 0 : c.uniform(0, scale));
        s[i] = float(c.chance(1, 5) ? 0 : c.uniform(0, scale));
    }
    c.note("absorption", std::to_string(a[0]) + ".." + std::to_string(a[S::size() - 1]));
    c.note("scattering", std::to_string(s[0]) + ".." + std::to_string(s[S::size() - 1]));
    return {a, s};
}
template <class S> static Medium<S> medium(const S& a, const S& s)
{
    return Medium<S>(std::make_shared<ConstantDensityField<S>>(a, s), std::make_shared<IsotropicPhaseFunction<S>>());
}
template <class S> static void extinction_case(Ctx& c)
{
    auto [a, s] = coeffs<S>(c);
    Medium<S> m = medium<S>(a, s);
    V3 o(hc::vec(c, 100)), d(hc::unit_vec(c));
    Ray<S> r(o, d);
    RandomSampler<float> rs(1);
    float t1 = float(c.chance(1, 6) ? c.pick({0.0, -1.0}) : c.logreal(1e-3, 10)), t2 = float(c.logreal(1e-3, 10));
    c.note("t1", t1);
    c.note("t2", t2);
    S x = m.evaluate_transmittance(r, t1, rs), y = m.evaluate_transmittance(r, t2, rs), z = m.evaluate_transmittance(r, std::max(t1, 0.f) + t2, rs);
    auto pr = m.get_properties(o);
    bool any = false;
    for (size_t i = 0; i < S::size(); ++i) {
        double ext = double(a[i]) + double(s[i]);
        any |= ext > 0;
        PBT_CHECK("properties", pr.absorption[i] == a[i] && pr.scattering[i] == s[i] && std::abs(pr.extinction()[i] - ext) <= 1e-6 * ext, "extinction " << pr.extinction()[i]);
        double want = std::exp(-ext * std::max(0.f, t1));
        PBT_CHECK("beer_lambert", std::abs(x[i] - want) <= 1e-5 * want * (1 + ext * std::max(0.f, t1)) + 1e-30, "transmittance " << x[i] << " want " << want);
        PBT_CHECK("multiplicative", std::abs(double(x[i]) * y[i] - z[i]) <= 1e-5 * z[i] * (1 + ext * (std::max(0.f, t1) + t2)) + 1e-30, "T(t1) T(t2) = " << double(x[i]) * y[i] << ", T(t1+t2) = " << z[i]);
        PBT_CHECK("decays", x[i] >= 0 && x[i] <= 1 && z[i] <= x[i], "transmittance " << x[i] << " then " << z[i]);
    }
    c.nontrivial(any && t1 > 0);
    size_t k = c.below(S::size());
    S bad = a;
    bad[k] = -float(c.logreal(1e-6, 1));
    PBT_CHECK("negative_rejected", hc::throws([&] { ConstantDensityField<S> f(bad, s); }) && hc::throws([&] { ConstantDensityField<S> f(s, bad); }), "a negative coefficient was accepted");
}
PROP(extinction, 20000, 300000)
{
    if (c.boolean()) extinction_case<RGB>(c);
    else extinction_case<Visible8>(c);
}
PROP(free_path, 1500, 20000)
{
    auto [a, s] = coeffs<RGB>(c);
    if (c.chance(1, 8)) a = s = RGB{0};
    if (c.boolean()) { // grey
        a = RGB{a[0]};
        s = RGB{s[0]};
    }
    Medium<RGB> m = medium<RGB>(a, s);
    V3 o(hc::vec(c, 10)), d(hc::unit_vec(c));
    Ray<RGB> r(o, d);
    uint32_t seed = uint32_t(c.below(1ull << 32));
    c.note("seed", seed);
    RandomSampler<float> rs(seed);
    double ext = 0;
    for (size_t i = 0; i < 3; ++i) ext += (double(a[i]) + s[i]) / 3;
    if (std::abs(ext - 1e-6) < 1e-8) pbt::discard();
    c.note("mean extinction", ext);
    c.nontrivial(ext > 1e-6);
    const int N = 1000;
    std::vector<double> ts;
    for (int i = 0; i < N; ++i) {
        auto h = m.sample_free_path(r, rs);
        PBT_CHECK("vacuum", h.has_value() == (ext > 1e-6), "extinction " << ext << (h ? ": scattered" : ": escaped"));
        if (!h) return;
        PBT_CHECK("valid", h->is_valid() && h->phase_function == &m.get_phase_function() && std::isfinite(h->t) && h->t >= 0, "interaction");
        PBT_CHECK("on_ray", hc::dist(h->p, V3(o + h->t * d)) <= 1e-5 * (10 + h->t), "point " << hc::show(h->p) << " is not at distance " << h->t);
        PBT_CHECK("outgoing", hc::dist(h->wo, -d) == 0 && h->properties.absorption[0] == a[0] && h->properties.scattering[2] == s[2], "interaction record");
        ts.push_back(h->t);
    }
    std::sort(ts.begin(), ts.end());
    double ks = 0;
    for (int i = 0; i < N; ++i) {
        double F = 1 - std::exp(-ext * ts[size_t(i)]);
        ks = std::max({ks, std::abs(F - double(i) / N), std::abs(F - double(i + 1) / N)});
    }
    PBT_CHECK("exponential", ks < 0.1, "free paths are not exponential with the mean extinction: KS distance " << ks); // 1000 samples: p < 1e-8
}
PROP(stack, 15000, 250000)
{
    // a ray that enters and leaves volumes: at most 8 at once; innermost = entered last
    using Prim = Primitive<RGB>;
    std::vector<std::shared_ptr<Prim>> prims;
    int n = c.range(1, 10);
    auto shared = std::make_shared<Medium<RGB>>(medium<RGB>(RGB{1}, RGB{1}));
    for (int i = 0; i < n; ++i) {
        auto p = std::make_shared<Prim>();
        switch (c.below(4)) {
        case 0: break; // opaque, no medium
        case 1: p->medium = shared; break;
        default: p->medium = std::make_shared<Medium<RGB>>(medium<RGB>(RGB{float(i)}, RGB{1}));
        }
        prims.push_back(p);
    }
    MediumStack<RGB> st;
    std::vector<Prim*> model;
    int steps = c.range(1, 40);
    std::string hist;
    bool overlap = false;
    PBT_CHECK("empty", st.is_empty() && st.size() == 0 && st.top() == nullptr, "not empty at first");
    for (int k = 0; k < steps; ++k) {
        if (c.chance(1, 15)) {
            st.toggle(nullptr);
            hist += "null ";
        } else if (c.chance(1, 20)) { // a copy goes its own way
            MediumStack<RGB> cp = st;
            cp.toggle(prims[0].get());
            hist += "copy ";
        } else {
            auto& p = prims[c.below(prims.size())];
            auto it = std::find(model.begin(), model.end(), p.get());
            if (p->medium && it == model.end() && model.size() == 8) continue;
            hist += std::to_string(std::find(prims.begin(), prims.end(), p) - prims.begin()) + " ";
            st.toggle(p.get());
            if (p->medium) {
                if (it != model.end()) {
                    overlap |= it + 1 != model.end();
                    model.erase(it);
                } else
                    model.push_back(p.get());
            }
        }
        PBT_CHECK("inside", st.size() == model.size() && st.is_empty() == model.empty(), "after " << hist << ": inside " << st.size() << " volumes, want " << model.size());
        PBT_CHECK("innermost", st.top() == (model.empty() ? nullptr : model.back()->medium.get()), "after " << hist << ": wrong medium");
    }
    c.note("toggles", hist);
    c.nontrivial(overlap);
}
PBT_MAIN
