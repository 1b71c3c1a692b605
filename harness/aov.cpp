// R03: what a rendered frame says about the surfaces it sees, the sky's place, and independence of threads and earlier frames.
#include "rig.hpp"
using namespace rig;
static constexpr int W = 12;
struct Obj {
    bool quad;
    V3d at, n, u, v;
    double w = 0, r = 0; // half-width or radius
    S albedo;
    double o = 1;
};
static double cast(const Obj& k, const V3d& d, V3d& n, double more = 0) // more: wider by so much
{
    if (k.quad) {
        double t = glm::dot(k.at, k.n) / glm::dot(d, k.n);
        V3d x = d * t - k.at;
        if (!(t > 0) || std::abs(glm::dot(x, k.u)) > k.w + more || std::abs(glm::dot(x, k.v)) > k.w + more) return -1;
        n = glm::dot(k.n, d) < 0 ? k.n : -k.n;
        return t;
    }
    double b = glm::dot(k.at, d), q = b * b - glm::dot(k.at, k.at) + (k.r + more) * (k.r + more);
    if (q < 0) return -1;
    double t = b - std::sqrt(q);
    n = (d * t - k.at) / k.r;
    return t;
}
static SceneView<S> look(Rig& g, int n = 1, double dur = 1) { return SceneView<S>(*g.sc, Interval(Time::from_et(0), Time::from_et(dur)), g.camera, ObservationMode::TRUE_STATE, size_t(n)); }
static std::string at(int x, int y) { return "pixel " + std::to_string(x) + "," + std::to_string(y); }
static std::string str(const V3d& v) { return std::to_string(v.x) + "," + std::to_string(v.y) + "," + std::to_string(v.z); }
static std::vector<Obj> things(Ctx& c, Rig& g, double size, double half, bool haze)
{
    std::vector<Obj> obs;
    int n = c.range(1, 3);
    for (int i = 0; i < n; ++i) {
        Obj k;
        k.quad = c.boolean();
        double D = size * c.uniform(2, 8);
        k.at = V3d(c.uniform(-1, 1) * D * std::tan(half), c.uniform(-1, 1) * D * std::tan(half), D);
        k.albedo = rgb(c, 0, 1);
        k.o = haze && c.boolean() ? c.uniform(0.2, 0.8) : 1;
        auto m = g.sc->new_material(g.sc->new_bsdf_lambertian());
        m.set_alpha_factor(float(k.o));
        S col{1}, fac = k.albedo;
        if (k.quad) {
            k.n = nrm(V3d(c.uniform(-0.7, 0.7), c.uniform(-0.7, 0.7), c.boolean() ? 1 : -1));
            k.u = perp(k.n), k.v = crs(k.n, k.u), k.w = D * std::tan(half) * c.uniform(0.2, 2);
            if (c.boolean()) { // the albedo's parts: vertex colours, a texture and a factor
                col = rgb(c, 0.5, 1);
                S tex = rgb(c, 0.5, 1);
                m.set_albedo_image(g.sc->add_texture(Image<S>(1, 1, tex)));
                for (size_t b = 0; b < 3; ++b) k.albedo[b] = fac[b] * col[b] * tex[b];
            }
            m.set_albedo_factor(fac);
            g.place(g.top.new_instance(g.sc->add_primitive(g.quad(k.at, k.n, k.w, col), m)), {0, 0, 0});
        } else {
            k.r = D * std::tan(half) * c.uniform(0.2, 1);
            m.set_albedo_factor(fac);
            double sc = c.boolean() ? 1 : c.logreal(0.2, 5);
            g.place(g.top.new_instance(g.sc->add_primitive(g.sc->add_ellipsoid(units::Meter(k.r / sc), units::Meter(k.r / sc), units::Meter(k.r / sc)), m)), k.at, hc::unit_vec(c), c.uniform(-3, 3), V3d(sc, sc, sc));
        }
        obs.push_back(k);
    }
    return obs;
}
static void turn_on(FrameBuffer<S>& fb)
{
    fb.enable_depth(), fb.enable_albedo(), fb.enable_geometry_ids(), fb.enable_camera_normals(), fb.enable_world_normals();
}
PROP(buffers, 1500, 40000)
{
    static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    double half = c.uniform(0.05, 0.6), size = c.chance(1, 2) ? 1 : c.logreal(1e-2, 1e7);
    configure(cam(), W, W, half);
    Rig g(c, size);
    double roll = c.boolean() ? 0 : c.uniform(-3, 3);
    cam().h.set_sensor_rotation(units::Radian(roll));
    bool haze = c.chance(1, 3);
    auto obs = things(c, g, size, half, haze);
    if (c.boolean()) g.sc->set_background_radiance(rgb(c, 0, 2));
    auto v = look(g);
    cam().h.set_sensor_rotation(units::Radian(0));
    auto unroll = [&](const V3d& d) { return rot({0, 0, 1}, roll, d); }; // from the sensor's axes to the rig's
    FrameBuffer<S> fb = cam().h.make_frame_buffer();
    turn_on(fb);
    if (c.boolean()) fb.enable_received_power();
    bool reused = c.boolean();
    if (reused) { // whatever a frame buffer held before is forgotten
        fb.depth().fill(float(c.uniform(0, 1)));
        fb.albedo().fill(S{7}), fb.geometry_ids().fill(3), fb.camera_normals().fill(Vec3<float>{1, 2, 3}), fb.world_normals().fill(Vec3<float>{1, 2, 3});
    }
    int spp = c.range(1, 6);
    Renderer<S> r;
    r.set_samples_per_pixel(spp), r.set_max_bounces(c.range(1, 3));
    r.render(v, fb);
    int inside = 0, sky = 0;
    c.note("objects", obs.size()), c.note("size", size), c.note("haze", haze), c.note("roll", roll), c.note("reused", reused);
    std::optional<uint64_t> sky_id;
    for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x) {
            // layers seen through the pixel, front to back, if they are the same all over it
            std::vector<int> order;
            std::vector<double> lo(obs.size(), 1e300), hi(obs.size(), 0);
            std::vector<V3d> first(obs.size());
            std::vector<double> spread(obs.size(), 0);
            bool same = true;
            for (int k = 0; k < 49 && same; ++k) {
                double sx = x - 0.1 + 1.2 * (k % 7) / 6, sy = y - 0.1 + 1.2 * (k / 7) / 6;
                double f = W / 2 / std::tan(half);
                V3d d = unroll(nrm(V3d((sx - W / 2.0) / f, (sy - W / 2.0) / f, 1)));
                std::vector<std::pair<double, int>> hit;
                for (size_t q = 0; q < obs.size(); ++q) {
                    V3d n;
                    double t = cast(obs[q], d, n), m = 0.2 * len(obs[q].at) / f / (obs[q].quad ? std::max(0.05, std::abs(glm::dot(obs[q].n, d))) : 1);
                    V3d m0;
                    if ((cast(obs[q], d, m0, m) > 0) != (cast(obs[q], d, m0, -m) > 0)) same = false; // an outline too close to tell
                    if (!(t > 0)) continue;
                    hit.push_back({t, int(q)});
                    if (obs[q].quad && std::abs(glm::dot(n, d)) < 0.05) same = false;
                    if (hi[q] == 0) first[q] = n;
                    lo[q] = std::min(lo[q], t), hi[q] = std::max(hi[q], t), spread[q] = std::max(spread[q], len(n - first[q]));
                }
                std::sort(hit.begin(), hit.end());
                std::vector<int> o2;
                for (auto& [t, q] : hit) {
                    o2.push_back(q);
                    if (obs[size_t(q)].o == 1) break;
                }
                if (k == 0) order = o2;
                else if (o2 != order) same = false;
            }
            float dep = fb.depth()(x, y);
            S al = fb.albedo()(x, y);
            V3d cn(fb.camera_normals()(x, y)), wn(fb.world_normals()(x, y));
            uint64_t id = fb.geometry_ids()(x, y);
            PBT_CHECK("sane", !std::isnan(dep) && dep > 0 && al.min() >= 0 && al.max() <= 1.0001f && std::isfinite(cn.x + cn.y + cn.z + wn.x + wn.y + wn.z) && len(cn) < 1.001 && len(wn) < 1.001, at(x, y) << ": depth " << dep << " albedo " << al.to_string() << " normal " << str(cn) << " in the world " << str(wn));
            if (!same) continue;
            if (order.empty()) {
                ++sky;
                PBT_CHECK("sky", std::isinf(dep) && al.max() == 0 && len(cn) == 0 && len(wn) == 0, at(x, y) << " sees only the sky: depth " << dep << " albedo " << al.to_string() << " normal " << str(cn) << " / " << str(wn));
                if (!sky_id) sky_id = id;
                PBT_CHECK("sky_id", id == *sky_id, "two identifiers for the sky: " << id << " and " << *sky_id);
                continue;
            }
            bool glass = false;
            for (int q : order) glass = glass || (obs[size_t(q)].o < 1 && !obs[size_t(q)].quad); // its far side is seen too
            if (glass) continue;
            if (order.size() == 1 && obs[size_t(order[0])].o == 1) {
                ++inside;
                size_t q = size_t(order[0]);
                double pad = 0.3 * (hi[q] - lo[q]) + 1e-4 * hi[q];
                PBT_CHECK("depth", dep > lo[q] - pad && dep < hi[q] + pad, at(x, y) << ": depth " << dep << ", the surface is between " << lo[q] << " and " << hi[q]);
                for (size_t b = 0; b < 3; ++b) PBT_CHECK("albedo", std::abs(al[b] - obs[q].albedo[b]) < 1e-5, at(x, y) << ": albedo " << al.to_string() << ", want " << obs[q].albedo.to_string());
                V3d want = rot({0, 0, 1}, -roll, first[q]), ww = g.world(first[q]);
                PBT_CHECK("normal", len(cn - want) < 2 * spread[q] + 5e-3 && std::abs(len(cn) - 1) < 1e-4, at(x, y) << ": camera normal " << str(cn) << ", want " << str(want));
                PBT_CHECK("world_normal", len(wn - ww) < 2 * spread[q] + 5e-3, at(x, y) << ": world normal " << str(wn) << ", want " << str(ww));
                PBT_CHECK("id", !sky_id || id != *sky_id, at(x, y) << ": a surface has the sky's identifier " << id);
                continue;
            }
            // layers: how many samples stopped at each?
            bool ok = false;
            std::vector<int> cnt(order.size() + 1, 0);
            auto rec = [&](auto&& self, size_t i, int left) -> void {
                if (ok) return;
                bool last = i == order.size() - 1 && obs[size_t(order[i])].o == 1;
                if (i == order.size() || last) {
                    if (last) cnt[i] = left;
                    double A[3] = {0, 0, 0}, near = INFINITY, far = INFINITY;
                    for (size_t q = 0; q < order.size(); ++q) {
                        auto& k = obs[size_t(order[q])];
                        if (cnt[q] && near == INFINITY) near = lo[size_t(order[q])], far = hi[size_t(order[q])];
                        for (size_t b = 0; b < 3; ++b) A[b] += double(k.albedo[b]) * cnt[q] / spp;
                    }
                    bool good = true;
                    for (size_t b = 0; b < 3; ++b) good = good && std::abs(A[b] - double(al[b])) < 1e-4;
                    double pad = near < INFINITY ? 0.3 * (far - near) + 1e-3 * far : 0;
                    good = good && (near == INFINITY ? std::isinf(dep) : dep > near - pad && dep < far + pad);
                    ok = ok || good;
                    return;
                }
                for (int k = 0; k <= left; ++k) {
                    cnt[i] = k;
                    self(self, i + 1, left - k);
                }
                cnt[i] = 0;
            };
            rec(rec, 0, spp);
            PBT_CHECK("layers", ok, at(x, y) << ": depth " << dep << " albedo " << al.to_string() << " do not come from any mix of the " << order.size() << " layers there");
        }
    // buffers that were not asked for stay empty
    if (c.chance(1, 8)) {
        FrameBuffer<S> f2 = cam().h.make_frame_buffer();
        bool d = c.boolean(), n = c.boolean();
        if (d) f2.enable_depth();
        if (n) f2.enable_world_normals();
        r.render(v, f2);
        PBT_CHECK("disabled", f2.has_depth() == d && f2.has_world_normals() == n && !f2.has_albedo() && !f2.has_geometry_ids() && !f2.has_camera_normals() && !f2.has_received_power() && !f2.has_sensor_response(), "a buffer appeared");
        for (int y = 0; y < W; ++y)
            for (int x = 0; x < W; ++x) {
                if (d) PBT_CHECK("alone", f2.depth()(x, y) == fb.depth()(x, y), at(x, y) << ": the depth depends on the other buffers");
                if (n) PBT_CHECK("alone", f2.world_normals()(x, y) == fb.world_normals()(x, y), at(x, y) << ": the normal depends on the other buffers");
            }
    }
    c.nontrivial(inside > 5 && sky > 0);
}
PROP(sky, 400, 10000)
{
    static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    double half = c.uniform(0.02, 0.6);
    configure(cam(), W, W, half);
    Rig g(c, 1);
    double roll = c.boolean() ? 0 : c.uniform(-3, 3);
    cam().h.set_sensor_rotation(units::Radian(roll));
    int w = c.range(1, 12), h = c.range(1, 8);
    Image<S> img(w, h);
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) img(x, y) = rgb(c, 0, 2);
    Image<S> copy = img;
    g.sc->set_background_radiance(std::move(img));
    auto v = look(g, c.range(1, 2));
    cam().h.set_sensor_rotation(units::Radian(0));
    FrameBuffer<S> fb = cam().h.make_frame_buffer();
    fb.enable_received_power();
    Renderer<S> r;
    r.set_samples_per_pixel(c.range(1, 4)), r.set_max_bounces(1);
    r.render(v, fb);
    c.note("image", w * 100 + h), c.note("half", half), c.note("roll", roll);
    for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x) {
            S lo{1e30f}, hi{-1e30f};
            for (int k = 0; k < 81; ++k) {
                double f = W / 2 / std::tan(half), sx = x - 0.05 + 1.1 * (k % 9) / 8, sy = y - 0.05 + 1.1 * (k / 9) / 8;
                V3d d = g.world(rot({0, 0, 1}, roll, nrm(V3d((sx - W / 2.0) / f, (sy - W / 2.0) / f, 1))));
                S s = copy.sample_bilinear(float(0.5 + std::atan2(d.z, d.x) / (2 * M_PI)), float(0.5 - std::asin(std::clamp(d.y, -1.0, 1.0)) / M_PI));
                for (size_t b = 0; b < 3; ++b) lo[b] = std::min(lo[b], s[b]), hi[b] = std::max(hi[b], s[b]);
            }
            for (size_t b = 0; b < 3; ++b) {
                double got = double(fb.received_power()(x, y)[b]) / double(cam().m->pixel_radiance_to_power(x, y)), pad = 0.3 * double(hi[b] - lo[b]) + 1e-3;
                PBT_CHECK("sky", got > double(lo[b]) - pad && got < double(hi[b]) + pad, at(x, y) << " band " << b << " receives " << got << " from a part of the sky between " << lo[b] << " and " << hi[b]);
            }
        }
    c.nontrivial(w * h > 4);
}
// drawing again, with any number of threads, gives the same frame
PROP(threads, 60, 1500)
{
    bool big = c.chance(1, 3); // so many tiles that a thread draws several in one go
    int w = big ? c.range(200, 420) : c.range(20, 70), h = big ? c.range(200, 420) : c.range(20, 70);
    double half = c.uniform(0.1, 0.5);
    configure(cam(), w, h, half);
    Rig g(c, 1);
    things(c, g, 1, half, true);
    int nl = c.range(0, 2);
    for (int i = 0; i < nl; ++i) g.place(g.top.new_instance(g.sc->new_sphere_light(units::Meter(c.uniform(0.1, 1)), units::Watt(1e3))), hc::unit_vec(c) * c.uniform(2, 6));
    g.sc->set_background_radiance(rgb(c, 0, 1));
    int nt = c.range(1, 3);
    if (nt > 1) {
        auto vv = hc::vec(c, 1);
        auto last = g.top.new_instance(g.sc->add_primitive(g.sc->add_ellipsoid(units::Meter(0.5), units::Meter(0.5), units::Meter(0.5))));
        g.place(last, {0, 0, 3});
        last.set_velocity(units::MetersPerSecond(vv.x), units::MetersPerSecond(vv.y), units::MetersPerSecond(vv.z));
    }
    auto v = look(g, nt);
    auto draw = [&](int threads, Renderer<S>& r) {
        tbb::global_control k(tbb::global_control::max_allowed_parallelism, size_t(threads));
        auto fb = std::make_unique<FrameBuffer<S>>(cam().h.make_frame_buffer());
        turn_on(*fb);
        fb->enable_received_power(), fb->enable_received_direct_power(), fb->enable_received_indirect_power();
        r.render(v, *fb);
        return fb;
    };
    Renderer<S> a, b;
    for (auto* r : {&a, &b}) r->set_samples_per_pixel(big ? 2 : 4), r->set_max_bounces(big ? 1 : 3);
    bool dyn = c.boolean();
    for (auto* r : {&a, &b}) r->set_dynamic_sampling(dyn), r->set_min_samples(2);
    auto x = draw(1, a), y = draw(c.range(2, 8), c.boolean() ? a : b);
    c.note("lights", nl), c.note("temporal", nt), c.note("dynamic", dyn), c.note("big", big);
    for (int j = 0; j < h; ++j)
        for (int i = 0; i < w; ++i) {
            bool power = true;
            for (size_t k = 0; k < 3; ++k) {
                auto eq = [](float p, float q) { return p == q || std::abs(p - q) < 1e-36f; };
                power = power && eq(x->received_power()(i, j)[k], y->received_power()(i, j)[k]) && eq(x->received_direct_power()(i, j)[k], y->received_direct_power()(i, j)[k]) && eq(x->received_indirect_power()(i, j)[k], y->received_indirect_power()(i, j)[k]);
            }
            PBT_CHECK("power", power, at(i, j) << " receives " << x->received_power()(i, j).to_string() << " drawn by one thread and " << y->received_power()(i, j).to_string() << " by several");
            PBT_CHECK("surfaces", x->depth()(i, j) == y->depth()(i, j) && x->albedo()(i, j) == y->albedo()(i, j) && x->geometry_ids()(i, j) == y->geometry_ids()(i, j) && x->camera_normals()(i, j) == y->camera_normals()(i, j) && x->world_normals()(i, j) == y->world_normals()(i, j), at(i, j) << " differs between one thread and several");
        }
    c.nontrivial(nl > 0 || nt > 1);
}
PROP(psf, 24, 600)
{
    static tbb::global_control one(tbb::global_control::max_allowed_parallelism, 1);
    configure(cam(), W, W, 0.3);
    Rig g(c, 1);
    things(c, g, 1, 0.3, false);
    g.sc->set_background_radiance(rgb(c, 0, 1));
    auto v = look(g);
    Renderer<S> r;
    r.set_samples_per_pixel(2);
    auto draw = [&] {
        auto fb = std::make_unique<FrameBuffer<S>>(cam().h.make_frame_buffer());
        fb->enable_received_power(), fb->enable_depth();
        r.render(v, *fb);
        return fb;
    };
    auto plain = draw();
    cam().h.enable_psf_convolution();
    auto none = draw(); // nothing to convolve with
    for (size_t i = 0; i < W * W; ++i) PBT_CHECK("no_psf", none->received_power()[i] == plain->received_power()[i], "without a PSF the image changes");
    cam().h.use_aperture_psf(c.range(1, 5), c.range(1, 3));
    auto with = draw();
    Image<S> want = plain->received_power();
    want.convolve(cam().m->get_psf_kernel(0, 0));
    cam().h.enable_psf_convolution(false);
    auto off = draw();
    cam().h.delete_psf();
    float top = 0;
    for (size_t i = 0; i < W * W; ++i) top = std::max(top, want[i].max());
    for (int y = 0; y < W; ++y)
        for (int x = 0; x < W; ++x) {
            for (size_t b = 0; b < 3; ++b) PBT_CHECK("psf", std::abs(with->received_power()(x, y)[b] - want(x, y)[b]) <= 1e-4f * top, at(x, y) << " receives " << with->received_power()(x, y)[b] << ", the convolved image has " << want(x, y)[b]);
            PBT_CHECK("off", off->received_power()(x, y) == plain->received_power()(x, y) && with->depth()(x, y) == plain->depth()(x, y), at(x, y) << " changes with a PSF that is not convolved");
        }
    c.nontrivial();
}
PBT_MAIN
