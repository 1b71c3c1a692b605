// K03: sensors and frame buffers.
#include "hcommon.hpp"
#include "huira/core/spectral_bins.hpp"
#include "huira/images/image.hpp"
#include "huira/units/units.hpp"
#include "huira/cameras/sensors/simple_sensor.hpp"
namespace huira {
// stands in for the camera, which alone may make frame buffers
template <IsSpectral S> class CameraModel {
  public:
    static FrameBuffer<S> make(int w, int h) { return FrameBuffer<S>(Resolution{w, h}); }
};
} // namespace huira
using namespace huira;
using pbt::Ctx;
static bool near(double a, double b, double rel) { return std::abs(a - b) <= rel * std::abs(b); }
static const double HC = 6.62607015e-34 * 299792458.0;
template <class S> static void noise_free(Ctx& c)
{
    int w = c.range(1, 6), h = c.range(1, 6);
    SimpleSensorConfig<S> cfg;
    cfg.resolution = {w, h};
    cfg.simulate_noise = false;
    cfg.bit_depth = c.range(1, 16);
    cfg.gain = float(c.logreal(0.01, 100));
    cfg.full_well_capacity = float(c.logreal(10, 1e6));
    cfg.read_noise = float(c.uniform(0, 100));
    cfg.dark_current = float(c.uniform(0, 1000));
    cfg.bias_level_dn = float(c.uniform(0, 100));
    bool dq = c.chance(1, 3);
    if (!dq)
        for (size_t i = 0; i < S::size(); ++i) cfg.quantum_efficiency[i] = float(c.chance(1, 6) ? c.below(2) : c.uniform(0, 1));
    SimpleSensor<S> s(cfg);
    auto fb = CameraModel<S>::make(w, h);
    fb.enable_sensor_response();
    double dt = c.chance(1, 10) ? 0 : c.logreal(1e-4, 100);
    c.note("bits", cfg.bit_depth);
    c.note("gain", cfg.gain);
    c.note("full_well", cfg.full_well_capacity);
    c.note("exposure", dt);
    double maxdn = std::pow(2.0, cfg.bit_depth) - 1;
    // powers that range from far below one electron to far above saturation
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            for (size_t i = 0; i < S::size(); ++i) {
                double e = HC / S::get_bin(i).center_wavelength;
                fb.received_power()(x, y)[i] = c.chance(1, 10) ? 0.f : float(c.logreal(1e-2, 3) * std::min<double>(cfg.full_well_capacity, maxdn * cfg.gain) * e / std::max(dt, 1e-4));
            }
    auto before = fb.received_power();
    s.readout(fb, units::Second(dt));
    bool partial = false;
    auto expect = [&](double el) { return std::min(std::min(el, double(cfg.full_well_capacity)) / double(cfg.gain), maxdn) / maxdn; };
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x) {
            double sum = 0;
            std::array<double, S::size()> el;
            for (size_t i = 0; i < S::size(); ++i) {
                PBT_CHECK("input_kept", fb.received_power()(x, y)[i] == before(x, y)[i], "readout changed the received power");
                sum += el[i] = double(before(x, y)[i]) * dt / (HC / S::get_bin(i).center_wavelength) * double(s.quantum_efficiency()[i]);
            }
            auto chk = [&](double got, double want) {
                partial = partial || (want > 0 && want < 1);
                PBT_CHECK("range", got >= 0 && got <= 1, "response " << got);
                PBT_CHECK("response", std::abs(got - want) <= 2e-5 * want + 1e-12, "response " << got << " want " << want);
            };
            if constexpr (std::is_same_v<S, RGB>)
                for (size_t i = 0; i < 3; ++i) chk(fb.sensor_response()(x, y)[i], expect(el[i]));
            else chk(fb.sensor_response()(x, y), expect(sum));
        }
    PBT_CHECK("bit_depth", fb.sensor_response().sensor_bit_depth() == cfg.bit_depth, "image says " << fb.sensor_response().sensor_bit_depth() << " bits");
    c.nontrivial(partial);
}
PROP(readout, 8000, 120000)
{
    switch (c.below(3)) {
    case 0: c.label("RGB"); noise_free<RGB>(c); break;
    case 1: c.label("Visible8"); noise_free<Visible8>(c); break;
    default: c.label("one band"); noise_free<UniformSpectralBins<1, 500, 600>>(c);
    }
}
PROP(default_efficiency, 1, 1)
{
    // half of the photons of light with equal numbers in each band... of a documented shape: proportional to photon energy, in [0,1]
    SimpleSensor<RGB> a;
    SimpleSensor<Visible8> b;
    c.nontrivial(true);
    double t = 0;
    for (size_t i = 0; i < 8; ++i) t += b.quantum_efficiency()[i];
    PBT_CHECK("valid", a.quantum_efficiency().valid_ratio() && b.quantum_efficiency().valid_ratio(), "default efficiency outside [0,1]");
    PBT_CHECK("half", near(t, 0.5, 1e-5) && near(double(a.quantum_efficiency()[0]) + a.quantum_efficiency()[1] + a.quantum_efficiency()[2], 0.5, 1e-5), "sums to " << t);
    double e0 = b.quantum_efficiency()[0] * Visible8::get_bin(0).center_wavelength;
    for (size_t i = 0; i < 8; ++i) PBT_CHECK("flat_energy", near(b.quantum_efficiency()[i] * Visible8::get_bin(i).center_wavelength, e0, 1e-5), "not proportional to photon energy");
}
template <class S> static void noisy(Ctx& c)
{
    const int w = 100, h = 60;
    SimpleSensorConfig<S> cfg;
    cfg.resolution = {w, h};
    cfg.bit_depth = c.range(10, 16);
    double maxdn = std::pow(2.0, cfg.bit_depth) - 1;
    cfg.read_noise = float(c.chance(1, 4) ? 0.01 : c.uniform(1, 30));
    double dt = c.logreal(0.01, 10), sig = c.logreal(400, 5e4), dark = c.boolean() ? 0 : c.uniform(0, 2000);
    cfg.dark_current = float(dark / dt);
    cfg.quantum_efficiency = S{1.f};
    cfg.bias_level_dn = float(c.uniform(0, maxdn * 0.2));
    double sd = std::sqrt(sig + dark + double(cfg.read_noise) * cfg.read_noise);
    cfg.full_well_capacity = float((sig + dark + 8 * sd) * c.uniform(1, 3));
    cfg.gain = float((sig + dark + 8 * sd) / (maxdn * c.uniform(0.2, 0.75)));
    SimpleSensor<S> s(cfg);
    auto fb = CameraModel<S>::make(w, h);
    fb.enable_sensor_response();
    constexpr size_t CH = std::is_same_v<S, RGB> ? 3 : 1;
    for (int y = 0; y < h; ++y)
        for (int x = 0; x < w; ++x)
            for (size_t i = 0; i < S::size(); ++i) fb.received_power()(x, y)[i] = float(sig / (CH == 3 ? 1 : double(S::size())) * HC / S::get_bin(i).center_wavelength / dt);
    s.readout(fb, units::Second(dt));
    c.note("signal", sig);
    c.note("dark", dark);
    c.note("read_noise", cfg.read_noise);
    c.nontrivial(true);
    for (size_t ch = 0; ch < CH; ++ch) {
        double m = 0, v = 0;
        std::vector<double> d;
        for (int y = 0; y < h; ++y)
            for (int x = 0; x < w; ++x) {
                double r;
                if constexpr (CH == 3) r = fb.sensor_response()(x, y)[ch];
                else r = fb.sensor_response()(x, y);
                PBT_CHECK("range", r >= 0 && r <= 1, "response " << r);
                d.push_back(r * maxdn);
            }
        for (double q : d) m += q;
        m /= double(d.size());
        for (double q : d) v += (q - m) * (q - m);
        v /= double(d.size() - 1);
        double em = (sig + dark) / double(cfg.gain) + cfg.bias_level_dn, es = sd / double(cfg.gain), n = double(d.size());
        // six standard errors, and half a step in case values are quantized
        PBT_CHECK("mean", std::abs(m - em) < 6 * es / std::sqrt(n) + 0.51 + 1e-4 * em, "mean " << m << " want " << em << " +- " << es / std::sqrt(n));
        PBT_CHECK("variance", std::abs(v - es * es) < 8 * es * es * std::sqrt(2 / n) + 0.3, "variance " << v << " want " << es * es);
    }
}
PROP(noise, 60, 1000) { c.boolean() ? noisy<RGB>(c) : noisy<Visible8>(c); }
PROP(noise_limits, 300, 4000)
{
    // noise never leaves the range, in the dark or saturated
    SimpleSensorConfig<RGB> cfg;
    cfg.resolution = {8, 8};
    cfg.read_noise = float(c.logreal(0.1, 1000));
    cfg.gain = float(c.logreal(0.01, 100));
    cfg.bit_depth = c.range(1, 16);
    cfg.full_well_capacity = float(c.logreal(100, 1e5));
    cfg.bias_level_dn = float(c.below(3) ? c.uniform(0, 20) : 0);
    SimpleSensor<RGB> s(cfg);
    auto fb = CameraModel<RGB>::make(8, 8);
    fb.enable_sensor_response();
    bool lit = c.boolean();
    if (lit) fb.received_power().fill(RGB{1.f});
    s.readout(fb, units::Second(c.logreal(0.01, 10)));
    c.note("lit", lit);
    c.nontrivial(true);
    double maxdn = std::pow(2.0, cfg.bit_depth) - 1;
    double top = std::min(1.0, (double(cfg.full_well_capacity) / double(cfg.gain) + cfg.bias_level_dn) / maxdn);
    for (size_t i = 0; i < fb.sensor_response().size(); ++i)
        for (size_t k = 0; k < 3; ++k) {
            double r = fb.sensor_response()[i][k];
            PBT_CHECK("range", r >= 0 && r <= 1, "response " << r);
            if (lit) PBT_CHECK("saturated", near(r, top, 1e-4), "a saturated pixel reads " << r << " want " << top);
        }
}
// settings: a model of every parameter; what is invalid is rejected and changes nothing
struct Par {
    int w = 1024, h = 1024, bits = 12;
    double px = 8.5e-6, py = 8.5e-6, fwc = 20000, rn = 10, dark = 1, bias = 10, gain = 1.22, unity = 0, rot = 0;
    bool noise = true;
    RGB qe;
};
PROP(settings, 12000, 200000)
{
    SimpleSensor<RGB> s;
    Par p;
    p.qe = s.quantum_efficiency();
    const double bad[] = {std::nan(""), INFINITY, -INFINITY};
    int n = c.range(1, 20), rej = 0;
    for (int i = 0; i < n; ++i) {
        int op = int(c.below(14));
        bool inv = c.chance(1, 3);
        auto pos = [&] { return inv ? (c.boolean() ? bad[c.below(3)] : c.boolean() ? 0.0 : -c.logreal(1e-3, 10)) : c.logreal(1e-3, 1e3); };
        auto nonneg = [&] { return inv ? (c.boolean() ? bad[c.below(3)] : -c.logreal(1e-3, 10)) : c.chance(1, 4) ? 0.0 : c.logreal(1e-3, 1e3); };
        auto run = [&](auto f, auto upd) {
            c.note("call", std::to_string(op) + (inv ? "!" : ""));
            bool t = hc::throws(f);
            PBT_CHECK("validation", t == inv, "call " << op << (inv ? " accepted an invalid value" : " rejected a valid value"));
            if (!inv) upd();
            rej += inv;
        };
        double a, b;
        switch (op) {
        case 0: {
            int w = c.range(1, 5000), h = c.range(1, 5000);
            if (inv) (c.boolean() ? w : h) *= -1;
            run([&] { s.set_resolution({w, h}); }, [&] { p.w = w, p.h = h; });
            break;
        }
        case 1:
            a = pos(), b = inv && c.boolean() ? a : c.logreal(1e-3, 1e3);
            if (inv && c.boolean()) std::swap(a, b);
            run([&] { s.set_pixel_pitch(units::Micrometer(a), units::Micrometer(b)); }, [&] { p.px = a * 1e-6, p.py = b * 1e-6; });
            break;
        case 2:
            a = pos(), b = inv && c.boolean() ? a : c.logreal(1e-3, 1e3);
            if (inv && c.boolean()) std::swap(a, b);
            run([&] { s.set_sensor_size(units::Millimeter(a), units::Millimeter(b)); }, [&] { p.px = a * 1e-3 / p.w, p.py = b * 1e-3 / p.h; });
            break;
        case 3: {
            RGB q{float(c.uniform(0, 1)), float(c.below(2)), float(c.uniform(0, 1))};
            if (inv) q[c.below(3)] = float(c.boolean() ? bad[c.below(3)] : c.boolean() ? -0.01 : 1.01);
            run([&] { s.set_quantum_efficiency(q); }, [&] { p.qe = q; });
            break;
        }
        case 4: a = float(pos()); run([&] { s.set_full_well_capacity(float(a)); }, [&] { p.fwc = a; }); break;
        case 5: a = float(nonneg()); run([&] { s.set_read_noise(float(a)); }, [&] { p.rn = a; }); break;
        case 6: a = float(nonneg()); run([&] { s.set_dark_current(float(a)); }, [&] { p.dark = a; }); break;
        case 7: a = float(nonneg()); run([&] { s.set_bias_level_dn(float(a)); }, [&] { p.bias = a; }); break;
        case 8: {
            int bd = inv ? -c.range(0, 5) : c.range(1, 24);
            run([&] { s.set_bit_depth(bd); }, [&] { p.bits = bd; });
            break;
        }
        case 9: a = float(pos()); run([&] { s.set_gain_adu(float(a)); }, [&] { p.gain = a; }); break;
        case 10: a = float(inv ? bad[c.below(3)] : c.uniform(-40, 40)); run([&] { s.set_unity_db(float(a)); }, [&] { p.unity = a; }); break;
        case 11: a = float(inv ? bad[c.below(3)] : c.uniform(-40, 40)); run([&] { s.set_gain_db(float(a)); }, [&] { p.gain = std::pow(10, (p.unity - a) / 20); }); break;
        case 12: inv = false, a = hc::angle(c); run([&] { s.set_rotation(units::Radian(a)); }, [&] { p.rot = a; }); break;
        default: inv = false; { bool v = c.boolean(); run([&] { s.set_simulate_noise(v); }, [&] { p.noise = v; }); }
        }
        auto pitch = s.pixel_pitch(), size = s.sensor_size();
        PBT_CHECK("resolution", s.resolution().x == p.w && s.resolution().y == p.h && s.resolution().width == p.w && s.resolution().height == p.h, "resolution");
        PBT_CHECK("pitch", near(pitch.x, p.px, 1e-6) && near(pitch.y, p.py, 1e-6), "pitch " << pitch.x << " want " << p.px);
        PBT_CHECK("size", near(size.x, p.px * p.w, 2e-6) && near(size.y, p.py * p.h, 2e-6), "size " << size.x << " want " << p.px * p.w);
        PBT_CHECK("efficiency", s.quantum_efficiency() == p.qe, "quantum efficiency");
        PBT_CHECK("electrons", s.full_well_capacity() == float(p.fwc) && s.read_noise() == float(p.rn) && s.dark_current() == float(p.dark) && s.bias_level_dn() == float(p.bias) && s.bit_depth() == p.bits && s.simulate_noise() == p.noise, "a parameter is not what was set");
        PBT_CHECK("gain", near(s.gain_adu(), p.gain, 1e-5) && s.unity_db() == float(p.unity), "gain " << s.gain_adu() << " want " << p.gain);
        PBT_CHECK("gain_db", std::abs(s.gain_db() - (p.unity - 20 * std::log10(p.gain))) < 1e-3, "gain " << s.gain_db() << " dB");
        PBT_CHECK("rotation", std::abs(s.rotation().to_si() - p.rot) < 1e-6 * (1 + std::abs(p.rot)), "rotation");
    }
    int which = int(c.below(5));
    bool neg = c.boolean();
    double bv = bad[c.below(3)];
    bool rejected = hc::throws([&] {
        SimpleSensorConfig<RGB> cfg;
        if (which == 0) cfg.resolution = {-1, 5};
        if (which == 1) cfg.pitch_x = units::Micrometer(neg ? 0.0 : -1.0);
        if (which == 2) cfg.pitch_y = units::Micrometer(bv);
        if (which == 3) cfg.resolution = {5, -1};
        SimpleSensor<RGB> x(cfg);
    });
    PBT_CHECK("constructor", rejected == (which < 4), "constructor validation " << which);
    c.nontrivial(n > 3 && rej > 0);
}
// frame buffers: independent images, on and off, cleared to their defaults
template <class T> static bool holds(const Image<T>& im, int w, int h, const T& v)
{
    if (im.width() != w || im.height() != h) return false;
    for (size_t i = 0; i < im.size(); ++i)
        if (!(im[i] == v)) return false;
    return true;
}
PROP(frame_buffer, 6000, 100000)
{
    int w = c.range(1, 5), h = c.range(1, 4);
    auto fb = CameraModel<RGB>::make(w, h);
    PBT_CHECK("size", fb.width() == w && fb.height() == h && fb.resolution().width == w && fb.resolution().height == h, "size");
    struct Slot {
        bool on = false;
        float v = 0;
    } s[9]; // depth albedo ids camn worldn direct indirect power response
    const float def[9] = {INFINITY, 0, 0, 0, 0, 0, 0, 0, 0};
    int n = c.range(1, 25), used = 0;
    SimpleSensorConfig<RGB> cfg;
    SimpleSensor<RGB> sensor(cfg);
    for (int i = 0; i < n; ++i) {
        int k = int(c.below(9)), op = int(c.below(6));
        if (op < 3) {
            bool on = op < 2, plain = on && c.boolean();
            c.note("call", (on ? "enable " : "disable ") + std::to_string(k));
            switch (k) {
            case 0: plain ? fb.enable_depth() : fb.enable_depth(on); break;
            case 1: plain ? fb.enable_albedo() : fb.enable_albedo(on); break;
            case 2: plain ? fb.enable_geometry_ids() : fb.enable_geometry_ids(on); break;
            case 3: plain ? fb.enable_camera_normals() : fb.enable_camera_normals(on); break;
            case 4: plain ? fb.enable_world_normals() : fb.enable_world_normals(on); break;
            case 5: plain ? fb.enable_received_direct_power() : fb.enable_received_direct_power(on); break;
            case 6: plain ? fb.enable_received_indirect_power() : fb.enable_received_indirect_power(on); break;
            case 7: plain ? fb.enable_received_power() : fb.enable_received_power(on); break;
            default: plain ? fb.enable_sensor_response() : fb.enable_sensor_response(on);
            }
            if (on && !s[k].on) s[k] = {true, def[k]};
            if (!on) s[k].on = false;
            if (on && k == 8 && !s[7].on) s[7] = {true, 0};
        } else if (op < 5) {
            if (!s[k].on) continue;
            ++used;
            float v = float(c.range(1, 100));
            c.note("call", "fill " + std::to_string(k));
            switch (k) {
            case 0: fb.depth().fill(v); break;
            case 1: fb.albedo().fill(RGB{v}); break;
            case 2: fb.geometry_ids().fill(uint64_t(v)); break;
            case 3: fb.camera_normals().fill({v, v, v}); break;
            case 4: fb.world_normals().fill({v, v, v}); break;
            case 5: fb.received_direct_power().fill(RGB{v}); break;
            case 6: fb.received_indirect_power().fill(RGB{v}); break;
            case 7: fb.received_power().fill(RGB{v}); break;
            default: fb.sensor_response().fill(RGB{v});
            }
            s[k].v = v;
        } else if (c.boolean()) {
            c.note("call", "clear");
            fb.clear();
            for (int q = 0; q < 9; ++q) s[q].v = def[q];
        } else if (!s[8].on) { // reading out without anywhere to put it does nothing
            c.note("call", "readout");
            sensor.readout(fb, units::Second(1));
        }
        bool on[9] = {fb.has_depth(), fb.has_albedo(), fb.has_geometry_ids(), fb.has_camera_normals(), fb.has_world_normals(), fb.has_received_direct_power(), fb.has_received_indirect_power(), fb.has_received_power(), fb.has_sensor_response()};
        for (int q = 0; q < 9; ++q) {
            PBT_CHECK("enabled", on[q] == s[q].on, "image " << q << (on[q] ? " is" : " is not") << " there");
            if (!on[q]) continue;
            float v = s[q].v;
            bool ok = q == 0 ? holds(fb.depth(), w, h, v) : q == 1 ? holds(fb.albedo(), w, h, RGB{v}) : q == 2 ? holds(fb.geometry_ids(), w, h, uint64_t(v)) : q == 3 ? holds(fb.camera_normals(), w, h, Vec3<float>{v, v, v})
                    : q == 4 ? holds(fb.world_normals(), w, h, Vec3<float>{v, v, v}) : q == 5 ? holds(fb.received_direct_power(), w, h, RGB{v}) : q == 6 ? holds(fb.received_indirect_power(), w, h, RGB{v})
                    : q == 7 ? holds(fb.received_power(), w, h, RGB{v}) : holds(fb.sensor_response(), w, h, RGB{v});
            PBT_CHECK("contents", ok, "image " << q << " lost its contents or has the wrong size");
        }
    }
    c.nontrivial(used > 1);
}
PBT_MAIN
