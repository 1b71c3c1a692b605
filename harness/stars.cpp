// T01: Tycho-2 text files against a generator written from the catalogue's byte-by-byte description.
#include "hcommon.hpp"
#include "tycho.hpp"
#include "huira/core/physics.hpp"
#include "huira/stars/io/star_data.hpp"
#include "huira/stars/io/tycho2_id.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "huira/stars/io/load_tycho2.hpp"
using namespace huira;
static hc::V3d dirv(double ra, double dec) { return {std::cos(dec) * std::cos(ra), std::cos(dec) * std::sin(ra), std::sin(dec)}; }
static void run_file(Ctx& c, int kind)
{
    int n = c.range(0, 12);
    std::vector<Line> want;
    std::string text;
    bool crlf = c.chance(1, 6);
    int skipped = 0;
    for (int i = 0; i < n; ++i) {
        if (c.chance(1, 8)) {
            text += c.pick({std::string("# comment"), std::string(""), std::string("   "), std::string("TYC1 TYC2")});
            text += crlf ? "\r\n" : "\n";
        }
        Line l = star_line(c, kind);
        text += l.s;
        bool last = i + 1 == n;
        if (!last || c.boolean()) text += crlf ? "\r\n" : "\n";
        if (l.keep) want.push_back(l);
        else ++skipped;
    }
    c.note("lines", n);
    c.note("text", n <= 2 ? text : text.substr(0, 250));
    c.nontrivial(want.size() > 1);
    if (skipped && !want.empty()) c.label("skipped and kept");
    std::string f = pbt::scratch() + "/tyc.dat";
    {
        std::ofstream o(f, std::ios::binary);
        o << text;
    }
    auto got = kind == 0 ? read_tycho2_dat(f) : read_tycho2_suppl(f);
    PBT_CHECK("count", got.size() == want.size(), got.size() << " stars, want " << want.size());
    for (size_t i = 0; i < got.size(); ++i) {
        const auto& g = got[i];
        const auto& w = want[i];
        uint16_t a, b;
        uint8_t d;
        unpack_tycho2_id(g.id, a, b, d);
        PBT_CHECK("id", a == w.t1 && b == w.t2 && d == w.t3, "star " << i << " id " << a << "-" << b << "-" << int(d) << " want " << w.t1 << "-" << w.t2 << "-" << w.t3);
        PBT_CHECK("proper_motion", std::abs(g.pmRA - w.pmra) < 1e-3 && std::abs(g.pmDEC - w.pmdec) < 1e-3, "star " << i << " pm " << g.pmRA << "," << g.pmDEC << " want " << w.pmra << "," << w.pmdec);
        // position at J2000: the motion over the years since the epoch, to first order
        double de = (w.dec * D2R) + w.pmdec * MAS * (2000 - w.edec), ra = w.ra * D2R + w.pmra * MAS * (2000 - w.era) / std::cos(w.dec * D2R);
        double drift = std::abs(w.pmra * MAS * (2000 - w.era)) + std::abs(w.pmdec * MAS * (2000 - w.edec));
        double tol = 1e-11 + 2e-5 * drift + 4 * drift * drift / std::cos(w.dec * D2R); // second order terms; the epoch in single precision
        double err = hc::dist(dirv(g.RA, g.DEC), dirv(ra, de));
        PBT_CHECK("position", err <= tol, "star " << i << " at " << g.RA / D2R << "," << g.DEC / D2R << " want " << ra / D2R << "," << de / D2R << " (epochs " << w.era << "," << w.edec << ") error " << err);
        double vm = std::isnan(w.vt) ? w.bt : std::isnan(w.bt) ? w.vt : w.vt - 0.09 * (w.bt - w.vt);
        PBT_CHECK("magnitude", std::abs(g.visual_magnitude - vm) < 1e-4, "star " << i << " V " << g.visual_magnitude << " want " << vm);
        double bv = std::isnan(w.vt) || std::isnan(w.bt) ? 0.3 : 0.85 * (w.bt - w.vt);
        double T = 4600 * (1 / (0.92 * bv + 1.7) + 1 / (0.92 * bv + 0.62));
        PBT_CHECK("temperature", std::abs(g.temperature - T) < 1e-4 * T, "star " << i << " T " << g.temperature << " want " << T);
        PBT_CHECK("solid_angle", g.solid_angle > 0 && std::isfinite(g.solid_angle), "star " << i << " solid angle " << g.solid_angle);
    }
}
PROP(tycho2_main, 6000, 60000) { run_file(c, 0); }
PROP(tycho2_suppl, 6000, 60000) { run_file(c, 1); }
PROP(arbitrary_text, 6000, 100000)
{
    // any text is read without touching memory that is not the reader's, and never yields more stars than data lines
    std::string text;
    int n = c.range(0, 8), lines = 0;
    int kind = int(c.below(2));
    for (int i = 0; i < n; ++i) {
        std::string s = star_line(c, kind).s;
        for (int k = c.range(0, 5); k > 0; --k) {
            size_t p = c.below(s.size() + 1);
            switch (c.below(4)) {
            case 0: s.resize(p); break;
            case 1: if (p < s.size()) s[p] = char(c.below(256)); break;
            case 2: s.insert(p, 1, "0123456789.-+eE|\n\r Xxnainf"[c.below(25)]); break;
            default: if (p < s.size()) s.erase(p, 1 + c.below(20)); break;
            }
        }
        text += s;
        if (c.chance(7, 8)) text += '\n';
    }
    size_t at = 0;
    while (at < text.size()) {
        size_t e = text.find('\n', at);
        if (e == std::string::npos) e = text.size();
        if (e > at && std::isdigit((unsigned char)text[at])) ++lines;
        at = e + 1;
    }
    c.note("text", text);
    c.nontrivial(lines > 0);
    std::string f = pbt::scratch() + "/tyc.dat";
    {
        std::ofstream o(f, std::ios::binary);
        o << text;
    }
    auto got = kind == 0 ? read_tycho2_dat(f) : read_tycho2_suppl(f);
    PBT_CHECK("count", got.size() <= size_t(lines), got.size() << " stars from " << lines << " lines");
    for (auto& s : got) PBT_CHECK("position_present", !std::isnan(s.RA) && !std::isnan(s.DEC) && !std::isnan(s.visual_magnitude), "a star without position or magnitude");
    PBT_CHECK("missing_file", hc::throws([&] { (void)read_tycho2_dat(pbt::scratch() + "/none"); }) && hc::throws([&] { (void)read_tycho2_suppl(pbt::scratch() + "/none"); }), "a missing file was read");
}
PROP(calibration, 3000, 30000)
{
    // the solid angle makes the black body at the star's temperature as bright as its magnitude says; 5 magnitudes are a factor of 100
    StarData a{}, b{};
    double v = c.uniform(-1, 14), col = c.uniform(-0.4, 2.2), dm = c.uniform(-5, 5);
    c.note("v", v);
    c.note("bt-vt", col);
    c.note("dm", dm);
    c.nontrivial(std::abs(dm) > 0.1);
    a.process_magnitude(v + col, v);
    b.process_magnitude(v + col + dm, v + dm);
    PBT_CHECK("same_temperature", std::abs(a.temperature - b.temperature) < 1e-3 * a.temperature, a.temperature << " " << b.temperature);
    double want = std::pow(10, -0.4 * dm);
    PBT_CHECK("pogson", std::abs(b.solid_angle / a.solid_angle / want - 1) < 1e-6, "ratio " << b.solid_angle / a.solid_angle << " want " << want);
    // photon rate through the V band, integrated on a finer grid by this check
    std::vector<double> lam;
    const size_t N = 20001;
    auto eff = johnson_vband_approximation(N, lam);
    double sum = 0, prev = 0;
    const double h = 6.62607015e-34, cc = 299792458.0, k = 1.380649e-23;
    for (size_t i = 0; i < N; ++i) {
        double L = lam[i];
        double B = 2 * h * cc * cc / std::pow(L, 5) / std::expm1(h * cc / (L * k * double(a.temperature)));
        double ph = eff[i] * B / (h * cc / L);
        if (i) sum += 0.5 * (ph + prev) * (lam[i] - lam[i - 1]);
        prev = ph;
    }
    double m = v - 0.09 * col;
    double rate = sum * a.solid_angle, ref = v_band_irradiance(m);
    PBT_CHECK("photometry", std::abs(rate / ref - 1) < 2e-3, "V band rate " << rate << " for magnitude " << m << ", reference " << ref);
    StarData e{};
    e.process_magnitude(nan_(), nan_());
    PBT_CHECK("no_magnitude", std::isnan(e.visual_magnitude) && std::isnan(e.solid_angle) && std::isnan(e.temperature), "magnitude out of nothing");
}
PBT_MAIN
