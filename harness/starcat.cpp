// T02: binary star catalogue files.
#include "hcommon.hpp"
#include "huira/core/physics.hpp"
#include "huira/stars/io/star_catalog.hpp"
using namespace huira;
using pbt::Ctx;
static float fnan() { return std::numeric_limits<float>::quiet_NaN(); }
static std::vector<StarData> stars(Ctx& c, int maxn)
{
    int n = c.range(0, maxn);
    std::vector<StarData> v;
    for (int i = 0; i < n; ++i) {
        StarData s{};
        s.id = c.below(3) ? c.below(1ull << 34) : c.below(0);
        s.RA = c.uniform(0, 6.28);
        s.DEC = c.uniform(-1.57, 1.57);
        s.pmRA = float(c.sym(1000));
        s.pmDEC = float(c.sym(1000));
        s.solid_angle = c.logreal(1e-20, 1e-10);
        s.temperature = float(c.uniform(2000, 30000));
        switch (c.below(6)) {
        case 0: s.visual_magnitude = fnan(); break;
        case 1: s.visual_magnitude = float(c.range(-1, 6)); break; // ties
        default: s.visual_magnitude = float(c.uniform(-2, 15));
        }
        v.push_back(s);
    }
    return v;
}
static bool same(const StarData& a, const StarData& b)
{
    return a.id == b.id && a.RA == b.RA && a.DEC == b.DEC && a.pmRA == b.pmRA && a.pmDEC == b.pmDEC && a.solid_angle == b.solid_angle && a.temperature == b.temperature && a.visual_magnitude == b.visual_magnitude;
}
static auto key(const StarData& a) { return std::make_tuple(a.visual_magnitude, a.id, a.RA, a.DEC); }
PROP(round_trip, 15000, 200000)
{
    auto in = stars(c, c.chance(1, 10) ? 300 : 20);
    StarCatalog cat(in);
    if (c.boolean()) {
        StarCatalog other;
        for (auto& s : in) other.add_star(s);
        cat = other;
    }
    bool typed = c.boolean();
    if (typed) cat.set_catalog_type(CatalogType::Tycho2);
    std::string f = pbt::scratch() + "/cat.hrsc";
    // an older, longer file in its place leaves nothing behind
    if (c.chance(1, 4)) std::ofstream(f, std::ios::binary) << std::string(9000, 'z');
    cat.write_star_data(f);
    PBT_CHECK("write_is_const", cat.size() == in.size() && std::equal(in.begin(), in.end(), cat.begin(), [](auto& a, auto& b) { return a.id == b.id && a.RA == b.RA; }), "writing changed the catalogue");
    float inf = std::numeric_limits<float>::infinity();
    int lm = int(c.below(4));
    float lim = lm == 0 ? inf : lm == 1 ? float(c.range(-2, 7)) : lm == 2 ? float(c.uniform(-3, 16)) : (in.empty() ? 0.f : in[c.below(in.size())].visual_magnitude);
    if (std::isnan(lim)) lim = -inf;
    c.note("stars", in.size());
    c.note("limit", lim);
    std::vector<StarData> want;
    for (auto& s : in)
        if (!std::isnan(s.visual_magnitude) && s.visual_magnitude <= lim) want.push_back(s);
    c.nontrivial(want.size() > 1 && want.size() < in.size());
    StarCatalog got = lm == 0 && c.boolean() ? StarCatalog::read_star_data(f) : StarCatalog::read_star_data(f, lim);
    PBT_CHECK("count", got.size() == want.size(), got.size() << " stars read, want " << want.size());
    for (size_t i = 1; i < got.size(); ++i) PBT_CHECK("sorted", got[i - 1].visual_magnitude <= got[i].visual_magnitude, "not sorted at " << i);
    std::vector<StarData> g(got.begin(), got.end());
    auto by = [](const StarData& a, const StarData& b) { return key(a) < key(b); };
    std::sort(g.begin(), g.end(), by);
    std::sort(want.begin(), want.end(), by);
    for (size_t i = 0; i < g.size(); ++i) PBT_CHECK("same_star", same(g[i], want[i]), "star " << want[i].id << " (V " << want[i].visual_magnitude << ") changed");
    for (size_t i = 0; i < got.size(); ++i) {
        auto id = got[i].id;
        std::string w = typed ? "TYC " + std::to_string(id >> 20 & 0x3fff) + "-" + std::to_string(id >> 4 & 0xffff) + "-" + std::to_string(id & 15) : std::to_string(id);
        PBT_CHECK("id", got.get_star_id(i) == w, got.get_star_id(i) << " want " << w);
    }
    PBT_CHECK("id_range", hc::throws([&] { (void)got.get_star_id(got.size()); }), "id of a star that is not there");
    // clipping in memory keeps the same set, in the order it was in
    StarCatalog clip(in);
    clip.clip_by_magnitude(lim);
    std::vector<StarData> kept;
    for (auto& s : in)
        if (!std::isnan(s.visual_magnitude) && s.visual_magnitude <= lim) kept.push_back(s);
    PBT_CHECK("clip", kept.size() == clip.size() && std::equal(kept.begin(), kept.end(), clip.begin(), same), "clip_by_magnitude kept " << clip.size() << " of " << kept.size());
    // writing what was read gives the same bytes
    std::string f2 = pbt::scratch() + "/cat2.hrsc";
    StarCatalog all = StarCatalog::read_star_data(f);
    all.write_star_data(f2);
    StarCatalog again = StarCatalog::read_star_data(f2);
    std::vector<StarData> g1(all.begin(), all.end()), g2(again.begin(), again.end()); // equal magnitudes may swap
    std::sort(g1.begin(), g1.end(), by);
    std::sort(g2.begin(), g2.end(), by);
    PBT_CHECK("rewrite", g1.size() == g2.size() && std::equal(g1.begin(), g1.end(), g2.begin(), same), "not stable under rewriting");
}
PROP(ids, 20000, 300000)
{
    unsigned a = unsigned(c.below(16384)), b = unsigned(c.below(65536)), d = unsigned(c.below(16));
    uint16_t x, y;
    uint8_t z;
    unpack_tycho2_id(pack_tycho2_id(uint16_t(a), uint16_t(b), uint8_t(d)), x, y, z);
    c.note("id", std::to_string(a) + "-" + std::to_string(b) + "-" + std::to_string(d));
    c.nontrivial(a && b && d);
    PBT_CHECK("pack", x == a && y == b && z == d, x << "-" << y << "-" << int(z) << " from " << a << "-" << b << "-" << d);
    std::string s = format_tycho2_id(pack_tycho2_id(uint16_t(a), uint16_t(b), uint8_t(d)));
    PBT_CHECK("format", s == "TYC " + std::to_string(a) + "-" + std::to_string(b) + "-" + std::to_string(d), s);
}
PROP(damaged, 15000, 200000)
{
    // a file that lost its end, its magic or its version is an error, never a shorter or invented catalogue
    auto in = stars(c, 12);
    for (auto& s : in)
        if (std::isnan(s.visual_magnitude)) s.visual_magnitude = 5;
    StarData s0{};
    s0.visual_magnitude = 1;
    s0.RA = s0.DEC = 0;
    in.push_back(s0);
    StarCatalog cat(in);
    std::string f = pbt::scratch() + "/bad.hrsc";
    cat.write_star_data(f);
    std::string b = pbt::read_file(f);
    int kind = int(c.below(4));
    c.note("kind", kind);
    c.note("stars", in.size());
    c.nontrivial();
    if (kind == 0) { // truncated
        size_t cut = c.below(b.size());
        c.note("kept bytes", cut);
        b.resize(cut);
    } else if (kind == 1) { // magic
        b[c.below(4)] ^= char(1 + c.below(255));
    } else if (kind == 2) { // version
        b[4] = char(b[4] ^ char(1 + c.below(255)));
    } else { // more stars announced than there are
        HrscHeader h;
        std::memcpy(&h, b.data(), sizeof h);
        h.star_count += c.boolean() ? 1 + c.below(100) : 1 + c.below(0) % (1ull << 40);
        c.note("announced", h.star_count);
        std::memcpy(b.data(), &h, sizeof h);
    }
    {
        std::ofstream o(f, std::ios::binary);
        o << b;
    }
    bool ok = false;
    size_t n = 0;
    try {
        n = StarCatalog::read_star_data(f).size();
        ok = true;
    } catch (const std::exception&) {
    }
    PBT_CHECK("accepted", !ok, "a damaged catalogue was read as " << n << " stars (it had " << in.size() << ")");
    PBT_CHECK("missing_file", hc::throws([&] { (void)StarCatalog::read_star_data(pbt::scratch() + "/none"); }), "a missing file was read");
}
PROP(disk_full, 3000, 30000)
{
    // a catalogue that could not be written completely is reported
    auto in = stars(c, c.chance(1, 3) ? 400 : 30);
    for (auto& s : in)
        if (std::isnan(s.visual_magnitude)) s.visual_magnitude = 5;
    StarCatalog cat(in);
    std::string f = pbt::scratch() + "/full.hrsc";
    size_t full = sizeof(HrscHeader) + in.size() * sizeof(StarData);
    size_t limit = c.below(2 * full + 1);
    c.note("stars", in.size());
    c.note("file size limit", limit);
    c.nontrivial(limit < full);
    fs::remove(f);
    signal(SIGXFSZ, SIG_IGN);
    rlimit old, rl;
    getrlimit(RLIMIT_FSIZE, &old);
    rl = old;
    rl.rlim_cur = limit;
    setrlimit(RLIMIT_FSIZE, &rl);
    bool threw = hc::throws([&] { cat.write_star_data(f); });
    setrlimit(RLIMIT_FSIZE, &old);
    PBT_CHECK("unreported", threw == (limit < full), "limit " << limit << " of " << full << " bytes: " << (threw ? "reported" : "not reported") << ", file has " << (fs::exists(f) ? fs::file_size(f) : 0));
    if (!threw) PBT_CHECK("complete", StarCatalog::read_star_data(f).size() == in.size(), "incomplete");
}
PBT_MAIN
