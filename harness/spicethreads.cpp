// A02 (several threads): SPICE queries made at the same time give what they give alone.
#include "hcommon.hpp"
#include "huira/units/units.hpp"
#include "huira/core/time.hpp"
#include "spiceworld.hpp"
#include <fstream>
#include <thread>
using namespace huira;
using pbt::Ctx;
using hc::V3d;
PROP(concurrent_queries, 200, 3000)
{
    double t0 = c.sym(1e8);
    auto& w = minispice::world();
    w = {};
    sw::add_body(c, "A", t0, 1e6, 10);
    sw::add_body(c, "B", t0, 1e6, 10);
    sw::add_frame(c, "FA", t0, 1e-3);
    fs::path kern = fs::path(pbt::scratch()) / "thr";
    fs::create_directories(kern);
    std::ofstream(kern / "k.bsp") << "x";
    fs::path cwd = fs::current_path();
    int T = int(c.range(2, 6)), N = int(c.range(1, 20));
    bool files = c.chance(1, 2);
    std::vector<std::vector<int>> op(static_cast<std::size_t>(T));
    int bad = 0;
    for (auto& v : op)
        for (int i = 0; i < N; ++i) {
            v.push_back(int(c.below(files ? 8 : 7)));
            bad += v.back() == 4 || v.back() == 5;
        }
    c.note("threads", T), c.note("calls", N), c.note("kernel files", files);
    auto run = [&](int k, double t) -> std::string {
        std::ostringstream o;
        o.precision(17);
        Time tm = Time::from_et(t);
        try {
            switch (k) {
            case 0: {
                auto [p, v, l] = spice::spkezr<double>("A", tm, "FA", "CN", "B");
                o << p.x << v.y << l;
                break;
            }
            case 1: {
                auto [r, av] = spice::sxform<double>("J2000", "FA", tm);
                o << (r * V3d(1, 2, 3)).x << av.x;
                break;
            }
            case 2: o << (spice::pxform<double>("FA", "J2000", tm) * V3d(1, 2, 3)).y; break;
            case 3: o << tm.to_julian_date(TimeScale::UTC) << tm.to_iso_8601(); break;
            case 4: spice::pxform<double>("NONE", "J2000", tm); break;
            case 5: spice::spkezr<double>("A", tm, "FA", "BAD", "B"); break;
            case 6: o << spice::conics<double>({1e4, 0.1, 0.2, 0, 0, 0, 0, 4e5}, tm).first.x; break;
            default: spice::furnsh_relative_to_file(kern / "k.bsp"); break;
            }
        } catch (const std::exception& e) {
            o << "E:" << e.what();
        }
        return o.str();
    };
    std::vector<std::vector<std::string>> want(op.size()), got(op.size());
    auto at = [&](int t, int i) { return t0 + t * 100 + i; };
    for (int t = 0; t < T; ++t)
        for (int i = 0; i < N; ++i) want[std::size_t(t)].push_back(run(op[std::size_t(t)][std::size_t(i)], at(t, i)));
    std::atomic<bool> go{false};
    {
        struct Threads : std::vector<std::thread> {
            ~Threads() { for (auto& t : *this) if (t.joinable()) t.join(); }
        } th;
        for (int t = 0; t < T; ++t)
            th.emplace_back([&, t] {
                while (!go) {}
                for (int i = 0; i < N; ++i) got[std::size_t(t)].push_back(run(op[std::size_t(t)][std::size_t(i)], at(t, i)));
            });
        go = true;
    }
    bool home = fs::current_path() == cwd;
    fs::current_path(cwd);
    for (int t = 0; t < T; ++t)
        for (int i = 0; i < N; ++i)
            PBT_CHECK("same_as_alone", got[std::size_t(t)][std::size_t(i)] == want[std::size_t(t)][std::size_t(i)], "call " << i << " of thread " << t << " (kind " << op[std::size_t(t)][std::size_t(i)] << ") gives " << got[std::size_t(t)][std::size_t(i)] << ", alone " << want[std::size_t(t)][std::size_t(i)]);
    PBT_CHECK("cwd", home, "the working directory moved");
    c.nontrivial(bad > 0 && N > 2);
}
PBT_MAIN
