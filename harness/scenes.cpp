// N04: a scene while its assets come and go: handles, names, instances and what a view of it shows, against a model of the history.
#include "rig.hpp"
#include <fstream>
#include <functional>
#include <map>
#include <set>
#include <sstream>
using namespace rig;
using FH = FrameHandle<S>;
using IH = InstanceHandle<S>;
enum Kind { Geo, Prim, Lite, Unres, CamM, Mod, KINDS };
static const char* KN[] = {"geometry", "primitive", "light", "unresolved object", "camera model", "model"};
// an object that only counts the views it is in
struct Dot : UnresolvedObject<S> {
    int seen = 0;
    Dot() : UnresolvedObject<S>(units::WattsPerMeterSquared(1.0)) {}
    void resolve_irradiance(const Transform<float>&, const std::vector<LightInstance<S>>&) override { ++seen; }
};
struct Asset {
    Kind k = Geo;
    bool alive = true;
    std::uint64_t id = 0;
    std::string name;
    int of = -1;           // a primitive's geometry
    int at = -1;           // the part of a model that a geometry is
    std::vector<int> prims; // a model's primitives
    Dot* dot = nullptr;
    std::function<bool()> valid;
    std::function<void()> del, use;
    std::function<void(const std::string&)> rename;
    std::function<std::string()> get_name;
    std::function<std::uint64_t(const std::string&)> find;
    std::function<IH(FH&)> put;
    std::function<void()> print;
};
struct Frame {
    FH h;
    int parent;
    bool alive;
    V3d at;
};
struct Inst {
    IH h;
    int frame, asset;
    bool alive;
};
template <class H> static Asset make(Scene<S>& sc, const H& h, Kind k)
{
    Asset a;
    a.k = k;
    a.id = h.id(), a.name = h.name();
    a.valid = [h] { return h.valid(); };
    a.use = [h] { h.get(); };
    a.get_name = [h] { return h.name(); };
    a.rename = [&sc, h](const std::string& n) { sc.set_name(h, n); };
    a.put = [](FH&) -> IH { throw std::logic_error("this cannot be instanced"); };
    return a;
}
// where the parts of a model stand, relative to it
static V3d part(int j) { return {0, 3.0 * j + 3, 0}; }
static std::string write_obj(const std::string& dir, const std::string& stem, const std::vector<std::string>& names)
{
    std::string p = dir + "/" + stem + ".obj";
    std::ofstream f(p);
    for (std::size_t j = 0; j < names.size(); ++j) {
        V3d o = part(int(j));
        f << "o " << names[j] << "\n";
        f << "v -1 " << o.y - 1 << " 0\nv 1 " << o.y - 1 << " 0\nv 0 " << o.y + 1 << " 0\n";
        f << "f " << 3 * j + 1 << " " << 3 * j + 2 << " " << 3 * j + 3 << "\n";
    }
    return p;
}
struct Quiet {
    std::ostringstream os;
    std::streambuf* old;
    Quiet() : old(std::cout.rdbuf(os.rdbuf())) {}
    ~Quiet() { std::cout.rdbuf(old); }
};
struct World {
    Ctx& c;
    std::unique_ptr<Scene<S>> sc = std::make_unique<Scene<S>>();
    std::vector<Asset> as;
    std::vector<Frame> fr;
    std::vector<Inst> in;
    std::map<int, std::set<std::string>> former;
    std::vector<std::shared_ptr<Dot>> keep;
    std::string dir;
    int files = 0, cams = 0, deleted = 0, pruned = 0;
    explicit World(Ctx& cc) : c(cc), dir(pbt::scratch())
    {
        fr.push_back({sc->root.new_subframe(), -1, true, V3d(0, 0, 0)});
    }
    std::string ask(Kind k)
    {
        static const char* base[] = {"a", "b", "Sun", "a_1", "m0_0"};
        if (c.chance(1, 3)) return "";
        if (!as.empty() && c.chance(1, 3))
            for (int t = 0; t < 4; ++t)
                if (auto& a = as[c.below(as.size())]; a.k == k) return a.name;
        return base[c.below(5)];
    }
    bool taken(Kind k, const std::string& n, int except = -1)
    {
        for (std::size_t i = 0; i < as.size(); ++i)
            if (as[i].alive && as[i].k == k && as[i].name == n && int(i) != except) return true;
        return false;
    }
    void added(Asset a, const std::string& asked)
    {
        PBT_CHECK("free_name", asked.empty() || taken(a.k, asked) || a.name == asked, "a " << KN[a.k] << " added as \"" << asked << "\", which is free, is called \"" << a.name << "\"");
        as.push_back(std::move(a));
    }
    int pick(Kind k)
    {
        std::vector<int> o;
        for (std::size_t i = 0; i < as.size(); ++i)
            if (as[i].alive && as[i].k == k) o.push_back(int(i));
        return o.empty() ? -1 : o[c.below(o.size())];
    }
    // ---- adding
    void add_geometry()
    {
        std::string n = ask(Geo);
        std::optional<GeometryHandle<S>> h;
        if (c.boolean()) {
            VertexBuffer<S> vb;
            for (int i = 0; i < 3; ++i) {
                Vertex<S> v;
                v.position = {i == 0 ? -1.f : i == 1 ? 1.f : 0.f, i == 2 ? 1.f : -1.f, 0.f}, v.normal = {0, 0, -1};
                vb.push_back(v);
            }
            h = GeometryHandle<S>(sc->add_mesh(IndexBuffer{0, 1, 2}, vb, n).get());
        } else {
            h = GeometryHandle<S>(sc->add_ellipsoid(units::Meter(1), units::Meter(0.7), units::Meter(0.5), n).get());
        }
        Scene<S>& s = *sc;
        Asset a = make(s, *h, Geo);
        a.del = [&s, g = *h] { s.delete_geometry(g); };
        a.find = [&s](const std::string& m) { return s.get_geometry(m).id(); };
        a.print = [&s] { s.print_meshes(); };
        added(a, n);
    }
    void prim(const PrimitiveHandle<S>& h, int geom, const std::string& n)
    {
        Scene<S>& s = *sc;
        Asset a = make(s, h, Prim);
        a.of = geom;
        a.del = [&s, h] { s.delete_primitive(h); };
        a.find = [&s](const std::string& m) { return s.get_primitive(m).id(); };
        a.put = [h](FH& f) { return f.new_instance(h); };
        a.print = [&s] { s.print_graph(); };
        added(a, n);
    }
    void add_primitive()
    {
        int g = pick(Geo);
        if (g < 0) return add_geometry();
        std::string n = ask(Prim);
        auto gh = sc->get_geometry(as[std::size_t(g)].name);
        switch (c.below(3)) {
        case 0: return prim(sc->add_primitive(gh, n), g, n);
        case 1: return prim(sc->add_primitive(gh, sc->new_material(sc->new_bsdf_lambertian()), n), g, n);
        default: return prim(sc->add_primitive(gh, sc->new_material(sc->new_bsdf_null()), sc->new_medium(sc->new_constant_density_field(S{0.1f}, S{0.1f}), sc->new_isotropic_phase_function()), n), g, n);
        }
    }
    void add_light()
    {
        std::string n = ask(Lite);
        Scene<S>& s = *sc;
        bool sun = c.chance(1, 5);
        auto h = sun ? s.new_sun_light() : s.new_sphere_light(units::Meter(1), units::Watt(10), n);
        Asset a = make(s, h, Lite);
        a.dot = nullptr;
        a.of = sun; // the Sun is too large to stand anywhere
        a.del = [&s, h] { s.delete_light(h); };
        a.find = [&s](const std::string& m) { return s.get_light(m).id(); };
        a.put = [h](FH& f) { return f.new_instance(h); };
        a.print = [&s] { s.print_lights(); };
        added(a, sun ? "Sun" : n);
    }
    void add_unresolved()
    {
        std::string n = ask(Unres);
        Scene<S>& s = *sc;
        auto d = std::make_shared<Dot>();
        auto h = s.add_unresolved_object(d, n);
        Asset a = make(s, h, Unres);
        a.dot = d.get();
        keep.push_back(d);
        a.del = [&s, h] { s.delete_unresolved_object(h); };
        a.find = [&s](const std::string& m) { return s.get_unresolved_object(m).id(); };
        a.put = [h](FH& f) { return f.new_instance(h); };
        a.print = [&s] { s.print_unresolved_objects(); };
        added(a, n);
    }
    void add_camera()
    {
        if (cams >= 2) return;
        ++cams;
        std::string n = ask(CamM);
        Scene<S>& s = *sc;
        auto h = s.new_camera_model(n);
        Asset a = make(s, h, CamM);
        a.del = [&s, h] { s.delete_camera_model(h); };
        a.find = [&s](const std::string& m) { return s.get_camera_model(m).id(); };
        a.put = [h](FH& f) { return f.new_instance(h); };
        a.print = [&s] { s.print_camera_models(); };
        added(a, n);
    }
    void add_model()
    {
        if (files >= 4) return;
        int k = int(c.range(1, 3));
        std::vector<std::string> names;
        std::string stem = "m" + std::to_string(files++);
        for (int j = 0; j < k; ++j) names.push_back(stem + "_part" + std::to_string(j));
        std::string path = write_obj(dir, stem, names), n = ask(Mod);
        Scene<S>& s = *sc;
        auto h = s.load_model(path, n);
        Asset a = make(s, h, Mod);
        for (auto& m : names) {
            auto p = s.get_primitive(m);
            auto g = s.get_geometry(m);
            Asset ga = make(s, g, Geo);
            ga.at = int(&m - names.data());
            ga.del = [&s, g] { s.delete_geometry(g); };
            ga.find = [&s](const std::string& q) { return s.get_geometry(q).id(); };
            ga.print = [&s] { s.print_meshes(); };
            added(ga, m);
            prim(p, int(as.size()) - 1, m);
            a.prims.push_back(int(as.size()) - 1);
        }
        a.del = [&s, h] { s.delete_model(h); };
        a.find = [&s](const std::string& m) { return s.get_model(m).id(); };
        a.put = [h](FH& f) { return f.new_instance(h); };
        a.print = [h] { h.print_graph(); };
        added(a, n.empty() ? stem : n);
    }
    void add(Kind k)
    {
        c.note("add", KN[k]);
        k == Geo ? add_geometry() : k == Prim ? add_primitive() : k == Lite ? add_light() : k == Unres ? add_unresolved() : k == CamM ? add_camera() : add_model();
    }
    // ---- the graph
    V3d slot(std::size_t i) const { return {40.0 * double(i), 0, 100}; }
    void instance()
    {
        std::vector<int> o;
        for (std::size_t i = 0; i < as.size(); ++i)
            if (as[i].alive && as[i].k != Geo && !(as[i].k == Lite && as[i].of)) o.push_back(int(i));
        if (o.empty()) return;
        int a = o[c.below(o.size())];
        std::size_t f = c.below(fr.size());
        c.note("instance", std::string(KN[as[std::size_t(a)].k]) + " \"" + as[std::size_t(a)].name + "\" in " + std::to_string(f));
        std::optional<IH> h;
        bool threw = hc::throws([&] { h = as[std::size_t(a)].put(fr[f].h); });
        PBT_CHECK("instance", threw == !fr[f].alive, "new_instance in a " << (fr[f].alive ? "live frame fails" : "deleted frame works"));
        if (threw) return;
        V3d p = slot(in.size()) - fr[f].at;
        h->set_position(units::Meter(p.x), units::Meter(p.y), units::Meter(p.z));
        in.push_back({*h, int(f), a, true});
    }
    void subframe()
    {
        std::size_t f = c.below(fr.size());
        if (!fr[f].alive) return;
        V3d d(double(c.range(-5, 5)), double(c.range(-5, 5)), double(c.range(-5, 5)));
        FH h = fr[f].h.new_subframe();
        h.set_position(units::Meter(d.x), units::Meter(d.y), units::Meter(d.z));
        fr.push_back({h, int(f), true, fr[f].at + d});
    }
    void kill_frame(int i)
    {
        fr[std::size_t(i)].alive = false;
        for (auto& x : in)
            if (x.frame == i) x.alive = false;
        for (std::size_t k = 0; k < fr.size(); ++k)
            if (fr[k].parent == i && fr[k].alive) kill_frame(int(k));
    }
    void kill(int i)
    {
        Asset& a = as[std::size_t(i)];
        a.alive = false;
        former[a.k].insert(a.name);
        ++deleted;
        for (auto& x : in)
            if (x.asset == i && x.alive) x.alive = false, ++pruned;
        if (a.k == Geo)
            for (std::size_t k = 0; k < as.size(); ++k)
                if (as[k].k == Prim && as[k].alive && as[k].of == i) kill(int(k));
    }
    void remove()
    {
        if (c.chance(1, 5) && fr.size() > 1) {
            int i = int(1 + c.below(fr.size() - 1)), p = fr[std::size_t(i)].parent;
            if (!fr[std::size_t(i)].alive || c.chance(1, 2)) return;
            c.note("delete frame", i);
            fr[std::size_t(p)].h.delete_subframe(fr[std::size_t(i)].h);
            return kill_frame(i);
        }
        if (c.chance(1, 5) && !in.empty()) {
            Inst& x = in[c.below(in.size())];
            if (!fr[std::size_t(x.frame)].alive) return;
            c.note("delete instance", int(&x - in.data()));
            bool threw = hc::throws([&] { fr[std::size_t(x.frame)].h.delete_instance(x.h); });
            PBT_CHECK("delete_instance", threw == !x.alive, "delete_instance of a " << (x.alive ? "live instance fails" : "deleted instance works"));
            x.alive = false;
            return;
        }
        if (as.empty()) return;
        int i = int(c.below(as.size()));
        Asset& a = as[std::size_t(i)];
        if (a.k == Geo && c.chance(1, 2)) return;
        c.note("delete", std::string(KN[a.k]) + " \"" + a.name + "\"");
        bool was = a.alive, threw = hc::throws([&] { as[std::size_t(i)].del(); });
        PBT_CHECK("delete", threw == !was, "deleting a " << (was ? "present " : "deleted ") << KN[a.k] << (was ? " fails" : " works"));
        if (was) kill(i);
    }
    void rename()
    {
        if (as.empty()) return;
        int i = int(c.below(as.size()));
        std::string n = ask(as[std::size_t(i)].k);
        Asset& a = as[std::size_t(i)];
        c.note("rename", std::string(KN[a.k]) + " \"" + a.name + "\" to \"" + n + "\"");
        bool threw = hc::throws([&] { a.rename(n); });
        PBT_CHECK("rename", threw == !a.alive, "renaming a " << (a.alive ? "present " : "deleted ") << KN[a.k] << (threw ? " fails" : " works"));
        if (threw) return;
        std::string got = a.get_name();
        PBT_CHECK("free_name", n.empty() || taken(a.k, n, i) || got == n, "a " << KN[a.k] << " renamed to \"" << n << "\", which is free, is called \"" << got << "\"");
        if (got != a.name) former[a.k].insert(a.name);
        a.name = got;
    }
    // ---- what must hold
    void check()
    {
        for (std::size_t i = 0; i < as.size(); ++i) {
            Asset& a = as[i];
            PBT_CHECK("valid", a.valid() == a.alive, "the handle of a " << (a.alive ? "present " : "deleted ") << KN[a.k] << " \"" << a.name << "\" is " << (a.alive ? "invalid" : "valid"));
            PBT_CHECK("stale", hc::throws([&] { a.use(); }) == !a.alive, "the handle of a " << (a.alive ? "present " : "deleted ") << KN[a.k] << " \"" << a.name << (a.alive ? "\" fails" : "\" can be used"));
            if (!a.alive) continue;
            PBT_CHECK("name", a.get_name() == a.name && !a.name.empty(), "a " << KN[a.k] << " called \"" << a.name << "\" is now \"" << a.get_name() << "\"");
            PBT_CHECK("unique", !taken(a.k, a.name, int(i)), "two " << KN[a.k] << "s are called \"" << a.name << "\"");
            std::uint64_t id = ~0ull;
            bool threw = hc::throws([&] { id = a.find(a.name); });
            PBT_CHECK("find", !threw && id == a.id, "looking up the " << KN[a.k] << " \"" << a.name << "\" gives " << (threw ? "nothing" : "another"));
            for (auto& n : former[a.k])
                if (!taken(a.k, n)) PBT_CHECK("forgotten", hc::throws([&] { a.find(n); }), "looking up \"" << n << "\", which no " << KN[a.k] << " is called now, gives one");
        }
        for (std::size_t f = 0; f < fr.size(); ++f) {
            PBT_CHECK("frame", fr[f].h.valid() == fr[f].alive, "frame " << f << " is " << (fr[f].alive ? "gone" : "still there"));
            if (!fr[f].alive) continue;
            std::vector<std::uint64_t> want, got;
            for (auto& x : in)
                if (x.alive && x.frame == int(f)) want.push_back(x.h.id());
            for (auto& x : fr)
                if (x.alive && x.parent == int(f)) want.push_back(x.h.id());
            for (auto& n : fr[f].h.get()->get_children()) got.push_back(n->id());
            std::sort(want.begin(), want.end());
            PBT_CHECK("order", std::is_sorted(got.begin(), got.end()), "the children of frame " << f << " are not in the order they were added");
            PBT_CHECK("children", got == want, "frame " << f << " has " << got.size() << " children, want " << want.size());
        }
        for (std::size_t i = 0; i < in.size(); ++i) PBT_CHECK("instances", in[i].h.valid() == in[i].alive, "instance " << i << " of the " << KN[as[std::size_t(in[i].asset)].k] << " \"" << as[std::size_t(in[i].asset)].name << "\" is " << (in[i].alive ? "gone" : "still there"));
    }
    // what a ray along z finds in each place
    struct Seen {
        std::vector<float> t;
        bool operator==(const Seen& o) const { return t == o.t; }
    };
    Seen look(const SceneView<S>& v)
    {
        Seen s;
        for (std::size_t i = 0; i < in.size(); ++i)
            for (int j = -1; j < 3; ++j) {
                V3d o = slot(i) + (j < 0 ? V3d(0, 0, 0) : part(j));
                Ray<S> r(Vec3<float>(float(o.x), float(o.y) + 0.05f, 0), Vec3<float>(0, 0, 1));
                auto hit = v.intersect(r);
                s.t.push_back(hit.hit() ? hit.t : -1.f);
                if (hit.hit()) (void)v.resolve_hit(r, hit);
            }
        return s;
    }
    std::unique_ptr<SceneView<S>> view(const IH& cam) { return std::make_unique<SceneView<S>>(*sc, Interval(Time::from_et(0), Time::from_et(0)), cam, ObservationMode::TRUE_STATE); }
    void check_view(const Seen& s)
    {
        std::size_t n = 0;
        for (std::size_t i = 0; i < in.size(); ++i)
            for (int j = -1; j < 3; ++j, ++n) {
                const Asset& a = as[std::size_t(in[i].asset)];
                bool want = in[i].alive;
                if (a.k == Prim) {
                    // a part of a model carries its offset in its vertices
                    want = want && j == as[std::size_t(a.of)].at;
                } else if (a.k == Lite)
                    want = want && j < 0;
                else if (a.k == Mod)
                    want = want && j >= 0 && j < int(a.prims.size()) && as[std::size_t(a.prims[std::size_t(j)])].alive;
                else
                    want = false;
                PBT_CHECK("view", (s.t[n] >= 0) == want, "a view " << (want ? "lacks" : "shows") << " part " << j << " of instance " << i << " of the " << (a.alive ? "" : "deleted ") << KN[a.k] << " \"" << a.name << "\"");
                if (want) PBT_CHECK("place", std::abs(s.t[n] - 99.5f) < 1.0f, "instance " << i << " is met at " << s.t[n] << ", not near 100");
            }
    }
};
PROP(history, 900, 12000)
{
    World w(c);
    int n = int(c.range(3, 40));
    IH eye = w.sc->root.new_instance(cam().h);
    for (int i = 0; i < n; ++i) {
        switch (w.as.empty() ? 0 : c.below(10)) {
        case 0:
        case 1: {
            static const Kind ks[] = {Geo, Prim, Prim, Lite, Unres, Mod, Mod};
            w.add(c.chance(1, 150) ? CamM : ks[c.below(7)]);
            break;
        }
        case 2:
        case 3:
        case 4:
        case 5: w.instance(); break;
        case 6: w.subframe(); break;
        case 7: w.rename(); break;
        default: w.remove();
        }
        w.check();
        if (c.chance(1, 8) && !w.as.empty()) {
            Quiet q;
            if (c.boolean())
                w.sc->print_contents();
            else if (auto& a = w.as[c.below(w.as.size())]; a.alive)
                a.print();
        }
    }
    for (auto& d : w.keep) d->seen = 0;
    auto v = w.view(eye);
    World::Seen s = w.look(*v);
    w.check_view(s);
    for (std::size_t i = 0; i < w.as.size(); ++i)
        if (auto& a = w.as[i]; a.dot) {
            int want = 0;
            for (auto& x : w.in) want += x.alive && x.asset == int(i);
            PBT_CHECK("unresolved", a.dot->seen == want, "an unresolved object is " << a.dot->seen << " times in a view, want " << want);
        }
    // a view is of the moment it was made: what happens to the scene later does not touch it
    if (c.boolean()) {
        int m = int(c.range(1, 6));
        for (int i = 0; i < m; ++i) c.chance(2, 3) ? w.remove() : w.instance();
        w.in.resize(s.t.size() / 4, w.in.empty() ? Inst{eye, 0, 0, false} : w.in[0]);
        if (c.chance(1, 3)) {
            c.label("scene destroyed under a view");
            w.sc.reset();
        }
        World::Seen s2 = w.look(*v);
        PBT_CHECK("snapshot", s2 == s, "a view shows something else after its scene was changed");
    }
    c.nontrivial(w.deleted > 0 && w.pruned > 0);
}
PBT_MAIN
