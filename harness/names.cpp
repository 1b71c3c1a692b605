// N01: the name registry: unique names, lookup, renaming, removal, against a model of the history.
#include "hcommon.hpp"
#include <map>
#include <set>
#include "huira/core/spectral_bins.hpp"
#include "huira/scene/scene_object.hpp"
#include "huira/scene/name_registry.hpp"
using namespace huira;
using pbt::Ctx;
struct Obj : SceneObject<Obj> {
    std::string t;
    explicit Obj(std::string x) : t(std::move(x)) {}
    std::string type() const override { return t; }
};
using P = std::shared_ptr<Obj>;
struct Model {
    std::vector<P> order;
    std::map<Obj*, std::string> name;
    std::map<std::string, Obj*> by;
};
// what a request for a name may give: the name itself when it is free, name_<number> that is free otherwise
static void check_given(const Model& m, const std::string& asked, const std::string& got, const char* op)
{
    if (!m.by.count(asked)) {
        PBT_CHECK("keeps_free_name", got == asked, op << ": asked for the free name \"" << asked << "\", got \"" << got << "\"");
        return;
    }
    PBT_CHECK("unique", !m.by.count(got), op << ": asked for \"" << asked << "\", got \"" << got << "\", which another object has");
    bool ok = got.size() > asked.size() + 1 && got.compare(0, asked.size(), asked) == 0 && got[asked.size()] == '_' &&
              got.find_first_not_of("0123456789", asked.size() + 1) == std::string::npos;
    PBT_CHECK("numbered", ok, op << ": asked for the taken name \"" << asked << "\", got \"" << got << "\"");
}
static void check_all(NameRegistry<Obj>& r, const Model& m, const std::vector<std::string>& gone)
{
    PBT_CHECK("size", r.size() == m.order.size(), "size " << r.size() << " want " << m.order.size());
    std::size_t i = 0;
    std::set<std::string> seen;
    for (const auto& o : r) {
        PBT_CHECK("members", i < m.order.size() && o == m.order[i], "object " << i << " of the registry is not the one added");
        PBT_CHECK("name_kept", o->name() == m.name.at(o.get()), "name \"" << o->name() << "\" want \"" << m.name.at(o.get()) << "\"");
        PBT_CHECK("names_unique", seen.insert(o->name()).second, "two objects are called \"" << o->name() << "\"");
        ++i;
    }
    PBT_CHECK("members", i == m.order.size(), "iteration gives " << i << " objects, want " << m.order.size());
    for (auto& [n, o] : m.by) {
        P got;
        PBT_CHECK("lookup", !hc::throws([&] { got = r.lookup(n); }) && got.get() == o, "lookup(\"" << n << "\") gives " << (got ? "another object: \"" + got->name() + "\"" : std::string("nothing")));
    }
    for (auto& n : gone)
        if (!m.by.count(n)) PBT_CHECK("forgets", hc::throws([&] { r.lookup(n); }), "lookup(\"" << n << "\") finds an object nobody is called by");
}
static std::string pick_name(Ctx& c, const Model& m)
{
    if (!m.by.empty() && c.chance(1, 3)) {
        auto it = m.by.begin();
        std::advance(it, c.below(m.by.size()));
        std::string n = it->first;
        if (c.chance(1, 3)) n += "_1";
        if (n.size() > 60) n = "long";
        return n;
    }
    static const char* base[] = {"a", "b", "a_1", "a_2", "a_1_1", "Sun", "Material.1", " ", "a_", "_1", "\xc3\xa9toile", "A"};
    return base[c.below(12)];
}
PROP(history, 4000, 60000)
{
    NameRegistry<Obj> r;
    Model m;
    std::vector<P> removed;
    std::vector<std::string> gone = {"never"};
    int n = int(c.range(1, 40)), taken = 0;
    for (int i = 0; i < n; ++i) {
        switch (m.order.empty() ? 0 : c.below(7)) {
        case 0:
        case 1:
        case 2: {
            bool back = !removed.empty() && c.chance(1, 4);
            P o = back ? removed.back() : std::make_shared<Obj>(c.boolean() ? "Material" : "Light");
            if (back) removed.pop_back();
            std::string ask = c.chance(1, 4) ? "" : pick_name(c, m);
            c.note("add", ask);
            taken += m.by.count(ask) > 0;
            r.add(o, ask);
            std::string got = o->name();
            PBT_CHECK("owned", o->is_scene_owned(), "an added object is not owned by the scene");
            PBT_CHECK("rejects_twice", hc::throws([&] { r.add(o, c.boolean() ? "again" : ""); }), "an object can be added twice");
            if (ask.empty()) {
                PBT_CHECK("default_name", !got.empty() && !m.by.count(got) && got.compare(0, o->t.size(), o->t) == 0, "unnamed " << o->t << " is called \"" << got << "\"");
            } else {
                check_given(m, ask, got, "add");
            }
            m.order.push_back(o), m.name[o.get()] = got, m.by[got] = o.get();
            break;
        }
        case 3: {
            P o = m.order[c.below(m.order.size())];
            std::string nm = m.name[o.get()];
            c.note("remove", nm);
            r.remove(o);
            m.order.erase(std::find(m.order.begin(), m.order.end(), o));
            m.by.erase(nm), m.name.erase(o.get()), gone.push_back(nm), removed.push_back(o);
            PBT_CHECK("disowned", !o->is_scene_owned(), "a removed object is still owned by the scene");
            break;
        }
        case 4: {
            P o = std::make_shared<Obj>("Light");
            c.note("remove", "(not in the registry)");
            if (!removed.empty() && c.boolean()) o = removed[c.below(removed.size())];
            PBT_CHECK("rejects_unknown", hc::throws([&] { r.remove(o); }), "removing an object that is not in the registry is accepted");
            NameRegistry<Obj> other;
            std::string theirs = "", want = pick_name(c, m);
            if (c.boolean()) other.add(o, pick_name(c, m));
            theirs = o->name();
            PBT_CHECK("rejects_unknown", hc::throws([&] { r.set_name(o, want); }) && o->name() == theirs, "renaming an object that is not in the registry is accepted");
            break;
        }
        default: {
            P o = m.order[c.below(m.order.size())];
            std::string old = m.name[o.get()], ask = c.chance(1, 4) ? old : pick_name(c, m);
            if (c.chance(1, 6)) ask = "";
            c.note("rename", old + " -> " + ask);
            r.set_name(o, ask);
            std::string got = o->name();
            if (ask.empty()) {
                Model without = m;
                without.by.erase(old);
                PBT_CHECK("default_name", !got.empty() && !without.by.count(got) && got.compare(0, o->t.size(), o->t) == 0, o->t << " renamed to nothing is called \"" << got << "\"");
            } else
            if (ask == old) {
                c.label("renamed to its own name");
                PBT_CHECK("own_name", got == old, "an object called \"" << old << "\" that is given its own name becomes \"" << got << "\"");
            } else {
                taken += m.by.count(ask) > 0;
                Model without = m;
                bool was = m.by.count(ask);
                without.by.erase(old);
                if (was)
                    check_given(without, ask, got, "set_name");
                else
                    check_given(m, ask, got, "set_name");
            }
            m.by.erase(old), gone.push_back(old);
            m.name[o.get()] = got, m.by[got] = o.get();
        }
        }
        check_all(r, m, gone);
    }
    c.nontrivial(taken > 0 && gone.size() > 1);
}
PROP(ids, 500, 5000)
{
    std::vector<P> os;
    std::set<std::uint64_t> ids;
    int n = int(c.range(2, 60));
    c.nontrivial(n > 2);
    for (int i = 0; i < n; ++i) {
        auto o = std::make_shared<Obj>(c.boolean() ? "Material" : "Light");
        if (c.boolean()) os.push_back(o);
        PBT_CHECK("distinct", ids.insert(o->id()).second, "two objects have the id " << o->id());
        PBT_CHECK("info", o->get_info() == o->type() + "[" + std::to_string(o->id()) + "]", "info of an unnamed object: " << o->get_info());
    }
}
PBT_MAIN
