// stand-in for TCLAP (see StdOutput.h); bad arguments throw from parse, as TCLAP does when it is told not to exit
#pragma once
#include "tclap/StdOutput.h"
namespace TCLAP {
struct CmdLine : CmdLineInterface {
    CmdLineOutput* out = nullptr;
    CmdLine(const std::string& m, char = ' ', const std::string& v = "none") { message = m, ver = v; }
    void setOutput(CmdLineOutput* o) { out = o; }
    void parse(int argc, const char* const* argv)
    {
        program = argv[0];
        std::vector<Arg*> free;
        for (Arg* a : args)
            if (a->flag.empty()) free.push_back(a);
        for (int i = 1; i < argc; ++i) {
            std::string s = argv[i];
            Arg* hit = nullptr;
            if (s.size() > 1 && s[0] == '-') {
                for (Arg* a : args)
                    if (!a->flag.empty() && (s == "-" + a->flag || s == "--" + a->name)) hit = a;
                if (!hit) throw ArgException("Couldn't find match for argument", s);
            } else if (!free.empty()) {
                hit = free.front();
                free.erase(free.begin());
                hit->given = true, hit->take(s);
                continue;
            } else
                throw ArgException("Couldn't find match for argument", s);
            if (hit->given) throw ArgException("Argument already set!", hit->name);
            hit->given = true;
            if (!hit->takes_value()) hit->take("");
            else if (++i < argc) hit->take(argv[i]);
            else throw ArgException("Missing a value for this argument!", hit->name);
        }
        for (Arg* a : args)
            if (a->required && !a->given) throw ArgException("Required argument missing", a->name);
    }
};
struct SwitchArg : Arg {
    bool value;
    SwitchArg(const std::string& f, const std::string& n, const std::string& d, CmdLine& c, bool def = false) : value(def) { flag = f, name = n, description = d, c.args.push_back(this); }
    bool takes_value() const override { return false; }
    void take(const std::string&) override { value = !value; }
    bool getValue() const { return value; }
};
template <class T> struct ValueArg : Arg {
    T value;
    ValueArg(const std::string& f, const std::string& n, const std::string& d, bool r, T def, const std::string& t, CmdLine& c) : value(def) { flag = f, name = n, description = d, required = r, value_name = t, c.args.push_back(this); }
    void take(const std::string& s) override { value = s; }
    T getValue() const { return value; }
};
template <class T> struct UnlabeledValueArg : ValueArg<T> {
    UnlabeledValueArg(const std::string& n, const std::string& d, bool r, T def, const std::string& t, CmdLine& c) : ValueArg<T>("", n, d, r, def, t, c) {}
};
} // namespace TCLAP
