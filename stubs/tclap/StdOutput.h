// stand-in for TCLAP: the part of its interface that huira's command line program uses
#pragma once
#include <list>
#include <stdexcept>
#include <string>
#include <vector>
namespace TCLAP {
struct ArgException : std::exception {
    std::string text, id;
    ArgException(std::string t, std::string i) : text(std::move(t)), id(std::move(i)) {}
    std::string error() const { return text; }
    std::string argId() const { return id; }
    const char* what() const noexcept override { return text.c_str(); }
};
struct Arg {
    std::string flag, name, description, value_name;
    bool required = false, given = false;
    virtual ~Arg() = default;
    virtual bool takes_value() const { return true; }
    virtual void take(const std::string&) = 0;
    std::string getFlag() const { return flag; }
    std::string getName() const { return name; }
    std::string getDescription() const { return description; }
    bool isRequired() const { return required; }
    std::string shortID() const { return "<" + name + ">"; }
};
struct CmdLineInterface {
    std::string message, program, ver;
    std::list<Arg*> args;
    std::string getMessage() const { return message; }
    std::string getProgramName() const { return program; }
    std::string getVersion() const { return ver; }
    std::list<Arg*>& getArgList() { return args; }
};
struct CmdLineOutput {
    virtual ~CmdLineOutput() = default;
    virtual void usage(CmdLineInterface&) = 0;
    virtual void version(CmdLineInterface&) = 0;
    virtual void failure(CmdLineInterface&, ArgException&) = 0;
};
struct StdOutput : CmdLineOutput {
    void usage(CmdLineInterface&) override {}
    void version(CmdLineInterface&) override {}
    void failure(CmdLineInterface&, ArgException&) override {}
};
} // namespace TCLAP
