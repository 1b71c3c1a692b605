// T03: the command line program, run in-process on real files; libcurl, TCLAP and indicators are stand-ins.
#include <csignal>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include "tycho.hpp"
#include "huira/core/physics.hpp"
#include "huira/stars/io/load_tycho2.hpp"
#include "huira/stars/io/star_catalog.hpp"
#include "huira_cli/cli.hpp"
#include "huira_cli/commands/tycho2.hpp"
#include "indicators/cursor_control.hpp"
#include "curl/curl.h"
using namespace huira;
namespace cli = huira::cli;
namespace fs = std::filesystem;

static const std::vector<std::string>& names()
{
    static const std::vector<std::string> n = [] {
        std::vector<std::string> v;
        for (int i = 0; i < 20; ++i) v.push_back(fmt("tyc2.dat.%02.0f", i));
        v.push_back("suppl_1.dat");
        v.push_back("suppl_2.dat");
        return v;
    }();
    return n;
}
static std::string content(Ctx& c, size_t file, int& keep)
{
    std::string t;
    for (int n = c.chance(1, 40) ? c.range(30, 80) : c.chance(1, 3) ? c.range(1, 3) : 0; n > 0; --n) {
        Line l = star_line(c, file < 20 ? 0 : 1);
        t += l.s + "\n";
        keep += l.keep;
    }
    return t;
}
static void put(const std::string& f, const std::string& t)
{
    std::ofstream o(f, std::ios::binary);
    o << t;
}
static std::string get(const std::string& f)
{
    std::ifstream i(f, std::ios::binary);
    std::stringstream s;
    s << i.rdbuf();
    return s.str();
}
struct Ran {
    int code = 0;
    bool escaped = false;
    std::string out, err;
};
static Ran run(std::vector<std::string> args, size_t limit = 0)
{
    Ran r;
    std::vector<std::vector<char>> keep;
    std::vector<char*> argv;
    for (auto& a : args) keep.emplace_back(a.c_str(), a.c_str() + a.size() + 1);
    for (auto& k : keep) argv.push_back(k.data());
    argv.push_back(nullptr);
    std::stringstream o, e;
    auto *ob = std::cout.rdbuf(o.rdbuf()), *eb = std::cerr.rdbuf(e.rdbuf());
    signal(SIGXFSZ, SIG_IGN);
    rlimit old, rl;
    getrlimit(RLIMIT_FSIZE, &old);
    rl = old;
    if (limit) rl.rlim_cur = limit - 1, setrlimit(RLIMIT_FSIZE, &rl);
    try {
        r.code = cli::Registry::instance().dispatch(int(args.size()), argv.data());
    } catch (...) {
        r.escaped = true;
    }
    if (limit) setrlimit(RLIMIT_FSIZE, &old);
    std::cout.rdbuf(ob), std::cerr.rdbuf(eb);
    r.out = o.str(), r.err = e.str();
    return r;
}
static std::string join(const std::vector<std::string>& a)
{
    std::string s;
    for (auto& x : a) s += (s.empty() ? "" : " ") + x;
    return s;
}
using Key = std::tuple<uint64_t, double, double, float, float, double, float, float>;
static Key key(const StarData& s) { return {s.id, s.RA, s.DEC, s.pmRA, s.pmDEC, s.solid_angle, s.temperature, s.visual_magnitude}; }
// the catalogue holds exactly the stars of the input files
static void check_catalogue(const std::string& out, const std::multiset<Key>& want)
{
    auto cat = StarCatalog::read_star_data(out);
    std::multiset<Key> got;
    for (auto& s : cat.get_star_data()) got.insert(key(s));
    PBT_CHECK("stars", got == want, got.size() << " stars in the catalogue, want " << want.size() << (got.size() == want.size() ? " (some differ)" : ""));
    HrscHeader h{};
    std::ifstream(out, std::ios::binary).read(reinterpret_cast<char*>(&h), sizeof h);
    PBT_CHECK("type", h.catalog_type == CatalogType::Tycho2, "catalogue type " << int(h.catalog_type));
}
static std::multiset<Key> stars_of(const std::string& dir, const std::map<std::string, std::string>& text)
{
    std::multiset<Key> want;
    for (auto& [n, t] : text) {
        std::string f = dir + "/" + n;
        put(f, t);
        for (auto& s : n[0] == 't' ? read_tycho2_dat(f) : read_tycho2_suppl(f)) want.insert(key(s));
    }
    return want;
}
static std::string fresh(const std::string& n)
{
    std::string d = pbt::scratch() + "/" + n;
    fs::remove_all(d);
    fs::create_directories(d);
    return d;
}
static void check_end(const Ran& r, bool words = true)
{
    PBT_CHECK("exception_escaped", !r.escaped, "an exception left the program (it would abort)");
    PBT_CHECK("cursor", indicators::cursor_shown, "the cursor is left hidden (exit code " << r.code << ")");
    indicators::cursor_shown = true;
    if (r.code != 0 && words) PBT_CHECK("message", !r.err.empty() || !r.out.empty(), "failed without a word");
}
PROP(process, 2000, 20000)
{
    // all stars of all files end in the catalogue; any failure is told by the exit code and leaves the inputs alone
    std::string in = fresh("in"), ref = fresh("ref"), out = in;
    fs::remove_all(pbt::scratch() + "/out.v1");
    std::map<std::string, std::string> text;
    int keep = 0;
    for (size_t i = 0; i < 22; ++i) text[names()[i]] = content(c, i, keep);
    auto want = stars_of(ref, text);
    PBT_CHECK("readers", int(want.size()) == keep, "the readers give " << want.size() << " stars, the files have " << keep);
    for (auto& [n, t] : text) put(in + "/" + n, t);
    bool fail = false;
    std::vector<std::string> args{"huira"};
    bool verbose = c.chance(1, 3), direct = c.chance(1, 3), clean = direct && c.boolean();
    if (verbose) args.push_back(c.pick({std::string("-v"), std::string("--verbose")}));
    args.push_back("process-tycho2");
    int fault = int(c.below(10));
    std::string gone;
    if (fault == 0) {
        gone = names()[c.below(22)];
        fs::remove(in + "/" + gone);
        text.erase(gone);
        c.label("missing file");
        fail = true;
    }
    std::string given = in;
    if (fault == 1) given = in + "/none", fail = true, c.label("missing directory");
    int where = int(c.below(4));
    if (where == 1) out = fresh("other");
    if (where == 2) out = fresh("out.v1");
    if (fault == 2) {
        out = pbt::scratch() + "/plain";
        put(out, "x");
        where = 1, fail = true;
        c.label("output is a file");
    }
    size_t full = sizeof(HrscHeader) + want.size() * sizeof(StarData), limit = 0;
    if (fault == 3 || fault == 4) {
        limit = 1 + c.below(full);
        fail = true;
        c.label("disk full");
    }
    std::string old = c.boolean() ? "old catalogue" : "";
    if (!old.empty() && fault != 2) put(out + "/tycho2.hrsc", old);
    if (!direct) {
        std::vector<std::string> rest{given};
        if (where) {
            std::vector<std::string> o{c.pick({std::string("-o"), std::string("--output")}), out};
            if (c.boolean()) rest.insert(rest.begin(), o.begin(), o.end());
            else rest.insert(rest.end(), o.begin(), o.end());
        } else if (fault == 1) out = given;
        args.insert(args.end(), rest.begin(), rest.end());
    }
    c.note("arguments", join(args));
    c.note("stars", want.size());
    c.note("clean", clean);
    c.nontrivial(!want.empty());
    Ran r;
    if (direct) { // the function itself, which the fetch command calls with clean
        static std::function<int(const cli::Context&)> call;
        call = [&](const cli::Context& x) { return cli::tycho2::process_tycho2(given, out, x, clean); };
        static bool once = [] {
            cli::Registry::instance().add({"direct-process", "test", [](const cli::Context& x, int, char**) { return call(x); }});
            return true;
        }();
        (void)once;
        std::vector<std::string> a{"huira"};
        if (verbose) a.push_back("-v");
        a.push_back("direct-process");
        r = run(a, limit);
    } else
        r = run(args, limit);
    check_end(r);
    PBT_CHECK("exit_code", (r.code != 0) == fail, "exit code " << r.code << ", " << (fail ? "should fail: " : "should succeed: ") << r.err);
    if (!fail) check_catalogue(out + "/tycho2.hrsc", want);
    for (auto& n : names()) {
        bool there = text.count(n) && !(clean && !fail);
        PBT_CHECK("inputs_present", fs::exists(in + "/" + n) == there, n << (there ? " was removed" : " is still there"));
        if (there) PBT_CHECK("inputs_unchanged", get(in + "/" + n) == text[n], n << " was changed");
    }
}
PROP(fetch, 2000, 20000)
{
    // every file arrives whole or not at all; what was there is kept unless told otherwise; a failure is told by the exit code
    std::string ref = fresh("ref");
    std::string out = pbt::scratch() + "/" + c.pick({std::string("fetched"), std::string("fetched/deep"), std::string("tycho.v2"), std::string("a.b/c.d")});
    for (auto n : {"/fetched", "/tycho.v2", "/a.b"}) fs::remove_all(pbt::scratch() + n);
    bool exists = c.boolean(), force = c.chance(1, 3), process = c.boolean(), clean = c.chance(1, 3), verbose = c.chance(1, 3);
    if (exists) fs::create_directories(out);
    std::map<std::string, std::string> remote, had;
    int keep = 0;
    for (size_t i = 0; i < 22; ++i) {
        remote[names()[i]] = content(c, i, keep);
        if (exists && c.chance(1, 4)) {
            int k = 0;
            had[names()[i]] = content(c, i, k);
            put(out + "/" + names()[i], had[names()[i]]);
        }
    }
    // 0 complete, 1 http error, 2 connection lost part way
    std::map<std::string, int> how;
    if (c.chance(1, 3))
        for (int n = c.range(1, 3); n > 0; --n) how[names()[c.below(22)]] = c.range(1, 2);
    curl_stub::no_handle = c.chance(1, 30);
    size_t limit = 0;
    if (c.chance(1, 6)) limit = 1 + c.below(c.boolean() ? 800 : 12000), c.label("disk full");
    size_t chunk = size_t(c.range(1, 400));
    std::map<std::string, std::string> state = had;
    std::vector<std::string> expect_urls;
    int failures = 0;
    for (auto& n : names()) {
        if (had.count(n) && !force) continue;
        if (curl_stub::no_handle) {
            ++failures;
            continue;
        }
        expect_urls.push_back(n);
        if (how[n] || (limit && remote[n].size() > limit - 1)) {
            ++failures; // what was there before stays
        } else
            state[n] = remote[n];
    }
    std::vector<std::string> asked;
    bool odd = false;
    curl_stub::open = 0;
    curl_stub::transfer = [&](CURL& h) {
        std::string n = h.url.substr(h.url.rfind('/') + 1);
        if (n.size() > 3 && n.substr(n.size() - 3) == ".gz") n.resize(n.size() - 3);
        else odd = true;
        asked.push_back(n);
        std::string t = remote.count(n) ? remote[n] : "";
        int k = how.count(n) ? how[n] : 0;
        if (!h.encoded) t = "\x1f\x8b" + t;
        if (k == 1) {
            if (h.fail_on_error) return CURLE_HTTP_RETURNED_ERROR;
            t = "<html>404</html>";
        }
        size_t end = k == 2 ? t.size() / 2 : t.size();
        for (size_t a = 0; a < end; a += chunk) {
            size_t m = std::min(chunk, end - a);
            if (h.write(t.data() + a, 1, m, h.data) != m) return CURLE_WRITE_ERROR;
        }
        return k == 2 ? CURLE_HTTP_RETURNED_ERROR : CURLE_OK;
    };
    std::vector<std::string> args{"huira"};
    if (verbose) args.push_back("-v");
    args.push_back("fetch-tycho2");
    std::vector<std::string> rest;
    if (force) rest.push_back(c.pick({std::string("-f"), std::string("--force")}));
    if (process) rest.push_back(c.pick({std::string("-p"), std::string("--process")}));
    if (clean) rest.push_back(c.pick({std::string("-c"), std::string("--clean")}));
    rest.insert(rest.begin() + long(c.below(rest.size() + 1)), out);
    args.insert(args.end(), rest.begin(), rest.end());
    c.note("arguments", join(args));
    c.note("files already there", had.size());
    c.note("failing", failures);
    c.note("file size limit", limit);
    c.nontrivial(keep > 0);
    if (failures) c.label("some transfer fails");
    auto want = stars_of(ref, state);
    bool processed = process && failures == 0, fail = failures > 0;
    if (processed && limit && sizeof(HrscHeader) + want.size() * sizeof(StarData) > limit - 1) fail = true;
    Ran r = run(args, limit);
    bool no_handle = curl_stub::no_handle;
    curl_stub::no_handle = false;
    curl_stub::transfer = nullptr;
    check_end(r);
    PBT_CHECK("handles", curl_stub::open == 0, curl_stub::open << " transfer handles left open");
    PBT_CHECK("urls", !odd, "an address without .gz was asked for");
    PBT_CHECK("exit_code", (r.code != 0) == fail, "exit code " << r.code << ", " << (fail ? "should fail" : "should succeed") << " (" << failures << " failing files): " << r.err);
    if (!no_handle) {
        std::sort(asked.begin(), asked.end());
        std::sort(expect_urls.begin(), expect_urls.end());
        PBT_CHECK("asked", asked == expect_urls, asked.size() << " files asked for (" << join(asked) << "), want " << expect_urls.size());
    }
    if (exists || !no_handle)
        for (auto& e : fs::directory_iterator(out)) {
            std::string n = e.path().filename().string();
            PBT_CHECK("stray", n == "tycho2.hrsc" || std::count(names().begin(), names().end(), n), n << " was left behind");
        }
    bool removed = processed && !fail && clean;
    for (auto& n : names()) {
        bool there = state.count(n) && !removed;
        PBT_CHECK("present", fs::exists(out + "/" + n) == there, n << (there ? " is missing" : " should not be there"));
        if (there) PBT_CHECK("content", get(out + "/" + n) == state[n], n << " has " << get(out + "/" + n).size() << " bytes, want " << state[n].size());
    }
    std::string cat = out + "/tycho2.hrsc";
    if (processed && !fail) check_catalogue(cat, want);
    if (!processed) PBT_CHECK("catalogue", !fs::exists(cat), "a catalogue was written");
}
PROP(interrupted, 600, 6000)
{
    // killed in the middle of any transfer, the command run again still ends with every file whole
    std::string out = fresh("fetched"), ref = fresh("ref");
    std::map<std::string, std::string> remote;
    int keep = 0;
    for (size_t i = 0; i < 22; ++i) remote[names()[i]] = content(c, i, keep);
    std::string victim = names()[c.below(22)];
    for (int n = c.range(0, 3); n > 0; --n) remote[victim] += star_line(c, victim[0] == 't' ? 0 : 1).s + "\n";
    for (int n = c.chance(1, 2) ? 0 : 60; n > 0; --n) remote[victim] += star_line(c, victim[0] == 't' ? 0 : 1).s + "\n"; // more than a stream buffers
    size_t at = c.below(remote[victim].size() + 1), chunk = size_t(c.range(1, 3000));
    bool force = c.chance(1, 4), again_force = c.chance(1, 4), process = c.boolean();
    if (c.chance(1, 3)) put(out + "/" + victim, force ? "old" : remote[victim]);
    c.note("killed in", victim);
    c.note("after bytes", at);
    c.note("of", remote[victim].size());
    c.nontrivial(at > 0 && at < remote[victim].size());
    bool kill_it = true;
    curl_stub::transfer = [&](CURL& h) {
        std::string n = h.url.substr(h.url.rfind('/') + 1);
        n.resize(n.size() - 3);
        const std::string& t = remote[n];
        size_t end = kill_it && n == victim ? at : t.size();
        for (size_t a = 0; a < end; a += chunk) {
            size_t m = std::min(chunk, end - a);
            if (h.write(const_cast<char*>(t.data()) + a, 1, m, h.data) != m) return CURLE_WRITE_ERROR;
        }
        if (kill_it && n == victim) {
            _exit(3);
        }
        return CURLE_OK;
    };
    std::vector<std::string> args{"huira", "fetch-tycho2", out};
    if (force) args.push_back("--force");
    pid_t pid = fork();
    if (pid == 0) {
        run(args);
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    bool killed = WIFEXITED(st) && WEXITSTATUS(st) == 3;
    kill_it = false;
    if (killed) c.label("killed");
    args = {"huira", "fetch-tycho2", out};
    if (again_force) args.push_back("-f");
    if (process) args.push_back("-p");
    auto want = stars_of(ref, remote);
    bool kept_old = killed && force && !again_force && fs::exists(out + "/" + victim) && get(out + "/" + victim) == "old";
    Ran r = run(args);
    curl_stub::transfer = nullptr;
    check_end(r);
    PBT_CHECK("exit_code", r.code == 0, "exit code " << r.code << ": " << r.err);
    if (kept_old) c.label("old file kept");
    for (auto& n : names())
        if (!(kept_old && n == victim)) PBT_CHECK("whole", get(out + "/" + n) == remote[n], n << " has " << get(out + "/" + n).size() << " bytes of " << remote[n].size() << " after the command was run again");
    if (process && !kept_old) check_catalogue(out + "/tycho2.hrsc", want);
}
PROP(dispatch, 6000, 60000)
{
    static int calls, code;
    static bool verbose, boom;
    static std::vector<std::string> seen;
    static bool once = [] {
        cli::Registry::instance().add({"echo", "test command", [](const cli::Context& x, int n, char** a) {
            ++calls, verbose = x.verbose;
            seen.assign(a, a + n);
            if (boom) throw std::runtime_error("a failing command");
            return code;
        }});
        cli::Registry::instance().add({"echo", "added again: the first stays", [](const cli::Context&, int, char**) { return 99; }});
        return true;
    }();
    (void)once;
    calls = 0, code = c.chance(1, 2) ? 0 : c.range(1, 120), boom = c.chance(1, 8), verbose = false;
    seen.clear();
    std::vector<std::string> tok{"-v", "--verbose", "--version", "-h", "--help", "echo", "echo", "echo", "nope", "", "-x", "process", "ECHO", "a b"};
    std::vector<std::string> args{"huira"};
    for (int n = c.range(0, 5); n > 0; --n) args.push_back(tok[c.chance(2, 3) ? c.pick({0, 1, 5, 6}) : int(c.below(tok.size()))]);
    c.note("arguments", join(args));
    // what should happen
    bool v = false, called = false, help = false, version = false, unknown = false;
    size_t i = 1;
    for (; i < args.size() && (args[i] == "-v" || args[i] == "--verbose"); ++i) v = true;
    if (i == args.size()) help = true;
    else if (args[i] == "--version") version = true;
    else if (args[i] == "-h" || args[i] == "--help") help = true;
    else if (args[i] == "echo") called = true;
    else unknown = true;
    bool asked_help = help && i < args.size();
    c.nontrivial(args.size() > 2);
    c.label(called ? "command" : help ? "help" : version ? "version" : "unknown");
    Ran r = run(args);
    check_end(r, !called || boom);
    PBT_CHECK("called", calls == int(called), calls << " calls, want " << called);
    if (called) {
        PBT_CHECK("arguments", seen == std::vector<std::string>(args.begin() + long(i), args.end()), "the command saw: " << join(seen));
        PBT_CHECK("verbose", verbose == v, "verbose " << verbose);
        if (boom) PBT_CHECK("exception_code", r.code != 0, "a command that failed gave exit code 0");
        else PBT_CHECK("code", r.code == code, "exit code " << r.code << " want " << code);
    } else {
        bool fail = unknown || (help && !asked_help);
        PBT_CHECK("code", (r.code != 0) == fail, "exit code " << r.code);
        if (help || unknown)
            for (auto n : {"echo", "process-tycho2", "fetch-tycho2", "--version", "--verbose", "--help"}) PBT_CHECK("help", (unknown ? r.err : r.out).find(n) != std::string::npos, "the help does not name " << n);
        if (version) PBT_CHECK("version", r.out.find(HUIRA_VERSION) != std::string::npos, "printed " << r.out);
        if (unknown) PBT_CHECK("named", r.err.find(args[i]) != std::string::npos, "the message does not name the command");
    }
}
PROP(bad_arguments, 3000, 30000)
{
    // arguments that mean nothing are refused before anything is touched
    std::string dir = fresh("args");
    bool fetch = c.boolean();
    std::map<std::string, std::string> text;
    int k = 0;
    for (size_t i = 0; i < 22; ++i) put(dir + "/" + names()[i], text[names()[i]] = "");
    (void)k;
    std::vector<std::string> args{"huira", fetch ? "fetch-tycho2" : "process-tycho2", dir};
    int kind = int(c.below(5));
    auto at = [&] { return args.begin() + 2 + long(c.below(args.size() - 1)); };
    if (kind == 0) args.pop_back();
    else if (kind == 1) args.insert(at(), c.pick({std::string("--nothing"), std::string("-z"), std::string("--cleanup")}));
    else if (kind == 2) args.push_back(dir + "x");
    else if (kind == 3) args.push_back(fetch ? "-o" : "-f");
    else if (fetch) args.push_back("-f"), args.push_back("--force");
    else args.push_back("-o");
    c.note("arguments", join(args));
    c.nontrivial(kind != 0);
    bool touched = false;
    curl_stub::transfer = [&](CURL&) {
        touched = true;
        return CURLE_HTTP_RETURNED_ERROR;
    };
    Ran r = run(args);
    curl_stub::transfer = nullptr;
    check_end(r);
    PBT_CHECK("code", r.code != 0, "exit code 0");
    PBT_CHECK("touched", !touched && !fs::exists(dir + "/tycho2.hrsc") && !fs::exists(dir + "x"), "something was done");
    for (auto& n : names()) PBT_CHECK("inputs", fs::exists(dir + "/" + n), n << " was removed");
}
PBT_MAIN
