// N02 (one thread): the log keeps the last messages, filters by level, writes them out, and a crash is reported and stays a crash.
#include "hcommon.hpp"
#include <csignal>
#include <deque>
#include <sys/resource.h>
#include <sys/wait.h>
using namespace huira;
using pbt::Ctx;
static const char* lname[] = {"DEBUG", "INFO ", "WARN ", "ERROR"};
struct Line { int level; std::string msg; };
// body lines of a dumped log; false when the file has no recognisable line structure
static std::vector<Line> parse(const std::string& text)
{
    std::vector<Line> out;
    std::istringstream in(text);
    std::string l;
    int head = 0;
    while (std::getline(in, l)) {
        if (head < 5) { // title, rule, blank, platform, blank
            ++head;
            continue;
        }
        Line x{-1, l};
        std::size_t a = l.find(" ["), b = l.find("] [Thread "), e = b == std::string::npos ? b : l.find("] ", b + 10);
        if (a == 12 && e != std::string::npos) {
            std::string n = l.substr(a + 2, b - a - 2);
            for (int i = 0; i < 4; ++i)
                if (n == lname[i]) x.level = i;
            x.msg = l.substr(e + 2);
        }
        out.push_back(x);
    }
    return out;
}
static std::string message(Ctx& c, int i)
{
    static const char* t[] = {"m", "loading kernel", "[ERROR] not one", "x] y", " spaced ", "\xe2\x98\x85", "100%s%n"};
    if (c.chance(1, 12)) return "";
    std::string s = t[c.below(7)] + std::string("#") + std::to_string(i);
    if (c.chance(1, 20)) s += std::string(c.below(300), 'z');
    return s;
}
struct Capture {
    std::ostringstream o, e;
    std::streambuf *so, *se;
    Capture() : so(std::cout.rdbuf(o.rdbuf())), se(std::cerr.rdbuf(e.rdbuf())) {}
    ~Capture() { std::cout.rdbuf(so), std::cerr.rdbuf(se); }
};
static int evaluated = 0;
static std::string eval(const std::string& s) { ++evaluated; return s; }
PROP(history, 6000, 80000)
{
    auto& L = Logger::instance();
    Logger::clear_custom_sink();
    Logger::set_level(LogLevel::Debug);
    Logger::set_buffer_size(1);
    Logger::log(LogLevel::Info, "start");
    std::size_t cap = c.chance(1, 3) ? c.range(1, 4) : c.range(1, 24);
    Logger::set_buffer_size(cap);
    Logger::enable_console_debug(true); // a case starts from the same settings whatever ran before it
    PBT_CHECK("console_flags", Logger::is_console_debug_enabled() && Logger::is_console_info_enabled() && Logger::is_console_warning_enabled(), "debug on the console without the levels above it");
    Logger::enable_console_warning(false);
    std::deque<Line> model{{1, "start"}};
    bool con[3] = {false, false, false}; // debug, info, warning
    PBT_CHECK("console_flags", !Logger::is_console_debug_enabled() && !Logger::is_console_info_enabled() && !Logger::is_console_warning_enabled(), "warnings off the console without the levels below them");
    int level = 0;
    std::vector<Line> sunk, want_sunk;
    int sink = 0; // 0 none, 1 records, 2 throws
    int n = int(c.range(1, 60)), kinds = 0, wraps = 0;
    c.note("buffer", cap);
    for (int i = 0; i < n; ++i) {
        uint64_t op = c.below(16);
        if (op < 8) {
            int lv = int(c.below(4)), how = int(c.below(2));
            std::string m = message(c, i);
            c.note(how ? "log" : "macro", std::string(lname[lv]) + " " + m.substr(0, 30));
            bool kept = lv >= level;
            std::string out, err;
            {
                Capture cap_;
                evaluated = 0;
                if (how) {
                    Logger::log(LogLevel(lv), m);
                } else if (lv == 0) {
                    HUIRA_LOG_DEBUG(eval(m));
                } else if (lv == 1) {
                    HUIRA_LOG_INFO(eval(m));
                } else if (lv == 2) {
                    HUIRA_LOG_WARNING(eval(m));
                } else {
                    if (c.boolean()) {
                        HUIRA_LOG_ERROR(eval(m));
                    } else {
                        std::string what;
                        try {
                            HUIRA_THROW_ERROR(eval(m));
                        } catch (const std::runtime_error& e) {
                            what = e.what();
                        }
                        PBT_CHECK("throws_message", what == m, "HUIRA_THROW_ERROR(\"" << m << "\") throws \"" << what << "\"");
                    }
                }
                out = cap_.o.str(), err = cap_.e.str();
            }
            if (!how) {
                PBT_CHECK("lazy", evaluated == (kept ? 1 : 0), "the message of a " << lname[lv] << " is evaluated " << evaluated << " times at level " << lname[level]);
                bool shown = kept && (lv == 3 || con[lv]);
                std::string where = lv < 2 ? out : err;
                PBT_CHECK("console", where.empty() == !shown && (!shown || where.find(m) != std::string::npos), lname[lv] << " on the console: \"" << where << "\", want " << (shown ? "the message" : "nothing"));
                PBT_CHECK("console_stream", (lv < 2 ? err : out).empty(), lname[lv] << " goes to the other stream");
            } else {
                PBT_CHECK("console_log", out.empty() && err.empty(), "Logger::log writes on the console");
            }
            if (kept) {
                model.push_back({lv, m});
                if (model.size() > cap) model.pop_front(), ++wraps;
                if (sink) want_sunk.push_back({lv, m});
            }
        } else if (op == 8) {
            level = int(c.below(4));
            c.note("level", lname[level]);
            Logger::set_level(LogLevel(level));
            PBT_CHECK("level", int(Logger::get_level()) == level, "get_level gives " << int(Logger::get_level()));
        } else if (op < 11) {
            cap = c.chance(1, 8) ? 0 : c.range(1, 24);
            c.note("resize", cap);
            Logger::set_buffer_size(cap);
            if (!cap) cap = 1;
            PBT_CHECK("capacity", Logger::get_buffer_size() == cap, "buffer size " << Logger::get_buffer_size() << " want " << cap);
            while (model.size() > cap) model.pop_front();
            ++kinds;
        } else if (op == 11) {
            sink = int(c.below(3));
            c.note("sink", sink);
            if (!sink) {
                Logger::clear_custom_sink();
            } else {
                bool bad = sink == 2;
                Logger::set_custom_sink([&sunk, bad](const LogEntry& e) {
                    sunk.push_back({int(e.level), e.message});
                    if (bad) throw 7;
                });
            }
        } else if (op == 12) {
            int which = int(c.below(3));
            bool on = c.boolean();
            c.note(on ? "console on" : "console off", which == 0 ? "debug" : which == 1 ? "info" : "warning");
            if (which == 0) {
                Logger::enable_console_debug(on), con[0] = on;
                if (on) con[1] = con[2] = true;
            } else if (which == 1) {
                Logger::enable_console_info(on), con[1] = on;
                if (on) con[2] = true;
                else con[0] = false;
            } else {
                Logger::enable_console_warning(on), con[2] = on;
                if (!on) con[0] = con[1] = false;
            }
            PBT_CHECK("console_flags", Logger::is_console_debug_enabled() == con[0] && Logger::is_console_info_enabled() == con[1] && Logger::is_console_warning_enabled() == con[2],
                      "console flags " << Logger::is_console_debug_enabled() << Logger::is_console_info_enabled() << Logger::is_console_warning_enabled() << " want " << con[0] << con[1] << con[2]);
        } else if (op == 13 || i == n - 1) {
            std::string f = pbt::scratch() + "/log.txt";
            std::string got = L.dump_to_file(f);
            c.note("dump", "");
            PBT_CHECK("dump_path", got == f, "dump_to_file(" << f << ") reports " << got);
            auto lines = parse(pbt::read_file(f));
            std::vector<Line> want;
            for (auto& l : model)
                if (!l.msg.empty()) want.push_back(l);
            PBT_CHECK("dump_count", lines.size() == want.size(), "the log has " << lines.size() << " lines, want the last " << want.size() << " messages");
            for (std::size_t k = 0; k < want.size(); ++k)
                PBT_CHECK("dump_lines", lines[k].level == want[k].level && lines[k].msg == want[k].msg, "line " << k << " is \"" << lines[k].msg << "\" [" << lines[k].level << "], want \"" << want[k].msg << "\" [" << want[k].level << "]");
        }
        PBT_CHECK("sink_count", sunk.size() == want_sunk.size(), "the sink was given " << sunk.size() << " messages, want " << want_sunk.size());
        if (!sunk.empty()) PBT_CHECK("sink_message", sunk.back().msg == want_sunk.back().msg && sunk.back().level == want_sunk.back().level, "the sink was given \"" << sunk.back().msg << "\", want \"" << want_sunk.back().msg << "\"");
    }
    Logger::clear_custom_sink();
    c.nontrivial(wraps > 0 && kinds > 0);
    c.label(wraps ? "buffer full" : "buffer not full");
}
PROP(unwritable_path, 300, 2000)
{
    // the log goes to the current directory when the wanted place cannot be written
    Logger::clear_custom_sink();
    std::string old = fs::current_path().string(), cwd = pbt::scratch() + "/cwd", m = "message " + std::to_string(c.below(100000));
    fs::create_directories(cwd);
    Logger::log(LogLevel::Error, m);
    std::string want, ask;
    int k = int(c.below(3));
    std::string name = c.boolean() ? "log.txt" : "other.log";
    if (k == 0) ask = pbt::scratch() + "/missing/" + name, want = cwd + "/" + name;
    if (k == 1) ask = name, want = cwd + "/" + name;
    if (k == 2) ask = pbt::scratch() + "/here.txt", want = ask;
    c.note("path", ask);
    c.nontrivial(k != 2);
    fs::current_path(cwd);
    std::string got = dump_log(ask);
    std::error_code ec;
    bool same = !got.empty() && fs::equivalent(got, want, ec);
    fs::current_path(old);
    PBT_CHECK("fallback", same, "dump_to_file(" << ask << ") reports " << got << ", want " << want);
    PBT_CHECK("content", pbt::read_file(want).find(m) != std::string::npos, "the message is not in " << want);
}
struct Crash { int status; bool timeout; std::vector<std::string> files; std::string text; };
// a process of its own that logs, opens scopes and crashes; everything it writes goes to its own directory
static Crash crash(Ctx& c, bool handler, int how, int thread, const std::vector<std::string>& msgs, const std::vector<std::string>& scopes, bool dirok)
{
    std::string dir = pbt::scratch() + "/crash", cwd = pbt::scratch() + "/crashcwd";
    for (auto& d : {dir, cwd}) {
        fs::remove_all(d);
        if (d != dir || dirok) fs::create_directories(d);
    }
    pid_t pid = fork();
    if (!pid) {
        struct rlimit rl{0, 0};
        setrlimit(RLIMIT_CORE, &rl);
        setenv("HUIRA_LOG_DIR", dir.c_str(), 1);
        fs::current_path(cwd);
        struct sigaction sa{};
        sa.sa_handler = SIG_DFL;
        for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS}) sigaction(s, &sa, nullptr);
        Logger::set_level(LogLevel::Info);
        Logger::set_buffer_size(1000);
        Logger::enable_crash_handler(true);
        if (!handler) Logger::enable_crash_handler(false);
        alarm(3);
        auto body = [&] {
            for (auto& m : msgs) Logger::log(LogLevel::Info, m);
            std::vector<std::unique_ptr<ScopeLogger>> open;
            for (auto& s : scopes) open.push_back(std::make_unique<ScopeLogger>(s.c_str()));
            {
                ScopeLogger closed("closed scope");
            }
            switch (how) {
            case 0: *(volatile int*)nullptr = 1; break;
            case 1: abort();
            case 2: raise(SIGFPE); break;
            case 3: __builtin_trap();
            case 4: raise(SIGBUS); break;
            case 5: throw std::runtime_error("boom 77");
            case 6: throw 5;
            default: std::terminate();
            }
        };
        auto guarded = [&]() noexcept { body(); };
        if (thread) std::thread(guarded).join();
        else guarded();
        _exit(0);
    }
    Crash r{};
    waitpid(pid, &r.status, 0);
    r.timeout = WIFSIGNALED(r.status) && WTERMSIG(r.status) == SIGALRM;
    for (auto& d : {dir, cwd})
        if (fs::exists(d))
            for (auto& e : fs::directory_iterator(d)) r.files.push_back(e.path().string()), r.text += pbt::read_file(e.path().string());
    return r;
}
PROP(crashes, 250, 2500)
{
    bool handler = c.chance(3, 4), dirok = c.chance(3, 4);
    int how = int(c.below(8)), thread = int(c.below(2));
    static const char* hn[] = {"null write", "abort", "SIGFPE", "trap", "SIGBUS", "uncaught exception", "uncaught int", "terminate"};
    static const int sig[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGABRT, SIGABRT, SIGABRT};
    std::vector<std::string> msgs, scopes;
    for (int i = int(c.below(6)); i-- > 0;) msgs.push_back("before " + std::to_string(c.below(1000)));
    for (int i = int(c.below(4)); i-- > 0;) scopes.push_back("scope " + std::to_string(i) + char('a' + c.below(26)));
    c.label(handler ? "handler on" : "handler off");
    c.note("crash", hn[how]), c.note("handler", handler), c.note("thread", thread), c.note("log directory exists", dirok);
    c.nontrivial(!msgs.empty() && !scopes.empty());
    Crash r = crash(c, handler, how, thread, msgs, scopes, dirok);
    PBT_CHECK("ends", !r.timeout, "the process hangs after " << hn[how]);
    PBT_CHECK("stays_a_crash", WIFSIGNALED(r.status) && WTERMSIG(r.status) == sig[how], "after " << hn[how] << " the process ends with status " << r.status << ", want signal " << sig[how]);
    if (!handler) {
        PBT_CHECK("silent_when_off", r.files.empty(), "a log is written although the crash handler is off");
        return;
    }
    PBT_CHECK("one_report", r.files.size() == 1, r.files.size() << " logs are written");
    auto lines = parse(r.text);
    auto has = [&](const std::string& s, std::size_t from) {
        for (std::size_t i = from; i < lines.size(); ++i)
            if (lines[i].msg == s) return long(i);
        return -1L;
    };
    std::size_t at = 0;
    for (auto& m : msgs) {
        long p = has(m, at);
        PBT_CHECK("keeps_messages", p >= 0, "the log of the crash lacks the message \"" << m << "\"");
        at = std::size_t(p) + 1;
    }
    if (how < 5) {
        long p = has("Crash detected with signal: " + std::to_string(sig[how]), at);
        PBT_CHECK("names_signal", p >= 0, "the log of the crash does not name the signal");
        at = std::size_t(p) + 1;
        for (auto& s : scopes) {
            p = has(" -> " + s, at);
            PBT_CHECK("names_scopes", p >= 0, "the log of the crash lacks the open scope \"" << s << "\"");
            at = std::size_t(p) + 1;
        }
        PBT_CHECK("closed_scope", r.text.find("closed scope") == std::string::npos, "a closed scope is reported as open");
    }
    if (how == 5) PBT_CHECK("names_exception", r.text.find("boom 77") != std::string::npos, "the log of the crash does not name the exception");
}
PBT_MAIN
