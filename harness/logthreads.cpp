// N02 (several threads): messages logged at the same time are all kept, whole, and each thread's in its order.
#include "hcommon.hpp"
#include <map>
#include <set>
#include <thread>
using namespace huira;
using pbt::Ctx;
PROP(concurrent_history, 250, 3000)
{
    Logger::clear_custom_sink();
    Logger::set_level(LogLevel::Info);
    Logger::set_buffer_size(1);
    Logger::log(LogLevel::Error, "start");
    int T = int(c.range(2, 6)), N = int(c.range(1, 40));
    std::size_t cap = c.chance(1, 2) ? c.range(1, 6) : c.range(1, 300);
    Logger::set_buffer_size(cap);
    bool sink = c.boolean(), dumps = c.boolean(), resizes = c.chance(1, 3), swaps = c.chance(1, 4), levels = c.chance(1, 4);
    c.note("threads", T), c.note("messages", N), c.note("buffer", cap), c.note("sink", sink), c.note("dumps", dumps), c.note("resizes", resizes), c.note("sink changes", swaps);
    c.label(resizes ? "resized meanwhile" : dumps ? "dumped meanwhile" : "logging only");
    c.nontrivial(N > 3);
    std::mutex m;
    std::multiset<std::string> sunk;
    auto record = [&](const LogEntry& e) { std::lock_guard<std::mutex> g(m); sunk.insert(e.message); };
    if (sink) Logger::set_custom_sink(record);
    std::size_t pad = c.below(60);
    auto text = [&](int t, int i) { return "t" + std::to_string(t) + " m" + std::to_string(i) + " " + std::string(pad, char('a' + t)) + "!"; };
    std::map<std::string, std::pair<int, int>> all;
    for (int t = 0; t < T; ++t)
        for (int i = 0; i < N; ++i) all[text(t, i)] = {t, i};
    std::atomic<bool> go{false};
    struct Threads : std::vector<std::thread> {
        ~Threads() { for (auto& t : *this) if (t.joinable()) t.join(); }
    } th;
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            while (!go) {}
            for (int i = 0; i < N; ++i) {
                ScopeLogger sc("thread");
                Logger::log(i % 2 ? LogLevel::Warning : LogLevel::Error, text(t, i));
            }
        });
    std::string file = pbt::scratch() + "/log.txt";
    auto check_dump = [&](bool complete) {
        std::string got = Logger::dump_to_file(file);
        std::istringstream in(pbt::read_file(file));
        std::string l;
        int head = 0, last[8] = {-1, -1, -1, -1, -1, -1, -1, -1};
        std::size_t n = 0, start = 0;
        while (std::getline(in, l)) {
            if (head < 5) { ++head; continue; }
            std::size_t b = l.find("] [Thread "), e = b == std::string::npos ? b : l.find("] ", b + 10);
            std::string msg = e == std::string::npos ? l : l.substr(e + 2);
            if (msg == "start") { ++start; continue; }
            auto it = all.find(msg);
            PBT_CHECK("whole_messages", it != all.end(), "the log has a line nobody logged: \"" << l << "\"");
            auto [t, i] = it->second;
            if (complete) PBT_CHECK("order", i > last[t], "the messages of thread " << t << " are out of order: " << i << " after " << last[t]);
            if (complete && last[t] >= 0 && !resizes) PBT_CHECK("no_gaps", i == last[t] + 1, "a message of thread " << t << " between kept ones is missing");
            last[t] = i;
            ++n;
        }
        if (complete && !resizes) {
            std::size_t want = std::min(cap, std::size_t(T) * std::size_t(N) + 1);
            PBT_CHECK("keeps_last", n + start == want, "the log has " << n << " messages, want the last " << want);
        }
    };
    go = true;
    for (int k = 0; k < 6 && (dumps || resizes || swaps || levels); ++k) {
        if (dumps) check_dump(false);
        if (resizes) Logger::set_buffer_size(c.range(1, 30));
        if (swaps) {
            if (k % 2) Logger::clear_custom_sink();
            else Logger::set_custom_sink(record);
        }
        if (levels) Logger::set_level(k % 2 ? LogLevel::Debug : LogLevel::Info), (void)Logger::get_level();
        (void)Logger::get_buffer_size();
    }
    for (auto& t : th) t.join();
    check_dump(true);
    Logger::clear_custom_sink();
    if (sink && !swaps) {
        PBT_CHECK("sink_all", sunk.size() == all.size(), "the sink was given " << sunk.size() << " messages of " << all.size());
        for (auto& [s, x] : all) PBT_CHECK("sink_each", sunk.count(s) == 1, "the sink was given \"" << s << "\" " << sunk.count(s) << " times");
    }
}
PBT_MAIN
