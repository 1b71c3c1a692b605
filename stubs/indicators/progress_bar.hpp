// stand-in for indicators: a bar that only counts
#pragma once
#include <cstddef>
#include <string>
namespace indicators {
namespace option {
struct BarWidth { size_t v; };
struct Start { std::string v; };
struct Fill { std::string v; };
struct Lead { std::string v; };
struct Remainder { std::string v; };
struct End { std::string v; };
struct PrefixText { std::string v; };
struct PostfixText { std::string v; };
struct ShowPercentage { bool v; };
struct ShowElapsedTime { bool v; };
struct MaxProgress { size_t v; MaxProgress(int n) : v(size_t(n)) {} };
} // namespace option
struct ProgressBar {
    size_t max = 100, at = 0;
    template <class... T> explicit ProgressBar(T&&... t) { (set_option(t), ...); }
    template <class T> void set_option(const T&) {}
    void set_option(const option::MaxProgress& m) { max = m.v; }
    void tick() { ++at; }
    bool is_completed() const { return at >= max; }
};
} // namespace indicators
