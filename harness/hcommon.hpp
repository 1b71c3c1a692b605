// Common prelude of the harnesses: what the official build's header list includes first, plus generators.
#pragma once
#include <algorithm>
#include <array>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstring>
#include <filesystem>
#include <iostream>
#include <memory>
#include <mutex>
#include <optional>
#include <stdexcept>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
namespace fs = std::filesystem;
#include "pbt.hpp"
#include "huira/core/types.hpp"
#include "huira/core/constants.hpp"
#include "huira/util/logger.hpp"

namespace hc {
using V3d = huira::Vec3<double>;
using ld = long double;
using V3l = glm::vec<3, long double>;

// Bring the logger up, then put back the signal dispositions the sanitizer (or the default) had.
inline void quiet_logger()
{
    const int sigs[] = {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS};
    struct sigaction old[5];
    for (int i = 0; i < 5; ++i)
        sigaction(sigs[i], nullptr, &old[i]);
    auto term = std::get_terminate();
    huira::Logger::instance();
    huira::Logger::enable_crash_handler(false);
    huira::Logger::enable_console_warning(false);
    for (int i = 0; i < 5; ++i)
        sigaction(sigs[i], &old[i], nullptr);
    std::set_terminate(term);
}
struct Init {
    Init() { pbt::hooks().worker_init = [] { quiet_logger(); }; }
};
static Init init_;

template <class F> bool throws(F&& f)
{
    try {
        f();
    } catch (const std::exception&) {
        return true;
    }
    return false;
}

inline V3d unit_vec(pbt::Ctx& c)
{
    uint64_t m = c.below(6);
    if (m == 0) {
        static const V3d ax[6] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}};
        return ax[c.below(6)];
    }
    if (m == 1) { // near an axis
        V3d v{0, 0, 0};
        v[int(c.below(3))] = c.boolean() ? -1 : 1;
        double e = c.logreal(1e-9, 1e-2);
        v += V3d{c.sym(e), c.sym(e), c.sym(e)};
        return v / std::sqrt(glm::dot(v, v));
    }
    double z = c.uniform(-1, 1), p = c.uniform(0, 2 * M_PI), r = std::sqrt(std::max(0.0, 1 - z * z));
    V3d v{r * std::cos(p), r * std::sin(p), z};
    return v / std::sqrt(glm::dot(v, v));
}
inline V3d vec(pbt::Ctx& c, double scale)
{
    return {c.sym(scale), c.sym(scale), c.sym(scale)};
}
// vector whose length is log-uniform
inline V3d logvec(pbt::Ctx& c, double lo, double hi) { return unit_vec(c) * c.logreal(lo, hi); }
inline double angle(pbt::Ctx& c)
{
    switch (c.below(5)) {
    case 0: return c.pick({0.0, M_PI / 2, M_PI, -M_PI / 2, -M_PI, 2 * M_PI});
    case 1: return (c.boolean() ? -1 : 1) * c.logreal(1e-8, 1e-1);
    case 2: return c.uniform(-12, 12);
    default: return c.uniform(-M_PI, M_PI);
    }
}
// reference rotation: Rodrigues in long double
inline V3l rodrigues(V3l k, ld th, V3l v)
{
    ld n = std::sqrt(glm::dot(k, k));
    k /= n;
    return v * std::cos(th) + glm::cross(k, v) * std::sin(th) + k * (glm::dot(k, v) * (1 - std::cos(th)));
}
template <class A, class B> double dist(const A& a, const B& b)
{
    double dx = double(a.x) - double(b.x), dy = double(a.y) - double(b.y), dz = double(a.z) - double(b.z);
    double r = std::sqrt(dx * dx + dy * dy + dz * dz);
    return r; // NaN propagates: compare with !(r <= tol)
}
template <class A> double len(const A& a) { return std::sqrt(double(a.x) * double(a.x) + double(a.y) * double(a.y) + double(a.z) * double(a.z)); }
template <class A> std::string show(const A& a)
{
    std::ostringstream o;
    o << std::setprecision(17) << "(" << double(a.x) << "," << double(a.y) << "," << double(a.z) << ")";
    return o.str();
}
} // namespace hc
