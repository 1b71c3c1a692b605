// N03: where files go, and the argument checks every setter uses.
#include "hcommon.hpp"
#include "huira/util/paths.hpp"
#include "huira/util/validate.hpp"
#include "huira/platform/get_log_path.hpp"
using namespace huira;
using pbt::Ctx;
static std::string part(Ctx& c)
{
    static const char* p[] = {"a", "kernels", "b c", "x1", "..", ".", "long_name_of_a_directory", "\xc3\xa9"};
    return p[c.below(8)];
}
PROP(data_dir, 3000, 40000)
{
    huira::reset_data_dir();
    PBT_CHECK("default", huira::data_dir() == fs::path(HUIRA_DEFAULT_DATA_DIR), "data_dir gives " << huira::data_dir().string());
    int n = int(c.range(1, 8)), rel = 0;
    fs::path exe = fs::canonical("/proc/self/exe").parent_path();
    PBT_CHECK("executable", fs::equivalent(Paths::executable_dir(), exe) && fs::equivalent(Paths::executable_path(), "/proc/self/exe"), "executable_dir gives " << Paths::executable_dir().string());
    for (int i = 0; i < n; ++i) {
        std::string s;
        int k = int(c.range(1, 5));
        for (int j = 0; j < k; ++j) s += (j ? "/" : "") + part(c);
        bool abs = c.boolean();
        if (c.chance(1, 6)) {
            c.note("reset", "");
            huira::reset_data_dir();
            PBT_CHECK("reset", huira::data_dir() == fs::path(HUIRA_DEFAULT_DATA_DIR), "after reset data_dir gives " << huira::data_dir().string());
            continue;
        }
        rel += !abs;
        if (abs) s = "/" + s;
        c.note("set", s);
        if (c.boolean()) huira::set_data_dir(s);
        else Paths::instance().set_data_dir(s);
        fs::path got = c.boolean() ? huira::data_dir() : Paths::instance().data_dir();
        fs::path want = (abs ? fs::path(s) : exe / s).lexically_normal();
        if (!want.has_filename()) want = want.parent_path();
        fs::path g = got.lexically_normal();
        if (!g.has_filename()) g = g.parent_path();
        PBT_CHECK("set", got.is_absolute() && g == want, "set_data_dir(" << s << ") gives " << got.string() << ", want " << want.string());
    }
    huira::reset_data_dir();
    c.nontrivial(rel > 0);
}
PROP(make_path_creates, 1500, 15000)
{
    bool relative = c.boolean();
    fs::path root = pbt::scratch() + "/mk.d"; // absolute paths: a dot somewhere above, whatever the scratch directory is called
    fs::remove_all(root);
    fs::create_directories(root);
    fs::current_path(relative ? root : "/");
    if (relative) root = c.boolean() ? "." : "";
    fs::path p = root;
    int k = int(c.range(1, 5));
    for (int j = 0; j < k; ++j) {
        static const char* d[] = {"a", "b", "c d", "e", "f.d", "\xc3\xa9", "..hidden"};
        p /= d[c.below(7)];
    }
    static const char* leaf[] = {"out", "out.png", "img.fits", "x.tar.gz", "plain"};
    std::string l = leaf[c.below(5)];
    p /= l;
    bool file = l.find('.') != std::string::npos, twice = c.boolean();
    c.note("path", relative ? p.string() : p.lexically_relative(root).string());
    c.note("relative", relative);
    c.nontrivial(k > 1);
    make_path(p);
    if (twice) make_path(p);
    fs::path want = file ? p.parent_path() : p;
    PBT_CHECK("directory", fs::is_directory(want), "make_path does not create " << want.lexically_relative(root).string());
    if (file) PBT_CHECK("no_file", !fs::exists(p), "make_path creates " << l);
    if (file) {
        std::ofstream(p) << "keep";
        make_path(p);
        PBT_CHECK("keeps_file", pbt::read_file(p.string()) == "keep", "make_path touches an existing file");
    }
    make_path("");
}
PROP(log_path, 300, 3000)
{
    std::string d = pbt::scratch(), f = c.boolean() ? "" : "run.log";
    bool env = c.boolean();
    c.note("variable set", env), c.note("name", f);
    c.nontrivial(env && !f.empty());
    if (env) setenv("HUIRA_LOG_DIR", d.c_str(), 1);
    else unsetenv("HUIRA_LOG_DIR");
    fs::path p = get_log_file_path(f);
    unsetenv("HUIRA_LOG_DIR");
    PBT_CHECK("directory", p.parent_path() == (env ? fs::path(d) : fs::current_path()), "log path " << p.string());
    PBT_CHECK("name", f.empty() ? p.filename().string().rfind("huira_log_", 0) == 0 && p.extension() == ".txt" : p.filename() == f, "log path " << p.string());
}
template <class T> static T value(Ctx& c, int kind)
{
    switch (kind) {
    case 0: return std::numeric_limits<T>::quiet_NaN();
    case 1: return std::numeric_limits<T>::infinity();
    case 2: return -std::numeric_limits<T>::infinity();
    case 3: return T(0);
    case 4: return -T(0);
    case 5: return -std::numeric_limits<T>::denorm_min();
    case 6: return std::numeric_limits<T>::denorm_min();
    case 7: return std::numeric_limits<T>::max();
    case 8: return std::numeric_limits<T>::lowest();
    default: return T(c.sym(1e6));
    }
}
template <class T, int L> static void vec_case(Ctx& c)
{
    glm::vec<L, T> v;
    bool real = true, pos = true;
    for (int i = 0; i < L; ++i) {
        v[i] = c.chance(1, 4) ? value<T>(c, int(c.below(10))) : T(c.logreal(1e-6, 1e6));
        real &= bool(std::isfinite(v[i])), pos &= v[i] > 0;
        c.note("component", double(v[i]));
    }
    c.nontrivial(!real || !pos);
    PBT_CHECK("vec_real", hc::throws([&] { validate_real(v, "v"); }) == !real, "validate_real of a vector " << (real ? "rejects real components" : "accepts NaN or Inf"));
    PBT_CHECK("vec_positive", hc::throws([&] { validate_strictly_positive(v, "v"); }) == !(real && pos), "validate_strictly_positive of a vector: want " << (real && pos ? "accepted" : "rejected"));
}
template <class T, int C, int R> static void mat_case(Ctx& c)
{
    glm::mat<C, R, T> m;
    bool real = true;
    for (int i = 0; i < C; ++i)
        for (int j = 0; j < R; ++j) {
            m[i][j] = c.chance(1, 12) ? value<T>(c, int(c.below(10))) : T(c.sym(1e6));
            real &= bool(std::isfinite(m[i][j]));
        }
    c.note("all real", real);
    c.nontrivial(!real);
    PBT_CHECK("mat_real", hc::throws([&] { validate_real(m, "m"); }) == !real, "validate_real of a matrix " << (real ? "rejects real components" : "accepts NaN or Inf"));
}
template <class T> static void scalar_case(Ctx& c)
{
    T v = value<T>(c, int(c.below(11)));
    c.note("value", double(v));
    c.nontrivial();
    bool real = std::isfinite(v);
    std::string msg;
    PBT_CHECK("scalar_real", hc::throws([&] { validate_real(v, "v"); }) == !real, "validate_real(" << v << ")");
    PBT_CHECK("scalar_positive", hc::throws([&] { validate_strictly_positive(v, "v"); }) == !(real && v > 0), "validate_strictly_positive(" << v << ")");
    try {
        validate_strictly_positive(v, "focal length");
    } catch (const std::exception& e) {
        PBT_CHECK("names_argument", std::string(e.what()).find("focal length") != std::string::npos, "the message does not name the argument: " << e.what());
    }
}
PROP(validation, 20000, 200000)
{
    switch (c.below(8)) {
    case 0: return vec_case<float, 2>(c);
    case 1: return vec_case<double, 3>(c);
    case 2: return vec_case<float, 4>(c);
    case 3: return mat_case<float, 3, 3>(c);
    case 4: return mat_case<double, 4, 4>(c);
    case 5: return mat_case<double, 2, 2>(c);
    case 6: return scalar_case<float>(c);
    default: return scalar_case<double>(c);
    }
}
PBT_MAIN
