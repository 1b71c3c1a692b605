// N05: generated programs of several source files that all use the library, compiled, linked and run.
#include <cstdio>
#include <filesystem>
#include <fstream>
#include <sstream>
#include <sys/wait.h>
#include "pbt.hpp"
using pbt::Ctx;
namespace fs = std::filesystem;
#ifndef VERIF_REPO
#define VERIF_REPO "/repo"
#endif
static const bool set_up = [] {
    pbt::hooks().idle_seconds = 400;
    pbt::hooks().workers = 4;
    return true;
}();
static std::string stubs() // next to this file
{
    return (fs::path(__FILE__).parent_path().parent_path() / "stubs").string();
}
static const std::vector<std::string>& headers()
{
    static const std::vector<std::string> h = [] {
        std::vector<std::string> v;
        fs::path root = fs::path(VERIF_REPO) / "include";
        for (auto& e : fs::recursive_directory_iterator(root / "huira"))
            if (e.path().extension() == ".hpp") v.push_back(fs::relative(e.path(), root).string());
        std::sort(v.begin(), v.end());
        return v;
    }();
    return h;
}
struct Piece {
    const char *name, *header, *body; // body of std::string f()
};
static const Piece pieces[] = {
    {"rotation", "", "auto r = Rotation<double>::from_local_to_parent(Mat3<double>(1.0)); Vec3<double> v = r * Vec3<double>(1, 2, 3); return vec_to_string(v);"},
    {"time", "", "Time t = Time::from_et(1234.5); return std::to_string(t.et());"},
    {"units", "", "return std::to_string(units::Kilometer(3.5).to_si());"},
    {"tycho_id", "huira/stars/io/tycho2_id.hpp", "return format_tycho2_id(pack_tycho2_id(12, 345, 2));"},
    {"arc", "huira/render/trajectory_arc.hpp", "std::vector<Vec3<float>> s{{0, 0, 0}, {1, 1, 0}, {2, 4, 0}, {3, 9, 1}, {4, 16, 0}}; TrajectoryArc a(s); auto v = a.evaluate(0.4f); return std::to_string(v.y) + \" \" + std::to_string(a.find_plane_crossings(Vec3<float>(0, 0, 1)).size());"},
    {"image", "", "Image<float> i(4, 3, 2.f); i(1, 1) = 5; float s = 0; for (int y = 0; y < 3; ++y) for (int x = 0; x < 4; ++x) s += i(x, y); return std::to_string(s);"},
    {"aberration", "", "auto d = compute_aberrated_direction(Vec3<double>(1, 0, 0), Vec3<double>(0, 3e7, 0)); return vec_to_string(d);"},
    {"spectral", "", "RGB a{0.5f}; a *= 3.f; return std::to_string(a.total());"},
    {"camera", "", "Scene<RGB> s; auto c = s.new_camera_model(); auto p = c.project_point(Vec3<float>(0, 0, 1)); return std::to_string(p.x + p.y);"},
    {"names", "", "Scene<RGB> s; auto a = s.new_sphere_light(units::Meter(1), units::Watt(1), \"lamp\"); return s.get_light(\"lamp\").name();"},
    {"tycho", "huira/stars/io/load_tycho2.hpp", "try { return std::to_string(read_tycho2_dat(\"/nonexistent/x\").size() + read_tycho2_suppl(\"/nonexistent/x\").size()); } catch (const std::exception&) { return \"no file\"; }"},
    {"catalogue", "huira/stars/io/star_catalog.hpp", "try { return StarCatalog::read_star_data(\"/nonexistent/x\") .get_star_data().empty() ? \"empty\" : \"stars\"; } catch (const std::exception&) { return \"no file\"; }"},
    {"colour", "huira/util/colorful_text.hpp", "return std::string(Logger::get_buffer_size() ? \"buffer\" : \"none\");"},
    {"platform", "huira/platform/info.hpp", "return get_platform() + get_compiler_info();"},
    {"executable", "huira/util/paths.hpp", "return Paths::executable_path().string();"},
};
static int sh(const std::string& cmd, std::string& out)
{
    out.clear();
    FILE* f = popen((cmd + " 2>&1").c_str(), "r");
    char b[4096];
    for (size_t n; (n = fread(b, 1, sizeof b, f)) > 0;)
        if (out.size() < 200000) out.append(b, n);
    int st = pclose(f);
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128;
}
static std::string first(const std::string& s, const char* what)
{
    size_t a = s.find(what);
    if (a == std::string::npos) return s.substr(0, 300);
    size_t b = s.rfind('\n', a);
    b = b == std::string::npos ? 0 : b + 1;
    return s.substr(b, std::min<size_t>(400, s.find('\n', a) - b));
}
PROP(files, 24, 400)
{
    std::string dir = pbt::scratch() + "/p";
    fs::remove_all(dir);
    fs::create_directories(dir);
    int n = c.range(2, 3);
    std::string main_cpp = "#include <iostream>\n#include <string>\n", steps, build, objs;
    // what each file uses
    std::vector<std::vector<int>> uses(static_cast<size_t>(n));
    bool common = false;
    for (int i = 0; i < n; ++i) {
        std::vector<std::string> inc;
        bool whole = c.chance(3, 4); // otherwise only the logger and paths
        inc.push_back(whole ? "huira/huira.hpp" : c.boolean() ? "huira/util/logger.hpp" : "huira/util/paths.hpp");
        std::string body;
        if (whole)
            for (int k = c.range(1, 4); k > 0; --k) {
                int p = int(c.below(sizeof pieces / sizeof *pieces));
                if (std::count(uses[size_t(i)].begin(), uses[size_t(i)].end(), p)) continue;
                for (int j = 0; j < i; ++j) common |= std::count(uses[size_t(j)].begin(), uses[size_t(j)].end(), p) > 0;
                uses[size_t(i)].push_back(p);
                if (*pieces[p].header) inc.push_back(pieces[p].header);
                body += "std::string f" + std::to_string(i) + "_" + std::to_string(p) + "() { " + pieces[p].body + " }\n";
                main_cpp += "std::string f" + std::to_string(i) + "_" + std::to_string(p) + "();\n";
            }
        if (whole)
            for (int k = c.range(0, 6); k > 0; --k) inc.insert(inc.begin() + 1 + long(c.below(inc.size())), headers()[c.below(headers().size())]);
        inc.push_back("huira/util/logger.hpp"), inc.push_back("huira/util/paths.hpp");
        std::string s = std::to_string(i), text;
        for (auto& h : inc) text += "#include \"" + h + "\"\n";
        text += "using namespace huira;\nnamespace file" + s + " {\n" + body +
                "void level(int l) { Logger::set_level(static_cast<LogLevel>(l)); }\nint level() { return static_cast<int>(Logger::get_level()); }\n"
                "void buffer(int b) { Logger::set_buffer_size(static_cast<std::size_t>(b)); }\nint buffer() { return static_cast<int>(Logger::get_buffer_size()); }\n"
                "void data(int d) { Paths::instance().set_data_dir(\"/data/\" + std::to_string(d)); }\nint data() { return std::stoi(Paths::instance().data_dir().filename().string()); }\n}\n";
        std::ofstream(dir + "/f" + s + ".cpp") << text;
        c.note("file " + s, text.substr(0, 400));
    }
    std::string decl;
    for (int i = 0; i < n; ++i) {
        decl += "namespace file" + std::to_string(i) + " {\n";
        for (int p : uses[size_t(i)]) decl += "std::string f" + std::to_string(i) + "_" + std::to_string(p) + "();\n";
        decl += "void level(int); int level(); void buffer(int); int buffer(); void data(int); int data();\n}\n";
    }
    // what the program does: settings made in one file are seen in every other
    std::vector<std::string> want;
    int level = 1, buffer = 64, data = 7;
    steps += "file0::level(1); file0::buffer(64); file0::data(7);\n";
    auto file = [&] { return "file" + std::to_string(c.below(uint64_t(n))) + "::"; };
    for (int k = c.range(3, 10); k > 0; --k) switch (c.below(6)) {
        case 0: level = c.range(0, 3), steps += file() + "level(" + std::to_string(level) + ");\n"; break;
        case 1: buffer = c.range(10, 500), steps += file() + "buffer(" + std::to_string(buffer) + ");\n"; break;
        case 2: data = c.range(0, 99), steps += file() + "data(" + std::to_string(data) + ");\n"; break;
        case 3: steps += "std::cout << \"= level \" << " + file() + "level() << std::endl;\n", want.push_back("= level " + std::to_string(level)); break;
        case 4: steps += "std::cout << \"= buffer \" << " + file() + "buffer() << std::endl;\n", want.push_back("= buffer " + std::to_string(buffer)); break;
        default: steps += "std::cout << \"= data \" << " + file() + "data() << std::endl;\n", want.push_back("= data " + std::to_string(data));
        }
    for (int i = 0; i < n; ++i)
        for (int p : uses[size_t(i)]) steps += "std::cout << \"~ " + std::to_string(p) + " \" << file" + std::to_string(i) + "::f" + std::to_string(i) + "_" + std::to_string(p) + "() << std::endl;\n";
    std::ofstream(dir + "/main.cpp") << "#include <iostream>\n#include <string>\n" << decl << "int main() {\n" << steps << "}\n";
    c.nontrivial(common);
    c.label(std::to_string(n) + " files");
    std::string inc = "-std=c++20 -O0 -w -I" VERIF_REPO "/include -I" + stubs() + " -I" + stubs() + "/cspice -DHUIRA_DEFAULT_DATA_DIR='\"/nonexistent\"' -DHUIRA_VERSION='\"0\"'", out;
    for (int i = 0; i < n; ++i) {
        std::string s = dir + "/f" + std::to_string(i);
        int rc = sh("g++ " + inc + " -c " + s + ".cpp -o " + s + ".o", out);
        PBT_CHECK("compiles", rc == 0, "a source file does not compile: " << first(out, "error"));
        objs += " " + s + ".o";
    }
    int rc = sh("g++ " + inc + " " + dir + "/main.cpp" + objs + " -o " + dir + "/prog -lfftw3f -lembree4 -ltbb -lcfitsio -lpng -ltiff -lturbojpeg -lassimp -pthread", out);
    PBT_CHECK("links", rc == 0, "the files do not link: " << first(out, "multiple definition"));
    rc = sh("cd " + dir + " && ASAN_OPTIONS= ./prog", out);
    PBT_CHECK("runs", rc == 0, "exit code " << rc << ": " << out.substr(0, 400));
    std::vector<std::string> got;
    std::map<std::string, std::string> same;
    std::istringstream in(out);
    for (std::string l; std::getline(in, l);) {
        if (l.substr(0, 2) == "= ") got.push_back(l);
        if (l.substr(0, 2) == "~ ") {
            std::string key = l.substr(2, l.find(' ', 2) - 2), val = l.substr(l.find(' ', 2) + 1);
            if (!same.emplace(key, val).second) PBT_CHECK("same", same[key] == val, pieces[std::stoi(key)].name << " gives " << same[key] << " in one file and " << val << " in another");
        }
    }
    for (size_t i = 0; i < want.size(); ++i) PBT_CHECK("shared", i < got.size() && got[i] == want[i], "step " << i << " printed \"" << (i < got.size() ? got[i] : "") << "\", want \"" << want[i] << "\"");
    fs::remove_all(dir);
}
PBT_MAIN
