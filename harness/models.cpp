// A05: models read from glTF and OBJ files: meshes, node graphs, materials and textures, against the scene the file was written from.
#include "rig.hpp"
#include <fstream>
#include <png.h>
#include <turbojpeg.h>
#include <csetjmp>
#include <sstream>
#include <iomanip>
using namespace rig;
using IH = InstanceHandle<S>;
struct M4 { // row-major affine map
    double m[3][4] = {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}};
    V3d pt(const V3d& v) const { return dir(v) + V3d(m[0][3], m[1][3], m[2][3]); }
    V3d dir(const V3d& v) const { return {m[0][0] * v.x + m[0][1] * v.y + m[0][2] * v.z, m[1][0] * v.x + m[1][1] * v.y + m[1][2] * v.z, m[2][0] * v.x + m[2][1] * v.y + m[2][2] * v.z}; }
    V3d col(int j) const { return {m[0][j], m[1][j], m[2][j]}; }
    // a normal: cofactors, so that mirrored maps keep the side that it points to
    V3d nor(const V3d& n) const
    {
        V3d a = col(0), b = col(1), c = col(2);
        double det = glm::dot(a, crs(b, c));
        V3d r = (crs(b, c) * n.x + crs(c, a) * n.y + crs(a, b) * n.z) * (det < 0 ? -1.0 : 1.0);
        return nrm(r);
    }
    double det() const { return glm::dot(col(0), crs(col(1), col(2))); }
    M4 operator*(const M4& o) const
    {
        M4 r;
        for (int i = 0; i < 3; ++i)
            for (int j = 0; j < 4; ++j) r.m[i][j] = m[i][0] * o.m[0][j] + m[i][1] * o.m[1][j] + m[i][2] * o.m[2][j] + (j == 3 ? m[i][3] : 0);
        return r;
    }
};
static M4 trs(const V3d& t, const V3d& ax, double an, const V3d& s)
{
    M4 r;
    V3d e[3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    for (int j = 0; j < 3; ++j) {
        V3d x = rot(ax, an, e[j]) * s[j];
        r.m[0][j] = x.x, r.m[1][j] = x.y, r.m[2][j] = x.z;
    }
    r.m[0][3] = t.x, r.m[1][3] = t.y, r.m[2][3] = t.z;
    return r;
}
// ---- images: four cells of one colour each
struct Img {
    int w = 8, h = 8;
    int fmt = 0, tag = 0; // png, tga, bmp, jpeg, hdr; a png's colour space: not said, sRGB, gamma 1/2.2, gamma 1/2, linear, a profile
    bool alpha = false, lost = false; // lost: there is no such file, or no image in it
    int px[4][4]; // cell (left to right, top to bottom), channel
    std::string uri;
    int view = -1;
};
static void append(png_structp p, png_bytep d, png_size_t n)
{
    auto* b = static_cast<std::string*>(png_get_io_ptr(p));
    b->append(reinterpret_cast<char*>(d), n);
}
static std::string png(const Img& im)
{
    std::string out;
    png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, nullptr, nullptr, nullptr);
    png_infop inf = png_create_info_struct(p);
    int ch = im.alpha ? 4 : 3;
    std::vector<std::vector<png_byte>> rows(std::size_t(im.h), std::vector<png_byte>(std::size_t(im.w * ch)));
    for (int y = 0; y < im.h; ++y)
        for (int x = 0; x < im.w; ++x)
            for (int k = 0; k < ch; ++k) rows[std::size_t(y)][std::size_t(x * ch + k)] = png_byte(im.px[(y * 2 / im.h) * 2 + x * 2 / im.w][k]);
    std::vector<png_bytep> ptr;
    for (auto& r : rows) ptr.push_back(r.data());
    png_set_write_fn(p, &out, append, nullptr);
    png_set_IHDR(p, inf, png_uint_32(im.w), png_uint_32(im.h), 8, im.alpha ? PNG_COLOR_TYPE_RGB_ALPHA : PNG_COLOR_TYPE_RGB, PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT);
    if (im.tag == 1) png_set_sRGB(p, inf, PNG_sRGB_INTENT_PERCEPTUAL);
    if (im.tag == 2) png_set_gAMA(p, inf, 0.45455);
    if (im.tag == 3) png_set_gAMA(p, inf, 0.5);
    if (im.tag == 4) png_set_gAMA(p, inf, 1.0);
    if (im.tag == 5) { // a profile without tags
        std::string q(132, 0);
        q[3] = char(132), q[8] = 2, q.replace(12, 12, "mntrRGB XYZ "), q.replace(36, 4, "acsp");
        q.replace(68, 12, std::string("\x00\x00\xf6\xd6\x00\x01\x00\x00\x00\x00\xd3\x2d", 12));
        png_set_iCCP(p, inf, "profile", PNG_COMPRESSION_TYPE_BASE, reinterpret_cast<png_const_bytep>(q.data()), 132);
    }
    png_set_rows(p, inf, ptr.data());
    png_write_png(p, inf, PNG_TRANSFORM_IDENTITY, nullptr);
    png_destroy_write_struct(&p, &inf);
    return out;
}
static std::string jpeg(Img& im) // each cell is whole blocks: one colour, which is close to the one asked for; the image is told which
{
    std::vector<unsigned char> p, q(std::size_t(im.w * im.h * 3));
    for (int y = 0; y < im.h; ++y)
        for (int x = 0; x < im.w; ++x)
            for (int k = 0; k < 3; ++k) p.push_back(static_cast<unsigned char>(im.px[(y * 2 / im.h) * 2 + x * 2 / im.w][k]));
    tjhandle e = tjInitCompress(), d = tjInitDecompress();
    unsigned char* out = nullptr;
    unsigned long n = 0;
    tjCompress2(e, p.data(), im.w, 0, im.h, TJPF_RGB, &out, &n, TJSAMP_444, 100, TJFLAG_ACCURATEDCT);
    tjDecompress2(d, out, n, q.data(), im.w, 0, im.h, TJPF_RGB, TJFLAG_ACCURATEDCT);
    std::string s(reinterpret_cast<char*>(out), n);
    tjFree(out), tjDestroy(e), tjDestroy(d);
    for (int k = 0; k < 4; ++k)
        for (int j = 0; j < 3; ++j) im.px[k][j] = q[std::size_t(((k / 2 * im.h / 2 + im.h / 4) * im.w + k % 2 * im.w / 2 + im.w / 4) * 3 + j)];
    return s;
}
static std::string picture(Img& im, bool down)
{
    if (im.fmt == 0) return png(im);
    if (im.fmt == 3) return jpeg(im);
    if (im.fmt == 4) {
        std::string o = "#?RADIANCE\nFORMAT=32-bit_rle_rgbe\n\n-Y " + std::to_string(im.h) + " +X " + std::to_string(im.w) + "\n";
        for (int y = 0; y < im.h; ++y)
            for (int x = 0; x < im.w; ++x) {
                auto& q = im.px[(y * 2 / im.h) * 2 + x * 2 / im.w];
                o += char(q[0]), o += char(q[1]), o += char(q[2]), o += char(128);
            }
        return o;
    }
    int n = im.alpha ? 4 : 3;
    std::string o;
    auto le = [&](unsigned v, int k) { while (k--) o += char(v & 255), v >>= 8; };
    if (im.fmt == 1) {
        le(0, 2), o += char(2), le(0, 9), le(unsigned(im.w), 2), le(unsigned(im.h), 2), o += char(8 * n), o += char((down ? 0x20 : 0) | (im.alpha ? 8 : 0));
    } else {
        unsigned row = unsigned(im.w * 3 + 3) / 4 * 4;
        o = "BM", le(54 + row * unsigned(im.h), 4), le(0, 4), le(54, 4), le(40, 4), le(unsigned(im.w), 4), le(unsigned(down ? -im.h : im.h), 4), le(1, 2), le(24, 2), le(0, 4), le(row * unsigned(im.h), 4), le(2835, 4), le(2835, 4), le(0, 8);
    }
    for (int r = 0; r < im.h; ++r) {
        int y = down ? r : im.h - 1 - r;
        for (int x = 0; x < im.w; ++x) {
            auto& q = im.px[(y * 2 / im.h) * 2 + x * 2 / im.w];
            for (int k : {2, 1, 0}) o += char(q[k]);
            if (im.alpha) o += char(q[3]);
        }
        if (im.fmt == 2) le(0, (4 - im.w * 3 % 4) % 4);
    }
    return o;
}
static std::string base64(const std::string& s)
{
    static const char* t = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string o;
    for (std::size_t i = 0; i < s.size(); i += 3) {
        unsigned v = 0;
        int n = int(std::min<std::size_t>(3, s.size() - i));
        for (int k = 0; k < 3; ++k) v = v << 8 | (k < n ? static_cast<unsigned char>(s[i + std::size_t(k)]) : 0u);
        for (int k = 0; k < 4; ++k) o += k <= n ? t[(v >> (18 - 6 * k)) & 63] : '=';
    }
    return o;
}
static double lin(double v) { return v <= 0.04045 ? v / 12.92 : std::pow((v + 0.055) / 1.055, 2.4); }
// ---- what is written
struct Mtl {
    double base[4] = {1, 1, 1, 1}, metal = 1, rough = 1, emit[3] = {0, 0, 0};
    int tb = -1, tmr = -1, tn = -1, te = -1; // images
};
struct Tri {
    int v[3];
    int cell;
};
struct Part {
    std::vector<V3d> p, n, col;
    std::vector<std::array<double, 2>> uv;
    std::vector<std::array<double, 4>> tan;
    std::vector<Tri> t;
    bool has_n = false, has_uv = false, has_col = false, has_tan = false;
    int mat = -1;
    std::string name; // as it is called after loading
};
struct MeshF {
    std::string name;
    std::vector<Part> parts;
};
struct NodeF {
    M4 m;
    std::string json;
    int mesh = -1, parent = -1;
    std::vector<int> kids;
};
struct File {
    std::vector<Img> img;
    std::vector<Mtl> mat;
    std::vector<MeshF> mesh;
    std::vector<NodeF> node;
    std::string path;
};
static std::string num(double v)
{
    std::ostringstream o;
    o << std::setprecision(9) << v;
    return o.str();
}
template <class C> static std::string arr(const C& v)
{
    std::string s = "[";
    for (std::size_t i = 0; i < std::size(v); ++i) s += (i ? "," : "") + num(double(v[i]));
    return s + "]";
}
static double f32(double v) { return double(float(v)); }
static V3d f32(const V3d& v) { return {f32(v.x), f32(v.y), f32(v.z)}; }
static Part part(Ctx& c, int nmat)
{
    Part q;
    q.has_n = c.boolean(), q.has_uv = c.chance(3, 4), q.has_col = c.chance(1, 3);
    q.has_tan = q.has_n && q.has_uv && c.boolean();
    if (nmat > 0 && c.chance(5, 6)) q.mat = int(c.below(std::uint64_t(nmat)));
    int nt = int(c.range(1, 5));
    for (int i = 0; i < nt; ++i) {
        Tri t;
        t.cell = int(c.below(4));
        V3d a, b, d;
        V3d o = hc::vec(c, 3);
        do {
            a = f32(o + hc::unit_vec(c)), b = f32(o + hc::unit_vec(c)), d = f32(o + hc::unit_vec(c));
        } while (len(crs(b - a, d - a)) < 0.5);
        V3d pos[3] = {a, b, d}, g = nrm(crs(b - a, d - a));
        // texture coordinates well inside the cell, not all on a line
        double u0 = 0.5 * (t.cell % 2) + 0.25, v0 = 0.5 * (t.cell / 2) + 0.25, th = c.uniform(0, 6.28), fl = c.boolean() ? 1 : -1;
        V3d T0 = V3d(0, 0, 0);
        for (int k = 0; k < 3; ++k) {
            t.v[k] = int(q.p.size());
            q.p.push_back(pos[k]);
            V3d n = nrm(g + hc::unit_vec(c) * 0.3);
            q.n.push_back(q.has_n ? f32(n) : g);
            q.col.push_back(f32(V3d(c.uniform(0, 1), c.uniform(0, 1), c.uniform(0, 1))));
            q.uv.push_back({f32(u0 + 0.1 * std::cos(th + fl * 2.1 * k)), f32(v0 + 0.1 * std::sin(th + fl * 2.1 * k))});
            V3d tg = nrm(perp(q.n.back()));
            (void)T0;
            q.tan.push_back({f32(tg.x), f32(tg.y), f32(tg.z), c.boolean() ? 1.0 : -1.0});
        }
        for (int k = 1; k < 3; ++k) q.tan[std::size_t(t.v[k])][3] = q.tan[std::size_t(t.v[0])][3];
        q.t.push_back(t);
    }
    return q;
}
static File generate(Ctx& c, const std::string& dir)
{
    File f;
    int ni = int(c.range(0, 3)), nm = int(c.range(0, 3));
    for (int i = 0; i < ni; ++i) {
        Img im;
        im.w = 8 * int(c.range(1, 2)), im.h = 8 * int(c.range(1, 2));
        im.alpha = c.chance(1, 3);
        im.fmt = c.chance(2, 5) ? c.range(1, 4) : 0;
        if (im.fmt == 3) im.w = im.h = 16;
        if (im.fmt >= 3) im.alpha = false;
        im.tag = im.fmt ? 0 : c.range(0, 5);
        im.lost = c.chance(1, 12);
        for (auto& p : im.px) {
            for (int k = 0; k < 3; ++k) p[k] = int(c.range(0, 255));
            p[3] = int(c.range(0, 255));
            if (im.fmt == 4)
                for (int& v : p) v = std::max(v, 3); // not the mark of a run
        }
        f.img.push_back(im);
    }
    auto tex = [&] { return ni > 0 && c.boolean() ? int(c.below(std::uint64_t(ni))) : -1; };
    for (int i = 0; i < nm; ++i) {
        Mtl m;
        if (c.boolean())
            for (double& x : m.base) x = f32(c.uniform(0, 1));
        if (c.boolean()) m.metal = f32(c.uniform(0, 1));
        if (c.boolean()) m.rough = f32(c.uniform(0, 1));
        if (c.boolean())
            for (double& x : m.emit) x = f32(c.uniform(0, 1));
        m.tb = tex(), m.tmr = tex(), m.tn = tex(), m.te = tex();
        f.mat.push_back(m);
    }
    auto there = [&](int& i) {
        if (i >= 0 && f.img[std::size_t(i)].lost) i = -1;
    };
    std::vector<Mtl> written;
    // a normal map needs normals: points up and out
    for (auto& m : f.mat)
        if (m.tn >= 0)
            for (auto& p : f.img[std::size_t(m.tn)].px) p[0] = 64 + p[0] / 2, p[1] = 64 + p[1] / 2, p[2] = 160 + p[2] * 95 / 255;
    int nmesh = int(c.range(1, 3));
    for (int i = 0; i < nmesh; ++i) {
        MeshF m;
        static const char* pre[] = {"mesh", "m sh ", "me.sh/", "\xc3\xa9t\xc3\xa9-", "A_", "\xe2\x98\x83"};
        m.name = c.chance(1, 4) ? "same" : pre[c.below(6)] + std::to_string(i);
        int np = c.chance(1, 3) ? 2 : 1;
        for (int k = 0; k < np; ++k) m.parts.push_back(part(c, nm));
        f.mesh.push_back(m);
    }
    int nn = int(c.range(1, 6));
    for (int i = 0; i < nn; ++i) {
        NodeF n;
        // a tree in depth-first or breadth-first order, with one root or several
        n.parent = i == 0 ? -1 : c.chance(1, 5) ? -1 : int(c.below(std::uint64_t(i)));
        if (i == nn - 1 || c.chance(3, 4)) n.mesh = int(c.below(std::uint64_t(nmesh)));
        f.node.push_back(n);
        if (n.parent >= 0) f.node[std::size_t(n.parent)].kids.push_back(i);
    }
    for (auto& n : f.node) {
        V3d t = c.chance(1, 4) ? V3d(0, 0, 0) : f32(hc::vec(c, 4)), s(1, 1, 1), ax = hc::unit_vec(c);
        double an = c.chance(1, 4) ? 0 : c.uniform(-3, 3);
        if (c.chance(1, 2)) s = V3d(1, 1, 1) * f32(c.logreal(0.5, 2));
        if (n.kids.empty() && c.chance(1, 2)) s = f32(V3d(c.logreal(0.5, 2), c.logreal(0.5, 2), c.logreal(0.5, 2)));
        if (n.kids.empty() && c.chance(1, 5)) {
            int k = int(c.range(1, 7));
            s = {k & 1 ? -s.x : s.x, k & 2 ? -s.y : s.y, k & 4 ? -s.z : s.z};
            c.label("mirrored node");
        }
        n.m = trs(t, ax, an, s);
        if (c.boolean()) {
            n.json = "\"matrix\":[";
            for (int j = 0; j < 4; ++j)
                for (int i = 0; i < 4; ++i) n.json += (i || j ? "," : "") + num(i == 3 ? (j == 3 ? 1.0 : 0.0) : n.m.m[i][j]);
            n.json += "]";
        } else {
            double q[4] = {ax.x * std::sin(an / 2), ax.y * std::sin(an / 2), ax.z * std::sin(an / 2), std::cos(an / 2)};
            n.json = "\"translation\":" + arr(std::array{t.x, t.y, t.z}) + ",\"rotation\":" + arr(q) + ",\"scale\":" + arr(std::array{s.x, s.y, s.z});
        }
    }
    // ---- the file
    std::string bin, views, accs;
    int nv = 0, na = 0;
    auto view = [&](const std::string& d) {
        while (bin.size() % 4) bin += '\0';
        views += (nv ? "," : "") + std::string("{\"buffer\":0,\"byteOffset\":") + std::to_string(bin.size()) + ",\"byteLength\":" + std::to_string(d.size()) + "}";
        bin += d;
        return nv++;
    };
    auto acc = [&](int v, int type, std::size_t n, const char* kind, const std::string& extra = "") {
        accs += (na ? "," : "") + std::string("{\"bufferView\":") + std::to_string(v) + ",\"componentType\":" + std::to_string(type) + ",\"count\":" + std::to_string(n) + ",\"type\":\"" + kind + "\"" + extra + "}";
        return na++;
    };
    auto floats = [](std::initializer_list<double> l, std::string& s) {
        for (double d : l) {
            float x = float(d);
            s.append(reinterpret_cast<const char*>(&x), 4);
        }
    };
    std::string meshes;
    int store = int(c.below(3)); // 0: .gltf and .bin, 1: .gltf with everything inside, 2: .glb
    for (auto& m : f.mesh) {
        meshes += (meshes.empty() ? "" : ",") + std::string("{\"name\":\"") + m.name + "\",\"primitives\":[";
        for (std::size_t k = 0; k < m.parts.size(); ++k) {
            Part& q = m.parts[k];
            std::string s, at;
            V3d lo(1e9), hi(-1e9);
            for (auto& p : q.p) floats({p.x, p.y, p.z}, s), lo = glm::min(lo, p), hi = glm::max(hi, p);
            at = "\"POSITION\":" + std::to_string(acc(view(s), 5126, q.p.size(), "VEC3", ",\"min\":" + arr(std::array{lo.x, lo.y, lo.z}) + ",\"max\":" + arr(std::array{hi.x, hi.y, hi.z})));
            if (q.has_n) {
                s.clear();
                for (auto& p : q.n) floats({p.x, p.y, p.z}, s);
                at += ",\"NORMAL\":" + std::to_string(acc(view(s), 5126, q.p.size(), "VEC3"));
            }
            if (q.has_uv) {
                s.clear();
                for (auto& p : q.uv) floats({p[0], p[1]}, s);
                at += ",\"TEXCOORD_0\":" + std::to_string(acc(view(s), 5126, q.p.size(), "VEC2"));
            }
            if (q.has_tan) {
                s.clear();
                for (auto& p : q.tan) floats({p[0], p[1], p[2], p[3]}, s);
                at += ",\"TANGENT\":" + std::to_string(acc(view(s), 5126, q.p.size(), "VEC4"));
            }
            if (q.has_col) {
                s.clear();
                for (auto& p : q.col) floats({p.x, p.y, p.z}, s);
                at += ",\"COLOR_0\":" + std::to_string(acc(view(s), 5126, q.p.size(), "VEC3"));
            }
            int it = int(c.below(4)); // no indices, bytes, shorts, words
            std::string ix;
            if (it) {
                s.clear();
                for (auto& t : q.t)
                    for (int v : t.v) {
                        std::uint32_t x = std::uint32_t(v);
                        s.append(reinterpret_cast<const char*>(&x), it == 1 ? 1 : it == 2 ? 2 : 4);
                    }
                ix = ",\"indices\":" + std::to_string(acc(view(s), it == 1 ? 5121 : it == 2 ? 5123 : 5125, q.t.size() * 3, "SCALAR"));
            }
            meshes += (k ? "," : "") + std::string("{\"attributes\":{") + at + "}" + ix + (q.mat >= 0 ? ",\"material\":" + std::to_string(q.mat) : "") + "}";
        }
        meshes += "]}";
    }
    std::string images, textures;
    for (std::size_t i = 0; i < f.img.size(); ++i) {
        std::string j;
        if (f.img[i].fmt == 2) f.img[i].alpha = false;
        std::string d = picture(f.img[i], c.boolean());
        std::string ext = std::vector<std::string>{"png", "tga", "bmp", "jpg", "hdr"}[std::size_t(f.img[i].fmt)], mime = ext == "jpg" ? "jpeg" : ext;
        if (ext == "jpg" && c.boolean()) ext = "jpeg";
        if (c.chance(1, 4))
            for (char& q : ext) q = c.boolean() ? char(std::toupper(q)) : q;
        int how = store == 2 ? int(c.below(2)) * 2 : int(c.below(3)); // a file, a data URI, a view of the buffer
        if (f.img[i].lost) {
            int bad = int(c.below(4)); // no file, a file of something else, half an image, an empty one
            std::string nm = "tex" + std::to_string(i) + "." + ext, e = bad == 1 ? std::string(100, 'x') : bad == 2 ? d.substr(0, d.size() / 2) : "";
            std::filesystem::remove(dir + "/" + nm); // of an earlier case
            if (bad && how == 0) std::ofstream(dir + "/" + nm, std::ios::binary) << e;
            if (bad == 0 || how == 0 || e.empty()) j = "\"uri\":\"" + nm + "\"";
            else if (how == 1) j = "\"uri\":\"data:image/" + mime + ";base64," + base64(e) + "\"";
            else j = "\"mimeType\":\"image/" + mime + "\",\"bufferView\":" + std::to_string(view(e));
            c.label("lost image");
        } else if (how == 0) {
            std::string stem = "tex" + std::to_string(i), uri = stem, to = dir;
            switch (c.below(6)) { // characters that a URI has to escape, or may; a folder
            case 0: stem += " a b", uri += "%20a%20b"; break;
            case 1: stem += "%c3#x", uri += "%25c3%23x"; break;
            case 2: stem += "ü", uri += c.boolean() ? "%C3%bc" : "ü"; break;
            case 3: uri = "%74ex" + std::to_string(i); break;
            case 4: std::filesystem::create_directories(to += "/sub dir"), uri = "sub%20dir/" + stem; break;
            default: break;
            }
            if (uri != stem) c.label("escaped name");
            std::string nm = stem + "." + ext;
            if (ext != "png") c.label("other picture file");
            std::ofstream(to + "/" + nm, std::ios::binary) << d;
            j = "\"uri\":\"" + uri + "." + ext + "\"";
        } else if (how == 1)
            j = "\"uri\":\"data:image/" + mime + ";base64," + base64(d) + "\"";
        else
            j = "\"mimeType\":\"image/" + mime + "\",\"bufferView\":" + std::to_string(view(d));
        if (how) c.label("embedded image");
        images += (i ? "," : "") + std::string("{") + j + "}";
        textures += (i ? "," : "") + std::string("{\"source\":") + std::to_string(i) + "}";
    }
    std::string mats;
    written = f.mat;
    for (auto& m : f.mat) there(m.tb), there(m.tmr), there(m.tn), there(m.te);
    for (auto& m : written) {
        auto t = [&](const char* n, int i) { return i < 0 ? std::string() : std::string(",\"") + n + "\":{\"index\":" + std::to_string(i) + "}"; };
        mats += (mats.empty() ? "" : ",") + std::string("{\"name\":\"") + (c.boolean() ? "m" : "n") + "\",\"alphaMode\":\"BLEND\",\"pbrMetallicRoughness\":{\"baseColorFactor\":" + arr(m.base) + ",\"metallicFactor\":" + num(m.metal) + ",\"roughnessFactor\":" + num(m.rough) + t("baseColorTexture", m.tb) +
                t("metallicRoughnessTexture", m.tmr) + "},\"emissiveFactor\":" + arr(m.emit) + t("normalTexture", m.tn) + t("emissiveTexture", m.te) + "}";
    }
    std::string nodes, roots;
    for (std::size_t i = 0; i < f.node.size(); ++i) {
        auto& n = f.node[i];
        std::string k;
        for (int x : n.kids) k += (k.empty() ? "" : ",") + std::to_string(x);
        nodes += (i ? "," : "") + std::string("{") + n.json + (n.mesh >= 0 ? ",\"mesh\":" + std::to_string(n.mesh) : "") + (k.empty() ? "" : ",\"children\":[" + k + "]") + (c.boolean() ? ",\"name\":\"n" + std::to_string(c.below(3)) + "\"" : "") + "}";
        if (n.parent < 0) roots += (roots.empty() ? "" : ",") + std::to_string(i);
    }
    while (bin.size() % 4) bin += '\0';
    std::string buf = "{\"byteLength\":" + std::to_string(bin.size());
    if (store == 0) {
        std::ofstream(dir + "/data.bin", std::ios::binary) << bin;
        buf += ",\"uri\":\"data.bin\"";
    } else if (store == 1)
        buf += ",\"uri\":\"data:application/octet-stream;base64," + base64(bin) + "\"";
    buf += "}";
    std::string js = "{\"asset\":{\"version\":\"2.0\"},\"scene\":0,\"scenes\":[{\"nodes\":[" + roots + "]}],\"nodes\":[" + nodes + "],\"meshes\":[" + meshes + "],\"buffers\":[" + buf + "],\"bufferViews\":[" + views + "],\"accessors\":[" + accs + "]";
    if (!mats.empty()) js += ",\"materials\":[" + mats + "]";
    if (!images.empty()) js += ",\"images\":[" + images + "],\"textures\":[" + textures + "]";
    js += "}";
    f.path = dir + "/model" + (store == 2 ? ".glb" : ".gltf");
    std::ofstream o(f.path, std::ios::binary);
    if (store == 2) {
        while (js.size() % 4) js += ' ';
        auto u = [&](std::uint32_t v) { o.write(reinterpret_cast<const char*>(&v), 4); };
        u(0x46546C67), u(2), u(std::uint32_t(28 + js.size() + bin.size()));
        u(std::uint32_t(js.size())), u(0x4E4F534A);
        o << js;
        u(std::uint32_t(bin.size())), u(0x004E4942);
        o << bin;
    } else
        o << js;
    c.note("store", store == 0 ? ".gltf+.bin" : store == 1 ? ".gltf" : ".glb");
    return f;
}
// ---- the triangles as they should stand before the camera
struct W {
    V3d p[3];
    const Part* part;
    const Tri* tri;
    M4 m;
    int idx;
};
static bool ray(const W& w, const V3d& o, const V3d& d, double& t, double bc[3])
{
    V3d e1 = w.p[1] - w.p[0], e2 = w.p[2] - w.p[0], h = crs(d, e2);
    double a = glm::dot(e1, h);
    if (a == 0) return false;
    V3d s = o - w.p[0], q = crs(s, e1);
    bc[1] = glm::dot(s, h) / a, bc[2] = glm::dot(d, q) / a, bc[0] = 1 - bc[1] - bc[2], t = glm::dot(e2, q) / a;
    return t > 0;
}
static double edge(const double bc[3]) { return std::min({bc[0], bc[1], bc[2]}); }
// rays at the triangles; returns how many were judged
static int shoot(Ctx& c, const SceneView<S>& view, const std::vector<W>& ws, int n, int& mirrored, int& tangents)
{
    int judged = 0;
    for (int q = 0; q < n; ++q) {
        const W& w = ws[c.below(ws.size())];
        double b1 = c.uniform(0.05, 0.9), b2 = c.uniform(0.05, 0.95 - b1);
        V3d x = w.p[0] * (1 - b1 - b2) + w.p[1] * b1 + w.p[2] * b2;
        V3d d = hc::unit_vec(c), o = x - d * c.uniform(0.1, 40);
        V3d of(double(float(o.x)), double(float(o.y)), double(float(o.z)));
        Ray<S> rr{Vec3<float>(of), Vec3<float>(d)};
        V3d df(rr.direction());
        const W* best = nullptr;
        double bt = 1e30, bb[3], second = 1e30;
        bool unclear = false;
        for (auto& v : ws) {
            double tt, bc[3];
            if (!ray(v, of, df, tt, bc)) continue;
            double m = edge(bc), g = std::abs(glm::dot(df, nrm(crs(v.p[1] - v.p[0], v.p[2] - v.p[0]))));
            if (m < -2e-3) continue;
            if (m < 2e-3 || g < 0.05 || tt < 1e-2) {
                unclear = true;
                continue;
            }
            if (tt < bt) second = bt, bt = tt, best = &v, std::copy(bc, bc + 3, bb);
            else second = std::min(second, tt);
        }
        if (unclear || !best || second - bt < 1e-2) continue;
        auto hit = view.intersect(rr);
        PBT_CHECK("hit", hit.hit() && std::abs(hit.t - bt) < 1e-3 * (1 + bt), "a ray meets a triangle of node " << best->idx << " at " << (hit.hit() ? hit.t : -1.f) << ", want " << bt << (best->m.det() < 0 ? " (mirrored)" : ""));
        auto is = view.resolve_hit(rr, hit);
        const Part& p = *best->part;
        auto mix = [&](auto&& get) { return get(best->tri->v[0]) * bb[0] + get(best->tri->v[1]) * bb[1] + get(best->tri->v[2]) * bb[2]; };
        V3d pos = of + df * bt;
        PBT_CHECK("position", len(V3d(is.position) - pos) < 2e-3 * (1 + bt), "the point resolves " << len(V3d(is.position) - pos) << " away");
        V3d gn = nrm(crs(best->p[1] - best->p[0], best->p[2] - best->p[0]));
        PBT_CHECK("normal_g", std::abs(glm::dot(V3d(is.normal_g), gn)) > 1 - 1e-4, "the geometric normal is off by " << std::acos(std::min(1.0, std::abs(glm::dot(V3d(is.normal_g), gn)))));
        V3d ns = best->m.nor(mix([&](int i) { return p.n[std::size_t(i)]; }));
        if (!p.has_n) ns = best->m.nor(p.n[std::size_t(best->tri->v[0])]); // flat
        double al = std::abs(glm::dot(nrm(V3d(is.normal_s)), ns));
        PBT_CHECK("normal_s", al > 1 - 1e-3, "the shading normal is off by " << std::acos(std::min(1.0, al)) << (p.has_n ? "" : " (flat)"));
        if (p.has_uv) { // tangents run along u
            V3d want;
            const auto& v = best->tri->v;
            auto U = [&](int k) { return p.uv[std::size_t(v[k])]; };
            auto X = [&](int k) { return p.p[std::size_t(v[k])]; };
            double a1 = U(1)[0] - U(0)[0], b1 = U(1)[1] - U(0)[1], a2 = U(2)[0] - U(0)[0], b2 = U(2)[1] - U(0)[1], det = a1 * b2 - a2 * b1;
            V3d du = ((X(1) - X(0)) * b2 - (X(2) - X(0)) * b1) / det, dv = ((X(2) - X(0)) * a1 - (X(1) - X(0)) * a2) / det;
            if (p.has_tan) want = mix([&](int i) { return V3d(p.tan[std::size_t(i)][0], p.tan[std::size_t(i)][1], p.tan[std::size_t(i)][2]); });
            else want = mix([&](int i) {
                V3d n = p.n[std::size_t(i)], t = nrm(du);
                return nrm(t - n * glm::dot(n, t));
            });
            if (len(want) > 0.2) {
                want = nrm(best->m.dir(want));
                double ct = glm::dot(nrm(V3d(is.tangent)), want);
                PBT_CHECK("tangent", ct > 1 - 1e-3, "the tangent is off by " << std::acos(std::clamp(ct, -1.0, 1.0)) << (p.has_tan ? "" : " (computed)"));
                ++tangents;
                // the other axis, up in the image, where the image is not seen in a mirror
                if (!p.has_tan && !p.has_n && best->m.det() > 0 && glm::dot(crs(du, -dv), p.n[std::size_t(v[0])]) > 0 && glm::dot(df, gn) < 0) {
                    double cb = glm::dot(nrm(V3d(is.bitangent)), nrm(best->m.dir(-dv)));
                    PBT_CHECK("bitangent", cb > 0.5 || std::abs(glm::dot(nrm(du), nrm(dv))) > 0.1, "the bitangent does not run up the image: " << cb);
                }
            }
        }
        if (p.has_uv) {
            double u = mix([&](int i) { return p.uv[std::size_t(i)][0]; }), v = mix([&](int i) { return p.uv[std::size_t(i)][1]; });
            PBT_CHECK("uv", std::abs(is.uv.x - u) + std::abs(is.uv.y - v) < 2e-3, "texture coordinates " << is.uv.x << "," << is.uv.y << " want " << u << "," << v);
        }
        V3d vc = p.has_col ? mix([&](int i) { return p.col[std::size_t(i)]; }) : V3d(1, 1, 1);
        for (int k = 0; k < 3; ++k) PBT_CHECK("colour", std::abs(is.vertex_albedo[std::size_t(k)] - vc[k]) < 3e-3, "vertex colour " << is.vertex_albedo[std::size_t(k)] << " want " << vc[k]);
        ++judged, mirrored += best->m.det() < 0;
    }
    return judged;
}
PROP(gltf, 3000, 40000)
{
    std::string dir = pbt::scratch();
    File f = generate(c, dir);
    Rig r(c, 10);
    auto h = r.sc->load_model(f.path, c.boolean() ? "it" : "");
    PBT_CHECK("name", h.name() == (h.name() == "it" ? "it" : "model") && r.sc->get_model(h.name()).id() == h.id() && h.get()->source_path() == f.path, "the model is called \"" << h.name() << "\"");
    IH in = r.top.new_instance(h);
    V3d t(hc::vec(c, 5)), ax = hc::unit_vec(c);
    double an = c.uniform(-3, 3), sc = c.logreal(0.3, 3);
    t.z += 30;
    r.place(in, t, ax, an, V3d(sc));
    M4 top = trs(t, ax, an, V3d(sc));
    std::vector<W> ws;
    std::vector<M4> at(f.node.size());
    for (std::size_t i = 0; i < f.node.size(); ++i) {
        auto& n = f.node[i];
        at[i] = (n.parent < 0 ? top : at[std::size_t(n.parent)]) * n.m;
        if (n.mesh < 0) continue;
        for (auto& q : f.mesh[std::size_t(n.mesh)].parts)
            for (auto& tr : q.t) {
                W w;
                for (int k = 0; k < 3; ++k) w.p[k] = at[i].pt(q.p[std::size_t(tr.v[k])]);
                w.part = &q, w.tri = &tr, w.m = at[i], w.idx = int(i);
                ws.push_back(w);
            }
    }
    // which material stands behind a hit is read off the primitive with the same mesh
    auto view = SceneView<S>(*r.sc, Interval(Time::from_et(0), Time::from_et(0)), r.camera, ObservationMode::TRUE_STATE);
    if (ws.empty()) {
        PBT_CHECK("empty", !view.intersect(Ray<S>(Vec3<float>(0), Vec3<float>(0, 0, 1))).hit(), "a model without meshes is hit");
        return;
    }
    // the materials of each mesh
    std::map<std::string, int> uses;
    int mirrored = 0, tangents = 0, judged = shoot(c, view, ws, 24, mirrored, tangents);
    // ---- every mesh with its material
    auto used = [&](const MeshF& m) {
        for (auto& n : f.node)
            if (n.mesh == int(&m - f.mesh.data())) return true;
        return false;
    };
    std::vector<std::string> names;
    for (auto& m : f.mesh)
        for (std::size_t k = 0; k < m.parts.size() && used(m); ++k) {
            std::string n = m.name + (m.parts.size() > 1 ? "-" + std::to_string(k) : "");
            int u = uses[n]++;
            m.parts[k].name = u ? n + "_" + std::to_string(u) : n;
        }
    for (auto& m : f.mesh)
        for (auto& p : m.parts) {
            if (!used(m) || m.name == "same") continue; // such a mesh need not be read, or has a name that others may have
            std::optional<PrimitiveHandle<S>> ph;
            if (hc::throws([&] { ph = r.sc->get_primitive(p.name); })) {
                PBT_CHECK("primitive", false, "there is no primitive called \"" << p.name << "\"");
            }
            auto pr = ph->get();
            Mtl d; // glTF's default material
            const Mtl& mt = p.mat >= 0 ? f.mat[std::size_t(p.mat)] : d;
            const Tri& tr = p.t[c.below(p.t.size())];
            Interaction<S> is{};
            is.normal_g = is.normal_s = Vec3<float>(0, 0, 1), is.tangent = Vec3<float>(1, 0, 0), is.bitangent = Vec3<float>(0, 1, 0), is.wo = Vec3<float>(0, 0, 1);
            bool tx = p.has_uv;
            if (tx) is.uv = {float((p.uv[std::size_t(tr.v[0])][0] + p.uv[std::size_t(tr.v[1])][0] + p.uv[std::size_t(tr.v[2])][0]) / 3), float((p.uv[std::size_t(tr.v[0])][1] + p.uv[std::size_t(tr.v[1])][1] + p.uv[std::size_t(tr.v[2])][1]) / 3)};
            else continue; // which texel belongs to a mesh without coordinates is not defined
            auto e = pr->material->evaluate(is);
            auto px = [&](int im, int k) { return im < 0 ? 1.0 : f.img[std::size_t(im)].px[tr.cell][k] / (f.img[std::size_t(im)].fmt == 4 ? 256.0 : 255.0); };
            auto col = [&](int im, int k) { 
                if (im < 0) return 1.0;
                int tag = f.img[std::size_t(im)].tag;
                return tag == 4 || f.img[std::size_t(im)].fmt == 4 ? px(im, k) : tag == 3 ? px(im, k) * px(im, k) : lin(px(im, k));
            };
            for (int k = 0; k < 3; ++k) {
                PBT_CHECK("base", std::abs(e.params.albedo[std::size_t(k)] - mt.base[k] * col(mt.tb, k)) < 2e-3, "base colour " << e.params.albedo[std::size_t(k)] << " want " << mt.base[k] << " x " << col(mt.tb, k));
                PBT_CHECK("emission", std::abs(e.params.emission[std::size_t(k)] - mt.emit[k] * col(mt.te, k)) < 2e-3, "emission " << e.params.emission[std::size_t(k)] << " want " << mt.emit[k] << " x " << col(mt.te, k));
            }
            double al = mt.base[3] * (mt.tb >= 0 && f.img[std::size_t(mt.tb)].alpha ? px(mt.tb, 3) : 1.0);
            PBT_CHECK("alpha", std::abs(e.params.opacity - al) < 2e-3, "opacity " << e.params.opacity << " want " << al);
            PBT_CHECK("metallic", std::abs(e.params.metallic - mt.metal * px(mt.tmr, 2)) < 2e-3, "metallic " << e.params.metallic << " want " << mt.metal << " x " << px(mt.tmr, 2));
            PBT_CHECK("roughness", std::abs(e.params.roughness - mt.rough * px(mt.tmr, 1)) < 2e-3, "roughness " << e.params.roughness << " want " << mt.rough << " x " << px(mt.tmr, 1));
            V3d wn(0, 0, 1);
            if (mt.tn >= 0) wn = nrm(V3d(2 * px(mt.tn, 0) - 1, 2 * px(mt.tn, 1) - 1, 2 * px(mt.tn, 2) - 1));
            PBT_CHECK("normal_map", len(V3d(e.isect.normal_s) - wn) < 5e-3, "the mapped normal is " << hc::show(V3d(e.isect.normal_s)) << " want " << hc::show(wn));
            PBT_CHECK("by_id", h.get_material_by_id(pr->material->id()).id() == pr->material->id(), "get_material_by_id gives another material");
        }
    c.nontrivial(judged > 4 && !f.mat.empty());
    if (mirrored) c.label("mirrored triangle judged");
    if (tangents) c.label("tangents judged");
}

// OBJ files have no nodes: objects, faces of three or more corners, indices from either end
PROP(obj, 1500, 20000)
{
    std::string dir = pbt::scratch(), nl = c.boolean() ? "\n" : "\r\n";
    int no = int(c.range(1, 3)), nv = 0, nt = 0, nn = 0;
    bool colours = c.chance(1, 3);
    std::string out = c.boolean() ? "# a model" + nl : "";
    bool mtl = c.boolean();
    if (mtl) {
        std::ofstream(dir + "/m.mtl") << "newmtl red\nKd 1 0 0\nnewmtl green\nKd 0 1 0\nd 0.5\n";
        out += "mtllib m.mtl" + nl;
    }
    std::vector<Part> ps(static_cast<std::size_t>(no));
    int first = 1;
    for (int o = 0; o < no; ++o) {
        Part& q = ps[std::size_t(o)];
        q.name = "part" + std::to_string(o);
        q.has_uv = c.boolean(), q.has_n = c.boolean(), q.has_col = colours;
        out += "o " + q.name + nl;
        if (mtl) out += std::string("usemtl ") + (c.boolean() ? "red" : "green") + nl;
        int nf = int(c.range(1, 4));
        for (int i = 0; i < nf; ++i) {
            V3d e1 = hc::unit_vec(c), e2 = nrm(e1 + perp(e1) * c.uniform(0.5, 2)) * c.uniform(0.7, 1.5), org = f32(hc::vec(c, 3));
            int k = int(c.range(3, 6));
            std::vector<V3d> p;
            std::vector<std::array<double, 2>> uv;
            double c0 = c.uniform(0, 1), c1 = c.uniform(0, 1);
            for (int j = 0; j < k; ++j) { // a convex polygon in a plane, with coordinates and colours that are linear on it
                double an = 6.283185307 * (j + c.uniform(-0.2, 0.2)) / k, x = std::cos(an), y = std::sin(an);
                p.push_back(f32(org + e1 * x + e2 * y));
                uv.push_back({f32(0.5 + 0.3 * x), f32(0.5 + 0.3 * y)});
            }
            V3d g = nrm(crs(p[1] - p[0], p[2] - p[0])), n = q.has_n ? f32(nrm(g + hc::unit_vec(c) * 0.3)) : g;
            int base = int(q.p.size());
            int v0 = nv, t0 = nt, n0 = nn;
            for (int j = 0; j < k; ++j) {
                V3d col = f32(V3d(uv[std::size_t(j)][0], uv[std::size_t(j)][1], 0.2 + 0.5 * c0));
                out += "v " + num(p[std::size_t(j)].x) + " " + num(p[std::size_t(j)].y) + " " + num(p[std::size_t(j)].z) + (colours ? " " + num(col.x) + " " + num(col.y) + " " + num(col.z) : "") + nl;
                ++nv;
                if (q.has_uv) out += "vt " + num(uv[std::size_t(j)][0]) + " " + num(uv[std::size_t(j)][1]) + nl, ++nt;
                q.p.push_back(p[std::size_t(j)]), q.n.push_back(n), q.col.push_back(col);
                q.uv.push_back({uv[std::size_t(j)][0], 1 - uv[std::size_t(j)][1]}); // files count from the bottom
            }
            if (q.has_n) out += "vn " + num(n.x) + " " + num(n.y) + " " + num(n.z) + nl, ++nn;
            bool neg = c.boolean();
            auto ix = [&](int at, int count) { return std::to_string(neg ? at - count : at + 1); };
            out += "f";
            for (int j = 0; j < k; ++j) {
                out += " " + ix(v0 + j, nv);
                if (q.has_uv) out += "/" + ix(t0 + j, nt);
                if (q.has_n) out += (q.has_uv ? "/" : "//") + ix(n0, nn);
            }
            out += nl;
            for (int j = 1; j + 1 < k; ++j) q.t.push_back({{base, base + j, base + j + 1}, 0});
            (void)c1;
        }
    }
    (void)first;
    if (c.chance(1, 4)) out += "# end";
    std::string path = dir + "/thing.obj";
    std::ofstream(path, std::ios::binary) << out;
    Rig r(c, 10);
    auto h = r.sc->load_model(path, "");
    PBT_CHECK("name", h.name() == "thing", "the model is called \"" << h.name() << "\"");
    IH in = r.top.new_instance(h);
    V3d t(hc::vec(c, 5)), ax = hc::unit_vec(c);
    double an = c.uniform(-3, 3), sc = c.logreal(0.3, 3);
    t.z += 30;
    r.place(in, t, ax, an, V3d(sc));
    M4 top = trs(t, ax, an, V3d(sc));
    std::vector<W> ws;
    for (auto& q : ps)
        for (auto& tr : q.t) {
            W w;
            for (int k = 0; k < 3; ++k) w.p[k] = top.pt(q.p[std::size_t(tr.v[k])]);
            w.part = &q, w.tri = &tr, w.m = top, w.idx = int(&q - ps.data());
            ws.push_back(w);
        }
    auto view = SceneView<S>(*r.sc, Interval(Time::from_et(0), Time::from_et(0)), r.camera, ObservationMode::TRUE_STATE);
    int mirrored = 0, tangents = 0, judged = shoot(c, view, ws, 16, mirrored, tangents);
    for (auto& q : ps) PBT_CHECK("primitive", !hc::throws([&] { r.sc->get_primitive(q.name); }), "there is no primitive called \"" << q.name << "\"");
    c.nontrivial(judged > 3);
}

// What cannot be read leaves the scene as it was
PROP(unreadable, 300, 3000)
{
    std::string dir = pbt::scratch();
    Rig r(c, 10);
    std::string path;
    int k = int(c.below(6));
    const char* ext[] = {".gltf", ".glb", ".obj", ".ply", ".xyz", ""};
    path = dir + "/bad" + ext[c.below(6)];
    std::filesystem::remove_all(path);
    auto put = [&](const std::string& s) { std::ofstream(path, std::ios::binary) << s; };
    if (k == 1) put("");
    else if (k == 2) put("{}");
    else if (k == 3) put("not a model at all");
    else if (k == 4) std::filesystem::create_directory(path);
    else if (k == 5) put("{\"asset\":{\"version\":\"2.0\"},\"meshes\":[");
    bool threw = hc::throws([&] { r.sc->load_model(path, "bad"); });
    if (k == 4) std::filesystem::remove_all(path);
    bool must = k == 0 || (k < 4 && path.ends_with(".gltf")) || path.ends_with("bad"); // other readers take what they understand
    PBT_CHECK("throws", threw || !must, "a model was read from " << path << " (" << k << ")");
    PBT_CHECK("nothing", !threw || hc::throws([&] { r.sc->get_model("bad"); }), "there is a model after the failure");
    c.nontrivial(true);
}
PBT_MAIN
