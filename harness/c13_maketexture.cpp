// C13: texture generation.
//
// A generated image is turned into a texture, and the file is read back level by level.  Level 0
// must be the input; each further level is recomputed here from the stored level above with an
// independent implementation of the filter and wrap rules.
#include "pbt.h"
#include <aqsis/tex/maketexture.h>
#include <aqsis/tex/io/itexinputfile.h>
#include <aqsis/tex/io/itexoutputfile.h>
#include <aqsis/tex/buffers/mixedimagebuffer.h>
#include <aqsis/tex/texexception.h>
#include <tiffio.h>
#include <unistd.h>
using namespace Aqsis; using pbt::fail;

extern "C" {
static RtFloat fBox(RtFloat, RtFloat, RtFloat, RtFloat) { return 1; }
static RtFloat fTri(RtFloat x, RtFloat y, RtFloat xw, RtFloat yw) { float a = 1 - std::fabs(x) * 2 / xw, b = 1 - std::fabs(y) * 2 / yw; return a < 0 || b < 0 ? 0 : a * b; }
static RtFloat fGauss(RtFloat x, RtFloat y, RtFloat xw, RtFloat yw) { x *= 2 / xw; y *= 2 / yw; return std::exp(-2 * (x*x + y*y)); }
static RtFloat fCat(RtFloat x, RtFloat y, RtFloat, RtFloat) { float r2 = x*x + y*y, r = std::sqrt(r2); return r >= 2 ? 0 : r < 1 ? 3*r*r2 - 5*r2 + 2 : -r*r2 + 5*r2 - 8*r + 4; }
static RtFloat fSkew(RtFloat x, RtFloat y, RtFloat xw, RtFloat yw) { return 1 + x / xw * 0.7f + y / yw * 0.3f; }
}
struct Temp { std::string n; Temp(const std::string& e) : n("/tmp/c13." + std::to_string(getpid()) + e) { unlink(n.c_str()); } ~Temp() { unlink(n.c_str()); } };
struct Img { int w = 0, h = 0, ch = 0; EqChannelType t; std::vector<unsigned char> raw; int bytes() const { return t == Channel_Unsigned8 || t == Channel_Signed8 ? 1 : t == Channel_Unsigned16 || t == Channel_Signed16 ? 2 : 4; }
    double top() const { switch (t) { case Channel_Unsigned8: return 255; case Channel_Signed8: return 127; case Channel_Unsigned16: return 65535; case Channel_Signed16: return 32767; case Channel_Unsigned32: return 4294967295.; case Channel_Signed32: return 2147483647.; default: return 1; } }
    double at(int x, int y, int c) const { const unsigned char* p = &raw[((size_t)(y * w + x) * ch + c) * bytes()]; double v; switch (t) { case Channel_Unsigned8: v = *p; break; case Channel_Signed8: v = *(const signed char*)p; break; case Channel_Unsigned16: { uint16_t q; memcpy(&q, p, 2); v = q; } break; case Channel_Signed16: { int16_t q; memcpy(&q, p, 2); v = q; } break; case Channel_Unsigned32: { uint32_t q; memcpy(&q, p, 4); v = q; } break; case Channel_Signed32: { int32_t q; memcpy(&q, p, 4); v = q; } break; default: { float q; memcpy(&q, p, 4); v = q; } } return v / top(); }
    void put(int x, int y, int c, double v) { unsigned char* p = &raw[((size_t)(y * w + x) * ch + c) * bytes()]; if (t == Channel_Float32) { float q = v; memcpy(p, &q, 4); } else { uint32_t q = (uint32_t)(v * top() + 0.5); memcpy(p, &q, bytes()); } } };
static Img makeImg(pbt::Src& src, EqChannelType t, int w, int h, int ch, int content) {
    Img m; m.w = w; m.h = h; m.ch = ch; m.t = t; m.raw.assign((size_t)w * h * ch * m.bytes(), 0); unsigned r = src.draw(1u << 30); std::vector<double> cst; for (int c = 0; c < ch; ++c) cst.push_back(src.chance(20) ? 1.0 : src.chance(20) ? 0.0 : src.range(0, 1000) / 1000.0);
    int hx = src.range(0, w - 1), hy = src.range(0, h - 1); bool neg = t == Channel_Float32 && src.coin();
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) { double v; r = r * 1664525u + 1013904223u; if (content == 0) v = cst[c]; else if (content == 1) v = x == hx && y == hy ? 1 : 0; else if (content == 2) v = (x + 1.0) / (w + 1) * (0.5 + 0.5 * y / h); else v = (r >> 8) / double(1 << 24); if (neg && content) v = v * 9 - 4; m.put(x, y, c, v); }
    return m;
}
static void writeImg(const Img& m, const std::string& file, CqTexFileHeader h, const std::vector<std::string>& names) { h.setWidth(m.w); h.setHeight(m.h); for (int c = 0; c < m.ch; ++c) h.channelList().addChannel(SqChannelInfo(c < (int)names.size() ? names[c] : "e" + std::to_string(c), m.t)); boost::shared_ptr<IqTexOutputFile> f = IqTexOutputFile::open(file, ImageFile_Tiff, h); CqMixedImageBuffer b(h.channelList(), m.w, m.h); memcpy(b.rawData(), m.raw.data(), m.raw.size()); f->writePixels(b); }
static Img readImg(IqMultiTexInputFile& f, int k) { f.setImageIndex(k); Img m; m.w = f.header().width(); m.h = f.header().height(); m.ch = f.header().channelList().numChannels(); m.t = f.header().channelList().sharedChannelType(); CqMixedImageBuffer b; f.readPixels(b); m.raw.assign(b.rawData(), b.rawData() + (size_t)m.w * m.h * f.header().channelList().bytesPerPixel()); return m; }
static std::vector<std::string> namesFor(int ch) { if (ch == 1) return {"y"}; if (ch == 2) return {"y", "a"}; if (ch == 3) return {"r","g","b"}; return {"r","g","b","a"}; }
// the filter's support in source texels: samples at (i - centre) for which |i - centre| <= width/2
static std::vector<double> weights(RtFilterFunc f, double xw, double yw, bool oddX, bool oddY, int& nx, int& ny) {
    auto count = [](bool odd, double w) { if (odd) { int k = (int)(w / 2); return std::max(2 * k + 1, 3); } int k = (int)((w + 1) / 2); return std::max(2 * k, 2); }; nx = count(oddX, xw); ny = count(oddY, yw); std::vector<double> wt(nx * ny); double tot = 0; for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { double s = (i - (nx - 1) / 2.0) / 2, t = (j - (ny - 1) / 2.0) / 2; wt[j * nx + i] = f(s, t, xw / 2, yw / 2); tot += wt[j * nx + i]; } for (auto& v : wt) v /= tot; return wt;
}
static bool wrapIndex(EqWrapMode m, int& i, int n) { if (i >= 0 && i < n) return true; if (m == WrapMode_Black) return false; if (m == WrapMode_Clamp) { i = i < 0 ? 0 : n - 1; return true; } i = ((i % n) + n) % n; return true; }
static void checkPyramid(const std::string& file, const Img& base, RtFilterFunc f, double xw, double yw, SqWrapModes wm) {
    boost::shared_ptr<IqMultiTexInputFile> in = IqMultiTexInputFile::open(file); Img up = readImg(*in, 0); if (up.w != base.w || up.h != base.h || up.ch != base.ch || up.t != base.t) fail("top level has another size or type"); if (up.raw != base.raw) fail("the top level differs from the source image");
    int levels = 1; for (int w = base.w, h = base.h; w > 1 || h > 1; w = (w + 1) / 2, h = (h + 1) / 2) ++levels; if (in->numSubImages() != levels) fail("the file has " + std::to_string(in->numSubImages()) + " levels, expected " + std::to_string(levels));
    for (int k = 1; k < levels; ++k) { Img d = readImg(*in, k); if (d.w != (up.w + 1) / 2 || d.h != (up.h + 1) / 2 || d.ch != up.ch || d.t != up.t) fail("size of level " + std::to_string(k)); int nx, ny; std::vector<double> wt = weights(f, xw, yw, up.w % 2, up.h % 2, nx, ny); bool constant = true; 
        for (int c = 0; c < d.ch; ++c) { double lo = 1e30, hi = -1e30; for (int y = 0; y < up.h; ++y) for (int x = 0; x < up.w; ++x) { double v = up.at(x, y, c); lo = std::min(lo, v); hi = std::max(hi, v); } double range = std::max(std::fabs(lo), std::fabs(hi)); constant = lo == hi;
            for (int y = 0; y < d.h; ++y) for (int x = 0; x < d.w; ++x) { double sum = 0, mag = 0; for (int j = 0; j < ny; ++j) for (int i = 0; i < nx; ++i) { int sx = 2 * x - (nx - 1) / 2 + i, sy = 2 * y - (ny - 1) / 2 + j; mag += std::fabs(wt[j * nx + i]); if (wrapIndex(wm.sWrap, sx, up.w) && wrapIndex(wm.tWrap, sy, up.h)) sum += wt[j * nx + i] * up.at(sx, sy, c); }
                double got = d.at(x, y, c), want = sum, tol = range * mag * (2e-5 + 1.2e-5 * nx * ny) ; if (d.t != Channel_Float32) { want = std::min(1.0, std::max(0.0, sum)); tol = std::max(tol, 4e-7) + 1.001 / d.top(); if (nx * ny > 16) tol += range * mag * 1e-4; }
                if (!(std::fabs(got - want) <= tol)) { std::ostringstream m; m.precision(9); m << "level " << k << " (" << d.w << "x" << d.h << " from " << up.w << "x" << up.h << ") texel (" << x << "," << y << ") channel " << c << " is " << got << ", the filtered mean is " << want; fail(m.str()); }
                if (constant && wm.sWrap != WrapMode_Black && wm.tWrap != WrapMode_Black && d.t != Channel_Float32 && d.t != Channel_Unsigned32 && d.t != Channel_Signed32 && std::fabs(got - lo) * d.top() > 0.01 + 1.2e-5 * nx * ny * lo * d.top() && nx * ny <= 16) { std::ostringstream m; m << "a constant image of " << lo * d.top() << " becomes " << got * d.top() << " at level " << k; fail(m.str()); } } }
        up = d; }
}
static std::string pname(RtFilterFunc f) { return f == fBox ? "box" : f == fTri ? "triangle" : f == fGauss ? "gaussian" : f == fCat ? "catmull-rom" : "skewed"; }
struct Params { Ri::Param one[1]; };
static void common(const CqTexFileHeader& h, EqTextureFormat fmt, EqWrapMode s, EqWrapMode t, const std::string& comp) { const SqWrapModes* w = h.findPtr<Attr::WrapModes>(); if (!w || w->sWrap != s || w->tWrap != t) fail("stored wrap modes"); const EqTextureFormat* tf = h.findPtr<Attr::TextureFormat>(); if (!tf || *tf != fmt) fail("stored texture format"); if (!h.findPtr<Attr::TileInfo>()) fail("the texture is not tiled"); if (!comp.empty() && h.find<Attr::Compression>("") != comp) fail("stored compression " + h.find<Attr::Compression>("") + " instead of " + comp); if (h.find<Attr::Software>("").find("Aqsis") != 0) fail("software attribute"); }
static CqMatrix randMat(pbt::Src& src) { CqMatrix r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = src.range(-900, 900) / 8.0f; r.SetfIdentity(false); return r; }
static bool same(const CqMatrix* a, const CqMatrix& b) { return a && memcmp(a->pElements(), b.pElements(), 64) == 0; }
static const EqChannelType kTypes[] = {Channel_Float32, Channel_Unsigned8, Channel_Unsigned16, Channel_Unsigned32, Channel_Signed8, Channel_Signed16, Channel_Signed32};
static RtFilterFunc pickFilter(pbt::Src& src, float& xw, float& yw) { static const RtFilterFunc fs[] = {fBox, fTri, fGauss, fCat, fSkew}; RtFilterFunc f = src.pick(fs); xw = src.range(2, 20) / 2.0f; yw = src.coin() ? xw : src.range(2, 20) / 2.0f; if (src.chance(40)) { xw = yw = f == fCat ? 4 : f == fBox ? 1 : 2; } if (f == fTri) { xw = std::max(xw, 2.5f); yw = std::max(yw, 2.5f); } return f; }
static std::string plist(const std::string& comp, const char*& cptr, std::vector<Ri::Param>& store) { cptr = comp.c_str(); if (!comp.empty()) store.push_back(Ri::Param(Ri::TypeSpec(Ri::TypeSpec::Uniform, Ri::TypeSpec::String), "compression", &cptr, 1)); return comp; }

PBT_SUITE(plain_textures, 18000, 250000) {
    TIFFSetWarningHandler(0); int w = src.size(1, 40), h = src.size(1, 40); if (src.chance(10)) h = 1; if (src.chance(10)) w = src.pick(std::vector<int>{32, 33, 64, 65}); int ch = src.range(1, 5); EqChannelType t = src.pick(kTypes); Img m = makeImg(src, t, w, h, ch, src.range(0, 3)); float xw, yw; RtFilterFunc f = pickFilter(src, xw, yw); SqWrapModes wm((EqWrapMode)src.range(0, 2), (EqWrapMode)src.range(0, 2)); std::string comp = src.pick(std::vector<std::string>{"", "none", "lzw", "deflate", "packbits"});
    CqTexFileHeader hd; CqMatrix m1, m2; bool mats = src.chance(30); if (mats) { m1 = randMat(src); m2 = randMat(src); hd.set<Attr::WorldToScreenMatrix>(m1); hd.set<Attr::WorldToCameraMatrix>(m2); }
    std::ostringstream o; o << w << "x" << h << " " << ch << " channels type " << t << " " << pname(f) << " " << xw << "x" << yw << " wrap " << wm.sWrap << "," << wm.tWrap << " compression '" << comp << "'"; src.note(o.str()); src.label(pname(f)); { std::ostringstream l; l << wm.sWrap << "/" << wm.tWrap; src.label(l.str()); } if (w > 1 || h > 1) src.nontrivial();
    Temp a(".in.tif"), b(".out.tif"); writeImg(m, a.n, hd, namesFor(ch)); const char* cp; std::vector<Ri::Param> st; plist(comp, cp, st); Ri::ParamList pl(st.data(), st.size()); SqFilterInfo fi(f, xw, yw); if (src.chance(10)) { fi.xWidth = 0.25f; xw = 1; if (f == fTri) throw pbt::Discard(); } makeTexture(a.n, b.n, fi, wm, CqRiParamList(pl));
    checkPyramid(b.n, m, f, xw, yw, wm); boost::shared_ptr<IqMultiTexInputFile> in = IqMultiTexInputFile::open(b.n); for (int k = 0; k < in->numSubImages(); k += std::max(1, in->numSubImages() - 1)) { in->setImageIndex(k); common(in->header(), TextureFormat_Plain, wm.sWrap, wm.tWrap, comp); if (mats && (!same(in->header().findPtr<Attr::WorldToScreenMatrix>(), m1) || !same(in->header().findPtr<Attr::WorldToCameraMatrix>(), m2))) fail("camera matrices of the source are lost"); }
}
PBT_SUITE(environments, 6000, 90000) {
    TIFFSetWarningHandler(0); int w = src.size(1, 20), h = src.size(1, 20); int ch = src.range(1, 4); EqChannelType t = src.pick(kTypes); float xw, yw; RtFilterFunc f = pickFilter(src, xw, yw); Temp out(".out.tif"); Ri::ParamList pl; std::ostringstream o; o << w << "x" << h << " " << ch << " channels type " << t << " " << pname(f) << " " << xw << "x" << yw; src.nontrivial();
    if (src.coin()) { src.label("lat-long"); src.note("lat-long " + o.str()); Img m = makeImg(src, t, w, h, ch, src.range(0, 3)); Temp a(".in.tif"); writeImg(m, a.n, CqTexFileHeader(), namesFor(ch)); makeLatLongEnvironment(a.n, out.n, SqFilterInfo(f, xw, yw), CqRiParamList(pl)); SqWrapModes wm(WrapMode_Periodic, WrapMode_Clamp); checkPyramid(out.n, m, f, xw, yw, wm); common(IqTexInputFile::open(out.n)->header(), TextureFormat_LatLongEnvironment, WrapMode_Periodic, WrapMode_Clamp, ""); return; }
    src.label("cube faces"); src.note("cube " + o.str()); float fov = src.range(200, 1200) / 10.0f; std::vector<std::unique_ptr<Temp>> fs; std::vector<Img> im; int bad = src.chance(15) ? src.range(1, 5) : -1; static const char* en[] = {".px.tif", ".nx.tif", ".py.tif", ".ny.tif", ".pz.tif", ".nz.tif"};
    for (int k = 0; k < 6; ++k) { int W = w, H = h, C = ch; if (k == bad) { int q = src.range(0, 2); if (q == 0) ++W; else if (q == 1) ++H; else C = C == 4 ? 3 : C + 1; } im.push_back(makeImg(src, t, W, H, C, 3)); fs.emplace_back(new Temp(en[k])); writeImg(im.back(), fs.back()->n, CqTexFileHeader(), namesFor(C)); }
    bool threw = false; try { makeCubeFaceEnvironment(fs[0]->n, fs[1]->n, fs[2]->n, fs[3]->n, fs[4]->n, fs[5]->n, out.n, fov, SqFilterInfo(f, xw, yw), CqRiParamList(pl)); } catch (XqBadTexture&) { threw = true; } if (bad >= 0) { src.label("unequal faces"); if (!threw) fail("cube faces of different kinds were accepted"); return; } if (threw) fail("good cube faces were rejected");
    Img all; all.w = 3 * w; all.h = 2 * h; all.ch = ch; all.t = t; all.raw.resize((size_t)all.w * all.h * ch * all.bytes()); size_t row = (size_t)w * ch * all.bytes(); for (int k = 0; k < 6; ++k) for (int y = 0; y < h; ++y) memcpy(&all.raw[((size_t)((k % 2) * h + y) * all.w + (k / 2) * w) * ch * all.bytes()], &im[k].raw[y * row], row);
    checkPyramid(out.n, all, f, xw, yw, SqWrapModes(WrapMode_Clamp, WrapMode_Clamp)); boost::shared_ptr<IqTexInputFile> in = IqTexInputFile::open(out.n); common(in->header(), TextureFormat_CubeEnvironment, WrapMode_Clamp, WrapMode_Clamp, ""); const float* fc = in->header().findPtr<Attr::FieldOfViewCot>(); double want = 1 / std::tan(fov * M_PI / 360); if (!fc || std::fabs(*fc - want) > 1e-4 * want) fail("stored field of view");
}
PBT_SUITE(depth_maps, 6000, 90000) {
    TIFFSetWarningHandler(0); Ri::ParamList pl; bool occ = src.coin(); int n = occ ? src.range(1, 4) : 1; src.label(occ ? "occlusion" : "shadow"); std::vector<std::unique_ptr<Temp>> fs; std::vector<Img> im; std::vector<CqMatrix> m1, m2; std::vector<boostfs::path> names; int bad = src.chance(20) ? src.range(0, n - 1) : -1; int how = src.range(0, 2); src.nontrivial();
    for (int k = 0; k < n; ++k) { im.push_back(makeImg(src, k == bad && how == 0 ? Channel_Unsigned16 : Channel_Float32, src.size(1, 50), src.size(1, 50), 1, 3)); m1.push_back(randMat(src)); m2.push_back(randMat(src)); CqTexFileHeader h; if (!(k == bad && how == 1)) h.set<Attr::WorldToScreenMatrix>(m1.back()); if (!(k == bad && how == 2)) h.set<Attr::WorldToCameraMatrix>(m2.back()); fs.emplace_back(new Temp("." + std::to_string(k) + ".tif")); writeImg(im.back(), fs.back()->n, h, {"z"}); names.push_back(fs.back()->n); }
    std::ostringstream o; o << n << " maps, first " << im[0].w << "x" << im[0].h << " bad " << bad << " how " << how; src.note(o.str()); Temp out(".out.tif"); bool threw = false; try { if (occ) makeOcclusion(names, out.n, CqRiParamList(pl)); else makeShadow(names[0], out.n, CqRiParamList(pl)); } catch (XqBadTexture&) { threw = true; } if (bad >= 0) { src.label("unusable input"); if (!threw) fail(how == 0 ? "integer depths were accepted" : "a depth map without its camera matrices was accepted"); return; } if (threw) fail("a good depth map was rejected");
    boost::shared_ptr<IqMultiTexInputFile> in = IqMultiTexInputFile::open(out.n); if (in->numSubImages() != n) fail("number of maps"); for (int k = 0; k < n; ++k) { Img r = readImg(*in, k); if (r.w != im[k].w || r.h != im[k].h || r.raw != im[k].raw) fail("depths of map " + std::to_string(k)); common(in->header(), occ ? TextureFormat_Occlusion : TextureFormat_Shadow, WrapMode_Trunc, WrapMode_Trunc, ""); if (!same(in->header().findPtr<Attr::WorldToScreenMatrix>(), m1[k]) || !same(in->header().findPtr<Attr::WorldToCameraMatrix>(), m2[k])) fail("camera matrices of map " + std::to_string(k)); }
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "every case builds a texture from a generated image of more than one texel (or a set of faces or depth maps) and checks every texel of every level"); }
