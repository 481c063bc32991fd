// C12: image files.
//
// TIFF: what is written through IqMultiTexOutputFile (any type, channel count, size, layout,
// compression, sub-images, split of rows) is read back whole, in row ranges and tile by tile.
// PNG, OpenEXR and z-files are written with the format's own library (or by hand) and read through
// the same interface.  Damaged files: bytes of good files are changed, removed or swapped; opening
// and reading may only succeed or throw.
#include "pbt.h"
#include <aqsis/tex/io/itexinputfile.h>
#include <aqsis/tex/io/itexoutputfile.h>
#include <aqsis/tex/io/itiledtexinputfile.h>
#include <aqsis/tex/buffers/mixedimagebuffer.h>
#include <aqsis/tex/buffers/texturebuffer.h>
#include <aqsis/version.h>
#include <png.h>
#include <tiffio.h>
#include <ImfOutputFile.h>
#include <ImfChannelList.h>
#include <ImfFrameBuffer.h>
#include <ImfHeader.h>
#include <unistd.h>
#include <fstream>
using namespace Aqsis; using pbt::fail;
extern "C" const char* __asan_default_options() { return "allocator_may_return_null=1:detect_leaks=0:exitcode=66:max_allocation_size_mb=3000"; }

static std::string tmpName(const char* ext) { return "/tmp/c12." + std::to_string(getpid()) + ext; }
struct Temp { std::string n; Temp(const char* e) : n(tmpName(e)) { unlink(n.c_str()); } ~Temp() { unlink(n.c_str()); } };
static std::vector<unsigned char> slurp(const std::string& f) { std::ifstream i(f.c_str(), std::ios::binary); return std::vector<unsigned char>((std::istreambuf_iterator<char>(i)), std::istreambuf_iterator<char>()); }
static void spew(const std::string& f, const std::vector<unsigned char>& d) { std::ofstream o(f.c_str(), std::ios::binary); o.write((const char*)d.data(), d.size()); }
static void quiet() { TIFFSetErrorHandler(0); TIFFSetWarningHandler(0); }

// ---- TIFF ------------------------------------------------------------------------------------
struct Sub { int w, h; std::vector<unsigned char> px; };
struct Spec { EqChannelType type; std::vector<std::string> names; bool tiled; int tw, th; std::string compression; std::vector<Sub> subs; CqTexFileHeader hdr; bool hasWrap = false, hasWin = false, hasFov = false, hasW2S = false, hasW2C = false, hasFmt = false, hasAspect = false, hasDesc = false; SqWrapModes wrap; SqImageRegion win; float fov, aspect; float m1[16], m2[16]; EqTextureFormat fmt; std::string desc, soft; int bpp; };
static Spec makeSpec(pbt::Src& src, bool small) {
    Spec s; static const EqChannelType types[] = {Channel_Unsigned8, Channel_Float32, Channel_Signed8, Channel_Unsigned16, Channel_Signed16, Channel_Unsigned32, Channel_Signed32}; s.type = src.pick(types);
    static const std::vector<std::vector<std::string>> lists = {{"r","g","b"}, {"y"}, {"r","g","b","a"}, {"y","a"}, {"r","g","b","ra","ga","ba"}, {"r","g","b","a","z"}, {"z"}, {"x","y"}, {"p","q","s"}, {"r","g"}, {"p","q","s","t","u"}, {"r","g","b","a","e","f","h"}}; s.names = src.pick(lists);
    s.bpp = (s.type == Channel_Unsigned8 || s.type == Channel_Signed8 ? 1 : s.type == Channel_Unsigned16 || s.type == Channel_Signed16 ? 2 : 4) * s.names.size();
    s.tiled = src.coin(); s.tw = 16 * src.range(1, 3); s.th = 16 * src.range(1, 3); static const char* comps[] = {"", "none", "lzw", "packbits", "deflate"}; s.compression = src.pick(comps);
    int n = src.chance(40) ? src.range(2, 5) : 1; bool mip = src.coin(); int W = src.size(1, small ? 20 : 90), H = src.size(1, small ? 20 : 90);
    for (int k = 0; k < n; ++k) { Sub b; b.w = W; b.h = H; if (mip) { W = (W + 1) / 2; H = (H + 1) / 2; } else { W = src.size(1, small ? 20 : 90); H = src.size(1, small ? 20 : 90); } b.px.resize(b.w * b.h * s.bpp); int fill = src.range(0, 3); unsigned r = src.draw(1u << 30); for (size_t i = 0; i < b.px.size(); ++i) { if (fill == 0) b.px[i] = (unsigned char)(i * 7 + k); else if (fill == 1) b.px[i] = (unsigned char)(i / 64); else { r = r * 1664525u + 1013904223u; b.px[i] = r >> 24; } } s.subs.push_back(b); }
    CqTexFileHeader& h = s.hdr; h.setWidth(s.subs[0].w); h.setHeight(s.subs[0].h); for (auto& c : s.names) h.channelList().addChannel(SqChannelInfo(c, s.type));
    if (s.tiled) h.set<Attr::TileInfo>(SqTileInfo(s.tw, s.th)); if (!s.compression.empty()) h.set<Attr::Compression>(s.compression);
    if ((s.hasWrap = src.coin())) { s.wrap = SqWrapModes((EqWrapMode)src.range(0, 2), (EqWrapMode)src.range(0, 2)); h.set<Attr::WrapModes>(s.wrap); }
    if ((s.hasWin = src.chance(40))) { s.win = SqImageRegion(src.range(1, 5000), src.range(1, 5000), src.range(0, 3000), src.range(0, 3000)); h.set<Attr::DisplayWindow>(s.win); }
    if ((s.hasFov = src.chance(40))) { s.fov = src.range(-4000, 4000) / 37.0f; h.set<Attr::FieldOfViewCot>(s.fov); }
    if ((s.hasAspect = src.chance(40))) { s.aspect = src.range(1, 400) / 64.0f; h.set<Attr::PixelAspectRatio>(s.aspect); }
    auto mat = [&](float* m) { CqMatrix r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { m[4*i+j] = src.range(-900, 900) / 8.0f; r[i][j] = m[4*i+j]; } r.SetfIdentity(false); return r; };
    if ((s.hasW2S = src.chance(40))) h.set<Attr::WorldToScreenMatrix>(mat(s.m1)); if ((s.hasW2C = src.chance(40))) h.set<Attr::WorldToCameraMatrix>(mat(s.m2));
    if ((s.hasFmt = src.chance(60))) { s.fmt = (EqTextureFormat)src.range(0, 4); h.set<Attr::TextureFormat>(s.fmt); }
    if ((s.hasDesc = src.chance(40))) { s.desc = src.pick(std::vector<std::string>{"a picture", "tab\tand \"quotes\"", "x", std::string(300, 'd')}); s.soft = "soft 1.0"; h.set<Attr::Description>(s.desc); h.set<Attr::Software>(s.soft); h.set<Attr::HostName>("host-9"); }
    std::ostringstream o; o << s.names.size() << " channels of type " << s.type << ", " << s.subs[0].w << "x" << s.subs[0].h << (s.tiled ? " tiled " : " scanline ") << s.tw << "x" << s.th << " compression '" << s.compression << "' images " << n; src.note(o.str());
    src.label(s.tiled ? "tiled" : "scanline"); src.label("compression " + (s.compression.empty() ? "default" : s.compression)); src.label("bytes per pixel " + std::to_string(s.bpp)); if (n > 1) src.label("sub-images"); return s;
}
static void writeSpec(pbt::Src& src, const Spec& s, const std::string& file) {
    boost::shared_ptr<IqMultiTexOutputFile> f = IqMultiTexOutputFile::open(file, ImageFile_Tiff, s.hdr);
    for (size_t k = 0; k < s.subs.size(); ++k) { const Sub& b = s.subs[k]; if (k) { if (src.coin()) f->newSubImage(b.w, b.h); else { CqTexFileHeader h = f->header(); h.setWidth(b.w); h.setHeight(b.h); f->newSubImage(h); } }
        int y = 0; while (y < b.h) { if (f->currentLine() != y) fail("currentLine is " + std::to_string(f->currentLine()) + " after writing " + std::to_string(y) + " lines"); int n; if (s.tiled) { n = src.chance(50) ? b.h - y : s.th * src.range(1, 3); if (y + n > b.h) n = b.h - y; } else n = src.chance(30) ? b.h - y : std::min(b.h - y, (int)src.range(1, 20));
            CqMixedImageBuffer buf(s.hdr.channelList(), b.w, n); memcpy(buf.rawData(), b.px.data() + (size_t)y * b.w * s.bpp, (size_t)n * b.w * s.bpp); f->writePixels(buf); if (n < b.h - y) src.label("rows in several writes"); y += n; } }
}
static bool floatPixelsEqual(const unsigned char* a, const unsigned char* b, size_t n) { return memcmp(a, b, n) == 0; }
PBT_SUITE(tiff_round_trip, 28000, 480000) {
    quiet(); Spec s = makeSpec(src, false); Temp t(".tif"); writeSpec(src, s, t.n); src.nontrivial();
    boost::shared_ptr<IqMultiTexInputFile> f = IqMultiTexInputFile::open(t.n); if (f->fileType() != ImageFile_Tiff) fail("type of the file read back"); if (f->numSubImages() != (int)s.subs.size()) fail("number of sub-images");
    int reads = src.range(2, 8); bool first = true;
    for (int r = 0; r < reads; ++r) { int k = first ? 0 : src.range(0, s.subs.size() - 1); if (!first || src.coin()) f->setImageIndex(k); first = false; const Sub& b = s.subs[k]; const CqTexFileHeader& h = f->header();
        if (f->imageIndex() != k) fail("image index"); if (h.width() != b.w || h.height() != b.h) fail("size of image " + std::to_string(k) + " read back"); if (h.channelList().numChannels() != (int)s.names.size() || h.channelList().sharedChannelType() != s.type) fail("channel types read back");
        bool rgb = s.names[0] == "r" && s.names.size() > 2; if (rgb) { static const char* n4[] = {"r","g","b","a"}; static const char* n6[] = {"r","g","b","ra","ga","ba"}; for (size_t c = 0; c < std::min<size_t>(s.names.size(), s.names.size() == 6 ? 6 : s.names.size() == 4 ? 4 : 3); ++c) if (h.channelList()[c].name != (s.names.size() == 6 ? n6[c] : n4[c])) fail("channel names read back"); } else if (s.names[0] == "y" && h.channelList()[0].name != "y") fail("intensity channel name");
        const SqTileInfo* ti = h.findPtr<Attr::TileInfo>(); if (!!ti != s.tiled || (ti && (ti->width != s.tw || ti->height != s.th))) fail("tile layout read back"); if (h.find<Attr::Compression>() != (s.compression.empty() ? "lzw" : s.compression)) fail("compression read back as " + h.find<Attr::Compression>());
        if (s.hasWrap) { const SqWrapModes* w = h.findPtr<Attr::WrapModes>(); if (!w || w->sWrap != s.wrap.sWrap || w->tWrap != s.wrap.tWrap) fail("wrap modes read back"); } else if (h.findPtr<Attr::WrapModes>()) fail("wrap modes invented");
        if (s.hasWin) { const SqImageRegion* w = h.findPtr<Attr::DisplayWindow>(); if (!w || w->width != s.win.width || w->height != s.win.height || w->topLeftX != s.win.topLeftX || w->topLeftY != s.win.topLeftY) fail("display window read back"); }
        if (s.hasFov) { const float* v = h.findPtr<Attr::FieldOfViewCot>(); if (!v || *v != s.fov) fail("field of view read back"); } if (s.hasAspect && std::fabs(h.find<Attr::PixelAspectRatio>() - s.aspect) > 1e-4 * s.aspect) fail("pixel aspect ratio read back");
        auto same = [&](const CqMatrix* m, const float* e) { return m && memcmp(m->pElements(), e, 64) == 0; }; if (s.hasW2S && !same(h.findPtr<Attr::WorldToScreenMatrix>(), s.m1)) fail("world to screen matrix read back"); if (s.hasW2C && !same(h.findPtr<Attr::WorldToCameraMatrix>(), s.m2)) fail("world to camera matrix read back"); if (!s.hasW2S && h.findPtr<Attr::WorldToScreenMatrix>()) fail("matrix invented");
        if (s.hasFmt) { const EqTextureFormat* v = h.findPtr<Attr::TextureFormat>(); if (!v || *v != s.fmt) fail("texture format read back"); } if (s.hasDesc && (h.find<Attr::Description>("") != s.desc || h.find<Attr::Software>("") != s.soft || h.find<Attr::HostName>("") != "host-9")) fail("text attributes read back");
        int y0 = src.chance(40) ? 0 : src.range(0, b.h - 1), n = src.chance(40) ? -1 : src.range(1, b.h - y0); CqMixedImageBuffer buf; f->readPixels(buf, y0, n); if (n < 0) n = b.h - y0; else src.label("row range");
        if (buf.width() != b.w || buf.height() != n) fail("size of the buffer read"); if (!floatPixelsEqual(buf.rawData(), b.px.data() + (size_t)y0 * b.w * s.bpp, (size_t)n * b.w * s.bpp)) { size_t i = 0; while (buf.rawData()[i] == b.px[(size_t)y0 * b.w * s.bpp + i]) ++i; fail("pixels of image " + std::to_string(k) + " rows " + std::to_string(y0) + "+" + std::to_string(n) + " differ from byte " + std::to_string(i)); } }
    for (int bad : {-1, (int)s.subs.size()}) { bool threw = false; try { f->setImageIndex(bad); } catch (std::exception&) { threw = true; } if (!threw) fail("image index out of range accepted"); }
    for (auto& q : std::vector<std::pair<int,int>>{{-1, 1}, {s.subs[0].h, 1}, {0, s.subs[0].h + 1}}) { boost::shared_ptr<IqTexInputFile> g = IqTexInputFile::open(t.n); bool threw = false; CqMixedImageBuffer buf; try { g->readPixels(buf, q.first, q.second); } catch (std::exception&) { threw = true; } if (!threw) fail("rows out of range accepted"); }
    // tile by tile
    bool threw = false; boost::shared_ptr<IqTiledTexInputFile> tf; try { tf = IqTiledTexInputFile::open(t.n); } catch (XqBadTexture&) { threw = true; } if (threw == s.tiled) fail(threw ? "tiled file rejected" : "scanline file accepted for tiled reading");
    if (tf) { if (tf->numSubImages() != (int)s.subs.size() || tf->tileInfo().width != s.tw || tf->tileInfo().height != s.th) fail("tiled file layout"); int tr = src.range(1, 12); for (int r = 0; r < tr; ++r) { int k = src.range(0, s.subs.size() - 1); const Sub& b = s.subs[k]; if (tf->width(k) != b.w || tf->height(k) != b.h) fail("tiled sub-image size"); int tx = src.range(0, (b.w - 1) / s.tw), ty = src.range(0, (b.h - 1) / s.th); CqMixedImageBuffer buf; tf->readTile(buf, tx, ty, k); int ew = std::min(s.tw, b.w - tx * s.tw), eh = std::min(s.th, b.h - ty * s.th); if (buf.width() != ew || buf.height() != eh) fail("tile size"); for (int y = 0; y < eh; ++y) if (memcmp(buf.rawData() + (size_t)y * ew * s.bpp, b.px.data() + ((size_t)(ty * s.th + y) * b.w + tx * s.tw) * s.bpp, (size_t)ew * s.bpp)) fail("pixels of a tile"); } src.label("tile reads"); }
    boost::shared_ptr<IqTiledTexInputFile> any = IqTiledTexInputFile::openAny(t.n); CqMixedImageBuffer whole; any->readTile(whole, 0, 0, 0); if (memcmp(whole.rawData(), s.subs[0].px.data(), s.subs[0].px.size())) fail("pixels through the any-file tile interface");
}

// ---- PNG -------------------------------------------------------------------------------------
static bool writePng(const std::string& file, int w, int h, int type, int depth, bool interlace, const std::vector<std::vector<unsigned char>>& rows, const std::vector<png_color>& pal) {
    FILE* f = fopen(file.c_str(), "wb"); png_structp p = png_create_write_struct(PNG_LIBPNG_VER_STRING, 0, 0, 0); png_infop i = png_create_info_struct(p); if (setjmp(png_jmpbuf(p))) { fclose(f); return false; } png_init_io(p, f); png_set_IHDR(p, i, w, h, depth, type, interlace ? PNG_INTERLACE_ADAM7 : PNG_INTERLACE_NONE, PNG_COMPRESSION_TYPE_DEFAULT, PNG_FILTER_TYPE_DEFAULT); if (type == PNG_COLOR_TYPE_PALETTE) png_set_PLTE(p, i, pal.data(), pal.size()); png_write_info(p, i); std::vector<png_bytep> r; for (auto& x : rows) r.push_back((png_bytep)x.data()); png_write_image(p, r.data()); png_write_end(p, i); png_destroy_write_struct(&p, &i); fclose(f); return true;
}
struct Png { int w, h, type, depth; std::vector<std::vector<unsigned char>> rows; std::vector<png_color> pal; std::vector<double> rgba; bool alpha; };
static Png makePng(pbt::Src& src) {
    Png p; static const int types[] = {PNG_COLOR_TYPE_RGB, PNG_COLOR_TYPE_RGB_ALPHA, PNG_COLOR_TYPE_GRAY, PNG_COLOR_TYPE_GRAY_ALPHA, PNG_COLOR_TYPE_PALETTE}; p.type = src.pick(types); p.depth = 8; if (p.type != PNG_COLOR_TYPE_PALETTE && src.chance(25)) p.depth = 16; if ((p.type == PNG_COLOR_TYPE_PALETTE || p.type == PNG_COLOR_TYPE_GRAY) && src.chance(30)) p.depth = src.pick(std::vector<int>{1, 2, 4});
    p.w = src.size(1, 40); p.h = src.size(1, 40); int ch = p.type == PNG_COLOR_TYPE_RGB ? 3 : p.type == PNG_COLOR_TYPE_RGB_ALPHA ? 4 : p.type == PNG_COLOR_TYPE_GRAY_ALPHA ? 2 : 1; p.alpha = ch == 4 || ch == 2; if (p.type == PNG_COLOR_TYPE_PALETTE) { int n = 1 << std::min(p.depth, 8); for (int k = 0; k < n; ++k) { png_color c = {(png_byte)(k * 37), (png_byte)(255 - k * 11), (png_byte)(k * 5 + 3)}; p.pal.push_back(c); } }
    unsigned r = src.draw(1u << 30); auto rnd = [&]{ r = r * 1664525u + 1013904223u; return r >> 12; };
    for (int y = 0; y < p.h; ++y) { std::vector<unsigned char> row((p.w * ch * p.depth + 7) / 8); for (int x = 0; x < p.w; ++x) { unsigned v[4]; double c[4] = {0, 0, 0, 1}; for (int k = 0; k < ch; ++k) { v[k] = rnd() & ((1u << p.depth) - 1); if (p.depth == 16) { row[(x * ch + k) * 2] = v[k] >> 8; row[(x * ch + k) * 2 + 1] = v[k]; } else if (p.depth == 8) row[x * ch + k] = v[k]; else { int bit = x * p.depth; row[bit / 8] |= v[k] << (8 - p.depth - bit % 8); } }
            double mx = (1u << p.depth) - 1; if (p.type == PNG_COLOR_TYPE_PALETTE) { c[0] = p.pal[v[0]].red / 255.; c[1] = p.pal[v[0]].green / 255.; c[2] = p.pal[v[0]].blue / 255.; } else if (ch <= 2) { c[0] = c[1] = c[2] = v[0] / mx; if (ch == 2) c[3] = v[1] / mx; } else { for (int k = 0; k < ch; ++k) c[k] = v[k] / mx; } for (int k = 0; k < 4; ++k) p.rgba.push_back(c[k]); } p.rows.push_back(row); }
    return p;
}
PBT_SUITE(png_reading, 20000, 270000) {
    Png p = makePng(src); bool inter = src.chance(20); Temp t(".png"); if (!writePng(t.n, p.w, p.h, p.type, p.depth, inter, p.rows, p.pal)) throw pbt::Discard(); std::ostringstream o; o << "type " << p.type << " depth " << p.depth << " size " << p.w << "x" << p.h << (inter ? " interlaced" : ""); src.note(o.str()); src.label("type " + std::to_string(p.type) + " depth " + std::to_string(p.depth)); src.nontrivial();
    boost::shared_ptr<IqTexInputFile> f = IqTexInputFile::open(t.n); const CqTexFileHeader& h = f->header(); if (f->fileType() != ImageFile_Png || h.width() != p.w || h.height() != p.h) fail("size or type of a PNG file"); int nc = h.channelList().numChannels(); bool grey = nc == 1 || nc == 2; if (!grey && nc != (p.alpha ? 4 : 3)) fail("PNG channel count " + std::to_string(nc)); if (grey && p.type != PNG_COLOR_TYPE_GRAY && p.type != PNG_COLOR_TYPE_GRAY_ALPHA) fail("PNG channel count " + std::to_string(nc));
    EqChannelType ct = h.channelList().sharedChannelType(); if (ct != Channel_Unsigned8 && ct != Channel_Unsigned16) fail("PNG channel type");
    for (int rd = 0; rd < 3; ++rd) { int y0 = rd == 0 ? 0 : src.range(0, p.h - 1), n = rd == 0 ? -1 : src.range(1, p.h - y0); CqMixedImageBuffer buf; f->readPixels(buf, y0, n); if (n < 0) n = p.h - y0; if (y0) src.label("row range");
        for (int y = 0; y < n; ++y) for (int x = 0; x < p.w; ++x) for (int c = 0; c < nc; ++c) { const unsigned char* q = buf.rawData() + ((size_t)(y * p.w + x) * nc + c) * (ct == Channel_Unsigned16 ? 2 : 1); double got = ct == Channel_Unsigned16 ? *(const uint16_t*)q / 65535. : *q / 255.; const double* e = &p.rgba[4 * ((y0 + y) * p.w + x)]; bool isA = p.alpha && c == nc - 1; double want = isA ? e[3] : e[std::min(c, 2)] * e[3]; if (std::fabs(got - want) > 2.01 / 255) { std::ostringstream m; m << "PNG pixel (" << x << "," << y0 + y << ") channel " << c << " reads " << got << ", the file holds " << want; fail(m.str()); } if (p.depth == 8 && (isA || !p.alpha) && std::fabs(got - want) > 1e-6) fail("PNG value changed"); } }
}

// ---- OpenEXR ---------------------------------------------------------------------------------
struct Exr { int w, h, ox, oy; std::vector<std::string> names; std::vector<Imf::PixelType> types; std::vector<std::vector<unsigned char>> data; };
static Exr writeExr(pbt::Src& src, const std::string& file) {
    Exr e; e.w = src.size(1, 40); e.h = src.size(1, 40); e.ox = src.chance(40) ? src.range(-20, 20) : 0; e.oy = src.chance(40) ? src.range(-20, 20) : 0;
    static const std::vector<std::vector<std::string>> lists = {{"R","G","B"}, {"R","G","B","A"}, {"Y"}, {"Z"}, {"A","B","G","R","Z"}, {"diff.R","diff.G"}, {"B","X"}, {"a","b","g","r"}}; e.names = src.pick(lists); bool mixed = src.chance(40); Imf::PixelType base = (Imf::PixelType)src.range(0, 2);
    Imath::Box2i dw(Imath::V2i(e.ox, e.oy), Imath::V2i(e.ox + e.w - 1, e.oy + e.h - 1)), disp = src.chance(50) ? dw : Imath::Box2i(Imath::V2i(src.range(-5, 5), src.range(-5, 5)), Imath::V2i(src.range(6, 90), src.range(6, 90)));
    static const Imf::Compression comps[] = {Imf::NO_COMPRESSION, Imf::RLE_COMPRESSION, Imf::ZIPS_COMPRESSION, Imf::ZIP_COMPRESSION, Imf::PIZ_COMPRESSION}; Imf::Header h(disp, dw, src.range(1, 64) / 16.0f, Imath::V2f(0, 0), 1, Imf::INCREASING_Y, src.pick(comps)); Imf::FrameBuffer fb;
    for (auto& n : e.names) { Imf::PixelType t = mixed ? (Imf::PixelType)src.range(0, 2) : base; e.types.push_back(t); h.channels().insert(n.c_str(), Imf::Channel(t)); int sz = t == Imf::HALF ? 2 : 4; std::vector<unsigned char> d(e.w * e.h * sz); unsigned r = src.draw(1u << 30); for (int i = 0; i < e.w * e.h; ++i) { r = r * 1664525u + 1013904223u; if (t == Imf::HALF) { half v((float)((r >> 16) & 2047) / 8); memcpy(&d[2 * i], &v, 2); } else if (t == Imf::FLOAT) { float v = (int)(r >> 8) / 1000.0f; memcpy(&d[4 * i], &v, 4); } else memcpy(&d[4 * i], &r, 4); } e.data.push_back(d); }
    for (size_t c = 0; c < e.names.size(); ++c) { int sz = e.types[c] == Imf::HALF ? 2 : 4; fb.insert(e.names[c].c_str(), Imf::Slice(e.types[c], (char*)e.data[c].data() - (long)(e.ox + e.oy * e.w) * sz, sz, sz * e.w)); }
    { Imf::OutputFile f(file.c_str(), h); f.setFrameBuffer(fb); f.writePixels(e.h); } return e;
}
PBT_SUITE(exr_reading, 12000, 180000) {
    Temp t(".exr"); Exr e = writeExr(src, t.n); src.nontrivial(); std::ostringstream o; o << e.names.size() << " channels " << e.w << "x" << e.h << " at " << e.ox << "," << e.oy; src.note(o.str()); src.label("channels " + std::to_string(e.names.size()));
    boost::shared_ptr<IqTexInputFile> f = IqTexInputFile::open(t.n); const CqTexFileHeader& h = f->header(); if (h.width() != e.w || h.height() != e.h) fail("EXR size"); if (h.channelList().numChannels() != (int)e.names.size()) fail("EXR channel count");
    { Imf::Header ih; } // display window: as large as the file says
    for (int rd = 0; rd < 3; ++rd) { int y0 = rd == 0 ? 0 : src.range(0, e.h - 1), n = rd == 0 ? -1 : src.range(1, e.h - y0); CqMixedImageBuffer buf; f->readPixels(buf, y0, n); if (n < 0) n = e.h - y0; const CqChannelList& cl = buf.channelList(); int last = -1;
        for (size_t c = 0; c < e.names.size(); ++c) { std::string low = e.names[c]; for (auto& ch : low) ch = tolower(ch); int idx = cl.findChannelIndex(low); int sz = e.types[c] == Imf::HALF ? 2 : 4; EqChannelType want = e.types[c] == Imf::HALF ? Channel_Float16 : e.types[c] == Imf::FLOAT ? Channel_Float32 : Channel_Unsigned32; if (cl[idx].type != want) fail("EXR channel type of " + low); for (int y = 0; y < n; ++y) for (int x = 0; x < e.w; ++x) if (memcmp(buf.rawData() + (size_t)(y * e.w + x) * cl.bytesPerPixel() + cl.channelByteOffset(idx), &e.data[c][((y0 + y) * e.w + x) * sz], sz)) fail("EXR channel " + low + " pixel (" + std::to_string(x) + "," + std::to_string(y0 + y) + ")"); }
        static const char* ord[] = {"r","g","b","a"}; for (auto o : ord) if (cl.hasChannel(o)) { int i = cl.findChannelIndex(o); if (i < last) fail("colour channels are not in r,g,b,a order"); last = i; } }
}

// ---- z-files ---------------------------------------------------------------------------------
static std::vector<unsigned char> makeZ(pbt::Src& src, int& w, int& h, std::vector<float>& px, float* m) {
    w = src.size(1, 40); h = src.size(1, 40); std::string s = std::string("Aqsis ZFile") + AQSIS_VERSION_STR; std::vector<unsigned char> d(s.begin(), s.end()); auto put = [&](const void* p, size_t n) { d.insert(d.end(), (const unsigned char*)p, (const unsigned char*)p + n); }; unsigned W = w, H = h; put(&W, 4); put(&H, 4); for (int i = 0; i < 32; ++i) { m[i] = src.range(-99, 99) / 4.0f; put(&m[i], 4); } for (int i = 0; i < w * h; ++i) { px.push_back(i * 0.37f - 3); put(&px.back(), 4); } return d;
}
PBT_SUITE(zfile_reading, 12000, 180000) {
    int w, h; std::vector<float> px; float m[32]; Temp t(".z"); spew(t.n, makeZ(src, w, h, px, m)); src.nontrivial(); src.note(std::to_string(w) + "x" + std::to_string(h)); boost::shared_ptr<IqTexInputFile> f = IqTexInputFile::open(t.n); const CqTexFileHeader& hd = f->header(); if (f->fileType() != ImageFile_AqsisZfile || hd.width() != w || hd.height() != h) fail("z-file header"); if (memcmp(hd.find<Attr::WorldToCameraMatrix>().pElements(), m, 64) || memcmp(hd.find<Attr::WorldToScreenMatrix>().pElements(), m + 16, 64)) fail("z-file matrices");
    for (int rd = 0; rd < 4; ++rd) { int y0 = src.range(0, h - 1), n = src.range(1, h - y0); CqTextureBuffer<float> buf; f->readPixels(buf, y0, n); for (int y = 0; y < n; ++y) for (int x = 0; x < w; ++x) if (buf(x, y)[0] != px[(y0 + y) * w + x]) fail("z-file depth at row " + std::to_string(y0 + y)); }
}

// ---- damage ----------------------------------------------------------------------------------
PBT_SUITE(damaged_files, 36000, 750000) {
    quiet(); alarm(60); Temp t(".dam"); int kind = src.range(0, 3); std::vector<unsigned char> d;
    if (kind == 0) { Spec s = makeSpec(src, true); writeSpec(src, s, t.n); d = slurp(t.n); } else if (kind == 1) { Png p = makePng(src); if (!writePng(t.n, p.w, p.h, p.type, p.depth, src.coin(), p.rows, p.pal)) throw pbt::Discard(); d = slurp(t.n); } else if (kind == 2) { writeExr(src, t.n); d = slurp(t.n); } else { int w, h; std::vector<float> px; float m[32]; d = makeZ(src, w, h, px, m); }
    static const char* kn[] = {"tiff", "png", "exr", "zfile"}; src.label(kn[kind]); int edits = src.range(1, 4); std::ostringstream o; o << kn[kind] << " of " << d.size() << " bytes:";
    for (int k = 0; k < edits && !d.empty(); ++k) { int how = src.range(0, 5); size_t at = src.coin() ? src.range(0, d.size() - 1) : kind == 0 && src.coin() ? (d.size() > 200 ? d.size() - 1 - src.range(0, 199) : 0) : src.range(0, std::min<size_t>(d.size() - 1, 200)); switch (how) { case 0: d[at] ^= 1 << src.range(0, 7); o << " flip " << at; break; case 1: d[at] = src.pick(std::vector<int>{0, 255, 1, 127, 128, 16}); o << " set " << at; break; case 2: d.resize(at); o << " cut at " << at; break; case 3: d.insert(d.begin() + at, src.range(0, 255)); o << " insert " << at; break; case 4: d.erase(d.begin() + at); o << " delete " << at; break; default: { int n = std::min<size_t>(4, d.size() - at); for (int i = 0; i < n; ++i) d[at + i] = src.coin() ? 255 : src.range(0, 255); o << " word " << at; } } }
    src.note(o.str()); src.nontrivial(); spew(t.n, d); bool opened = false;
    auto guarded = [&](const std::function<void()>& fn) { try { fn(); } catch (std::exception&) { src.label("rejected"); } };
    guarded([&]{ boost::shared_ptr<IqTexInputFile> f = IqTexInputFile::open(t.n); opened = true; const CqTexFileHeader& h = f->header(); if (h.channelList().numChannels() == 0 || h.width() <= 0 || h.height() <= 0) { src.label("degenerate header"); return; } if ((double)h.width() * h.height() * h.channelList().bytesPerPixel() < 3e7) { CqMixedImageBuffer b; f->readPixels(b, 0, std::min(3, h.height())); f->readPixels(b, h.height() - 1, 1); src.label("read"); } });
    guarded([&]{ boost::shared_ptr<IqMultiTexInputFile> f = IqMultiTexInputFile::open(t.n); int n = std::min(6, f->numSubImages()); for (int k = 0; k < n; ++k) { f->setImageIndex(k); const CqTexFileHeader& h = f->header(); if (h.channelList().numChannels() == 0 || h.width() <= 0 || h.height() <= 0) continue; if ((double)h.width() * h.height() * h.channelList().bytesPerPixel() < 3e7) { CqMixedImageBuffer b; f->readPixels(b); } } });
    guarded([&]{ boost::shared_ptr<IqTiledTexInputFile> f = IqTiledTexInputFile::open(t.n); int n = std::min(6, f->numSubImages()); for (int k = 0; k < n; ++k) { if (f->width(k) <= 0 || f->height(k) <= 0 || (double)f->tileInfo().width * f->tileInfo().height * f->header(k).channelList().bytesPerPixel() > 3e7) continue; CqMixedImageBuffer b; f->readTile(b, 0, 0, k); f->readTile(b, (f->width(k) - 1) / f->tileInfo().width, (f->height(k) - 1) / f->tileInfo().height, k); } });
    alarm(0);
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "every case writes an image of generated size, type, layout and content and reads it back in several ways, or reads a damaged file; all count"); }
