// Shared by C14 and C15: building texture files and the reference average.
#pragma once
#include "pbt.h"
#include <aqsis/tex/maketexture.h>
#include <aqsis/tex/io/itexinputfile.h>
#include <aqsis/tex/io/itexoutputfile.h>
#include <aqsis/tex/io/itiledtexinputfile.h>
#include <aqsis/tex/buffers/mixedimagebuffer.h>
#include <aqsis/tex/filtering/itexturesampler.h>
#include <aqsis/tex/filtering/itexturecache.h>
#include <aqsis/tex/texexception.h>
#include <aqsis/util/logging.h>
#include <tiffio.h>
#include <unistd.h>
using namespace Aqsis; using pbt::fail;
extern "C" { static RtFloat fBox(RtFloat, RtFloat, RtFloat, RtFloat) { return 1; } }
struct Temp { std::string n; Temp(const std::string& e) : n("/tmp/ctex." + std::to_string(getpid()) + e) { unlink(n.c_str()); } ~Temp() { unlink(n.c_str()); } };
struct Level { int w, h, ch; std::vector<double> v; double at(int x, int y, int c) const { return v[((size_t)y * w + x) * ch + c]; } };
static double decode(EqChannelType t, const unsigned char* p) { switch (t) { case Channel_Unsigned8: return *p / 255.0; case Channel_Signed8: return *(const signed char*)p / 127.0; case Channel_Unsigned16: { uint16_t q; memcpy(&q, p, 2); return q / 65535.0; } case Channel_Signed16: { int16_t q; memcpy(&q, p, 2); return q / 32767.0; } case Channel_Unsigned32: { uint32_t q; memcpy(&q, p, 4); return q / 4294967295.0; } case Channel_Signed32: { int32_t q; memcpy(&q, p, 4); return q / 2147483647.0; } default: { float q; memcpy(&q, p, 4); return q; } } }
static int bytesOf(EqChannelType t) { return t == Channel_Unsigned8 || t == Channel_Signed8 ? 1 : t == Channel_Unsigned16 || t == Channel_Signed16 ? 2 : 4; }
static void encode(EqChannelType t, double v, unsigned char* p) { if (t == Channel_Float32) { float q = v; memcpy(p, &q, 4); return; } double top = t == Channel_Unsigned8 ? 255 : t == Channel_Signed8 ? 127 : t == Channel_Unsigned16 ? 65535 : t == Channel_Signed16 ? 32767 : t == Channel_Unsigned32 ? 4294967295.0 : 2147483647.0; uint32_t q = (uint32_t)(v * top); memcpy(p, &q, bytesOf(t)); }
enum Content { Random, Constant, Ramp };
// writes the image and makes the texture; returns the stored levels
static std::vector<Level> build(pbt::Src& src, int w, int h, int ch, EqChannelType t, Content content, SqWrapModes wm, const std::string& out, std::vector<double>& cst, double ramp[3]) {
    std::vector<unsigned char> raw((size_t)w * h * ch * bytesOf(t)); unsigned r = src.draw(1u << 30); for (int c = 0; c < ch; ++c) cst.push_back(src.range(0, 255) / 255.0);
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) for (int c = 0; c < ch; ++c) { r = r * 1664525u + 1013904223u; double v = content == Constant ? cst[c] : content == Ramp ? ramp[0] + ramp[1] * (x + 0.5) / w + ramp[2] * (y + 0.5) / h : (r >> 8) / double(1 << 24); encode(t, v, &raw[((size_t)(y * w + x) * ch + c) * bytesOf(t)]); }
    Temp in(".in.tif"); { CqTexFileHeader hd; hd.setWidth(w); hd.setHeight(h); static const char* nm[] = {"r", "g", "b", "a", "z1", "z2"}; for (int c = 0; c < ch; ++c) hd.channelList().addChannel(SqChannelInfo(ch < 3 && c == 0 ? "y" : nm[c], t)); boost::shared_ptr<IqTexOutputFile> f = IqTexOutputFile::open(in.n, ImageFile_Tiff, hd); CqMixedImageBuffer b(hd.channelList(), w, h); memcpy(b.rawData(), raw.data(), raw.size()); f->writePixels(b); }
    Ri::ParamList pl; makeTexture(in.n, out, SqFilterInfo(fBox, 1, 1), wm, CqRiParamList(pl));
    std::vector<Level> lv; boost::shared_ptr<IqMultiTexInputFile> f = IqMultiTexInputFile::open(out); for (int k = 0; k < f->numSubImages(); ++k) { f->setImageIndex(k); Level l; l.w = f->header().width(); l.h = f->header().height(); l.ch = ch; CqMixedImageBuffer b; f->readPixels(b); for (int i = 0; i < l.w * l.h * ch; ++i) l.v.push_back(decode(t, b.rawData() + (size_t)i * bytesOf(t))); lv.push_back(l); } return lv;
}
struct Look { double c[2], s1[2], s2[2]; float sw, tw, sb, tb, minw, fill; int start, num; EqMipmapLerp lerp; };
static bool wrapIndex(EqWrapMode m, long& i, int n) { if (i >= 0 && i < n) return true; if (m == WrapMode_Black) return false; if (m == WrapMode_Clamp) { i = i < 0 ? 0 : n - 1; return true; } i = ((i % n) + n) % n; return true; }
// the average over one level; returns false if the footprint is too large to decide
static bool average(const std::vector<Level>& lv, int k, double a, double b, double d, double cx, double cy, const Look& q, SqWrapModes wm, std::vector<double>& out, std::vector<double>& tol, double edge = std::log(20.0)) {
    double det = a * d - b * b; if (!(det > 0)) return false; double sc = std::ldexp(1.0, -k); double ox = 0, oy = 0; for (int i = 1, w = lv[0].w, h = lv[0].h; i <= k; ++i) { if (w % 2 == 0) ox += std::ldexp(0.5, i - 1); if (h % 2 == 0) oy += std::ldexp(0.5, i - 1); w = (w + 1) / 2; h = (h + 1) / 2; }
    double X = sc * (cx - ox), Y = sc * (cy - oy), A = a / sc / sc, B = b / sc / sc, D = d / sc / sc, DET = A * D - B * B; double rx = std::sqrt(D * edge / DET), ry = std::sqrt(A * edge / DET); if (k == (int)lv.size() - 1 && (rx > 9 || ry > 9)) return false; if (rx * ry > 3e4) return false;
    const Level& l = lv[k]; out.assign(q.num, 0); std::vector<double> lo(q.num, 1e300), hi(q.num, -1e300); double tot = 0, unsure = 0; long cnt = 0;
    for (long y = (long)std::floor(Y - ry) - 1; y <= Y + ry + 1; ++y) for (long x = (long)std::floor(X - rx) - 1; x <= X + rx + 1; ++x) { double dx = x - X, dy = y - Y, Q = A*dx*dx + 2*B*dx*dy + D*dy*dy; double slop = 2e-3 + 1e-4 * (std::fabs(X) + std::fabs(Y)) * std::sqrt(A + D); if (Q > edge + slop) continue; double w = std::exp(-Q); if (Q > edge - slop) { unsure += w; } if (Q > edge) continue; tot += w; ++cnt; long ix = x, iy = y; bool in = wrapIndex(wm.sWrap, ix, l.w); in = wrapIndex(wm.tWrap, iy, l.h) && in; for (int i = 0; i < q.num; ++i) { double v = q.start + i >= l.ch ? q.fill : in ? l.at(ix, iy, q.start + i) : 0; out[i] += w * v; lo[i] = std::min(lo[i], v); hi[i] = std::max(hi[i], v); } }
    if (tot <= 0 || unsure > 0.2 * tot) return false; tol.assign(q.num, 0); double absHi = 0; for (const double v : l.v) absHi = std::max(absHi, std::fabs(v));
    for (int i = 0; i < q.num; ++i) { out[i] /= tot; double spread = unsure > 0 ? absHi : hi[i] - lo[i]; if (q.start + i >= l.ch) spread = 0; double pos = 3e-6 * (std::fabs(X) + std::fabs(Y)) * std::sqrt(A + D); tol[i] = spread * (0.013 + 2 * pos) + 2.2 * unsure / tot * (q.start + i >= l.ch ? 0 : absHi) + 1e-5 * std::max(absHi, 1.0); } return true;
}
// expected value of the lookup; ambiguous level choices widen the tolerance by trying both
static bool expected(const std::vector<Level>& lv, const Look& q, SqWrapModes wm, std::vector<std::vector<double>>& outs, std::vector<std::vector<double>>& tols, std::string& how, double edge = std::log(20.0), bool remap = true) {
    int W = lv[0].w, H = lv[0].h; const double var = 1.3 / (2 * M_PI); double s1x = q.s1[0] * q.sw, s1y = q.s1[1] * q.tw, s2x = q.s2[0] * q.sw, s2y = q.s2[1] * q.tw; double a = var * (s1x*s1x + s2x*s2x), b = var * (s1x*s1y + s2x*s2y), d = var * (s1y*s1y + s2y*s2y); if (q.sb > 0 || q.tb > 0) { a += q.sb * q.sb * 0.25; d += q.tb * q.tb * 0.25; } a = a * W * W + var; b = b * W * H; d = d * H * H + var;
    double tr = (a + d) / 2, df = std::sqrt((a - d) * (a - d) / 4 + b * b), e1 = tr + df, e2 = tr - df; if (e1 > 399 * e2 && e1 < 401 * e2) return false; if (e1 > 1e4 * e2) return false; if (400 * e2 < e1) { double ang = 0.5 * std::atan2(2 * b, a - d), co = std::cos(ang), si = std::sin(ang); e2 = e1 / 400; a = e1*co*co + e2*si*si; d = e1*si*si + e2*co*co; b = (e1 - e2) * co * si; how = "long footprint"; }
    double minor = std::sqrt(8 * e2 * edge); double det = a * d - b * b; double qa = 0.5 * d / det, qb = -0.5 * b / det, qd = 0.5 * a / det; double pc[2] = {q.c[0], q.c[1]}; if (remap && wm.sWrap == WrapMode_Periodic) pc[0] -= std::floor(pc[0]); if (remap && wm.tWrap == WrapMode_Periodic) pc[1] -= std::floor(pc[1]); double cx = pc[0] * W - 0.5, cy = pc[1] * H - 0.5;
    double minw = q.minw, ratio = 0; if (q.lerp == Lerp_Auto && (q.sb != 0 || q.tb != 0)) { double mb = std::max(q.sb * W, q.tb * H); ratio = std::min(1.0, 2 * mb / minor); minw += 2 * ratio; } if (std::fabs(ratio - 0.2) < 1e-3) return false; double lc = std::log2(minor / minw); int n = lv.size(); bool mix = q.lerp == Lerp_Always || (q.lerp == Lerp_Auto && ratio > 0.2);
    std::vector<double> tries{lc}; if (std::fabs(lc - std::round(lc)) < 1e-3) { tries = {std::round(lc) - 1e-6, std::round(lc) + 1e-6}; }
    for (double L : tries) { int k = std::min(n - 1, std::max(0, (int)std::floor(L))); std::vector<double> o, t; if (!average(lv, k, qa, qb, qd, cx, cy, q, wm, o, t, edge)) return false; if (k) how += " level " + std::to_string(k); if (mix && k < n - 1 && L > 0) { std::vector<double> o2, t2; if (!average(lv, k + 1, qa, qb, qd, cx, cy, q, wm, o2, t2, edge)) return false; double f = (L - k) * (L - k); for (size_t i = 0; i < o.size(); ++i) { o[i] = (1 - f) * o[i] + f * o2[i]; t[i] = std::max(t[i], t2[i]) + 1e-2 * f * 0 + 2e-3; } how += " two levels"; } outs.push_back(o); tols.push_back(t); }
    return true;
}
static const char* searchPath() { return "/tmp"; }
static void quiet() { TIFFSetWarningHandler(0); static std::ostringstream sink; static std::streambuf* b = log().rdbuf(sink.rdbuf()); (void)b; sink.str(""); }
