// C14: texture lookups.
//
// Textures are built from generated images, their stored levels are read back, and every lookup is
// compared with an independent double precision evaluation of the elliptical Gaussian average of
// the level which the filter footprint selects, under the wrap rules.  A second suite states the
// relations between lookups (repetition, constant textures, order independence, widths).
#include "tex_ref.h"
static CqTextureSampleOptions opts(const Look& q, SqWrapModes wm) { CqTextureSampleOptions o; o.setSWrapMode(wm.sWrap); o.setTWrapMode(wm.tWrap); o.setSWidth(q.sw); o.setTWidth(q.tw); o.setSBlur(q.sb); o.setTBlur(q.tb); o.setMinWidth(q.minw); o.setStartChannel(q.start); o.setNumChannels(q.num); o.setFill(q.fill); o.setLerp(q.lerp); return o; }
static CqVector2D v2(const double* p) { return CqVector2D(p[0], p[1]); }
static SqSamplePllgram region(const Look& q) { return SqSamplePllgram(v2(q.c), v2(q.s1), v2(q.s2)); }
static Look makeLook(pbt::Src& src, int W, int H, int ch, bool wide) {
    Look q; auto fl = [](double v) { return (double)(float)v; }; for (int i = 0; i < 2; ++i) { q.c[i] = src.chance(60) ? src.range(0, 4096) / 4096.0 : src.chance(50) ? src.pick(std::vector<double>{0, 1, 0.5, -0.001953125, 1.001953125}) : src.range(-4096, 8192) / 2048.0; int n = i ? H : W; double ext = src.chance(30) ? 0 : src.range(0, 3000) / 1000.0 / n * (src.chance(wide ? 40 : 10) ? 8 : 1); q.s1[i] = fl(ext * (src.coin() ? 1 : -1)); ext = src.chance(30) ? 0 : src.range(0, 3000) / 1000.0 / n * (src.chance(wide ? 40 : 10) ? 8 : 1); q.s2[i] = fl(ext * (src.coin() ? 1 : -1)); }
    if (src.chance(30)) { q.s1[1] = 0; q.s2[0] = 0; } q.sw = q.tw = 1; if (src.chance(40)) { q.sw = src.range(0, 12) / 4.0f; q.tw = src.coin() ? q.sw : src.range(0, 12) / 4.0f; } q.sb = q.tb = 0; if (src.chance(30)) { q.sb = src.range(0, 100) / 400.0f; q.tb = src.coin() ? q.sb : src.range(0, 100) / 400.0f; } q.minw = src.chance(80) ? 2 : src.range(4, 16) / 2.0f; q.lerp = src.pick(std::vector<EqMipmapLerp>{Lerp_Auto, Lerp_Never, Lerp_Always}); q.start = src.chance(60) ? 0 : src.range(0, ch + 1); q.num = src.range(1, 4); q.fill = src.range(0, 8) / 4.0f; return q;
}
static std::string describe(const Look& q) { std::ostringstream o; o << "centre (" << q.c[0] << "," << q.c[1] << ") sides (" << q.s1[0] << "," << q.s1[1] << ") (" << q.s2[0] << "," << q.s2[1] << ") width " << q.sw << "," << q.tw << " blur " << q.sb << "," << q.tb << " minwidth " << q.minw << " lerp " << q.lerp << " channels " << q.start << "+" << q.num << " fill " << q.fill; return o.str(); }
static const EqChannelType kTypes[] = {Channel_Float32, Channel_Unsigned8, Channel_Unsigned16, Channel_Unsigned32, Channel_Signed8, Channel_Signed16, Channel_Signed32};
static int dim(pbt::Src& src) { return src.chance(70) ? src.size(1, 40) : src.pick(std::vector<int>{1, 2, 31, 32, 33, 64, 65, 96}); }

PBT_SUITE(filtered_lookups, 14000, 250000) {
    quiet(); int w = dim(src), h = dim(src), ch = src.range(1, 5); EqChannelType t = src.pick(kTypes); SqWrapModes wm((EqWrapMode)src.range(0, 2), (EqWrapMode)src.range(0, 2)); Temp out(".tex"); std::vector<double> cst; double ramp[3] = {0, 0, 0}; std::vector<Level> lv = build(src, w, h, ch, t, Random, wm, out.n, cst, ramp);
    boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath); IqTextureSampler& s = cache->findTextureSampler(out.n.c_str()); if (s.defaultSampleOptions().sWrapMode() != wm.sWrap || s.defaultSampleOptions().tWrapMode() != wm.tWrap) fail("the lookup defaults do not use the file's wrap modes");
    std::ostringstream nt; nt << w << "x" << h << "x" << ch << " type " << t << " wrap " << wm.sWrap << "," << wm.tWrap; { std::ostringstream l; l << wm.sWrap << "/" << wm.tWrap; src.label(l.str()); }
    int n = src.range(1, 12); bool judged = false; for (int i = 0; i < n; ++i) { Look q = makeLook(src, w, h, ch, true); std::vector<float> got(q.num, -7e7f); s.sample(region(q), opts(q, wm), got.data()); std::vector<std::vector<double>> want, tol; std::string how; if (!expected(lv, q, wm, want, tol, how)) { src.label("undecided"); for (int c = 0; c < q.num; ++c) if (!(got[c] > -1e-4 && got[c] < 2.01)) fail("lookup outside the range of the texels: " + describe(q)); continue; } judged = true; if (how.find("level") != std::string::npos) src.label("coarser level"); if (how.find("two levels") != std::string::npos) src.label("interpolated levels"); if (how.find("long") != std::string::npos) src.label("clamped eccentricity"); if (q.start + q.num > ch) src.label("missing channels"); if (q.c[0] < 0 || q.c[0] > 1 || q.c[1] < 0 || q.c[1] > 1) src.label("outside [0,1]");
        bool ok = false; for (size_t a = 0; a < want.size() && !ok; ++a) { ok = true; for (int c = 0; c < q.num; ++c) if (!(std::fabs(got[c] - want[a][c]) <= tol[a][c])) ok = false; }
        if (!ok) { std::ostringstream m; m << nt.str() << ": lookup at " << describe(q) << how << " gives"; for (int c = 0; c < q.num; ++c) m << " " << got[c]; m << ", the average is"; for (int c = 0; c < q.num; ++c) m << " " << want[0][c] << "+-" << tol[0][c]; fail(m.str()); } src.note(nt.str() + " " + describe(q)); }
    if (judged && w * h > 1) src.nontrivial();
}
PBT_SUITE(relations, 12000, 200000) {
    quiet(); int w = dim(src), h = dim(src), ch = src.range(1, 4); EqChannelType t = src.pick(kTypes); Content content = src.pick(std::vector<Content>{Random, Constant, Ramp}); if (content == Ramp) t = Channel_Float32; SqWrapModes wm((EqWrapMode)src.range(0, 2), (EqWrapMode)src.range(0, 2)); Temp out(".tex"); std::vector<double> cst; double ramp[3] = {src.range(-8, 8) / 4.0, src.range(-8, 8) / 4.0, src.range(-8, 8) / 4.0}; std::vector<Level> lv = build(src, w, h, ch, t, content, wm, out.n, cst, ramp);
    boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath), other = IqTextureCache::create(searchPath); const std::string base = out.n.substr(5); IqTextureSampler& s = cache->findTextureSampler(src.coin() ? out.n.c_str() : base.c_str()); double lo = 1e300, hi = -1e300; for (const Level& l : lv) for (double v : l.v) { lo = std::min(lo, v); hi = std::max(hi, v); } double scale = std::max({std::fabs(lo), std::fabs(hi), 1e-3});
    src.nontrivial(); std::ostringstream nt; nt << w << "x" << h << "x" << ch << " type " << t << " wrap " << wm.sWrap << "," << wm.tWrap << " content " << content; src.note(nt.str()); src.label(content == Constant ? "constant" : content == Ramp ? "ramp" : "random"); std::vector<Look> qs; std::vector<std::vector<float>> rs;
    int n = src.range(1, 8); for (int i = 0; i < n; ++i) { Look q = makeLook(src, w, h, ch, true); std::vector<float> got(q.num, 1e9f), g2(q.num, 2e9f); CqTextureSampleOptions o = opts(q, wm); s.sample(region(q), o, got.data()); qs.push_back(q); rs.push_back(got); auto bad = [&](const std::string& what) { std::ostringstream m; m.precision(9); m << nt.str() << ": " << what << ": " << describe(q) << " gives"; for (float v : got) m << " " << v; m << " and"; for (float v : g2) m << " " << v; fail(m.str()); };
        bool black = wm.sWrap == WrapMode_Black || wm.tWrap == WrapMode_Black; double l2 = black ? std::min(lo, 0.0) : lo, h2 = black ? std::max(hi, 0.0) : hi; for (int c = 0; c < q.num; ++c) { if (q.start + c >= ch) { if (std::fabs(got[c] - q.fill) > 1e-5) bad("missing channel not filled"); continue; } if (!(got[c] >= l2 - 1e-5 * scale && got[c] <= h2 + 1e-5 * scale)) bad("outside the range of the texels"); if (content == Constant && !black && std::fabs(got[c] - lv[0].at(0, 0, q.start + c)) > 1.5e-2) bad("a constant texture is not constant"); }
        // channels do not influence each other
        { Look p = q; p.num = 1; p.start = q.start + src.range(0, q.num - 1); float one = 3e9f; s.sample(region(p), opts(p, wm), &one); g2[0] = one; if (std::fabs(one - got[p.start - q.start]) > 1e-6 * std::max(1.0f, std::fabs(one))) bad("a single channel differs"); }
        // widths scale the footprint
        { Look p = q; float sw = q.sw, tw = q.tw; p.sw = p.tw = 1; for (int k = 0; k < 2; ++k) { p.s1[k] = (float)((k ? tw : sw) * (float)q.s1[k]); p.s2[k] = (float)((k ? tw : sw) * (float)q.s2[k]); } s.sample(region(p), opts(p, wm), g2.data()); for (int c = 0; c < q.num; ++c) if (std::fabs(g2[c] - got[c]) > 1e-5 * scale) bad("the width options do not scale the footprint"); }
        // a quadrilateral and its parallelogram
        { CqVector2D C = v2(q.c), a = 0.5 * v2(q.s1), b = 0.5 * v2(q.s2); SqSampleQuad quad(C - a + b, C + a + b, C - a - b, C + a - b); SqSamplePllgram pg(quad); s.sample(quad, o, g2.data()); std::vector<float> g3(q.num); s.sample(pg, o, g3.data()); for (int c = 0; c < q.num; ++c) if (g3[c] != g2[c]) { got = g3; bad("a quadrilateral differs from its parallelogram"); } }
        // footprints do not depend on the order or sign of their sides
        { Look p = q; std::swap(p.s1[0], p.s2[0]); std::swap(p.s1[1], p.s2[1]); p.s1[0] = -p.s1[0]; p.s1[1] = -p.s1[1]; s.sample(region(p), opts(p, wm), g2.data()); std::vector<std::vector<double>> e, tl; std::string how; if (expected(lv, q, wm, e, tl, how) && e.size() == 1) for (int c = 0; c < q.num; ++c) if (std::fabs(g2[c] - got[c]) > tl[0][c]) bad("footprint sides exchanged"); }
        // whole periods
        if (wm.sWrap == WrapMode_Periodic || wm.tWrap == WrapMode_Periodic) { Look p = q; int ds = wm.sWrap == WrapMode_Periodic ? src.range(-3, 3) : 0, dt = wm.tWrap == WrapMode_Periodic ? src.range(-3, 3) : 0; p.c[0] += ds; p.c[1] += dt; s.sample(region(p), opts(p, wm), g2.data()); std::vector<std::vector<double>> e, tl; std::string how; if (expected(lv, p, wm, e, tl, how) && e.size() == 1) for (int c = 0; c < q.num; ++c) if (std::fabs(g2[c] - got[c]) > 2e-4 * scale + 0.2 * tl[0][c]) bad("shifting by whole periods changes the result"); if (ds || dt) src.label("shifted"); }
        // linear textures are reproduced away from the edges
        if (content == Ramp && q.sb == 0 && q.tb == 0) { double ex = 2 * (std::fabs(q.s1[0]) + std::fabs(q.s2[0])) * q.sw + 10.0 / w, ey = 2 * (std::fabs(q.s1[1]) + std::fabs(q.s2[1])) * q.tw + 10.0 / h; if (w >= 24 && h >= 24 && q.c[0] > ex && q.c[0] < 1 - ex && q.c[1] > ey && q.c[1] < 1 - ey && q.minw == 2) { double want = ramp[0] + ramp[1] * q.c[0] + ramp[2] * q.c[1]; src.label("ramp judged"); for (int c = 0; c < q.num && q.start + c < ch; ++c) if (std::fabs(got[c] - want) > (std::fabs(ramp[1]) / w + std::fabs(ramp[2]) / h) * 0.6 + 1e-4) { g2[0] = want; bad("a linear texture is not reproduced"); } } } }
    // results do not depend on earlier lookups
    IqTextureSampler& s2 = other->findTextureSampler(out.n.c_str()); for (int i = n - 1; i >= 0; --i) { std::vector<float> g(qs[i].num); s2.sample(region(qs[i]), opts(qs[i], wm), g.data()); if (g != rs[i]) fail(nt.str() + ": the result depends on the order of the lookups: " + describe(qs[i])); } if (src.chance(20)) { cache->flush(); IqTextureSampler& s3 = cache->findTextureSampler(out.n.c_str()); std::vector<float> g(qs[0].num); s3.sample(region(qs[0]), opts(qs[0], wm), g.data()); if (g != rs[0]) fail("flushing the cache changes a lookup"); }
}
PBT_SUITE(unusable_files, 3000, 40000) {
    quiet(); Temp out(".tex"); int kind = src.range(0, 3); if (kind == 1) { FILE* f = fopen(out.n.c_str(), "wb"); int n = src.size(0, 200); for (int i = 0; i < n; ++i) fputc(src.range(0, 255), f); fclose(f); } if (kind >= 2) { std::vector<double> cst; double r[3] = {0, 0, 0}; build(src, src.size(1, 30), src.size(1, 30), src.range(1, 3), Channel_Float32, Random, SqWrapModes(), out.n, cst, r); if (kind == 3) { FILE* f = fopen(out.n.c_str(), "r+b"); fseek(f, 0, SEEK_END); long n = ftell(f); if (ftruncate(fileno(f), src.range(0, n - 1))) {} fclose(f); } }
    src.label(kind == 0 ? "absent" : kind == 1 ? "rubbish" : kind == 2 ? "good" : "truncated"); src.note(std::to_string(kind)); src.nontrivial(); TIFFSetErrorHandler(0); boost::shared_ptr<IqTextureCache> c = IqTextureCache::create(searchPath); IqTextureSampler& s = c->findTextureSampler(out.n.c_str()); Look q = makeLook(src, 8, 8, 3, false); std::vector<float> got(q.num + 1, 5e8f); SqWrapModes wm; s.sample(region(q), opts(q, wm), got.data()); if (got[q.num] != 5e8f) fail("the lookup wrote too many channels"); if (kind < 2) for (int i = 0; i < q.num; ++i) if (!(got[i] >= 0 && got[i] <= 1)) fail("an unusable texture gives " + std::to_string(got[i])); const CqTexFileHeader* h = 0; try { h = c->textureInfo(out.n.c_str()); } catch (XqBadTexture&) {} if (kind == 0 && h) fail("information about an absent file"); if (kind == 2 && !h) fail("no information about a good file");
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a lookup is non-trivial if its texture has more than one texel and the expected average is decided by the reference (footprints whose edge passes too close to a texel are left out)"); }
