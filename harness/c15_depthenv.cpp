// C15: shadow, occlusion and environment lookups.
//
// Depth maps with generated cameras are sampled and compared with the weighted fraction of texels
// in front of the receiver, evaluated independently from the map's pixels and matrices;
// environment maps are compared with the reference average of C14 around the texel which the
// direction denotes, with the footprint obtained by differentiating the direction mapping.
#include "tex_ref.h"
#include <aqsis/tex/filtering/ishadowsampler.h>
#include <aqsis/tex/filtering/iocclusionsampler.h>
#include <aqsis/tex/filtering/ienvironmentsampler.h>
#include <aqsis/math/matrix.h>
#include <array>
typedef std::array<double, 3> V; typedef std::array<std::array<double, 4>, 4> M4;
static M4 ident() { M4 m{}; for (int i = 0; i < 4; ++i) m[i][i] = 1; return m; }
static M4 mul(const M4& a, const M4& b) { M4 r{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r[i][j] += a[i][k] * b[k][j]; return r; }   // row vectors: apply a first
static V app(const M4& m, const V& p) { double o[4]; for (int j = 0; j < 4; ++j) o[j] = p[0]*m[0][j] + p[1]*m[1][j] + p[2]*m[2][j] + m[3][j]; return {o[0]/o[3], o[1]/o[3], o[2]/o[3]}; }
static CqMatrix toCq(const M4& m) { CqMatrix r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = m[i][j]; r.SetfIdentity(false); return r; }
static M4 fromCq(const CqMatrix& m) { M4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[i][j] = m[i][j]; return r; }
static CqVector3D cv(const V& v) { return CqVector3D(v[0], v[1], v[2]); }
static V rnd(const V& v) { return {(double)(float)v[0], (double)(float)v[1], (double)(float)v[2]}; }
static M4 rigid(pbt::Src& src, double span) { M4 m = ident(); int n = src.range(0, 2); for (int k = 0; k < n; ++k) { double a = src.range(0, 719) * M_PI / 360, c = std::cos(a), s = std::sin(a); int ax = src.range(0, 2), i = (ax + 1) % 3, j = (ax + 2) % 3; M4 r = ident(); r[i][i] = c; r[j][j] = c; r[i][j] = s; r[j][i] = -s; m = mul(m, r); } for (int j = 0; j < 3; ++j) m[3][j] = src.range(-100, 100) / 100.0 * span; return m; }
static M4 inverse(const M4& m) { return fromCq(toCq(m).Inverse()); }
struct Map { int w, h; std::vector<float> z; M4 w2c, w2s; bool persp; double flat; };
static Map makeMap(pbt::Src& src, bool flat) {
    Map m; m.w = src.size(1, 40); m.h = src.size(1, 40); if (src.chance(10)) m.w = m.h = 33; m.z.resize(m.w * m.h); unsigned r = src.draw(1u << 30); m.flat = src.range(10, 200) / 10.0; bool split = src.chance(40); for (int i = 0; i < m.w * m.h; ++i) { r = r * 1664525u + 1013904223u; m.z[i] = flat ? m.flat : split ? (i % m.w < m.w / 2 ? 5 : 15) : (r >> 8) / double(1 << 24) * 20; }
    m.w2c = fromCq(toCq(rigid(src, 5))); m.persp = src.coin(); M4 p{}; double f = src.range(5, 40) / 10.0; if (m.persp) { p[0][0] = p[1][1] = f; p[2][2] = 1; p[2][3] = 1; p[3][2] = -0.1; } else { p = ident(); p[0][0] = p[1][1] = f / 10; } m.w2s = fromCq(toCq(mul(m.w2c, p))); return m;
}
static void writeMaps(const std::vector<Map>& ms, const std::string& out, bool occ) { std::vector<std::unique_ptr<Temp>> fs; std::vector<boostfs::path> names; for (size_t k = 0; k < ms.size(); ++k) { const Map& m = ms[k]; fs.emplace_back(new Temp(".z" + std::to_string(k))); names.push_back(fs.back()->n); CqTexFileHeader hd; hd.setWidth(m.w); hd.setHeight(m.h); hd.channelList().addChannel(SqChannelInfo("z", Channel_Float32)); hd.set<Attr::WorldToScreenMatrix>(toCq(m.w2s)); hd.set<Attr::WorldToCameraMatrix>(toCq(m.w2c)); boost::shared_ptr<IqTexOutputFile> f = IqTexOutputFile::open(fs.back()->n, ImageFile_Tiff, hd); CqMixedImageBuffer b(hd.channelList(), m.w, m.h); memcpy(b.rawData(), m.z.data(), m.z.size() * 4); f->writePixels(b); } Ri::ParamList pl; if (occ) makeOcclusion(names, out, CqRiParamList(pl)); else makeShadow(names[0], out, CqRiParamList(pl)); }
struct Recv { V v[4]; float sw, tw, sb, tb, b0, b1; EqDepthApprox da; };
static V centre(const V* v) { V c{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) c[j] += v[i][j] / 4; return c; }
// returns false if undecided; lo..hi is the interval in which the fraction must lie
static bool fraction(const Map& m, const M4& c2w, const Recv& q, double& lo, double& hi, std::string& how) {
    V L[4], T[4]; M4 toL = mul(c2w, m.w2c), toS = mul(c2w, m.w2s); for (int i = 0; i < 4; ++i) { L[i] = app(toL, q.v[i]); if (m.persp && L[i][2] < 0.3) return false; V s = app(toS, q.v[i]); T[i] = {(s[0] + 1) / 2, (1 - s[1]) / 2, 0}; }
    V c = centre(T); for (int i = 0; i < 4; ++i) { T[i][0] = q.sw * T[i][0] + (1 - q.sw) * c[0]; T[i][1] = q.tw * T[i][1] + (1 - q.tw) * c[1]; if (!(std::fabs(T[i][0]) < 40 && std::fabs(T[i][1]) < 40)) return false; }
    const double var = 1.3 / (2 * M_PI), edge = 2; double s1x = 0.5 * (T[1][0] - T[0][0] + T[3][0] - T[2][0]), s1y = 0.5 * (T[1][1] - T[0][1] + T[3][1] - T[2][1]), s2x = 0.5 * (T[0][0] - T[2][0] + T[1][0] - T[3][0]), s2y = 0.5 * (T[0][1] - T[2][1] + T[1][1] - T[3][1]);
    double a = var * (s1x*s1x + s2x*s2x), b = var * (s1x*s1y + s2x*s2y), d = var * (s1y*s1y + s2y*s2y); if (q.sb > 0 || q.tb > 0) { a += q.sb*q.sb*0.25; d += q.tb*q.tb*0.25; } a = a * m.w * m.w + var; b *= (double)m.w * m.h; d = d * m.h * m.h + var; double tr = (a + d) / 2, df = std::sqrt((a - d)*(a - d)/4 + b*b), e1 = tr + df, e2 = tr - df; if (e1 > 390 * e2) return false; double det = a*d - b*b, qa = 0.5*d/det, qb = -0.5*b/det, qd = 0.5*a/det, X = c[0] * m.w - 0.5, Y = c[1] * m.h - 0.5; double all = 0, unsure = 0, mustHi = 0, mustLo = 0;
    double zc = centre(L)[2]; double zx = 0, zy = 0; if (q.da == DApprox_Linear) { if (m.persp) return false; V e{T[3][0] - T[0][0], T[3][1] - T[0][1], L[3][2] - L[0][2]}, f{T[2][0] - T[1][0], T[2][1] - T[1][1], L[2][2] - L[1][2]}; V n{e[1]*f[2] - e[2]*f[1], e[2]*f[0] - e[0]*f[2], e[0]*f[1] - e[1]*f[0]}; double mag = std::sqrt(n[0]*n[0] + n[1]*n[1] + n[2]*n[2]); if (mag < 1e-9 || std::fabs(n[2]) < 1e-2 * mag) return false; zx = -n[0] / n[2] / m.w; zy = -n[1] / n[2] / m.h; how = "linear depth"; }
    double coarse = std::max({1.0, std::fabs(X), std::fabs(Y)});
    double uLo = 0, uHi = 0;   // texels on the edge of the filter: weight surely lit at worst, shadowed at worst
    auto ramp = [&](double t) { return q.b0 == q.b1 ? (t > q.b0 ? 1.0 : 0.0) : t >= q.b1 ? 1.0 : t > q.b0 ? (t - q.b0) / (q.b1 - q.b0) : 0.0; };
    for (int y = 0; y < m.h; ++y) for (int x = 0; x < m.w; ++x) { double dx = x - X, dy = y - Y, Q = qa*dx*dx + 2*qb*dx*dy + qd*dy*dy, slop = 3e-3 + 2e-4 * coarse * std::sqrt(qa + qd); if (Q > edge + slop) continue; double w = std::exp(-Q), z = zc + zx * dx + zy * dy, st = m.z[y * m.w + x], dlt = z - st, eps = 2e-4 * (1 + std::fabs(z) + std::fabs(st)) + (zx || zy ? 2e-3 * (std::fabs(zx) + std::fabs(zy)) * coarse : 0); if (Q > edge - slop) { unsure += w; uLo += w * (1 - ramp(dlt - eps)); uHi += w * ramp(dlt + eps); continue; } all += w; mustLo += w * ramp(dlt - eps); mustHi += w * ramp(dlt + eps); }
    if (all == 0 && unsure == 0) { lo = hi = 0; how += " outside"; return true; } if (all <= 0 || unsure > 0.25 * all) return false; lo = mustLo / (all + uLo); hi = (mustHi + uHi) / (all + uHi); double t = 0.026 + 2e-4 * coarse; lo = std::max(0.0, lo - t * lo * (1 - lo)); hi = std::min(1.0, hi + t * hi * (1 - hi)); return true;
}
static Recv makeRecv(pbt::Src& src, const Map& m, const M4& c2w) { // in the space of the map, then to current space
    Recv q; double z = src.range(5, 250) / 10.0, f = 1; V lc; double scr[2]; for (int i = 0; i < 2; ++i) scr[i] = src.chance(75) ? src.range(-100, 100) / 100.0 : src.range(-300, 300) / 100.0; M4 c2s = mul(inverse(m.w2c), m.w2s); f = c2s[0][0]; double k = m.persp ? z / f : 1 / f; lc = {scr[0] * k, scr[1] * k, z}; double e = src.range(0, 40) / 100.0 * (src.chance(20) ? 4 : 1); V a{}, b{}; for (int i = 0; i < 3; ++i) { a[i] = src.range(-100, 100) / 100.0 * e; b[i] = src.range(-100, 100) / 100.0 * e; } if (src.chance(40)) { a = {e, 0, 0}; b = {0, e, 0}; }
    M4 inv = inverse(mul(c2w, m.w2c)); for (int i = 0; i < 4; ++i) { double sa = i % 2 ? 0.5 : -0.5, sb = i / 2 ? -0.5 : 0.5; V p{}; for (int j = 0; j < 3; ++j) p[j] = lc[j] + sa * a[j] + sb * b[j]; q.v[i] = rnd(app(inv, p)); } q.sw = q.tw = src.chance(60) ? 1 : src.range(0, 16) / 4.0f; if (src.chance(20)) q.tw = src.range(0, 16) / 4.0f; q.sb = q.tb = src.chance(60) ? 0 : src.range(0, 50) / 100.0f; if (src.chance(20)) q.tb = src.range(0, 50) / 100.0f; q.b0 = q.b1 = src.chance(50) ? 0 : src.range(-100, 200) / 100.0f; if (src.chance(30)) q.b1 = q.b0 + src.range(1, 300) / 100.0f; q.da = src.chance(30) ? DApprox_Linear : DApprox_Constant; return q; }
static std::string show(const Map& m, const Recv& q) { std::ostringstream o; V c = centre(q.v); o << (m.persp ? "perspective " : "orthographic ") << m.w << "x" << m.h << " receiver at " << c[0] << "," << c[1] << "," << c[2] << " width " << q.sw << "," << q.tw << " blur " << q.sb << "," << q.tb << " bias " << q.b0 << "," << q.b1 << " depth " << q.da; return o.str(); }
static CqShadowSampleOptions so(const Recv& q, int n) { CqShadowSampleOptions o; o.setNumChannels(1); o.setSWidth(q.sw); o.setTWidth(q.tw); o.setSBlur(q.sb); o.setTBlur(q.tb); o.setBiasLow(q.b0); o.setBiasHigh(q.b1); o.setDepthApprox(q.da); o.setNumSamples(n); return o; }
static Sq3DSampleQuad quadOf(const Recv& q) { return Sq3DSampleQuad(cv(q.v[0]), cv(q.v[1]), cv(q.v[2]), cv(q.v[3])); }

PBT_SUITE(shadows, 30000, 250000) {
    quiet(); M4 c2w = fromCq(toCq(rigid(src, 5))); int n = src.chance(75) ? 1 : src.range(2, 4); bool flat = src.chance(25); std::vector<Map> ms; for (int k = 0; k < n; ++k) ms.push_back(makeMap(src, flat)); Temp out(".shad"); writeMaps(ms, out.n, n > 1); boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath); cache->setCurrToWorldMatrix(toCq(c2w)); IqShadowSampler& s = cache->findShadowSampler(out.n.c_str()); src.label(n > 1 ? "several views" : "one view");
    int looks = src.range(1, 8); for (int i = 0; i < looks; ++i) { int which = src.range(0, n - 1); Recv q = makeRecv(src, ms[which], c2w); bool onPlane = false; for (auto& m : ms) for (int k = 0; k < 4; ++k) if (m.persp && std::fabs(app(mul(c2w, m.w2c), q.v[k])[2]) < 0.02) onPlane = true; if (onPlane) continue; int view = 0; bool tie = false; if (n > 1) { double best = 0; V c = centre(q.v); std::vector<double> zs; for (int k = 0; k < n; ++k) { double z = app(mul(c2w, ms[k].w2c), c)[2]; zs.push_back(z); if (z > best) { best = z; view = k; } } for (int k = 0; k < n; ++k) if (k != view && std::fabs(zs[k] - zs[view]) < 1e-3 * (1 + std::fabs(best))) tie = true; if (best <= 0) tie = true; } if (tie) continue; const Map& m = ms[view];
        float got = -9; s.sample(quadOf(q), so(q, -1), &got); if (!(got >= -1e-6 && got <= 1 + 1e-5)) fail("shadow fraction " + std::to_string(got) + ": " + show(m, q)); double lo, hi; std::string how; bool dec = fraction(m, c2w, q, lo, hi, how); if (dec) { src.nontrivial(); src.note(show(m, q)); if (how.find("outside") != std::string::npos) src.label("outside the map"); if (how.find("linear") == 0) src.label("linear depth"); src.label(hi < 0.02 ? "lit" : lo > 0.98 ? "shadowed" : "partial"); if (!(got >= lo - 1e-5 && got <= hi + 1e-5)) { std::ostringstream o; o << "shadow is " << got << ", expected between " << lo << " and " << hi << " (" << how << "): " << show(m, q); fail(o.str()); } } else src.label("undecided");
        int ns = src.range(1, 64); float st = -9; s.sample(quadOf(q), so(q, ns), &st); if (!(st >= -1e-6 && st <= 1 + 1e-5)) fail("shadow fraction from " + std::to_string(ns) + " samples is " + std::to_string(st)); if (dec && hi == 0 && st != 0) fail("samples find a shadow where there is none"); if (dec && flat && lo > 0.97 && got > 0.99 && ns >= 40 && q.b0 == q.b1 && q.da == DApprox_Constant && st > 0 && st < 0.99) fail("samples of a flat map give " + std::to_string(st)); if (st > 0 && dec && flat && lo > 0.97) src.label("sampled shadow"); }
}
PBT_SUITE(occlusion, 8000, 150000) {
    quiet(); M4 c2w = fromCq(toCq(rigid(src, 5))); int n = src.range(1, 6); std::vector<Map> ms; for (int k = 0; k < n; ++k) { ms.push_back(makeMap(src, true)); Map& m = ms.back(); m.flat = src.coin() ? 1e30 : -1e30; for (auto& z : m.z) z = m.flat; } Temp out(".occ"); writeMaps(ms, out.n, true); boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath); cache->setCurrToWorldMatrix(toCq(c2w)); IqOcclusionSampler& s = cache->findOcclusionSampler(out.n.c_str());
    for (int i = src.range(1, 4); i > 0; --i) { V p{}, nn{}; bool ok = false; for (int t = 0; t < 3; ++t) { p[t] = src.range(-30, 30) / 10.0; nn[t] = src.range(-10, 10) / 10.0; if (nn[t]) ok = true; } if (!ok) nn[2] = 1; bool onPlane = false; for (auto& m : ms) if (m.persp && std::fabs(app(mul(c2w, m.w2c), p)[2]) < 0.05) onPlane = true; if (onPlane) continue; double len = std::sqrt(nn[0]*nn[0] + nn[1]*nn[1] + nn[2]*nn[2]); int N = src.pick(std::vector<int>{1, 4, 16, 64, 256}); CqShadowSampleOptions o; o.setNumChannels(1); o.setNumSamples(N); o.setBlur(src.range(0, 50) / 100.0f); float got = -9; s.sample(Sq3DSamplePllgram(cv(p), CqVector3D(0, 0, 0), CqVector3D(0, 0, 0)), cv(nn), o, &got); if (!(got >= -1e-6 && got <= 1 + 1e-5)) fail("occlusion is " + std::to_string(got) + " with " + std::to_string(n) + " maps"); src.note(std::to_string(n) + " maps, " + std::to_string(N) + " samples"); src.nontrivial();
        // maps looking at the surface from its front side count by the cosine; a point off a map is not occluded there
        double lo = 0, hi = 0, cnt = 0, cntLo = 0, cntHi = 0; bool judge = true, any = false; for (int k = 0; k < n; ++k) { M4 toL = mul(c2w, ms[k].w2c); double w = 0; for (int t = 0; t < 3; ++t) w -= nn[t] / len * toL[t][2]; if (std::fabs(w) < 1e-3) { judge = false; continue; } if (w < 0) continue; any = true; V l = app(toL, p); if (ms[k].persp && std::fabs(l[2]) < 0.3) { judge = false; continue; } V sc = app(mul(c2w, ms[k].w2s), p); double x = (sc[0] + 1) / 2 * ms[k].w - 0.5, y = (1 - sc[1]) / 2 * ms[k].h - 0.5, rx = 0.5 * o.sBlur() * ms[k].w, ry = 0.5 * o.tBlur() * ms[k].h; bool in = x - rx > -0.45 && x + rx < ms[k].w - 0.55 && y - ry > -0.45 && y + ry < ms[k].h - 0.55, outm = x + rx < -0.6 || x - rx > ms[k].w - 0.4 || y + ry < -0.6 || y - ry > ms[k].h - 0.4; if (!in && !outm) { judge = false; continue; } bool occ = in && ms[k].flat < 0; double cs = 4.0 * N / n * w, a = std::floor(cs - 1e-3), b = std::floor(cs + 1e-3) + 1; cnt += cs; cntLo += a; cntHi += b; if (occ) { lo += a; hi += b; } }
        if (!judge) { src.label("undecided"); continue; } if (!any) { src.label("no map faces the surface"); if (got != 0) fail("occlusion " + std::to_string(got) + " although no map sees the surface"); continue; } if (cntLo < 8) { src.label("few samples"); continue; } src.label("judged"); double nonLo = cntLo - lo, nonHi = cntHi - hi; double mn = lo <= 0 ? 0 : lo / (lo + nonHi), mx = hi <= 0 ? 0 : hi / (hi + nonLo); if (!(got >= mn - 1e-4 && got <= mx + 1e-4)) { std::ostringstream e; e << "occlusion is " << got << ", expected between " << mn << " and " << mx << " from " << n << " maps"; fail(e.str()); } }
}
// the position in the map of a direction, standard orientation of cube faces and lat-long maps
static bool stOf(const V& R, bool cube, double cot, double& s, double& t, int& face) { double x = R[0], y = R[1], z = R[2]; if (!cube) { double l = std::sqrt(x*x + y*y + z*z); s = 0.5 + std::atan2(y, x) / (2 * M_PI); t = std::acos(std::max(-1.0, std::min(1.0, z / l))) / M_PI; return std::hypot(x, y) > 0.02 * l; }
    double ax = std::fabs(x), ay = std::fabs(y), az = std::fabs(z), u, v; if (ax >= ay && ax >= az) { face = x > 0 ? 0 : 1; u = x > 0 ? -z / ax : z / ax; v = -y / ax; } else if (ay >= ax && ay >= az) { face = y > 0 ? 2 : 3; u = x / ay; v = y > 0 ? z / ay : -z / ay; } else { face = z > 0 ? 4 : 5; u = z > 0 ? x / az : -x / az; v = -y / az; } s = (face / 2 + 0.5 + 0.5 * u * cot) / 3; t = (face % 2 + 0.5 + 0.5 * v * cot) / 2; double mx = std::max({ax, ay, az}), md = ax + ay + az - mx - std::min({ax, ay, az}); return md < 0.999 * mx; }
PBT_SUITE(environments, 8000, 150000) {
    quiet(); bool cube = src.coin(); bool constant = src.chance(25); int w = src.size(1, 24), h = src.size(1, 24), ch = src.range(1, 4); double fov = src.chance(60) ? 90 : src.range(85, 110), cot = 1 / std::tan(fov * M_PI / 360); std::vector<std::unique_ptr<Temp>> fs; double cst = src.range(0, 100) / 100.0; Temp out(".env"); src.label(cube ? "cube" : "lat-long"); Ri::ParamList pl;
    for (int k = 0; k < (cube ? 6 : 1); ++k) { fs.emplace_back(new Temp(".e" + std::to_string(k))); CqTexFileHeader hd; hd.setWidth(w); hd.setHeight(h); static const char* nm[] = {"r", "g", "b", "a"}; for (int c = 0; c < ch; ++c) hd.channelList().addChannel(SqChannelInfo(nm[c], Channel_Float32)); boost::shared_ptr<IqTexOutputFile> f = IqTexOutputFile::open(fs.back()->n, ImageFile_Tiff, hd); CqMixedImageBuffer b(hd.channelList(), w, h); unsigned r = src.draw(1u << 30); float* d = (float*)b.rawData(); for (int i = 0; i < w * h * ch; ++i) { r = r * 1664525u + 1013904223u; d[i] = constant ? cst : k + (r >> 8) / double(1 << 24); } f->writePixels(b); }
    if (cube) makeCubeFaceEnvironment(fs[0]->n, fs[1]->n, fs[2]->n, fs[3]->n, fs[4]->n, fs[5]->n, out.n, fov, SqFilterInfo(fBox, 1, 1), CqRiParamList(pl)); else makeLatLongEnvironment(fs[0]->n, out.n, SqFilterInfo(fBox, 1, 1), CqRiParamList(pl));
    std::vector<Level> lv; { boost::shared_ptr<IqMultiTexInputFile> f = IqMultiTexInputFile::open(out.n); for (int k = 0; k < f->numSubImages(); ++k) { f->setImageIndex(k); Level l; l.w = f->header().width(); l.h = f->header().height(); l.ch = ch; CqMixedImageBuffer b; f->readPixels(b); const float* d = (const float*)b.rawData(); l.v.assign(d, d + (size_t)l.w * l.h * ch); lv.push_back(l); } }
    boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath); IqEnvironmentSampler& s = cache->findEnvironmentSampler(out.n.c_str()); SqWrapModes wm = cube ? SqWrapModes(WrapMode_Clamp, WrapMode_Clamp) : SqWrapModes(WrapMode_Periodic, WrapMode_Clamp); if (s.defaultSampleOptions().sWrapMode() != wm.sWrap || s.defaultSampleOptions().tWrapMode() != wm.tWrap) fail("environment lookup defaults");
    std::ostringstream nt; nt << (cube ? "cube " : "lat-long ") << w << "x" << h << "x" << ch << (constant ? " constant" : ""); src.note(nt.str()); double lo = 1e300, hi = -1e300; for (auto& l : lv) for (double v : l.v) { lo = std::min(lo, v); hi = std::max(hi, v); }
    for (int i = src.range(1, 8); i > 0; --i) { V R, a, b; for (int t = 0; t < 3; ++t) { R[t] = src.range(-100, 100) / 50.0; a[t] = src.range(-100, 100) / 100.0; b[t] = src.range(-100, 100) / 100.0; } if (src.chance(10)) { R = {0, 0, 0}; R[src.range(0, 2)] = src.coin() ? 1 : -1; } double len = std::sqrt(R[0]*R[0] + R[1]*R[1] + R[2]*R[2]); if (len < 0.1) continue; double e = src.chance(30) ? 0 : src.range(0, 100) / 100.0 * len / std::max(w, h) * 2; for (int t = 0; t < 3; ++t) { a[t] *= e; b[t] *= e; } R = rnd(R); a = rnd(a); b = rnd(b);
        Look q{}; q.sw = q.tw = src.chance(70) ? 1 : src.range(0, 8) / 4.0f; q.sb = q.tb = 0; q.minw = 2; q.lerp = src.pick(std::vector<EqMipmapLerp>{Lerp_Auto, Lerp_Never, Lerp_Always}); q.start = src.range(0, ch - 1); q.num = src.range(1, 4); q.fill = 0.5f; CqTextureSampleOptions o; o.setSWrapMode(wm.sWrap); o.setTWrapMode(wm.tWrap); o.setSWidth(q.sw); o.setTWidth(q.tw); o.setMinWidth(2); o.setStartChannel(q.start); o.setNumChannels(q.num); o.setFill(q.fill); o.setLerp(q.lerp);
        std::vector<float> got(q.num, -9), g2(q.num, -9); auto reg = [&](double k) { auto sc = [&](const V& v) { return CqVector3D(v[0] * k, v[1] * k, v[2] * k); }; return Sq3DSamplePllgram(sc(R), sc(a), sc(b)); }; s.sample(reg(1), o, got.data()); std::ostringstream ds; ds.precision(8); ds << nt.str() << " direction " << R[0] << "," << R[1] << "," << R[2] << " spread " << e; s.sample(reg(src.pick(std::vector<double>{0.25, 4, 64})), o, g2.data()); for (int c = 0; c < q.num; ++c) if (std::fabs(got[c] - g2[c]) > 1e-3 * (1 + hi)) fail("the lookup depends on the length of the direction: " + ds.str());
        for (int c = 0; c < q.num; ++c) { if (q.start + c >= ch) { if (std::fabs(got[c] - 0.5) > 1e-5) fail("missing channel not filled: " + ds.str()); } else if (!(got[c] >= lo - 1e-4 && got[c] <= hi + 1e-4)) fail("outside the range of the map: " + ds.str()); }
        double s0, t0, sp, tp, sm, tm; int f0 = -1, f1 = -1, f2 = -1; if (!stOf(R, cube, cot, s0, t0, f0)) { src.label("undecided"); continue; } q.c[0] = s0; q.c[1] = t0; bool ok = true; for (int side = 0; side < 2; ++side) { const V& d = side ? b : a; V p, mnus; double k = 1e-5; double dl = std::sqrt(d[0]*d[0] + d[1]*d[1] + d[2]*d[2]); double hstep = dl > 0 ? k * len / dl : 0; for (int t = 0; t < 3; ++t) { p[t] = R[t] + hstep * d[t]; mnus[t] = R[t] - hstep * d[t]; } stOf(p, cube, cot, sp, tp, f1); stOf(mnus, cube, cot, sm, tm, f2); if (cube && (f1 != f0 || f2 != f0)) ok = false; if (std::fabs(sp - sm) > 0.4) ok = false; double* dst = side ? q.s2 : q.s1; dst[0] = dl > 0 ? (sp - sm) / (2 * hstep) : 0; dst[1] = dl > 0 ? (tp - tm) / (2 * hstep) : 0; } if (!ok) { src.label("undecided"); continue; }
        std::vector<std::vector<double>> want, tol; std::string how; if (!expected(lv, q, wm, want, tol, how, 4.0, false)) { src.label("undecided"); continue; } src.nontrivial(); src.label("judged"); bool good = false; for (size_t k = 0; k < want.size() && !good; ++k) { good = true; for (int c = 0; c < q.num; ++c) if (!(std::fabs(got[c] - want[k][c]) <= tol[k][c] + 2e-3 * (hi - lo))) good = false; } if (!good) { std::ostringstream m; m << ds.str() << " gives " << got[0] << ", the average is " << want[0][0] << "+-" << tol[0][0] << how; fail(m.str()); }
        // blurring keeps constants and the range
        o.setBlur(src.range(1, 60) / 100.0f); s.sample(reg(1), o, got.data()); for (int c = 0; c < q.num && q.start + c < ch; ++c) if (!(got[c] >= lo - 1e-4 && got[c] <= hi + 1e-4)) fail("a blurred lookup is outside the range of the map: " + ds.str()); }
}
PBT_SUITE(unusable_maps, 1500, 20000) {
    quiet(); TIFFSetErrorHandler(0); Temp out(".bad"); int kind = src.range(0, 2); src.label(kind == 0 ? "absent" : kind == 1 ? "plain texture" : "rubbish"); src.note(std::to_string(kind)); src.nontrivial(); if (kind == 1) { std::vector<double> c; double r[3] = {0, 0, 0}; build(src, src.size(1, 20), src.size(1, 20), src.range(1, 3), src.coin() ? Channel_Float32 : Channel_Unsigned8, Random, SqWrapModes(), out.n, c, r); } if (kind == 2) { FILE* f = fopen(out.n.c_str(), "wb"); for (int n = src.size(0, 200); n > 0; --n) fputc(src.range(0, 255), f); fclose(f); }
    boost::shared_ptr<IqTextureCache> cache = IqTextureCache::create(searchPath); float v[4] = {-9, -9, -9, 5e8f}; Map m = makeMap(src, true); Recv q = makeRecv(src, m, ident()); cache->findShadowSampler(out.n.c_str()).sample(quadOf(q), so(q, 16), v); if (!(v[0] >= 0 && v[0] <= 1)) fail("an unusable shadow map gives " + std::to_string(v[0])); v[0] = -9; Sq3DSamplePllgram pg(cv(q.v[0]), CqVector3D(0.1f, 0, 0), CqVector3D(0, 0.1f, 0)); cache->findOcclusionSampler(out.n.c_str()).sample(pg, CqVector3D(0, 0, 1), so(q, 16), v); if (!(v[0] >= 0 && v[0] <= 1)) fail("an unusable occlusion map gives " + std::to_string(v[0])); CqTextureSampleOptions o; o.setNumChannels(3); v[0] = -9; cache->findEnvironmentSampler(out.n.c_str()).sample(pg, o, v); for (int i = 0; i < 3; ++i) if (!(v[i] >= 0 && v[i] <= 1)) fail("an unusable environment map gives " + std::to_string(v[i])); if (v[3] != 5e8f) fail("too many channels written");
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a lookup is non-trivial if the reference decides its value (receivers whose filter edge or depth is too close to call, and directions within 0.1% of a cube edge, are only range-checked)"); }
