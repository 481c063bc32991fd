// C28: splines, colour conversions, random numbers, low-discrepancy sequences, bit vectors,
// object pools and enumeration names against models written from their definitions.
#include "pbt.h"
#include <random>
#include <aqsis/math/spline.h>
#include <aqsis/math/color.h>
#include <aqsis/math/vector3d.h>
#include <aqsis/math/random.h>
#include <aqsis/math/lowdiscrep.h>
#include <aqsis/util/bitvector.h>
#include <aqsis/util/pool.h>
#include <aqsis/util/sstring.h>
#include <aqsis/riutil/primvartype.h>
using namespace Aqsis;
using pbt::fail;
static void near_(double g, double e, double tol, const std::string& w) { if (!(fabs(g-e) <= tol)) { std::ostringstream o; o.precision(9); o << w << ": got " << g << " expected " << e; fail(o.str()); } }
static float cv(pbt::Src& s) { return s.chance(30) ? (float)s.range(-3, 3) : s.range(-4096, 4096)/512.0f; }

// ---- splines, written with the blending functions rather than the matrices
static double blend(int basis, double t, const double* p) {
    switch (basis) {
        case SplineBasis_Bezier: return pow(1-t,3)*p[0] + 3*t*pow(1-t,2)*p[1] + 3*t*t*(1-t)*p[2] + t*t*t*p[3];
        case SplineBasis_BSpline: return (pow(1-t,3)*p[0] + (3*t*t*t-6*t*t+4)*p[1] + (-3*t*t*t+3*t*t+3*t+1)*p[2] + t*t*t*p[3])/6;
        case SplineBasis_CatmullRom: { double m0=(p[2]-p[0])/2,m1=(p[3]-p[1])/2; return (2*t*t*t-3*t*t+1)*p[1] + (t*t*t-2*t*t+t)*m0 + (-2*t*t*t+3*t*t)*p[2] + (t*t*t-t*t)*m1; }
        case SplineBasis_Hermite: return (2*t*t*t-3*t*t+1)*p[0] + (t*t*t-2*t*t+t)*p[1] + (-2*t*t*t+3*t*t)*p[2] + (t*t*t-t*t)*p[3];
        case SplineBasis_Power: return ((p[0]*t+p[1])*t+p[2])*t+p[3];
        default: return p[1]*(1-t)+p[2]*t;
    }
}
static const char* bname[] = {"bezier", "bspline", "catmull-rom", "hermite", "power", "linear"};
static const int bstep[] = {3, 1, 1, 2, 4, 1};
static double C(const float& v, int) { return v; }
static double C(const CqVector3D& v, int i) { return v[i]; }
static double C(const CqColor& v, int i) { return v[i]; }
template<class T> static T mk(pbt::Src& s);
template<> float mk<float>(pbt::Src& s) { return cv(s); }
template<> CqVector3D mk<CqVector3D>(pbt::Src& s) { float a=cv(s),b=cv(s),c=cv(s); return CqVector3D(a,b,c); }
template<> CqColor mk<CqColor>(pbt::Src& s) { float a=cv(s),b=cv(s),c=cv(s); return CqColor(a,b,c); }
template<class T> static void splineCase(pbt::Src& src, int nc) {
    int b = src.range(0, 5), step = bstep[b]; int sections = src.size(1, 8); int n = 4 + (sections-1)*step;
    int ctor = src.range(0, 2);
    CqCubicSpline<T> sp = ctor == 0 ? CqCubicSpline<T>((EqSplineBasis)b, src.range(0, 10)) : ctor == 1 ? CqCubicSpline<T>(CqString(bname[b]), 4) : CqCubicSpline<T>();
    if (ctor == 2) sp.setBasis((EqSplineBasis)b);
    if (src.chance(20)) { for (int i = 0; i < 5; ++i) sp.pushBack(mk<T>(src)); sp.clear(); src.label("reused"); }
    std::vector<T> pts; for (int i = 0; i < n; ++i) { pts.push_back(mk<T>(src)); sp.pushBack(pts.back()); }
    int extra = step > 1 && src.chance(20) ? src.range(0, step-1) : 0; for (int i = 0; i < extra; ++i) { pts.push_back(mk<T>(src)); sp.pushBack(pts.back()); }
    src.note(std::string(bname[b]) + " sections=" + std::to_string(sections) + " components=" + std::to_string(nc)); src.label(bname[b]); if (sections > 1) src.nontrivial();
    if (sp.numControlPoints() != n+extra) fail("numControlPoints"); for (int i = 0; i < n; ++i) for (int k = 0; k < nc; ++k) if (C(sp[i],k) != C(pts[i],k)) fail("control point changed");
    for (int q = 0; q < 6; ++q) {
        int sec = src.range(0, sections-1); int sub = src.chance(30) ? 0 : src.range(0, 1023); double u = sec + sub/1024.0; float t = (float)(u/sections); if (t >= 1) continue;
        double uu = (double)((float)sections * t);           // where the parameter lands in float
        int s2 = (int)uu; if (s2 >= sections) continue; double f = uu - s2;
        T r = sp.evaluate(t);
        for (int k = 0; k < nc; ++k) { double p[4]; double mag = 0; for (int i = 0; i < 4; ++i) { p[i] = C(pts[s2*step+i], k); mag += fabs(p[i]); } double e = blend(b, f, p); near_(C(r,k), e, 4e-6*(mag+1) + 1e-4*mag*1e-3, std::string(bname[b]) + " spline value at " + std::to_string(u) + " of " + std::to_string(sections)); 
          if (sub == 0 && fabs(uu - sec) < 1e-6 && (b == 0 || b == 2 || b == 3 || b == 5)) { int kn = b == 0 || b == 3 ? 0 : 1; near_(C(r,k), C(pts[sec*step+kn],k), 2e-5*(mag+1), std::string(bname[b]) + " spline does not pass through its knot"); src.label("at a knot"); } }
    }
}
PBT_SUITE(spline, 600000, 12000000) { switch (src.range(0, 2)) { case 0: splineCase<float>(src, 1); break; case 1: splineCase<CqVector3D>(src, 3); break; default: splineCase<CqColor>(src, 3); } }

// ---- colours
PBT_SUITE(colours, 1000000, 20000000) {
    float c[3]; for (float& f : c) f = src.chance(40) ? src.range(0, 4)/4.0f : src.range(0, 1024)/1024.0f; if (src.chance(25)) { int k = src.range(0, 2); c[k] = c[(k+1)%3]; if (src.coin()) c[(k+2)%3] = c[k]; }
    CqColor rgb(c[0], c[1], c[2]); std::ostringstream o; o << "rgb " << c[0] << " " << c[1] << " " << c[2]; std::string at = o.str(); src.note(at);
    double mx = std::max({c[0],c[1],c[2]}), mn = std::min({c[0],c[1],c[2]}); bool grey = mx == mn; src.label(grey ? "grey" : "chromatic"); if (!grey) src.nontrivial();
    double h = -1; if (!grey) { double d = mx-mn; if (c[0] == mx) h = (c[1]-c[2])/d; else if (c[1] == mx) h = 2+(c[2]-c[0])/d; else h = 4+(c[0]-c[1])/d; h /= 6; if (h < 0) h += 1; }
    CqColor hsv = rgbtohsv(rgb); near_(hsv.b(), mx, 1e-6, "hsv value of " + at); near_(hsv.g(), mx == 0 ? 0 : (mx-mn)/mx, 2e-6, "hsv saturation of " + at); if (!grey) near_(hsv.r(), h, 2e-4, "hue of " + at);
    CqColor hsl = rgbtohsl(rgb); double L = (mx+mn)/2; near_(hsl.b(), L, 1e-6, "hsl lightness of " + at); if (mx-mn > 1e-5) { near_(hsl.g(), L < 0.5 ? (mx-mn)/(mx+mn) : (mx-mn)/(2-mx-mn), 2e-4, "hsl saturation of " + at); near_(hsl.r(), h, 2e-4, "hsl hue of " + at); }
    CqColor yiq = rgbtoYIQ(rgb); near_(yiq.r(), 0.299*c[0]+0.587*c[1]+0.114*c[2], 2e-3, "YIQ luma of " + at); near_(yiq.g(), 0.596*c[0]-0.274*c[1]-0.322*c[2], 5e-3, "YIQ I of " + at); near_(yiq.b(), 0.212*c[0]-0.523*c[1]+0.311*c[2], 5e-3, "YIQ Q of " + at);
    CqColor b1 = hsvtorgb(hsv), b2 = hsltorgb(hsl), b3 = YIQtorgb(yiq);
    for (int k = 0; k < 3; ++k) { near_(b1[k], c[k], 2e-5, "hsv round trip of " + at); near_(b2[k], c[k], 2e-5, "hsl round trip of " + at); near_(b3[k], c[k], 1e-2, "YIQ round trip of " + at); }
    // the other direction: any hue, saturation and value is a colour with that max and min
    float H = src.range(0, 720)/720.0f, S = src.chance(20) ? 0 : src.range(0, 64)/64.0f, V = src.range(0, 64)/64.0f; CqColor r = hsvtorgb(CqColor(H,S,V)); double rx = std::max({r.r(),r.g(),r.b()}), rn = std::min({r.r(),r.g(),r.b()}); near_(rx, V, 1e-5, "max of hsv colour"); near_(rn, V*(1-S), 1e-5, "min of hsv colour");
    CqColor l = hsltorgb(CqColor(H,S,V)); double lx = std::max({l.r(),l.g(),l.b()}), ln = std::min({l.r(),l.g(),l.b()}); near_((lx+ln)/2, V, 1e-5, "lightness of hsl colour"); double ch = (1-fabs(2*V-1))*S; near_(lx-ln, ch, 1e-5, "chroma of hsl colour");
    if (S > 0.1 && V > 0.1 && H < 0.999) { CqColor bk = rgbtohsv(r); double dh = fabs(bk.r()-H); if (dh > 0.5) dh = 1-dh; near_(dh, 0, 1e-3, "hue of hsv->rgb->hsv"); }
}

// ---- random numbers: the generator is MT19937 seeded as published
PBT_SUITE(random_numbers, 8000, 150000) {
    uint32_t seed = src.coin() ? src.range(0, 20) : (uint32_t)src.draw(0xffffffffu); CqRandom r; r.Reseed(seed); std::mt19937 ref(seed); int n = src.size(5, 1500); src.note("seed " + std::to_string(seed) + " n=" + std::to_string(n)); src.nontrivial();
    std::vector<double> seen;
    for (int i = 0; i < n; ++i) { int k = src.range(0, 3); uint32_t raw = ref();
        if (k == 0) { if (r.RandomInt() != raw) fail("RandomInt is not the seeded sequence"); }
        else if (k == 1) { float f = r.RandomFloat(); if (!(f >= 0 && f < 1)) fail("RandomFloat out of [0,1)"); near_(f, raw/4294967296.0, 1e-6, "RandomFloat is not the seeded sequence"); }
        else if (k == 2) { uint32_t R = src.chance(30) ? src.range(1, 5) : src.range(1, 1<<20); uint32_t v = r.RandomInt(R); if (!(v < R)) fail("RandomInt(" + std::to_string(R) + ") = " + std::to_string(v)); near_(v, floor(raw/4294967296.0*R), 1, "RandomInt(range) is not the scaled sequence"); }
        else { float R = src.range(1, 4000)/16.0f; float v = r.RandomFloat(R); if (!(v >= 0 && v < R)) fail("RandomFloat(range) out of range"); near_(v, raw/4294967296.0*R, 1e-6*R, "RandomFloat(range) is not the scaled sequence"); } }
    CqRandom r2; r2.Reseed(seed); std::mt19937 ref2(seed); for (int i = 0; i < 4; ++i) if (r2.RandomInt() != ref2()) fail("reseeding does not restart the sequence");
}
PBT_SUITE(low_discrepancy, 8000, 150000) {
    CqRandom rr; rr.Reseed(src.range(0, 1000)); int dim = src.range(1, 12); CqLowDiscrepancy g(dim); if (src.coin()) g.Reset(); src.note("dim " + std::to_string(dim)); src.nontrivial();
    // find each axis' base from the first values: base b gives 1/b at i=1
    std::set<int> bases; for (int a = 0; a < dim; ++a) { double v = g.Generate(a, 1); int b = (int)floor(1/v + 0.5); near_(v, 1.0/b, 1e-6, "first point is not 1/base"); if (b < 2) fail("base < 2"); for (int q = 2; q*q <= b; ++q) if (b % q == 0) fail("base " + std::to_string(b) + " is not prime"); if (!bases.insert(b).second) fail("two axes share base " + std::to_string(b));
        for (int k = 0; k < 30; ++k) { unsigned i = src.coin() ? src.range(0, 300) : src.range(0, 1000000); float x = g.Generate(a, i); if (!(x >= 0 && x < 1)) fail("low discrepancy point out of [0,1)"); double e = 0, s = 1.0/b; for (unsigned m = i; m; m /= b) { e += (m % b)*s; s /= b; } near_(x, e, 2e-6, "radical inverse of " + std::to_string(i) + " base " + std::to_string(b)); } }
}
// ---- bit vectors
PBT_SUITE(bit_vector, 200000, 4000000) {
    int n = src.pick(std::vector<int>{1,2,7,8,9,15,16,17,31,32,33,63,64,65,100,256,257}); const int NR = 3; std::vector<CqBitVector> v; std::vector<std::vector<bool>> m(NR, std::vector<bool>(n)); for (int i = 0; i < NR; ++i) { v.push_back(CqBitVector(n)); bool b = src.coin(); v[i].SetAll(b); m[i].assign(n, b); }
    int ops = src.size(1, 30); src.note("bits " + std::to_string(n)); if (ops > 2) src.nontrivial();
    for (int o = 0; o < ops; ++o) { int a = src.range(0, NR-1), b = src.range(0, NR-1), c = src.range(0, NR-1), e = src.chance(30) ? n-1 : src.range(0, n-1);
        switch (src.range(0, 13)) {
            case 0: { bool x = src.coin(); v[a].SetValue(e, x); m[a][e] = x; break; } case 1: v[a].Toggle(e); m[a][e] = !m[a][e]; break; case 2: v[a].Complement(); m[a].flip(); break; case 3: { bool x = src.coin(); v[a].SetAll(x); m[a].assign(n, x); break; }
            case 4: v[a].Intersect(v[b]); for (int i = 0; i < n; ++i) m[a][i] = m[a][i] && m[b][i]; break; case 5: v[a].Union(v[b]); for (int i = 0; i < n; ++i) m[a][i] = m[a][i] || m[b][i]; break; case 6: { auto mb = m[b]; v[a].Difference(v[b]); for (int i = 0; i < n; ++i) m[a][i] = m[a][i] != mb[i]; break; }
            case 7: { CqBitVector t = v[a] & v[b]; std::vector<bool> x(n); for (int i = 0; i < n; ++i) x[i] = m[a][i] && m[b][i]; v[c] = t; m[c] = x; break; } case 8: { CqBitVector t = v[a] | v[b]; std::vector<bool> x(n); for (int i = 0; i < n; ++i) x[i] = m[a][i] || m[b][i]; v[c] = t; m[c] = x; break; } case 9: { CqBitVector t = v[a] ^ v[b]; std::vector<bool> x(n); for (int i = 0; i < n; ++i) x[i] = m[a][i] != m[b][i]; v[c] = t; m[c] = x; break; }
            case 10: v[a] &= v[b]; for (int i = 0; i < n; ++i) m[a][i] = m[a][i] && m[b][i]; break; case 11: v[a] |= v[b]; for (int i = 0; i < n; ++i) m[a][i] = m[a][i] || m[b][i]; break; case 12: { auto mb = m[b]; v[a] ^= v[b]; for (int i = 0; i < n; ++i) m[a][i] = m[a][i] != mb[i]; break; }
            case 13: { CqBitVector t(v[a]); v[c] = t; m[c] = m[a]; break; } }
        for (int r = 0; r < NR; ++r) { if (v[r].Size() != n) fail("size changed"); int cnt = 0; for (int i = 0; i < n; ++i) { if (v[r].Value(i) != m[r][i]) fail("bit " + std::to_string(i) + " of " + std::to_string(n)); cnt += m[r][i]; } if (v[r].Count() != cnt) fail("Count is " + std::to_string(v[r].Count()) + " expected " + std::to_string(cnt) + " of " + std::to_string(n) + " bits"); }
    }
}
// ---- object pool: live objects never overlap, memory survives until freed
struct Obj { char d[24]; };
PBT_SUITE(object_pool, 30000, 300000) {
    CqObjectPool<Obj, 512> pool; std::vector<std::pair<char*, char>> live; int ops = src.size(1, 120); src.note("ops " + std::to_string(ops)); if (ops > 20) src.nontrivial(); char tag = 0;
    for (int o = 0; o < ops; ++o) { if (live.empty() || src.chance(60)) { char* p = (char*)pool.alloc(); memset(p, ++tag, sizeof(Obj)); for (auto& l : live) if (l.first < p + sizeof(Obj) && p < l.first + sizeof(Obj)) fail("pool handed out overlapping objects"); live.push_back({p, tag}); } else { int i = src.range(0, live.size()-1); pool.free(live[i].first); live.erase(live.begin()+i); }
        for (auto& l : live) for (size_t k = 0; k < sizeof(Obj); ++k) if (l.first[k] != l.second) fail("pool object overwritten while live"); }
}
// ---- enumeration names
PBT_SUITE(enums, 200000, 2000000) {
    std::string s; int k = src.range(0, 3); static const char* cls[] = {"invalid","constant","uniform","varying","vertex","facevarying","facevertex"}; static const char* typ[] = {"invalid","float","integer","point","string","color","triple","hpoint","normal","vector","void","matrix","sixteentuple","bool"};
    if (k == 0) s = cls[src.range(0, 6)]; else if (k == 1) s = typ[src.range(0, 13)]; else { s = src.coin() ? cls[src.range(0, 6)] : typ[src.range(0, 13)]; int e = src.size(1, 3); for (int i = 0; i < e; ++i) { int at = src.range(0, s.size()); switch (src.range(0, 2)) { case 0: s.insert(at, 1, (char)src.range('a','z')); break; case 1: if (at < (int)s.size()) s.erase(at, 1); break; default: if (at < (int)s.size()) s[at] = src.coin() ? toupper(s[at]) : src.range(32, 126); } } }
    src.note(s); src.nontrivial(s); int ec = 0, et = 0; for (int i = 0; i < 7; ++i) if (s == cls[i]) ec = i; for (int i = 0; i < 14; ++i) if (s == typ[i]) et = i;
    if ((int)enumCast<EqVariableClass>(s) != ec) fail("class name '" + s + "'"); if ((int)enumCast<EqVariableType>(s) != et) fail("type name '" + s + "'"); int i = src.range(0, 6), j = src.range(0, 13); if (enumString((EqVariableClass)i) != cls[i]) fail("class string"); if (enumString((EqVariableType)j) != typ[j]) fail("type string"); std::ostringstream o; o << (EqVariableType)j; if (o.str() != typ[j]) fail("type stream"); std::istringstream is(s); 
    CqString a(s.c_str()); std::string lo = s; for (char& ch : lo) ch = tolower(ch); if (a.ToLower() != lo) fail("ToLower"); if (CqString::hash(s.c_str()) != CqString::hash(std::string(s).c_str())) fail("hash not a function");
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "spline cases count with more than one section, colour cases when the colour is not grey, bit-vector and pool histories above the stated length, other cases always"); }
