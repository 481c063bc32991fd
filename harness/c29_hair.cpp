// C29: the hair procedural run on generated meshes and guides, every curve it makes compared with a reference.
#include "rd_ref.h"
#include "kdtree/kdtree2.hpp"
#include <dlfcn.h>
#include <set>
#include <iostream>
using namespace rd;
typedef vector<float> F;
struct Call { string type, wrap; vector<int> nv; std::map<string, std::pair<string, void*>> raw; std::map<string, F> v; std::map<string, string> cls; };
static vector<Call> calls; static std::map<string, int> perCurve; // values per hair of the guides' variables
static std::map<string, int> constSize; static bool anyName = false;
extern "C" __attribute__((visibility("default"))) void RiCurvesV(char* type, int n, int* nv, char* wrap, int count, char** tok, void** val)
{
    Call c; c.type = type; c.wrap = wrap; c.nv.assign(nv, nv + n);
    for(int i = 0; i < count; ++i)
    {
        string t = tok[i]; size_t sp = t.rfind(' '); string name = t.substr(sp + 1), cls = t.substr(0, t.find(' ')); int len = cls == "constant" ? (constSize.count(name) ? constSize[name] : -1) : perCurve.count(name) ? n*perCurve[name] : -1;
        c.cls[name] = t.substr(0, sp); if(len < 0) { if(anyName) continue; pbt::fail("unexpected variable in the curves: " + t); } float* f = (float*)val[i]; c.v[name] = F(f, f + len);
    }
    calls.push_back(c);
}
extern "C" __attribute__((visibility("default"))) void RiCurves(char*, int, int*, char*, ...) { pbt::fail("RiCurves called"); }
struct Plugin { void* (*conv)(char*); void (*sub)(void*, float); void (*fre)(void*); };
static Plugin& plugin()
{
    static Plugin p; static bool done = false; if(done) return p; done = true;
    string f = reldir() + "/tools/procedurals/hairgen/libhairgen.so"; for(const char* n : {"/tools/procedurals/hairgen/hairgen.so", "/tools/procedurals/hairgen/libhairgen.so"}) if(access((reldir() + n).c_str(), R_OK) == 0) f = reldir() + n;
    void* h = dlopen(f.c_str(), RTLD_NOW|RTLD_LOCAL); if(!h) { fprintf(stderr, "%s\n", dlerror()); exit(3); }
    p.conv = (void*(*)(char*))dlsym(h, "ConvertParameters"); p.sub = (void(*)(void*, float))dlsym(h, "Subdivide"); p.fre = (void(*)(void*))dlsym(h, "Free"); if(!p.conv || !p.sub || !p.fre) { fprintf(stderr, "entry points missing\n"); exit(3); } return p;
}
/// standard output caught in a string
struct Quiet { std::stringstream s; std::streambuf* o; Quiet(): o(std::cout.rdbuf(s.rdbuf())) {} ~Quiet() { std::cout.rdbuf(o); } };
static string ftext(const F& v) { return nums(v); }
static double area(V a, V b, V c) { return 0.5*len(cross(b - a, c - a)); }

struct Mesh { vector<V> P; vector<vector<int>> f; F a, fv, face, c; string text() const
{
    string s = "PointsPolygons ["; for(auto& q : f) s += fmt("%d ", (int)q.size()); s += "] ["; for(auto& q : f) for(int i : q) s += fmt("%d ", i); s += "] \"P\" ["; for(auto& p : P) s += num(p.x) + " " + num(p.y) + " " + num(p.z) + " ";
    return s + "] \"vertex float a\" " + ftext(a) + " \"facevarying float[2] uv\" " + ftext(fv) + " \"uniform float face\" " + ftext(face) + " \"constant color c\" " + ftext(c) + "\n";
} };
struct Guides { bool linear = true; int n, k; F P, w, tint, len; string extra; string text() const { string s = string("Curves \"") + (linear ? "linear" : "cubic") + "\" ["; for(int i = 0; i < n; ++i) s += fmt("%d ", k); return s + "] \"nonperiodic\" \"P\" " + ftext(P) + " \"vertex float w\" " + ftext(w) + " \"uniform color tint\" " + ftext(tint) + " \"constant float len\" " + ftext(len) + "\n"; } };
static Mesh genMesh(Src& s)
{
    Mesh m; int n = s.range(1, 5); for(int i = 0; i < n; ++i)
    { // separate or shared faces: triangles and flat convex quadrilaterals
        bool quad = s.coin(); vector<int> f; V o{real(s, -3, 3), real(s, -3, 3), real(s, -1, 1)}, e{real(s, 0.2, 2), real(s, -0.3, 0.3), real(s, -1, 1)}, g{real(s, -0.3, 0.3), real(s, 0.2, 2), real(s, -1, 1)};
        vector<V> c{o, o + e, o + g}; if(quad) { double x = real(s, 0.6, 1.8), y = real(s, 0.6, 1.8); if(x + y < 1.2) y += 0.6; c = {o, o + e, o + x*e + y*g, o + g}; }
        for(auto& p : c) { p = {(float)p.x, (float)p.y, (float)p.z}; f.push_back(m.P.size()); m.P.push_back(p); } if(i && s.chance(30)) { f[0] = m.f[i-1][0]; if(quad) { V q0 = m.P[f[0]]; V& q2 = m.P[f[2]]; V a = m.P[f[1]] - q0, b = m.P[f[3]] - q0; double x = real(s, 0.6, 1.5), y = real(s, 0.7, 1.5); q2 = q0 + x*a + y*b; q2 = {(float)q2.x, (float)q2.y, (float)q2.z}; } }
        m.f.push_back(f);
    }
    for(size_t i = 0; i < m.P.size(); ++i) m.a.push_back((float)real(s, -2, 2));
    for(size_t i = 0; i < m.f.size(); ++i) { m.face.push_back(i); static const float t[] = {0, 0, 1, 0, 0, 1}, q[] = {0, 0, 0, 1, 1, 1, 1, 0}; if(m.f[i].size() == 3) m.fv.insert(m.fv.end(), t, t + 6); else m.fv.insert(m.fv.end(), q, q + 8); }
    m.c = {(float)real(s, 0, 1), 0.5f, (float)real(s, 0, 1)}; return m;
}
static Guides genGuides(Src& s, bool same)
{
    Guides g; g.linear = s.coin(); g.n = s.chance(40) ? s.range(5, 8) : s.range(5, 60); g.k = g.linear ? s.range(2, 5) : s.range(4, 6); F shape; for(int i = 0; i < 3*g.k; ++i) shape.push_back((float)real(s, -1, 1));
    for(int i = 0; i < g.n; ++i)
    {
        V o{real(s, -4, 5), real(s, -4, 5), real(s, -2, 2)}; for(int j = 0; j < g.k; ++j) { V d = same ? V{shape[3*j], shape[3*j+1], shape[3*j+2]} : V{real(s, -1, 1), real(s, -1, 1), real(s, -1, 1)}; g.P.insert(g.P.end(), {(float)(o.x + d.x), (float)(o.y + d.y), (float)(o.z + d.z)}); g.w.push_back((float)real(s, -1, 1)); }
        for(int k = 0; k < 3; ++k) g.tint.push_back((float)real(s, 0, 1));
    }
    g.len = {(float)real(s, 0, 3)}; return g;
}
PBT_SUITE(hairs, 8000, 300000)
{
    TempDir d; Mesh m = genMesh(src); bool same = src.chance(20); Guides g = genGuides(src, same); if(same) src.label("guides of one shape"); int N = src.chance(20) ? src.range(1, 5) : src.range(1, 80);
    string par = fmt("num_hairs = %d ; emitter_file_name=%s/e.rib;", N, d.p.c_str()); bool two = src.coin(); write(d.p + "/e.rib", m.text() + (two ? "" : g.text())); if(two) write(d.p + "/h.rib", g.text()); par += " hair_file_name = " + d.p + (two ? "/h.rib" : "/e.rib");
    M4 M; if(src.coin()) { src.label("matrix"); M = rounded(mRotate(real(src, -180, 180), {real(src, -1, 1), real(src, -1, 1), 0.5})*mScale({real(src, 0.5, 2), real(src, 0.5, 2), 1})*mTranslate({real(src, -1, 1), real(src, -1, 1), real(src, -1, 1)})); string t; for(int i = 0; i < 16; ++i) t += num(M.m[i/4][i%4]) + " "; par += ";\nemitter_to_hair_matrix=" + t; }
    int root = g.linear ? 0 : 1; if(src.chance(30)) { root = src.range(0, g.k - 1); par += fmt(";root_index=%d", root); src.label("root index"); }
    float clump = 0, shape = 1; if(src.chance(40)) { clump = (float)real(src, -1, 1); par += ";clump=" + num(clump); if(src.coin()) { shape = (float)real(src, -0.9, 1); par += ";clump_shape=" + num(shape); } src.label("clump"); }
    bool rough = src.chance(20); if(rough) par += ";end_rough=true"; src.note(par + "\n" + m.text() + g.text());
    perCurve = {{"P_emit", 3}, {"a_emit", 1}, {"uv_emit", 2}, {"P", 3*g.k}, {"w", g.k}, {"tint", 3}, {"endRoughRand", 3}}; constSize = {{"face_emit", 1}, {"c_emit", 3}, {"Ng_emit", 3}, {"len", 1}};
    anyName = false; Quiet quiet; vector<Call> first; unsigned seed = src.range(1, 1000);
    for(int turn = 0; turn < 2; ++turn)
    {
        calls.clear(); srand(seed); vector<char> b(par.begin(), par.end()); b.push_back(0); void* h = plugin().conv(b.data()); if(!h) pbt::fail("legal parameters are refused: " + quiet.s.str()); plugin().sub(h, 1); plugin().fre(h); if(!turn) first = calls;
    }
    if(!quiet.s.str().empty()) pbt::fail("messages about legal input: " + quiet.s.str().substr(0, 300));
    if(first.size() != calls.size()) pbt::fail("not reproducible"); for(size_t i = 0; i < calls.size(); ++i) if(first[i].v != calls[i].v || first[i].nv != calls[i].nv) pbt::fail("not reproducible");
    vector<double> ar; double tot = 0; for(auto& f : m.f) { double a = area(m.P[f[0]], m.P[f[1]], m.P[f[2]]); if(f.size() == 4) a += area(m.P[f[0]], m.P[f[2]], m.P[f[3]]); ar.push_back(a); tot += a; }
    vector<int> got(m.f.size(), 0); int hairs = 0;
    auto near = [&](double a, double b, const char* what, double tol = 2e-4) { if(!(std::fabs(a - b) <= tol*(1 + std::fabs(b)))) pbt::fail(fmt("%s is %g, expected %g", what, a, b)); };
    for(auto& c : calls)
    {
        int n = c.nv.size(); for(auto* k : {"P_emit", "a_emit", "uv_emit", "P", "w", "tint", "face_emit", "c_emit", "Ng_emit", "len"}) if(!c.v.count(k)) pbt::fail(string("the curves lack ") + k);
        if(c.type != (g.linear ? "linear" : "cubic") || c.wrap != "nonperiodic") pbt::fail("curves of type " + c.type + ", " + c.wrap); for(int v : c.nv) if(v != g.k) pbt::fail("wrong number of vertices"); if(rough != (bool)c.v.count("endRoughRand")) pbt::fail("end_rough");
        int f = (int)c.v["face_emit"][0]; if(f < 0 || f >= (int)m.f.size() || f != c.v["face_emit"][0]) pbt::fail("face number"); if(got[f]) pbt::fail("two sets of hairs for a face"); got[f] = n; for(int k = 0; k < 3; ++k) near(c.v["c_emit"][k], m.c[k], "c_emit"); near(c.v["len"][0], g.len[0], "len");
        V nr = unit(cross(m.P[m.f[f][1]] - m.P[m.f[f][0]], m.P[m.f[f][2]] - m.P[m.f[f][1]])); double ng[3] = {nr.x, nr.y, nr.z}; for(int k = 0; k < 3; ++k) near(c.v["Ng_emit"][k], ng[k], "Ng_emit", 2e-3);
        for(int i = 0; i < n; ++i, ++hairs)
        {
            double u = c.v["uv_emit"][2*i], v = c.v["uv_emit"][2*i+1]; if(!(u >= -1e-5 && v >= -1e-5 && u <= 1 + 1e-5 && v <= 1 + 1e-5)) pbt::fail("a root is off its face"); vector<double> w; if(m.f[f].size() == 3) { if(u + v > 1 + 1e-5) pbt::fail("a root is off its triangle"); w = {1 - u - v, u, v}; } else w = {(1-u)*(1-v), (1-u)*v, u*v, u*(1-v)};
            V p{0, 0, 0}; double a = 0; for(size_t k = 0; k < w.size(); ++k) { p = p + w[k]*m.P[m.f[f][k]]; a += w[k]*m.a[m.f[f][k]]; } p = M.point(p); const float* pe = &c.v["P_emit"][3*i]; near(pe[0], p.x, "the root's x", 1e-3); near(pe[1], p.y, "the root's y", 1e-3); near(pe[2], p.z, "the root's z", 1e-3); near(c.v["a_emit"][i], a, "a_emit", 1e-3);
            if(rough) for(int k = 0; k < 3; ++k) if(!(std::fabs(c.v["endRoughRand"][3*i+k]) <= 1)) pbt::fail("endRoughRand");
            // the nearest guides
            vector<std::pair<double,int>> ds; for(int q = 0; q < g.n; ++q) { double s2 = 0; for(int k = 0; k < 3; ++k) { double e = (double)g.P[3*(q*g.k + root) + k] - pe[k]; s2 += e*e; } ds.push_back({s2, q}); } std::sort(ds.begin(), ds.end());
            if(g.n > 5 && ds[5].first - ds[4].first < 1e-4*(1 + ds[4].first)) { src.label("tie"); continue; } if(ds[1].first - ds[0].first < 1e-4*(1 + ds[0].first)) { src.label("tie"); continue; }
            double wt[5], sum = 0; for(int k = 0; k < 5; ++k) { wt[k] = pow(2, -10*sqrt(ds[k].first/ds[4].first)); sum += wt[k]; } for(double& x : wt) x /= sum;
            auto mean = [&](const F& val, int stride, int idx) { double r = 0; for(int k = 0; k < 5; ++k) r += wt[k]*val[stride*ds[k].second + idx]; return r; };
            for(int k = 0; k < g.k; ++k) near(c.v["w"][i*g.k + k], mean(g.w, g.k, k), "vertex variable w", 1e-3); for(int k = 0; k < 3; ++k) near(c.v["tint"][3*i + k], mean(g.tint, 3, k), "uniform variable tint", 1e-3);
            for(int k = 0; k < g.k; ++k)
            {
                double e = (double)k/(g.k - 1); if(clump < 0) e = 1 - e; double cw = clump == 0 ? 0 : std::fabs(clump)*pow(e, shape < 0 ? 1 + shape : 1 + 9*shape);
                for(int x = 0; x < 3; ++x) { double child = mean(g.P, 3*g.k, 3*k + x) + pe[x] - mean(g.P, 3*g.k, 3*root + x), guide = g.P[3*(ds[0].second*g.k + k) + x]; near(c.v["P"][3*(i*g.k + k) + x], (1 - cw)*child + cw*guide, "a point of the hair", 2e-3); if(same && clump == 0) near(c.v["P"][3*(i*g.k + k) + x] - pe[x], g.P[3*k + x] - g.P[3*root + x], "a copy of the common guide", 2e-3); }
            }
        }
    }
    for(size_t f = 0; f < m.f.size(); ++f) { double e = N*ar[f]/tot; if(got[f] < std::floor(e - 1e-3) || got[f] > std::ceil(e + 1e-3)) pbt::fail(fmt("face %d of %d (%d sides) has %d hairs, expected about %g of %d", (int)f, (int)m.f.size(), (int)m.f[f].size(), got[f], e, N)); }
    if(hairs > 0) src.nontrivial(par + m.text() + g.text());
}
PBT_SUITE(nearest, 8000, 300000)
{
    int dim = src.range(1, 4), n = src.chance(30) ? src.range(1, 14) : src.range(1, 200); bool lattice = src.chance(40); if(lattice) src.label("coincident distances"); kdtree::kdtree2_array a(boost::extents[n][dim]);
    for(int i = 0; i < n; ++i) for(int k = 0; k < dim; ++k) a[i][k] = lattice ? src.range(0, 4) : (float)real(src, -3, 3); bool re = src.coin(); kdtree::kdtree2 t(a, re); t.sort_results = src.coin(); string key;
    for(int q = 0; q < 6; ++q)
    {
        vector<float> p; for(int k = 0; k < dim; ++k) p.push_back(lattice ? src.range(0, 8)*0.5f : (float)real(src, -4, 4)); vector<double> d; for(int i = 0; i < n; ++i) { float s = 0; for(int k = 0; k < dim; ++k) s += (a[i][k] - p[k])*(a[i][k] - p[k]); d.push_back(s); } vector<double> sd = d; std::sort(sd.begin(), sd.end());
        src.note(fmt("dim %d n %d query ", dim, n) + nums(p)); kdtree::kdtree2_result_vector r; int nn = src.range(1, std::min(n, 20)); t.n_nearest(p, nn, r); if((int)r.size() != nn) pbt::fail(fmt("%d nearest points asked for, %d given", nn, (int)r.size()));
        auto check = [&](const char* what) { std::set<int> seen; vector<double> g; for(auto& x : r) { if(x.idx < 0 || x.idx >= n) pbt::fail(string(what) + ": index out of range"); if(!seen.insert(x.idx).second) pbt::fail(string(what) + ": a point twice"); if(std::fabs(x.dis - d[x.idx]) > 1e-4*(1 + d[x.idx])) pbt::fail(fmt("%s: distance %g given as %g", what, d[x.idx], (double)x.dis)); g.push_back(d[x.idx]); } if(t.sort_results) for(size_t i = 1; i < r.size(); ++i) if(r[i].dis < r[i-1].dis) pbt::fail(string(what) + ": not sorted"); std::sort(g.begin(), g.end()); return g; };
        vector<double> g = check("n_nearest"); for(int i = 0; i < nn; ++i) if(std::fabs(g[i] - sd[i]) > 1e-4*(1 + sd[i])) pbt::fail(fmt("n_nearest %d of %d: number %d is at %g instead of %g", nn, n, i, g[i], sd[i]));
        float r2 = lattice ? src.range(0, 12) + 0.1f : (float)real(src, 0, 12); int in = 0; for(double x : d) { if(std::fabs(x - r2) < 1e-3) { in = -1; break; } in += x < r2; } if(in >= 0) { t.r_nearest(p, r2, r); check("r_nearest"); if((int)r.size() != in) pbt::fail(fmt("r_nearest gives %d points of %d within %g", (int)r.size(), in, (double)r2)); int c = t.r_count(p, r2); if(c != in) pbt::fail(fmt("r_count gives %d of %d", c, in)); }
        key += nums(p);
    }
    if(n > 12) src.nontrivial(key + fmt("%d%d", n, re));
}
PBT_SUITE(malformed, 8000, 300000)
{ // anything as parameters or files: an answer or a refusal, never a crash
    TempDir d; Mesh m = genMesh(src); Guides g = genGuides(src, false); string par = fmt("num_hairs=%d;emitter_file_name=%s/e.rib;hair_file_name=%s/h.rib", src.range(1, 30), d.p.c_str(), d.p.c_str()), et = m.text(), ht = g.text(), kind;
    switch(src.range(0, 11))
    {
        case 0: par += ";" + src.pick(vector<string>{"root_index=99", "root_index=-5", "root_index=x", "clump=x", "clump", "=", ";;;", "end_rough=2", "verbose=maybe", "num_hairs=-3", "num_hairs=", "num_hairs=0", "emitter_to_hair_matrix=1 2 3", "unknown=3", "hair_file_name=/nonexistent/x", "emitter_file_name=", " = 3", "root_index=3", "clump=-7", "clump_shape=-3"}); kind = "parameter " + par.substr(par.rfind(';')); break;
        case 1: { size_t p = ht.find("[") + 1; ht[p] = src.pick(vector<char>{'1', '9', '0', 'x'}); kind = "vertex count of a guide"; } break;
        case 2: { int k = src.range(1, 9); string s = ftext(g.P); ht = g.text(); size_t p = ht.find(s); F q(g.P.begin(), g.P.end() - std::min<int>(k, g.P.size())); ht.replace(p, s.size(), ftext(q)); kind = "guides' P too short"; } break;
        case 3: { Guides h = g; h.w.resize(h.w.size() - src.range(1, 4)); ht = h.text(); kind = "guides' w too short"; } break;
        case 4: { Mesh h = m; int f = src.range(0, h.f.size() - 1); h.f[f][0] = src.pick(vector<int>{-1, 99, 1000000}); et = h.text(); kind = "vertex number out of range"; } break;
        case 5: { Mesh h = m; int f = src.range(0, h.f.size() - 1); if(src.coin()) h.f[f].push_back(0), h.f[f].push_back(1); else h.f[f].resize(src.range(0, 2)); et = h.text(); kind = "face of other than 3 or 4 sides"; } break;
        case 6: { Mesh h = m; int w = src.range(0, 3); F& q = w == 0 ? h.a : w == 1 ? h.fv : w == 2 ? h.face : h.c; q.resize(src.range(0, q.size() - 1)); et = h.text(); kind = fmt("mesh variable %d too short", w); } break;
        case 7: { Mesh h = m; h.P.resize(src.range(0, h.P.size() - 1)); et = h.text(); kind = "mesh P too short"; } break;
        case 8: { Mesh h = m; for(auto& p : h.P) p = {1, 2, 3}; et = h.text(); kind = "mesh without area"; } break;
        case 9: { string& t = src.coin() ? et : ht; int k = src.range(1, 5); for(int i = 0; i < k; ++i) t[src.range(0, t.size() - 1)] = src.pick(vector<char>{'[', ']', '"', ' ', 'x', '#', '-', '7', '\n', '\xff'}); kind = "noise"; } break;
        case 10: { string& t = src.coin() ? et : ht; t = t.substr(0, src.range(0, t.size())); kind = "truncated"; } break;
        default: { Mesh h = m; et = h.text(); size_t p = et.find("PointsPolygons ["); size_t q = et.find(' ', p + 16); et.replace(p + 16, q - p - 16, src.pick(vector<string>{"4", "3", "7", "0", "-3"})); kind = "vertex count of a face"; }
    }
    src.label(kind.substr(0, 24)); src.note(kind + "\n" + par + "\n" + et + ht); write(d.p + "/e.rib", et); write(d.p + "/h.rib", ht);
    perCurve.clear(); constSize.clear(); for(auto* n : {"P_emit", "a_emit", "uv_emit", "P", "w", "tint", "endRoughRand", "face_emit", "c_emit", "Ng_emit", "len"}) perCurve[n] = 0, constSize[n] = 0;
    Quiet quiet; anyName = true; calls.clear(); vector<char> b(par.begin(), par.end()); b.push_back(0);
    try { void* h = plugin().conv(b.data()); if(h) { plugin().sub(h, 1); plugin().fre(h); src.label("accepted"); } else { src.label("refused"); if(quiet.s.str().empty()) pbt::fail("refused without a message: " + kind); } } catch(std::exception& e) { pbt::fail(kind + ": an exception reaches the renderer: " + e.what()); }
    src.nontrivial(kind + par.substr(0, 12) + et + ht);
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a case that makes hairs, a tree of more than 12 points, or a malformed case; distinct by text"); }
