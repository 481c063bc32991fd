// Random scenes for the rendering checks.
#pragma once
#include "rd.h"
namespace rd {
typedef pbt::Src Src;
inline double real(Src& s, double lo, double hi, int steps = 997) { return lo + (hi - lo)*s.range(0, steps)/steps; }

struct Cam {
    int w = 24, h = 18; double par = 1; bool persp = false; double fov = 60;
    string text() const
    {
        string t = fmt("Format %d %d %s\n", w, h, num(par).c_str());
        if(persp) t += "Projection \"perspective\" \"fov\" [" + num(fov) + "]\n"; else t += "Projection \"orthographic\"\n";
        return t;
    }
};
inline Cam genCam(Src& s)
{
    Cam c; c.w = s.range(3, 40); c.h = s.range(3, 32); c.persp = s.coin(); c.fov = s.pick(vector<double>{40, 60, 90}); if(s.chance(20)) c.par = s.pick(vector<double>{0.5, 0.8, 1.5}); return c;
}
inline string genXform(Src& s, double spread)
{
    string t;
    t += fmt("Translate %s %s %s\n", num(real(s, -spread, spread)).c_str(), num(real(s, -spread, spread)).c_str(), num(real(s, -0.5, 1.0)).c_str());
    if(s.coin()) t += fmt("Rotate %s %s %s %s\n", num(real(s, -180, 180)).c_str(), num(real(s, -1, 1)).c_str(), num(real(s, -1, 1)).c_str(), num(real(s, 0.1, 1)).c_str());
    double k = real(s, 0.15, 0.9); t += fmt("Scale %s %s %s\n", num(k*real(s, 0.6, 1.4)).c_str(), num(k*real(s, 0.6, 1.4)).c_str(), num(k*real(s, 0.6, 1.4)).c_str());
    return t;
}
/// flat: only planar polygonal primitives
inline string genPrim(Src& s, bool flat, string* kind = 0)
{
    static const vector<string> flats{"Polygon", "GeneralPolygon", "PointsPolygons", "PointsGeneralPolygons"};
    static const vector<string> all{"Polygon", "GeneralPolygon", "PointsPolygons", "PointsGeneralPolygons", "Sphere", "Cylinder", "Cone", "Torus", "Disk", "Paraboloid", "Hyperboloid",
        "PatchBilinear", "PatchBicubic", "PatchMesh", "NuPatch", "SubdivisionMesh", "CurvesLinear", "CurvesCubic", "Points"};
    string k = s.pick(flat ? flats : all); if(kind) *kind = k;
    auto r = [&](double a, double b) { return num(real(s, a, b)); };
    auto pts = [&](int n, double z) { vector<double> v; for(int i = 0; i < n; ++i) { v.push_back(real(s, -1, 1)); v.push_back(real(s, -1, 1)); v.push_back(real(s, -z, z)); } return nums(v); };
    if(k == "Polygon")
    {
        int n = s.range(3, 6); vector<double> v; double a0 = real(s, 0, 6.28);
        for(int i = 0; i < n; ++i) { double a = a0 + 6.2831853*i/n; v.push_back(cos(a)); v.push_back(sin(a)); v.push_back(0); }
        return "Polygon \"P\" " + nums(v) + "\n";
    }
    if(k == "GeneralPolygon")
    {
        return "GeneralPolygon [4 4] \"P\" [-1 -1 0 1 -1 0 1 1 0 -1 1 0  -0.5 -0.5 0 -0.5 0.4 0 0.3 0.4 0 0.3 -0.5 0]\n";
    }
    if(k == "PointsPolygons") return "PointsPolygons [4 4] [0 1 2 3 1 4 5 2] \"P\" [-1 -0.5 0 0 -0.5 0 0 0.5 0 -1 0.5 0 1 -0.5 0.6 1 0.5 0.6]\n";
    if(k == "PointsGeneralPolygons") return "PointsGeneralPolygons [1 1] [3 4] [0 1 2 3 4 5 6] \"P\" [-1 -1 0 0 -1 0 -1 1 0  0.2 -0.5 0.1 1 -0.5 0.1 1 0.7 0.1 0.2 0.7 0.1]\n";
    if(k == "Sphere") { double a = s.coin() ? 1 : real(s, 0.1, 0.9), b = s.coin() ? 1 : real(s, 0.1, 0.9); return "Sphere 1 " + num(-a) + " " + num(b) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n"; }
    if(k == "Cylinder") return "Cylinder " + r(0.3, 1) + " " + r(-1, -0.2) + " " + r(0.2, 1) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "Cone") return "Cone " + r(0.5, 1.5) + " " + r(0.3, 1) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "Torus") return "Torus " + r(0.5, 0.8) + " " + r(0.1, 0.4) + " 0 " + num(s.coin() ? 360 : real(s, 100, 300)) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "Disk") return "Disk " + r(-0.3, 0.3) + " " + r(0.3, 1) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "Paraboloid") return "Paraboloid " + r(0.3, 1) + " " + r(0.0, 0.3) + " " + r(0.5, 1.2) + " " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "Hyperboloid") return "Hyperboloid " + r(0.3, 1) + " 0 -0.5 " + r(0.3, 1) + " " + r(-0.5, 0.5) + " 0.5 " + num(s.coin() ? 360 : real(s, 60, 350)) + "\n";
    if(k == "PatchBilinear") return "Patch \"bilinear\" \"P\" " + pts(4, 0.5) + "\n";
    auto grid = [&](int nu, int nv, double z) { vector<double> v; for(int j = 0; j < nv; ++j) for(int i = 0; i < nu; ++i) { v.push_back(-1 + 2.0*i/(nu-1) + real(s, -0.15, 0.15)); v.push_back(-1 + 2.0*j/(nv-1) + real(s, -0.15, 0.15)); v.push_back(real(s, -z, z)); } return nums(v); };
    if(k == "PatchBicubic") return string("Basis \"") + s.pick(vector<string>{"bezier", "b-spline", "catmull-rom"}) + "\" 1 \"bezier\" 1\nBasis \"bezier\" 3 \"bezier\" 3\nPatch \"bicubic\" \"P\" " + grid(4, 4, 0.6) + "\n";
    if(k == "PatchMesh") return string("Basis \"b-spline\" 1 \"catmull-rom\" 1\nPatchMesh \"bicubic\" 5 \"nonperiodic\" 4 \"nonperiodic\" \"P\" ") + grid(5, 4, 0.5) + "\n";
    if(k == "NuPatch") return "NuPatch 4 4 [0 0 0 0 1 1 1 1] 0 1 5 3 [0 0 0 1 2 3 3 3] 0 3 \"P\" " + grid(4, 5, 0.5) + "\n";
    if(k == "SubdivisionMesh")
        return string("SubdivisionMesh \"catmull-clark\" [4 4 4 4] [0 1 4 3 1 2 5 4 3 4 7 6 4 5 8 7] ") + (s.coin() ? "[\"interpolateboundary\"] [0 0] [] []" : "[] [] [] []") + " \"P\" " + grid(3, 3, 0.5) + "\n";
    if(k == "CurvesLinear") return "Curves \"linear\" [3 2] \"nonperiodic\" \"P\" " + pts(5, 0.3) + " \"constantwidth\" [" + r(0.05, 0.4) + "]\n";
    if(k == "CurvesCubic") return "Basis \"bezier\" 3 \"bezier\" 3\nCurves \"cubic\" [4] \"nonperiodic\" \"P\" " + pts(4, 0.3) + " \"constantwidth\" [" + r(0.05, 0.4) + "]\n";
    return "Points \"P\" " + pts(6, 0.3) + " \"constantwidth\" [" + r(0.05, 0.5) + "]\n";
}
inline string genWorld(Src& s, bool flat, int maxPrims, double zc, double spread, bool transparent = true, double step = 0)
{
    string t; int n = s.range(1, maxPrims);
    for(int i = 0; i < n; ++i)
    {
        t += "AttributeBegin\n";
        t += fmt("Color [%s %s %s]\n", num(real(s, 0.1, 1)).c_str(), num(real(s, 0.1, 1)).c_str(), num(real(s, 0.1, 1)).c_str());
        if(transparent && s.chance(30)) { s.label("scene:transparent"); t += fmt("Opacity [%s %s %s]\n", num(real(s, 0.1, 1)).c_str(), num(real(s, 0.1, 1)).c_str(), num(real(s, 0.1, 1)).c_str()); }
        if(s.chance(10)) t += "Matte 1\n";
        t += fmt("Translate 0 0 %s\n", num(zc + i*step).c_str()) + (step ? fmt("Scale %s %s 1\n", num((zc + i*step)/zc).c_str(), num((zc + i*step)/zc).c_str()) : string()) + genXform(s, spread);
        string k; t += genPrim(s, flat, &k); s.label("prim:" + k);
        t += "AttributeEnd\n";
    }
    return t;
}
/// Compiles shader sources once, before the workers start; they are found through shaderPath().
inline string& shaderPath() { static string p; return p; }
struct Shaders {
    string d; pid_t owner;
    Shaders(const Shaders&) = delete;
    explicit Shaders(const std::map<string,string>& src)
    {
        owner = getpid();
        char b[] = "/tmp/aqrd.shXXXXXX"; if(!mkdtemp(b)) { perror("mkdtemp"); exit(3); } d = b; shaderPath() = d;
        for(auto& q : src)
        {
            write(d + "/" + q.first + ".sl", q.second);
            Result r = run({tool("aqsl"), "-o", q.first + ".slx", q.first + ".sl"}, d);
            if(access((d + "/" + q.first + ".slx").c_str(), R_OK)) { fprintf(stderr, "shader %s does not compile:\n%s\n", q.first.c_str(), r.out.substr(0, 2000).c_str()); wipe(d); exit(3); }
        }
    }
    ~Shaders() { if(owner == getpid()) wipe(d); }
};
inline string shaderOption() { return "Option \"searchpath\" \"string shader\" [\"" + shaderPath() + ":.\"]\n"; }
}
