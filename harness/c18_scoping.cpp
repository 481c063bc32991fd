// C18: attributes, transforms and options follow the block structure; archives, instances and procedurals equal their content.
#include "rd_ref.h"
using namespace rd;

static const std::map<string,string> SH = {
    {"sa", "surface sa(uniform float k = 0;) { uniform float f = 0; uniform color uc = 0; attribute(\"user:foo\", f); attribute(\"user:bar\", uc); Oi = Os; Ci = Os*(Cs*ambient() + 0.25*color(mod(s, 1), mod(t, 1), k) + 0.125*f + 0.25*uc); }\n"},
    {"sb", "surface sb(uniform color q = 1;) { Oi = Os; Ci = Os*(Cs*0.5 + q*ambient() + 0.25*color(abs(xcomp(normalize(N))), abs(ycomp(normalize(N))), abs(zcomp(normalize(N))))); }\n"},
    {"lt", "light lt(uniform color c = 1;) { Cl = c; }\n"},
    {"dp", "displacement dp(uniform float a = 0.1;) { P += a*normalize(N)*(0.5 + 0.5*sin(10*s)); N = calculatenormal(P); }\n"},
    {"at", "volume at(uniform color f = 0.5;) { Ci = 0.5*Ci + f; }\n"}};
static const string DISP = "Display \"o.dsp\" \"dump\" \"rgba\"\nQuantize \"rgba\" 0 0 0 0\n";
static string col(Src& s) { return fmt("[%s %s %s]", num(s.range(1, 8)/8.).c_str(), num(s.range(0, 8)/8.).c_str(), num(s.range(0, 8)/8.).c_str()); }

/// effective state of a primitive
struct St { vector<string> xf; std::map<string,string> at; std::map<int,string> lights; bool reversed = false; };
struct Prim { St st; string text; };
struct Gen {
    Src& s; string out; vector<Prim> prims; int handles = 0, objs = 0; vector<string> lightText; bool rot; double spread; double zc; bool prevworld = false;
    Gen(Src& S, bool r, double sp, double z) : s(S), rot(r), spread(sp), zc(z) {}
    void emit(const string& t) { out += t; }
    /// keep primitives out of each other's plane, so that their order cannot matter
    bool apart = false; int shifts = 0; vector<int> known;
    string prim() { string t = prim1(); if(apart && ++shifts) t = fmt("TransformBegin\nTranslate %s %s %s\n", num(0.00371*shifts).c_str(), num(0.00213*shifts).c_str(), num(0.01371*std::pow(shifts, 1.237)).c_str()) + t + "TransformEnd\n"; return t; }
    string prim1()
    {
        auto r = [&](double a, double b) { return num(real(s, a, b)); };
        switch(s.range(0, 9)) {
            case 0: return "Polygon \"P\" [-0.5 -0.5 0 0.5 -0.5 0 0.5 0.5 0.25 -0.5 0.5 0.25]\n";
            case 1: return "Patch \"bilinear\" \"P\" [-0.5 -0.5 0 0.5 -0.4 0.1 -0.5 0.5 0 0.5 0.5 0]\n";
            case 2: { vector<double> v; for(int j = 0; j < 4; ++j) for(int i = 0; i < 4; ++i) { v.push_back(-0.75 + 0.5*i); v.push_back(-0.75 + 0.5*j); v.push_back(((i*7 + j*5)%4)*0.125); } s.label("bicubic"); return "Patch \"bicubic\" \"P\" " + nums(v) + "\n"; }
            case 3: return "Sphere 0.5 -0.5 0.5 " + num(s.coin() ? 360 : 250) + "\n";
            case 4: return "Cylinder 0.4 -0.5 0.5 300\n";
            case 5: return apart ? "Cone 0.3 0.6 360\n" : "Disk 0 0.6 360\n";
            case 6: return "Points \"P\" [0 0 0 0.4 0.2 0 -0.3 0.4 0.1] \"constantwidth\" [0.25]\n";
            case 7: return "Curves \"linear\" [3] \"nonperiodic\" \"P\" [-0.5 -0.5 0 0 0.5 0.0625 0.5 0 0] \"constantwidth\" [0.2]\n";
            case 8: return "PointsPolygons [4 3] [0 1 2 3 1 4 2] \"P\" [-0.5 -0.5 0 0 -0.5 0 0 0.5 0 -0.5 0.5 0 0.6 0 0.3]\n";
            default: return "SubdivisionMesh \"catmull-clark\" [4 4] [0 1 2 3 1 4 5 2] [\"interpolateboundary\"] [0 0] [] [] \"P\" [-0.5 -0.5 0 0 -0.5 0.2 0 0.5 0.2 -0.5 0.5 0 0.6 -0.5 0 0.6 0.5 0]\n";
        }
        return "";
    }
    string xform()
    {
        switch(s.range(0, rot ? 4 : 2)) {
            case 0: return fmt("Translate %s %s %s\n", num(real(s, -spread, spread)).c_str(), num(real(s, -spread, spread)).c_str(), num(real(s, -0.3, 0.3)).c_str());
            case 1: return fmt("Scale %s %s %s\n", num(s.pick(vector<double>{0.5, 0.75, 1.25, -1})).c_str(), num(s.pick(vector<double>{0.5, 0.75, 1.25})).c_str(), num(s.pick(vector<double>{0.5, 1, 1.25})).c_str());
            case 2: return "ConcatTransform [1 0.125 0 0 -0.25 1 0 0 0 0 1 0 0.125 0 0 1]\n";
            case 3: return fmt("Rotate %s %s %s %s\n", num(real(s, -90, 90)).c_str(), num(s.range(0, 2)).c_str(), num(s.range(0, 2)).c_str(), num(s.range(1, 2)).c_str());
            default: return fmt("Skew %s 0 1 0 1 0 0\n", num(real(s, 5, 30)).c_str());
        }
    }
    void attribute(St& st)
    {
        string k, v;
        switch(s.range(0, 15)) {
            case 0: case 1: k = "Color"; v = "Color " + col(s) + "\n"; break;
            case 2: k = "Opacity"; v = "Opacity " + (s.coin() ? string("[1 1 1]") : col(s)) + "\n"; break;
            case 3: k = "Surface"; v = s.coin() ? "Surface \"sa\" \"uniform float k\" [" + num(s.range(0, 8)/8.) + "]\n" : "Surface \"sb\" \"uniform color q\" " + col(s) + "\n"; break;
            case 4: k = "Surface"; v = s.coin() ? "Surface \"sb\"\n" : "Surface \"sa\"\n"; break;
            case 5: k = "Sides"; v = s.coin() ? "Sides 1\n" : "Sides 2\n"; break;
            case 6: st.reversed = !st.reversed; emit("ReverseOrientation\n"); s.label("ReverseOrientation"); return;
            case 7: k = "Matte"; v = s.chance(30) ? "Matte 1\n" : "Matte 0\n"; break;
            case 8: k = "ShadingRate"; v = "ShadingRate " + num(s.pick(vector<double>{0.5, 1, 4, 16})) + "\n"; break;
            case 9: k = "TextureCoordinates"; v = fmt("TextureCoordinates 0 0 %s 0 0 %s 0.5 1\n", num(s.range(1, 3)/2.).c_str(), num(s.range(1, 3)).c_str()); break;
            case 10: k = "foo"; v = "Attribute \"user\" \"uniform float foo\" [" + num(s.range(0, 8)/8.) + "]\n"; break;
            case 11: k = "bar"; v = "Attribute \"user\" \"uniform color bar\" " + col(s) + "\n"; break;
            case 12: { static const char* B[] = {"\"bezier\" 3 \"bezier\" 3", "\"b-spline\" 1 \"b-spline\" 1", "\"catmull-rom\" 1 \"b-spline\" 1", "\"hermite\" 2 \"bezier\" 3"}; k = "Basis"; v = string("Basis ") + B[s.range(0, 3)] + "\n"; break; }
            case 13: { int h = ++handles; string d = fmt("LightSource \"lt\" %%d \"uniform color c\" %s\n", col(s).c_str()); lightText.push_back(d); known.push_back(h); st.lights[h] = d; emit(fmt(d.c_str(), h)); s.label("LightSource"); return; }
            case 14: if(known.empty()) return; else { int h = s.pick(known); bool on = s.coin(); if(on) st.lights[h] = lightText[h-1]; else st.lights.erase(h); emit(fmt("Illuminate %d %d\n", h, on)); s.label("Illuminate"); return; }
            case 15: switch(s.range(0, 3)) {
                case 0: k = "Atmosphere"; v = "Atmosphere \"at\" \"uniform color f\" " + col(s) + "\n"; break;
                case 1: k = "Displacement"; v = "Displacement \"dp\" \"uniform float a\" [" + num(s.range(0, 4)/32.) + "]\n"; break;
                case 2: k = "bound"; v = "Attribute \"displacementbound\" \"float sphere\" [" + num(s.range(2, 6)/8.) + "] \"string coordinatesystem\" [\"object\"]\n"; break;
                default: k = "interp"; v = s.coin() ? "ShadingInterpolation \"constant\"\n" : "ShadingInterpolation \"smooth\"\n"; break; }
                break;
        }
        st.at[k] = v; emit(v); s.label(k);
    }
    /// statements of one block
    void block(St& st, int depth, bool geometry, bool allowInclude = false)
    {
        int n = s.range(1, depth == 0 ? 9 : 5);
        for(int i = 0; i < n && out.size() < 6000; ++i)
        {
            int k = s.range(0, 9);
            if(k <= 2 && geometry) { string t = prim(); emit(t); prims.push_back({st, t}); }
            else if(k <= 4) { string t = xform(); emit(t); st.xf.push_back(t); }
            else if(k <= 7 || depth >= 4) attribute(st);
            else if(k == 8 || !geometry) { St in = st; emit("AttributeBegin\n"); block(in, depth + 1, geometry); emit("AttributeEnd\n"); s.label("AttributeBegin"); }
            else { St in = st; emit("TransformBegin\n"); block(in, depth + 1, geometry); emit("TransformEnd\n"); in.xf = st.xf; st = in; s.label("TransformBegin"); }
        }
    }
};
/// every primitive by itself, with its state spelled out
static string flatten(const vector<Prim>& ps)
{
    string t; int h = 1000;
    for(auto& p : ps)
    {
        t += "AttributeBegin\n"; for(auto& x : p.st.xf) t += x; for(auto& a : p.st.at) t += a.second;
        for(auto& l : p.st.lights) t += fmt(l.second.c_str(), ++h);
        if(p.st.reversed) t += "ReverseOrientation\n";
        t += p.text + "AttributeEnd\n";
    }
    return t;
}
static string head(Src& s, double& zc, double& spread)
{
    Cam c = genCam(s); zc = c.persp ? 3 : 2; spread = c.persp ? 0.8 : 0.6;
    return shaderOption() + c.text() + fmt("PixelSamples %d %d\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\n", s.range(1, 2), s.range(1, 2));
}
static void equal(const Image& a, const Image& b, const string& what, double tol = 0)
{
    if(a.w != b.w || a.h != b.h || a.nc != b.nc || a.ox != b.ox || a.oy != b.oy) pbt::fail(what + ": image sizes differ");
    for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) for(int c = 0; c < a.nc; ++c)
        if(!same(a.at(x, y, c), b.at(x, y, c)) && !(fabs(a.at(x, y, c) - b.at(x, y, c)) <= tol)) pbt::fail(what + fmt(": pixel %d,%d channel %s is %.9g against %.9g", x, y, a.formats[c].first.c_str(), a.at(x, y, c), b.at(x, y, c)));
}
/// Deferred content is rendered in another order. That decides only samples at equal depth, where
/// neighbouring facets of one surface meet.
static void alike(const Image& a, const Image& b, const string& what)
{
    if(a.w != b.w || a.h != b.h || a.nc != b.nc || a.ox != b.ox || a.oy != b.oy) pbt::fail(what + ": image sizes differ");
    int n = 0;
    for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x)
    {
        double d = 0; for(int c = 0; c < a.nc; ++c) if(!same(a.at(x, y, c), b.at(x, y, c))) d = std::max(d, fabs(a.at(x, y, c) - b.at(x, y, c)));
        if(d > 1e-5 || d != d) ++n;
        if(!(d <= 0.1) || n > std::max(1, a.w*a.h/40)) equal(a, b, what, 1e-5);
    }
}
static bool blank(const Image& a) { for(double v : a.data) if(v != 0) return false; return true; }
static const string BASE = "Surface \"sa\"\nLightSource \"lt\" 999 \"uniform color c\" [0.5 0.5 0.5]\n";

PBT_SUITE(blocks, 500, 7000)
{
    double z, sp; string h = head(src, z, sp) + DISP; Gen g(src, true, sp, z);
    St st; string pre;
    if(src.coin()) { g.out = ""; int n = src.range(1, 3); for(int i = 0; i < n; ++i) { if(g.handles) break; g.attribute(st); } pre = g.out; g.out = ""; src.label("before world"); }
    string base = "WorldBegin\n" + BASE + fmt("Translate 0 0 %s\n", num(z).c_str()); st.at.erase("Surface");
    // the world sets its own surface; attributes set before it carry over
    g.block(st, 0, true);
    string A = h + pre + base + g.out + "WorldEnd\n", B = h + base + flatten(g.prims) + "WorldEnd\n";
    src.note(A); if(g.prims.empty()) throw pbt::Discard();
    Image a = render(A), b = render(B); equal(a, b, "nested blocks against each primitive with its state spelled out\n" + B);
    if(!blank(a)) src.nontrivial(A);
}
/// archives, inline archives, instances and procedurals against the content in place
PBT_SUITE(archives, 400, 6000)
{
    double z, sp; string h = head(src, z, sp) + DISP; Gen g(src, true, sp, z); St st;
    string base = "WorldBegin\n" + BASE + fmt("Translate 0 0 %s\n", num(z).c_str());
    int kind = src.range(0, 4); bool instance = kind == 2; g.apart = kind >= 3;
    g.out = ""; g.block(st, 1, true); string before = g.out; vector<int> known = g.known;
    g.out = ""; g.block(st, 1, true); string content = g.out; if(kind >= 3) g.known = known;
    if(instance)
    {   // retained objects hold geometry only
        g.known = known; content = ""; int n = src.range(1, 3); for(int i = 0; i < n; ++i) content += g.prim();
    }
    g.out = ""; g.block(st, 1, true); string after = g.out;
    static const char* K[] = {"ReadArchive", "inline archive", "ObjectInstance", "DelayedReadArchive", "RunProgram"}; src.label(K[kind]);
    std::map<string,string> files; string incl, def; bool wrapped = kind >= 3 || src.coin();
    string bound = "[-20 20 -20 20 " + num(-z*0.6) + " 20]";
    if(kind == 0) { files["a.rib"] = content; incl = "ReadArchive \"a.rib\"\n"; if(src.coin()) { files["b.rib"] = content; files["a.rib"] = "ReadArchive \"b.rib\"\n"; src.label("nested archive"); } }
    if(kind == 1) { def = "ArchiveBegin \"arc\"\n" + content + "ArchiveEnd\n"; incl = "ReadArchive \"arc\"\n"; }
    if(kind == 2) { def = "ObjectBegin 5\n" + content + "ObjectEnd\n"; incl = "ObjectInstance 5\n"; }
    if(kind == 3) { files["a.rib"] = content; incl = "Procedural \"DelayedReadArchive\" [\"a.rib\"] " + bound + "\n"; }
    if(kind == 4) { files["p.rib"] = content; files["prog.sh"] = "while read -r line; do cat p.rib; printf '\\377'; done\n"; incl = "Procedural \"RunProgram\" [\"/bin/sh prog.sh\" \"x\"] " + bound + "\n"; }
    string w0 = wrapped ? "AttributeBegin\n" : "", w1 = wrapped ? "AttributeEnd\n" : ""; string again; int reps = src.range(1, 3);
    string A = before, B = before;
    for(int i = 0; i < reps; ++i)
    {
        g.out = ""; if(i) { St x; int n = src.range(0, 2); for(int j = 0; j < n; ++j) { string t = g.xform(); g.out += t; } if(src.coin()) g.out += "Color " + col(src) + "\n"; if(g.apart) g.out += "Translate 0.00211 0.00123 0.00531\n"; }
        A += g.out + w0 + incl + w1; B += g.out + w0 + content + w1;
    }
    A += after; B += after; string d0, d1;
    if(src.coin()) d0 = def; else d1 = def;
    string fa = h + d0 + base + d1 + A + "WorldEnd\n", fb = h + base + B + "WorldEnd\n"; src.note(fa + "--- content\n" + content);
    Image a = render(fa, 0, files), b = render(fb); string wh = string(K[kind]) + " against its content in place"; if(kind >= 3) alike(a, b, wh); else equal(a, b, wh);
    if(!blank(a)) src.nontrivial(fa + content);
}
/// steps, one matrix and named coordinate systems
PBT_SUITE(transforms, 400, 6000)
{
    double z, sp; string h = head(src, z, sp) + DISP; bool exact = src.chance(60); src.label(exact ? "exact" : "rotations");
    string base = "WorldBegin\n" + BASE + "Surface \"sb\"\n" + fmt("Translate 0 0 %s\n", num(z).c_str()), A, B; int n = src.range(1, 3); Gen g(src, false, sp, z);
    for(int i = 0; i < n; ++i)
    {
        M4 M; vector<string> steps; int k = src.range(1, 4); vector<M4> ms;
        for(int j = 0; j < k; ++j)
        {
            M4 m; string t; int op = src.range(0, exact ? 2 : 4);
            if(op == 0) { double a[3] = {src.range(-6, 6)/8., src.range(-6, 6)/8., src.range(-2, 4)/8.}; m = mTranslate(V{a[0], a[1], a[2]}); t = fmt("Translate %s %s %s\n", num(a[0]).c_str(), num(a[1]).c_str(), num(a[2]).c_str()); }
            else if(op == 1) { double a[3]; for(double& v : a) v = src.pick(vector<double>{0.5, 1, 1.5, -1}); m = mScale(V{a[0], a[1], a[2]}); t = fmt("Scale %s %s %s\n", num(a[0]).c_str(), num(a[1]).c_str(), num(a[2]).c_str()); }
            else if(op == 2) { double e = src.range(-2, 2)/4., f = src.range(-1, 1)/4., x = src.range(-2, 2)/4.; m.m[0][1] = e; m.m[1][0] = f; m.m[3][0] = x; t = "ConcatTransform " + m.text() + "\n"; }
            else if(op == 3) { double a = real(src, -180, 180); V ax{(double)src.range(0, 2), (double)src.range(0, 2), (double)src.range(1, 2)}; a = (float)a; m = mRotate(a, ax); t = fmt("Rotate %s %g %g %g\n", num(a).c_str(), ax.x, ax.y, ax.z); }
            else { double a = (float)real(src, 5, 40); m.m[1][0] = tan(a*M_PI/180); t = fmt("Skew %s 0 1 0 1 0 0\n", num(a).c_str()); }
            M = m*M; steps.push_back(t); ms.push_back(m);
        }
        string p = "Color " + col(src) + "\n" + g.prim(); string s; for(auto& t : steps) s += t;
        A += "AttributeBegin\n" + s + p + "AttributeEnd\n";
        int form = src.range(0, 3); static const char* F[] = {"one matrix", "coordinate system", "two parts", "coordinate system defined in a nested block"}; src.label(F[form]);
        if(form == 0) B += "AttributeBegin\nConcatTransform " + M.text() + "\n" + p + "AttributeEnd\n";
        if(form == 1) B += "TransformBegin\n" + s + fmt("CoordinateSystem \"cs%d\"\n", i) + "TransformEnd\nAttributeBegin\nTranslate 3 1 2\n" + fmt("CoordSysTransform \"cs%d\"\n", i) + p + "AttributeEnd\n";
        if(form == 2) { M4 r; string t; size_t c = steps.size()/2; for(size_t j = 0; j < steps.size(); ++j) if(j < c) t += steps[j]; else r = ms[j]*r; B += "TransformBegin\n" + t + "AttributeBegin\nConcatTransform " + r.text() + "\n" + p + "AttributeEnd\nTransformEnd\n"; }
        if(form == 3) B += "AttributeBegin\nTransformBegin\n" + s + fmt("CoordinateSystem \"cn%d\"\n", i) + "TransformEnd\nTransformBegin\n" + fmt("CoordSysTransform \"cn%d\"\n", i) + p + "TransformEnd\nAttributeEnd\n";
    }
    string fa = h + base + A + "WorldEnd\n", fb = h + base + B + "WorldEnd\n"; src.note(fa + "--- against\n" + B);
    Image a = render(fa), b = render(fb);
    // (rounding may tip the choice of grid sizes even if the matrices agree)
    {
        int bad = 0; string first;
        for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) { bool d = false; for(int c = 0; c < a.nc; ++c) if(!(fabs(a.at(x, y, c) - b.at(x, y, c)) <= 2e-3)) d = true; if(d) { ++bad; if(first.empty()) first = fmt("pixel %d,%d", x, y); } }
        if(bad > std::max(6, a.w*a.h/25)) pbt::fail(fmt("the same transformation written differently changes %d of %d pixels, first %s", bad, a.w*a.h, first.c_str()));
    }
    if(!blank(a)) src.nontrivial(fa + B);
}
static string options(Src& s, bool display, const string& name)
{
    string t; int n = s.range(0, 6); bool fmtd = false;
    for(int i = 0; i < n; ++i) switch(s.range(0, 12)) {
        case 0: t += fmt("Format %d %d %s\n", s.range(2, 24), s.range(2, 24), num(s.pick(vector<double>{1, 1, 0.5, 1.5})).c_str()); fmtd = true; s.label("Format"); break;
        case 1: t += fmt("PixelSamples %d %d\n", s.range(1, 3), s.range(1, 3)); s.label("PixelSamples"); break;
        case 2: t += fmt("PixelFilter \"%s\" %d %d\n", s.pick(vector<string>{"box", "gaussian", "triangle", "catmull-rom"}).c_str(), s.range(1, 3), s.range(1, 3)); s.label("PixelFilter"); break;
        case 3: t += fmt("Exposure %s %s\n", num(s.range(4, 12)/8.).c_str(), num(s.range(8, 16)/8.).c_str()); s.label("Exposure"); break;
        case 4: t += fmt("CropWindow %s %s %s %s\n", num(s.range(0, 4)/10.).c_str(), num(s.range(6, 10)/10.).c_str(), num(s.range(0, 4)/10.).c_str(), num(s.range(6, 10)/10.).c_str()); s.label("CropWindow"); break;
        case 5: t += fmt("ScreenWindow %s %s %s %s\n", num(-s.range(2, 8)/4.).c_str(), num(s.range(2, 8)/4.).c_str(), num(-s.range(2, 8)/4.).c_str(), num(s.range(2, 8)/4.).c_str()); s.label("ScreenWindow"); break;
        case 6: t += s.coin() ? "Projection \"perspective\" \"fov\" [" + num(s.range(3, 9)*10) + "]\n" : string("Projection \"orthographic\"\n"); s.label("Projection"); break;
        case 7: t += fmt("Clipping %s %s\n", num(s.range(1, 30)/10.).c_str(), num(s.range(31, 80)/10.).c_str()); s.label("Clipping"); break;
        case 8: t += s.coin() ? "Quantize \"rgba\" 0 0 0 0\n" : fmt("Quantize \"rgba\" %d 0 %d 0\n", s.range(1, 300), s.range(100, 400)); s.label("Quantize"); break;
        case 9: t += fmt("Option \"limits\" \"integer[2] bucketsize\" [%d %d]\n", s.range(1, 20), s.range(1, 20)); s.label("bucketsize"); break;
        case 10: t += "Color " + col(s) + "\n"; s.label("Color before world"); break;
        case 11: t += fmt("Translate %s %s 0\n", num(s.range(-4, 4)/8.).c_str(), num(s.range(-4, 4)/8.).c_str()); s.label("camera transform"); break;
        case 12: t += s.coin() ? "Sides 1\n" : "Surface \"sb\"\n"; s.label("attribute before world"); break;
    }
    (void)fmtd; if(display) t += "Display \"" + name + "\" \"dump\" \"rgba\"\n"; return t;
}
/// frames and worlds in one file against files of their own
PBT_SUITE(frames, 400, 6000)
{
    string G = shaderOption() + "Format 16 12 1\nPixelSamples 1 1\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\nQuantize \"rgba\" 0 0 0 0\nSurface \"sa\"\nDisplay \"g.dsp\" \"dump\" \"rgba\"\n" + options(src, false, "");
    int n = src.range(1, 3); string all = G; vector<std::pair<string,string>> alone; string top = G;   // top: what a bare world sees
    for(int i = 0; i < n; ++i)
    {
        Gen g(src, true, 0.6, 3); St st; bool frame = src.chance(70); string name = fmt("f%d.dsp", i), o = options(src, frame || src.coin(), name);
        bool own = o.find("Display") != string::npos; if(!own) { o += "Display \"" + name + "\" \"dump\" \"rgba\"\n"; }
        g.block(st, 1, true);
        string w = "WorldBegin\nLightSource \"lt\" 900 \"uniform color c\" [0.5 0.5 0.5]\nTranslate 0 0 3\n" + g.out + "WorldEnd\n";
        if(frame) { all += fmt("FrameBegin %d\n", i + 1) + o + w + "FrameEnd\n"; alone.push_back({name, (src.coin() ? top + "FrameBegin 7\n" + o + w + "FrameEnd\n" : top + o + w)}); src.label("frame"); }
        else { all += o + w; top += o; alone.push_back({name, top + w}); src.label("bare world"); }
    }
    src.note(all);
    TempDir t; Result r = renderIn(t.p, all); string e = errors(r.out); if(!e.empty()) pbt::fail("the renderer reported an error on a legal scene:\n" + e.substr(0, 500));
    bool any = false;
    for(auto& x : alone)
    {
        TempDir u; Result q = renderIn(u.p, x.second); Image a = load(t.p + "/" + x.first), b = load(u.p + "/" + x.first);
        if(!b.opened || !b.closed) pbt::fail("rendered alone, " + x.first + " was not produced\n" + q.out.substr(0, 400));
        if(!a.opened || !a.closed) pbt::fail("in one file, " + x.first + " was not produced\n" + r.out.substr(0, 400));
        equal(a, b, "frame " + x.first + " in the file against the same frame alone\n" + x.second); if(!blank(a)) any = true;
    }
    if(any && n > 1) src.nontrivial(all);
}
int main(int argc, char** argv)
{
    Shaders sh(SH);
    return pbt::mainLoop(argc, argv, "distinct scenes whose image is not empty (and, for frames, with more than one frame)");
}
