// C21: the values of primitive variables at the shading points, against a finely tessellated reference.
#include "rd_shape.h"
using namespace rd;

struct Data { string decl, text; vector<A3> v; };
static int countFor(const Shape& s, const string& c) { return c == "constant" ? 1 : c == "uniform" ? s.nUniform : c == "varying" ? s.nVarying : c == "vertex" ? s.nVertex : s.nFacevarying; }
/// What the colour of the shader shows for the components of one value
static A3 shown(const string& type, const vector<double>& c) { if(type == "float" || type == "integer" || type == "string") return {{c[0], c[0], c[0]}}; if(type == "color[2]") return {{c[3], c[4], c[5]}}; return {{c[0], c[1], c[2]}}; }
static Data genData(Src& src, const Shape& sh, const string& cls, const string& type)
{
    int comps = type == "float" || type == "integer" || type == "string" ? 1 : type == "color[2]" ? 6 : 3, n = countFor(sh, cls); Data d; d.decl = cls + " " + type;
    bool aff = sh.affine && (cls == "varying" || cls == "vertex" || cls == "facevarying"); string t = "["; bool flat = src.chance(10);
    vector<vector<double>> f; int faces = cls == "facevarying" ? std::max(1, sh.nUniform) : 1; if(aff) for(int i = 0; i < faces*comps; ++i) f.push_back(genNums(src, 4, -0.5, 0.5));
    for(int i = 0; i < n; ++i)
    {
        vector<double> c;
        for(int k = 0; k < comps; ++k)
        {
            double x; if(type == "integer" || type == "string") x = src.range(0, 5);
            else if(aff) { int face = cls == "facevarying" ? sh.fvFace[i] : 0; V p = sh.at[cls == "facevarying" ? sh.fvAt[i] : i]; auto& q = f[face*comps + k]; x = r32(q[0] + q[1]*p.x + q[2]*p.y + q[3]*p.z); }
            else x = flat ? 0.25 : r32(real(src, -1, 1));
            c.push_back(x); t += type == "string" ? fmt(" \"s%d\"", (int)x) : " " + num(x);
        }
        d.v.push_back(shown(type, c));
    }
    d.text = t + "]"; return d;
}
PBT_SUITE(primvars, 2200, 40000)
{
    Shape sh = genShape(src, false); if(sh.kind.find("crease") != string::npos || sh.kind.find("corner") != string::npos) throw pbt::Discard();
    Cam cam = genCam(src); cam.w = src.range(10, 40); cam.h = src.range(10, 32); if(sh.rigid) cam.par = 1;
    View view(cam); M4 m = genPlace(src, cam, view, sh); double rate = src.pick(vector<double>{0.25, 0.25, 0.5});
    string kind = sh.kind.substr(0, sh.kind.find(' ')); if(kind == "SubdivisionMesh" || kind == "Curves" || kind == "Patch" || kind == "PatchMesh") kind = sh.kind.substr(0, sh.kind.find(' ', kind.size() + 1));
    Val val; string pv, shader, attr; int what = src.range(0, 10); bool usep = false, usen = false;
    if(what == 0 && sh.hasUv) { val.cls = "uv"; shader = sh.affine ? "sts" : "uvs"; src.label(sh.affine ? "standard s t of polygons" : "standard u v"); }
    else if(what == 1 && sh.hasUv && !sh.affine && kind.find("Curves") == string::npos && kind != "NuPatch")
    { // s, t from the corners of the texture coordinates
        shader = "sts"; val.cls = "st"; src.label("standard s t");
        vector<double> tc{0, 0, 1, 0, 0, 1, 1, 1}; if(src.coin()) { tc = genNums(src, 8, -1, 1); attr = "TextureCoordinates " + nums(tc) + "\n"; src.label("TextureCoordinates"); }
        for(int i = 0; i < 4; ++i) val.v.push_back({{tc[2*i], tc[2*i+1], 0}});
    }
    else if(what == 3 && !sh.rigid) { usen = true; shader = src.coin() ? "nrm" : "ngm"; src.label("standard normal"); }
    else if(what == 2 && kind != "Points") { usep = true; shader = "pos"; src.label("standard P"); }
    else
    {
        vector<string> cl; for(const char* c : {"constant", "uniform", "varying", "vertex", "facevarying"}) if(countFor(sh, c) > 0) cl.push_back(c);
        val.cls = src.pick(cl); bool flat = val.cls == "constant" || val.cls == "uniform";
        vector<string> types{"float", "color", "point", "vector", "normal"}; if(val.cls == "constant") { types.push_back("float[3]"); types.push_back("color[2]"); } /* other arrays: known finding */ if(flat) { types.push_back("string"); }
        string type = src.pick(types); Data d = genData(src, sh, val.cls, type); val.v = d.v;
        int std = src.range(0, 5);
        if(type == "color" && std < 2) { string n = std ? "Os" : "Cs"; pv = " \"" + d.decl + " " + n + "\" " + d.text; shader = std ? "oss" : "css"; src.label("standard " + n); }
        else if(type == "normal" && std < 2 && !flat && (kind.find("Poly") != string::npos || kind.find("Patch") != string::npos)) { pv = " \"" + d.decl + " N\" " + d.text; shader = "nsd"; src.label("given N"); }
        else if(type == "float" && std < 2 && kind.find("Curves") == string::npos) { pv = " \"" + d.decl + (std ? " s\" " : " t\" ") + d.text; shader = std ? "ssd" : "tsd"; src.label("given s or t"); }
        else
        {
            string t = type; bool uni = flat && (type == "string" || src.coin()); for(char& c : t) if(c == '[' || c == ']') c = '_';
            shader = "p_" + t + (uni ? "_u" : ""); pv = " \"" + d.decl + " pv\" " + d.text; src.label(type);
        }
        src.label(val.cls + " on " + kind);
    }
    int decoys = src.range(0, 2); string before, after;
    for(int i = 0; i < decoys; ++i)
    {
        vector<string> cl; for(const char* c : {"constant", "uniform", "varying", "vertex", "facevarying"}) if(countFor(sh, c) > 0) cl.push_back(c);
        string c = src.pick(cl); Data d = genData(src, sh, c, src.pick(vector<string>{"float", "color", "point", "normal", c == "constant" ? "float[3]" : "float"})); (src.coin() ? before : after) += " \"" + d.decl + fmt(" dk%d\" ", i) + d.text;
    }
    string rib = shaderOption() + "Display \"o.dsp\" \"dump\" \"rgbaz\"\nQuantize \"rgba\" 0 0 0 0\nQuantize \"z\" 0 0 0 0\n" + cam.text() + "Clipping 0.05 1000\n"
        + "PixelSamples 1 1\nPixelFilter \"box\" 1 1\nExposure 1 1\nHider \"hidden\" \"integer jitter\" [0]\nShadingRate " + num(rate) + "\n";
    if(src.chance(30)) { rib += "Option \"limits\" \"integer gridsize\" [16]\n"; src.label("small grids"); }
    rib += "WorldBegin\nShadingInterpolation \"smooth\"\nSurface \"" + shader + "\"\n" + attr + "ConcatTransform " + m.text() + "\n" + sh.rib + before + sh.params + pv + after + "\nWorldEnd\n";
    src.note(sh.kind + "\n" + rib);
    Ref ref(view, 0.05, 1000); ref.useP = usep; ref.useN = usen;
    if(val.cls == "st")
    {
        Val uv; uv.cls = "uv"; sh.draw(ref, m, uv);
        for(size_t i = 0; i < ref.z.size(); ++i) { A3 r = bilin(val.v[0], val.v[1], val.v[2], val.v[3], ref.a[3*i], ref.a[3*i+1]); for(int c = 0; c < 3; ++c) ref.a[3*i + c] = r[c]; }
    }
    else sh.draw(ref, m, val);
    Image F = render(rib); complete(F); if(F.w != cam.w || F.h != cam.h) pbt::fail("image size");
    int ch[3] = {F.chan("r"), F.chan("g"), F.chan("b")}, ca = F.chan("a"), cz = F.chan("z"), judged = 0, odd = 0; string first; double lo = 1e9, hi = -1e9; (void)ca;
    for(int y = 0; y < F.h; ++y) for(int x = 0; x < F.w; ++x)
    {
        Ref::Near n = ref.near(x, y, 3); double z = F.at(x, y, cz); if(!n.all) continue;
        double p = cam.persp ? 2*view.k*n.z1/view.h : (view.r - view.l)/view.w, tz = 1e-3*n.z1 + 0.3*p + 0.5*(n.z1 - n.z0); if(!(z <= n.z1 + tz)) continue; // a crack
        ++judged; bool bad = false;
        if(usen) { double d = 0; bool flat = true; for(int c = 0; c < 3; ++c) { d += F.at(x, y, ch[c])*0.5*(n.a0[c] + n.a1[c]); flat = flat && n.a1[c] - n.a0[c] < 0.1; } if(flat && !(d > 0.9)) { ++odd; if(first.empty()) first = fmt("pixel %d,%d: the normal is %g %g %g, but that of the primitive is about %g %g %g", x, y, F.at(x, y, ch[0]), F.at(x, y, ch[1]), F.at(x, y, ch[2]), n.a0[0], n.a0[1], n.a0[2]); } continue; }
        for(int c = 0; c < 3; ++c)
        {
            double v = F.at(x, y, ch[c]), tol = 2e-4 + (usep ? 1e-3*n.z1 + 0.3*p : 0) + 0.5*(n.a1[c] - n.a0[c]); lo = std::min(lo, v); hi = std::max(hi, v);
            if(!(v >= n.a0[c] - tol && v <= n.a1[c] + tol)) { bad = true; if(first.empty()) first = fmt("pixel %d,%d: component %d arrives as %.6g, but the variable lies within %.6g and %.6g there", x, y, c, v, n.a0[c], n.a1[c]); }
        }
        if(bad) ++odd;
    }
    if(judged >= 6) src.nontrivial(fmt("%s|%s|%s|%d|%.3f", sh.kind.c_str(), val.cls.c_str(), shader.c_str(), judged, hi));
    if(odd > (sh.curved ? judged/50 : 0)) pbt::fail(first + fmt(" (%d of %d pixels)", odd, judged));
}
int main(int argc, char** argv)
{
    std::map<string,string> s;
    s["uvs"] = "surface uvs() { Ci = color(u, v, 0); Oi = 1; }"; s["sts"] = "surface sts() { Ci = color(s, t, 0); Oi = 1; }";
    s["pos"] = "surface pos() { Ci = color(xcomp(P), ycomp(P), zcomp(P)); Oi = 1; }";
    s["css"] = "surface css() { Ci = Cs; Oi = 1; }"; s["oss"] = "surface oss() { Ci = Os; Oi = 1; }";
    for(int g = 0; g < 2; ++g) { string n = g ? "ngm" : "nrm"; s[n] = "surface " + n + "() { normal n = normalize(" + (g ? "Ng" : "N") + "); if(zcomp(n) > 0) n = -n; Ci = color(xcomp(n), ycomp(n), zcomp(n)); Oi = 1; }"; }
    s["nsd"] = "surface nsd() { normal q = ntransform(\"object\", N); Ci = color(xcomp(q), ycomp(q), zcomp(q)); Oi = 1; }";
    s["ssd"] = "surface ssd() { Ci = color(s, s, s); Oi = 1; }"; s["tsd"] = "surface tsd() { Ci = color(t, t, t); Oi = 1; }";
    for(int u = 0; u < 2; ++u)
    {
        string c = u ? "uniform" : "varying", e = u ? "_u" : "";
        auto add = [&](const string& n, const string& par, const string& body) { s["p_" + n + e] = "surface p_" + n + e + "(" + c + " " + par + ") { " + body + " Oi = 1; }"; };
        add("float", "float pv = -9;", "Ci = color(pv, pv, pv);"); s["p_integer" + e] = "surface p_integer" + e + "(" + c + " float pv = -9;) { Ci = color(pv, pv, pv); Oi = 1; }";
        add("color", "color pv = color(-9, -9, -9);", "Ci = pv;");
        add("point", "point pv = point(-9, -9, -9);", "point q = transform(\"object\", pv); Ci = color(xcomp(q), ycomp(q), zcomp(q));");
        add("vector", "vector pv = vector(-9, -9, -9);", "vector q = vtransform(\"object\", pv); Ci = color(xcomp(q), ycomp(q), zcomp(q));");
        add("normal", "normal pv = normal(-9, -9, -9);", "normal q = ntransform(\"object\", pv); Ci = color(xcomp(q), ycomp(q), zcomp(q));");
        add("float_3_", "float pv[3] = {-9, -9, -9};", "Ci = color(pv[0], pv[1], pv[2]);");
        add("color_2_", "color pv[2] = {color(-9, -9, -9), color(-8, -8, -8)};", "Ci = pv[1];");
    }
    s["p_string_u"] = "surface p_string_u(uniform string pv = \"none\";) { float f = -9; if(pv == \"s0\") f = 0; if(pv == \"s1\") f = 1; if(pv == \"s2\") f = 2; if(pv == \"s3\") f = 3; if(pv == \"s4\") f = 4; if(pv == \"s5\") f = 5; Ci = color(f, f, f); Oi = 1; }";
    Shaders sh(s);
    return pbt::mainLoop(argc, argv, "at least 6 pixels are judged; distinct by kind, class, type and picture");
}
