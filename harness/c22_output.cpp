// C22: filtering, exposure, quantisation, displays and files.
#include "rd_scene.h"
#include <tiffio.h>
#include <OpenEXR/ImfInputFile.h>
#include <OpenEXR/ImfHeader.h>
#include <OpenEXR/ImfChannelList.h>
#include <OpenEXR/ImfFrameBuffer.h>
#include <OpenEXR/ImfMatrixAttribute.h>
using namespace rd;

static const std::map<string,string> SH = {
    {"c22", "surface c22(uniform color ca = 0; uniform float fa = 0; output varying color aovc = 0; output varying float aovf = 0;) { aovc = ca; aovf = fa; Oi = Os; Ci = Os*Cs; }\n"}};

struct Rect { double x0, x1, y0, y1, z; double c[3], o, ca[3], fa; };
struct Scene {
    int w, h, nx, ny; double fw, fh; string filter; vector<Rect> rs; string crop, extra; int cx0, cx1, cy0, cy1; double gain = 1, gamma = 1;
    string head() const
    {
        string s = shaderOption() + "Declare \"aovc\" \"varying color\"\nDeclare \"aovf\" \"varying float\"\n";
        s += fmt("Format %d %d 1\nProjection \"orthographic\"\nScreenWindow 0 %d %d 0\nClipping 0.01 100\nPixelSamples %d %d\nPixelFilter \"%s\" %s %s\nHider \"hidden\" \"integer jitter\" [0]\n", w, h, w, -h, nx, ny, filter.c_str(), num(fw).c_str(), num(fh).c_str());
        if(gain != 1 || gamma != 1) s += "Exposure " + num(gain) + " " + num(gamma) + "\n";
        return s + crop + extra;
    }
    string world() const
    {
        string s = "WorldBegin\n";
        for(auto& r : rs)
        {
            s += fmt("Surface \"c22\" \"uniform color ca\" [%s %s %s] \"uniform float fa\" [%s]\nColor [%s %s %s]\nOpacity [%s %s %s]\n", num(r.ca[0]).c_str(), num(r.ca[1]).c_str(), num(r.ca[2]).c_str(), num(r.fa).c_str(),
                     num(r.c[0]).c_str(), num(r.c[1]).c_str(), num(r.c[2]).c_str(), num(r.o).c_str(), num(r.o).c_str(), num(r.o).c_str());
            vector<double> P{r.x0, -r.y0, r.z, r.x1, -r.y0, r.z, r.x1, -r.y1, r.z, r.x0, -r.y1, r.z};
            s += "Polygon \"P\" " + nums(P) + "\n";
        }
        return s + "WorldEnd\n";
    }
    /// sample value (r g b a, aovc, aovf, z) at raster position
    void sample(double X, double Y, double v[9]) const
    {
        for(int i = 0; i < 9; ++i) v[i] = 0;
        vector<const Rect*> hit; for(auto& r : rs) if(X > r.x0 && X < r.x1 && Y > r.y0 && Y < r.y1) hit.push_back(&r);
        std::sort(hit.begin(), hit.end(), [](const Rect* a, const Rect* b) { return a->z < b->z; });
        double t = 1;
        for(size_t k = 0; k < hit.size(); ++k)
        {
            for(int i = 0; i < 3; ++i) v[i] += t*hit[k]->o*hit[k]->c[i];
            v[3] += t*hit[k]->o; t *= 1 - hit[k]->o;
        }
        if(hit.size()) { for(int i = 0; i < 3; ++i) v[4+i] = hit[0]->ca[i]; v[7] = hit[0]->fa; v[8] = hit[0]->z; }
    }
};
static double cmr(double r) { return r >= 2 ? 0 : r < 1 ? 3*r*r*r - 5*r*r + 2 : -r*r*r + 5*r*r - 8*r + 4; }
static double mitch(double x)
{
    double B = 1/3., C = 1/3.; x = fabs(2*x);
    return x > 1 ? ((-B - 6*C)*x*x*x + (6*B + 30*C)*x*x + (-12*B - 48*C)*x + 8*B + 24*C)/6 : ((12 - 9*B - 6*C)*x*x*x + (-18 + 12*B + 6*C)*x*x + 6 - 2*B)/6;
}
static double sinc1(double x, double w) { return x == 0 ? 1 : cos(M_PI*x/2/w)*sin(M_PI*x)/(M_PI*x); }
/// The pixel filters of the interface, as defined there.
static double weight(const string& f, double x, double y, double w, double h)
{
    double hx = w/2, hy = h/2, d = x*x/hx/hx + y*y/hy/hy;
    if(f == "box") return 1;
    if(f == "triangle") return std::min((hx - fabs(x))/hx, (hy - fabs(y))/hy);
    if(f == "gaussian") return exp(-2*d);
    if(f == "catmull-rom") return cmr(sqrt(x*x + y*y));
    if(f == "sinc") return sinc1(x, w)*sinc1(y, h);
    if(f == "disk") return d < 1 ? 1 : 0;
    if(f == "bessel") { double r = sqrt(x*x + y*y); return d >= 1 ? 0 : r == 0 ? M_PI : cos(M_PI/2*sqrt(d))*2*j1(M_PI*r)/r; }
    if(f == "mitchell") return mitch(x/w)*mitch(y/h);
    abort();
}
struct Pix { double v[9]; double mag; bool clear; };
/// filtered pixel; mag scales the tolerance, clear is false when the sum of weights is too small or undecided
static Pix pixel(const Scene& s, int px, int py)
{
    Pix r; double sum = 0, abs = 0; for(double& v : r.v) v = 0; r.clear = true; r.mag = 0;
    int ex = ceil(s.fw/2) + 1, ey = ceil(s.fh/2) + 1; double big = 1;
    for(int qy = py - ey; qy <= py + ey; ++qy) for(int qx = px - ex; qx <= px + ex; ++qx)
        for(int j = 0; j < s.ny; ++j) for(int i = 0; i < s.nx; ++i)
        {
            double X = qx + (i + 0.5)/s.nx, Y = qy + (j + 0.5)/s.ny, dx = X - px - 0.5, dy = Y - py - 0.5;
            if(fabs(dx) > s.fw/2 || fabs(dy) > s.fh/2) continue;
            if(s.filter == "disk" && fabs(dx*dx/(s.fw/2)/(s.fw/2) + dy*dy/(s.fh/2)/(s.fh/2) - 1) < 1e-5) r.clear = false;
            double k = weight(s.filter, dx, dy, s.fw, s.fh), v[9]; s.sample(X, Y, v);
            sum += k; abs += fabs(k); for(int c = 0; c < 9; ++c) { r.v[c] += k*v[c]; big = std::max(big, fabs(v[c])); }
        }
    if(!(fabs(sum) > 0.05*abs)) { r.clear = false; return r; }
    for(double& v : r.v) v /= sum;
    r.mag = big*abs/fabs(sum); return r;
}
/// rectangle edges stay clear of sample points
static double edge(Src& s, int n, int size)
{
    int k = s.range(-2*n, (size + 2)*n); return (k + 0.35*s.range(-1, 1))/n;
}
static Scene genScene(Src& s, bool odd, bool opaque, int maxres = 24)
{
    Scene q; q.w = s.range(1, maxres); q.h = s.range(1, maxres); q.nx = s.range(1, 4); q.ny = s.range(1, 4);
    q.filter = s.pick(vector<string>{"box", "triangle", "gaussian", "catmull-rom", "sinc", "disk", "bessel", "mitchell"});
    q.fw = s.range(1, 5); q.fh = s.range(1, 5);
    if(!odd) { q.filter = "box"; q.fw = q.fh = 1; }
    // a sample exactly on the filter's rim belongs to it or not as the implementation likes
    if((q.nx & 1) && !((int)q.fw & 1)) ++q.nx;
    if((q.ny & 1) && !((int)q.fh & 1)) ++q.ny;
    s.label(q.filter);
    int n = s.range(0, 5);
    for(int i = 0; i < n; ++i)
    {
        Rect r; r.x0 = edge(s, q.nx, q.w); r.x1 = edge(s, q.nx, q.w); r.y0 = edge(s, q.ny, q.h); r.y1 = edge(s, q.ny, q.h);
        if(r.x0 > r.x1) std::swap(r.x0, r.x1); if(r.y0 > r.y1) std::swap(r.y0, r.y1);
        if(r.x1 - r.x0 < 0.5/q.nx || r.y1 - r.y0 < 0.5/q.ny) continue;
        r.z = 1 + 2*i + s.range(0, 1);
        for(double& c : r.c) c = s.range(0, 64)/64.; for(double& c : r.ca) c = s.range(-64, 256)/64.; r.fa = s.range(-100, 1000)/4.;
        r.o = opaque || s.chance(70) ? 1 : s.range(1, 31)/32.;
        q.rs.push_back(r);
    }
    if(s.chance(50)) q.extra += fmt("Option \"limits\" \"integer[2] bucketsize\" [%d %d]\n", s.range(1, 20), s.range(1, 20));
    q.cx0 = q.cy0 = 0; q.cx1 = q.w; q.cy1 = q.h;
    if(s.chance(50))
    {
        q.cx0 = s.range(0, q.w - 1); q.cx1 = s.range(q.cx0 + 1, q.w); q.cy0 = s.range(0, q.h - 1); q.cy1 = s.range(q.cy0 + 1, q.h);
        if(q.cx0 || q.cy0 || q.cx1 != q.w || q.cy1 != q.h)
        {
            q.crop = fmt("CropWindow %s %s %s %s\n", num((q.cx0 - 0.5)/q.w < 0 ? 0 : (q.cx0 - 0.5)/q.w).c_str(), num((q.cx1 - 0.5)/q.w).c_str(), num((q.cy0 - 0.5)/q.h < 0 ? 0 : (q.cy0 - 0.5)/q.h).c_str(), num((q.cy1 - 0.5)/q.h).c_str());
            s.label("crop");
        }
    }
    return q;
}
static void window(const Scene& q, const Image& im, const string& name)
{
    if(!im.opened || !im.closed) pbt::fail("display " + name + " was not opened and closed");
    if(im.w != q.cx1 - q.cx0 || im.h != q.cy1 - q.cy0 || im.ox != q.cx0 || im.oy != q.cy0) pbt::fail(fmt("display %s is %dx%d at %d,%d instead of %dx%d at %d,%d", name.c_str(), im.w, im.h, im.ox, im.oy, q.cx1 - q.cx0, q.cy1 - q.cy0, q.cx0, q.cy0));
    complete(im);
}
/// index into Pix::v of each channel a display mode asks for
static vector<std::pair<string,int>> channels(const string& mode)
{
    if(mode == "rgb") return {{"r", 0}, {"g", 1}, {"b", 2}};
    if(mode == "rgba") return {{"r", 0}, {"g", 1}, {"b", 2}, {"a", 3}};
    if(mode == "a") return {{"a", 3}};
    if(mode == "z") return {{"z", 8}};
    if(mode == "rgbaz") return {{"r", 0}, {"g", 1}, {"b", 2}, {"a", 3}, {"z", 8}};
    if(mode == "aovc") return {{"r", 4}, {"g", 5}, {"b", 6}};
    if(mode == "aovf") return {{"r", 7}};
    abort();
}
struct Quant { bool set = false; double one = 0, lo = 0, hi = 0, dither = 0; };
static Quant genQuant(Src& s, bool files = false)
{
    Quant q; q.set = true;
    switch(s.range(0, files ? 4 : 6))
    {
        case 0: q.one = 0; break;
        case 1: q.one = 255; q.hi = 255; break;
        case 2: q.one = 65535; q.hi = 65535; break;
        case 3: q.one = s.range(1, 400); q.lo = s.range(0, 40); q.hi = q.lo + s.range(1, 400); break;
        case 4: q.one = s.range(65536, 10000000); q.hi = q.one + s.range(0, 1000); break;
        case 5: q.one = s.range(1, 200); q.lo = -s.range(1, 200); q.hi = s.range(1, 300); break;
        case 6: q.one = s.range(1, 100000); q.lo = -s.range(0, 40000); q.hi = s.range(1, 100000); break;
    }
    if(!files && q.one != 0 && s.chance(40)) q.dither = s.pick(vector<double>{0.5, 0.25, 1});
    return q;
}
static bool fits(int type, const Quant& q)
{
    switch(type & 8191) {
        case 2: return q.lo >= 0; case 3: return true; case 4: return q.lo >= 0 && q.hi <= 65535; case 5: return q.lo >= -32768 && q.hi <= 32767;
        case 6: return q.lo >= 0 && q.hi <= 255; case 7: return q.lo >= -128 && q.hi <= 127; }
    return false;
}
/// judge an image's channels against the reference
static void judge(const Scene& q, const Image& im, const string& mode, const string& name, const Quant& Q, bool exposed)
{
    window(q, im, name); auto ch = channels(mode);
    if(im.nc != (int)ch.size()) pbt::fail(fmt("display %s of mode %s has %d channels", name.c_str(), mode.c_str(), im.nc));
    vector<int> ix; for(auto& c : ch) { int k = im.chan(c.first); if(k < 0) pbt::fail("display " + name + " of mode " + mode + " has no channel " + c.first); ix.push_back(k); }
    for(int k : ix)
    {
        int t = im.formats[k].second & 8191;
        if(Q.one == 0 && t != 1) pbt::fail(fmt("display %s was not given floats (type %d)", name.c_str(), t));
        if(Q.one != 0 && !fits(t, Q)) pbt::fail(fmt("display %s was given data of type %d for a range of %g to %g", name.c_str(), t, Q.lo, Q.hi));
    }
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x)
    {
        Pix p = pixel(q, x + q.cx0, y + q.cy0); if(!p.clear) continue;
        for(size_t c = 0; c < ch.size(); ++c)
        {
            int k = ch[c].second; double v = p.v[k], tol = 2e-5*p.mag, g = im.at(x, y, ix[c]);
            if(k == 8) continue;        // depth has its own suite
            if(exposed && k < 3 && (q.gain != 1 || q.gamma != 1))
            {
                double a = v*q.gain; if(a < 1e-3 && q.gamma != 1) continue;   // the power magnifies rounding there
                { double b = pow(a, 1/q.gamma); tol = tol*q.gain*(a > 0 ? b/a/q.gamma : 1)*1.5 + 2e-6*b; v = b; }
            }
            string at = fmt("display %s pixel %d,%d channel %s is %.9g", name.c_str(), x + q.cx0, y + q.cy0, ch[c].first.c_str(), g);
            if(Q.one == 0) { if(!(fabs(g - v) <= tol)) pbt::fail(at + fmt(" instead of %.9g (filter %s)", v, q.filter.c_str())); }
            else
            {
                double lo = floor((v - tol)*Q.one - Q.dither + 0.5 - 1e-4), hi = floor((v + tol)*Q.one + Q.dither + 0.5 + 1e-4);
                lo = std::min(std::max(lo, Q.lo), Q.hi); hi = std::min(std::max(hi, Q.lo), Q.hi);
                if(!(g >= lo && g <= hi)) pbt::fail(at + fmt(" instead of %g..%g (value %.9g, one %g range %g %g dither %g)", lo, hi, v, Q.one, Q.lo, Q.hi, Q.dither));
            }
        }
    }
}
PBT_SUITE(filter, 1000, 6000)
{
    Scene q = genScene(src, true, false);
    if(src.chance(40)) { q.gain = src.range(1, 40)/8.; src.label("gain"); }
    if(src.chance(40)) { q.gamma = src.range(4, 24)/8.; src.label("gamma"); }
    string rib = q.head() + "Quantize \"rgba\" 0 0 0 0\nDisplay \"o.dsp\" \"dump\" \"rgba\"\n" + q.world();
    src.note(rib);
    Image im = render(rib); Quant Q; judge(q, im, "rgba", "o.dsp", Q, true);
    if(q.rs.size()) src.nontrivial(rib);
}
/// Several displays at once, each with channels and quantisation of its own.
PBT_SUITE(displays, 1000, 6000)
{
    Scene q = genScene(src, src.coin(), true);
    if(src.chance(30)) q.gain = src.range(1, 40)/8.;
    Quant qc = genQuant(src), qz; bool useq = src.coin();
    string rib = q.head();
    if(useq) rib += fmt("Quantize \"rgba\" %d %d %d %s\n", (int)qc.one, (int)qc.lo, (int)qc.hi, num(qc.dither).c_str()); else { qc = Quant(); qc.one = 255; qc.hi = 255; qc.dither = 0.5; }
    rib += "Quantize \"z\" 0 0 0 0\n";
    struct D { string name, mode; Quant Q; }; vector<D> ds; int n = src.range(1, 4); bool skip = false;
    for(int i = 0; i < n; ++i)
    {
        D d; d.name = fmt("d%d.dsp", i); d.mode = src.pick(vector<string>{"rgb", "rgba", "rgba", "a", "z", "rgbaz", "aovc", "aovf"});
        if(i == 0 && d.mode[0] == 'a' && d.mode.size() > 1) d.mode = "rgba";
        bool z = d.mode.find('z') != string::npos, aov = d.mode.size() == 4 && d.mode.substr(0, 3) == "aov";
        d.Q = z || aov ? Quant() : qc;
        string own;
        if(src.chance(50)) { d.Q = genQuant(src); own = fmt(" \"float[4] quantize\" [0 %d %d %d] \"float dither\" [%s]", (int)d.Q.one, (int)d.Q.lo, (int)d.Q.hi, num(d.Q.dither).c_str()); src.label("own quantize"); }
        if(src.chance(40)) { own += " \"integer scanline\" [1]"; src.label("scanlines"); }
        rib += fmt("Display \"%s%s\" \"dump\" \"%s\"%s\n", i ? "+" : "", d.name.c_str(), d.mode.c_str(), own.c_str()); src.label(d.mode); ds.push_back(d);
        if(src.chance(12))
        {
            // a display that cannot be opened is skipped; the others are as complete as ever
            string k = src.pick(vector<string>{"missing", "notlib", "nosyms", "refused", "nodir"}); skip = true; src.label("skipped display: " + k);
            if(k == "notlib") rib += "Option \"display\" \"string notlib\" [\"./notlib.so\"]\n";
            if(k == "nosyms") rib += "Option \"display\" \"string nosyms\" [\"libm.so.6\"]\nOption \"searchpath\" \"string display\" [\".:/lib/x86_64-linux-gnu:/usr/lib/x86_64-linux-gnu:/lib64:/usr/lib64\"]\n";
            if(k == "nodir") rib += "Option \"display\" \"string bmp\" [\"" + reldir() + "/tools/displays/sdcBMP/bmp_dspy.so\"]\nDisplay \"+nodir/x.bmp\" \"bmp\" \"rgb\"\n"; else
            rib += fmt("Display \"+%s%d.dsp\" \"%s\" \"rgba\"\n", k.c_str(), i, k == "refused" ? "dump" : k.c_str());
        }
    }
    rib += q.world(); src.note(rib);
    TempDir t; { std::ofstream(t.p + "/notlib.so") << "this is not a library\n"; } Result r = renderIn(t.p, rib); string e = skip ? "" : errors(r.out); if(!e.empty()) pbt::fail("the renderer reported an error on a legal scene:\n" + e.substr(0, 500));
    for(auto& d : ds) judge(q, load(t.p + "/" + d.name), d.mode, d.name, d.Q, true);
    if(n > 1) src.nontrivial(rib);
}
struct Tiff { int w = 0, h = 0, spp = 0, bits = 0, sf = 1; double xp = -1, yp = -1; int fullw = -1, fullh = -1; vector<double> v; vector<float> NP, Nl; string tex; bool ok = false; };
static Tiff readTiff(const string& p)
{
    Tiff t; TIFFSetWarningHandler(0); TIFFSetErrorHandler(0); TIFF* f = TIFFOpen(p.c_str(), "r"); if(!f) return t;
    uint32_t w = 0, h = 0; uint16_t spp = 1, bits = 1, sf = 1; TIFFGetField(f, TIFFTAG_IMAGEWIDTH, &w); TIFFGetField(f, TIFFTAG_IMAGELENGTH, &h);
    TIFFGetFieldDefaulted(f, TIFFTAG_SAMPLESPERPIXEL, &spp); TIFFGetFieldDefaulted(f, TIFFTAG_BITSPERSAMPLE, &bits); TIFFGetFieldDefaulted(f, TIFFTAG_SAMPLEFORMAT, &sf);
    t.w = w; t.h = h; t.spp = spp; t.bits = bits; t.sf = sf;
    float x; if(TIFFGetField(f, TIFFTAG_XPOSITION, &x)) t.xp = x; if(TIFFGetField(f, TIFFTAG_YPOSITION, &x)) t.yp = x;
    uint32_t u; if(TIFFGetField(f, TIFFTAG_PIXAR_IMAGEFULLWIDTH, &u)) t.fullw = u; if(TIFFGetField(f, TIFFTAG_PIXAR_IMAGEFULLLENGTH, &u)) t.fullh = u;
    float* m; if(TIFFGetField(f, TIFFTAG_PIXAR_MATRIX_WORLDTOSCREEN, &m)) t.NP.assign(m, m + 16); if(TIFFGetField(f, TIFFTAG_PIXAR_MATRIX_WORLDTOCAMERA, &m)) t.Nl.assign(m, m + 16);
    char* c; if(TIFFGetField(f, TIFFTAG_PIXAR_TEXTUREFORMAT, &c)) t.tex = c;
    t.v.assign((size_t)w*h*spp, NAN); t.ok = true;
    auto get = [&](const unsigned char* b, size_t i) -> double {
        if(bits == 8) return sf == 2 ? (double)(signed char)b[i] : b[i]; if(bits == 16) { uint16_t k; memcpy(&k, b + 2*i, 2); return sf == 2 ? (double)(int16_t)k : k; }
        if(sf == 3) { float k; memcpy(&k, b + 4*i, 4); return k; } uint32_t k; memcpy(&k, b + 4*i, 4); return sf == 2 ? (double)(int32_t)k : k; };
    if(bits != 8 && bits != 16 && bits != 32) t.ok = false;
    else if(TIFFIsTiled(f))
    {
        uint32_t tw, th; TIFFGetField(f, TIFFTAG_TILEWIDTH, &tw); TIFFGetField(f, TIFFTAG_TILELENGTH, &th); vector<unsigned char> b(TIFFTileSize(f));
        for(uint32_t y = 0; y < h; y += th) for(uint32_t x = 0; x < w; x += tw)
        {
            if(TIFFReadTile(f, b.data(), x, y, 0, 0) < 0) { t.ok = false; break; }
            for(uint32_t j = 0; j < th && y + j < h; ++j) for(uint32_t i = 0; i < tw && x + i < w; ++i) for(int s = 0; s < spp; ++s) t.v[((size_t)(y+j)*w + x + i)*spp + s] = get(b.data(), ((size_t)j*tw + i)*spp + s);
        }
    }
    else
    {
        vector<unsigned char> b(TIFFScanlineSize(f));
        for(uint32_t y = 0; y < h; ++y) { if(TIFFReadScanline(f, b.data(), y, 0) < 0) { t.ok = false; break; } for(size_t i = 0; i < (size_t)w*spp; ++i) t.v[y*(size_t)w*spp + i] = get(b.data(), i); }
    }
    TIFFClose(f); return t;
}
static void matrices(const Image& im, const vector<float>& NP, const vector<float>& Nl, const string& name)
{
    auto a = im.params.find("NP"), b = im.params.find("Nl"); if(a == im.params.end() || b == im.params.end()) pbt::fail("the display driver was not given the matrices NP and Nl");
    if(NP != a->second.floats() || Nl != b->second.floats()) pbt::fail(name + ": matrices in the file differ from those given to the display");
}
static string libOf(const string& kind) { return reldir() + "/tools/displays/" + kind + "/" + kind + "_dspy.so"; }
/// What the image drivers write is what a display receives.
PBT_SUITE(files, 900, 5000)
{
    Scene q = genScene(src, src.coin(), true, 50); Quant Q = genQuant(src, true); string kind = src.pick(vector<string>{"file", "file", "tiff", "exr", "zfile", "shadow", "shadow", "bmp"});
    string mode = kind == "zfile" || kind == "shadow" ? "z" : src.pick(vector<string>{"rgb", "rgba", "rgba", "aovc"});
    if(mode == "z") Q = Quant();
    if(kind == "bmp") { Q = Quant(); Q.one = Q.hi = 255; mode = src.coin() ? "rgb" : "rgba"; }
    src.label(kind); src.label(mode);
    string quant = fmt(" \"float[4] quantize\" [0 %d %d %d] \"float dither\" [0]", (int)Q.one, (int)Q.lo, (int)Q.hi), own;
    if(kind == "exr") { if(src.coin()) own += " \"string exrpixeltype\" [\"float\"]"; if(src.coin()) own += " \"string exrcompression\" [\"" + src.pick(vector<string>{"none", "rle", "zips", "zip", "piz"}) + "\"]"; Q = Quant(); quant = " \"float[4] quantize\" [0 0 0 0] \"float dither\" [0]"; }
    else
    {
        if(src.chance(50)) own += " \"string compression\" [\"" + src.pick(vector<string>{"none", "lzw", "deflate", "packbits"}) + "\"]";
        if(src.chance(30)) { own += " \"integer scanlineorder\" [1]"; src.label("scanline file"); }
        if(src.chance(20)) own += " \"string description\" [\"" + string(src.range(1, 200), 'd') + "\"]";
        if(src.chance(20)) own += " \"string HostComputer\" [\"host\"]";
    }
    string rib = q.head() + "Option \"display\" \"string file\" [\"" + libOf("file") + "\"] \"string tiff\" [\"" + libOf("file") + "\"] \"string zfile\" [\"" + libOf("file") + "\"] \"string shadow\" [\"" + libOf("file") + "\"] \"string exr\" [\"" + libOf("exr") + "\"] \"string bmp\" [\"" + reldir() + "/tools/displays/sdcBMP/bmp_dspy.so\"]\n";
    bool first = src.coin() && mode != "aovc";
    string dd = "Display \"" + string(first ? "+" : "") + "o.dsp\" \"dump\" \"" + mode + "\"" + quant + "\n", df = "Display \"" + string(first ? "" : "+") + "img\" \"" + kind + "\" \"" + mode + "\"" + quant + own + "\n";
    if(mode == "aovc") { dd = "Display \"p.dsp\" \"dump\" \"rgba\"\nDisplay \"+o.dsp\" \"dump\" \"aovc\"" + quant + "\n"; }
    bool layer = false; string two;
    if(kind == "exr" && src.coin()) { layer = true; src.label("two exr layers"); two = "Display \"+img\" \"exr\" \"aovf\" \"string exrpixeltype\" [\"float\"] \"string layername\" [\"second\"]" + quant + "\nDisplay \"+q.dsp\" \"dump\" \"aovf\"" + quant + "\n"; if(src.coin()) own += " \"string layername\" [\"first\"]"; df.insert(df.size() - 1, own.find("layername") != string::npos ? " \"string layername\" [\"first\"]" : ""); }
    rib += (first ? df + dd : dd + df) + two;
    if(src.chance(30)) rib += "Translate 0 0 1\n";
    rib += q.world(); src.note(rib);
    TempDir t; Result r = renderIn(t.p, rib); string e = errors(r.out); if(!e.empty()) pbt::fail("the renderer reported an error on a legal scene:\n" + e.substr(0, 500));
    Image im = load(t.p + "/o.dsp"); window(q, im, "o.dsp");
    auto ch = channels(mode); vector<int> ix; for(auto& c : ch) { ix.push_back(im.chan(c.first)); if(ix.back() < 0) pbt::fail("no channel " + c.first); }
    string path = t.p + "/img"; if(access(path.c_str(), R_OK)) pbt::fail("no " + kind + " file was written\n" + r.out.substr(0, 400));
    auto compare = [&](int x, int y, int c, double g, bool half) {
        double v = im.at(x, y, ix[c]);
        if(half ? !(fabs(g - v) <= fabs(v)/1500 + 1e-7) : !same(g, v)) pbt::fail(fmt("%s file pixel %d,%d channel %s is %.9g, the display received %.9g", kind.c_str(), x, y, ch[c].first.c_str(), g, v)); };
    if(kind == "zfile")
    {
        string s = read(path); string H = "Aqsis ZFile 0.1";    // header text is followed by the sizes
        size_t p = s.find_first_of('\0'); (void)p; (void)H;
        size_t data = (size_t)im.w*im.h*4, fixed = 8 + 128; if(s.size() < data + fixed) pbt::fail("zfile is too short");
        size_t h0 = s.size() - data - fixed; int wh[2]; memcpy(wh, &s[h0], 8); vector<float> Nl(16), NP(16); memcpy(Nl.data(), &s[h0 + 8], 64); memcpy(NP.data(), &s[h0 + 72], 64);
        if(h0 == 0 || h0 > 80 || wh[0] != im.w || wh[1] != im.h) pbt::fail(fmt("zfile of a %dx%d image has a bad header", im.w, im.h));
        matrices(im, NP, Nl, kind);
        for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) { float f; memcpy(&f, &s[h0 + fixed + 4*((size_t)y*im.w + x)], 4); compare(x, y, 0, f, false); }
    }
    else if(kind == "bmp")
    {
        string b = read(path); auto u4 = [&](size_t p) { uint32_t v = 0; memcpy(&v, &b[p], 4); return (int)v; };
        if(b.size() < 54 || b.compare(0, 2, "BM") || u4(18) != im.w || u4(22) != im.h || b[28] != 24) pbt::fail("bmp file has a bad header");
        size_t off = u4(10), row = (im.w*3 + 3)/4*4; if(b.size() < off + row*(im.h - 1) + 3*im.w) pbt::fail(fmt("bmp file of %zu bytes is too short for %dx%d", b.size(), im.w, im.h));
        for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) for(int c = 0; c < 3; ++c) compare(x, y, c, (unsigned char)b[off + row*(im.h - 1 - y) + 3*x + 2 - c], false);
    }
    else if(kind == "exr")
    {
        try
        {
            Imf::InputFile f(path.c_str()); auto dw = f.header().dataWindow(), sw = f.header().displayWindow();
            if(dw.min.x != q.cx0 || dw.min.y != q.cy0 || dw.max.x != q.cx1 - 1 || dw.max.y != q.cy1 - 1) pbt::fail(fmt("exr data window is %d,%d..%d,%d", dw.min.x, dw.min.y, dw.max.x, dw.max.y));
            if(sw.min.x || sw.min.y || sw.max.x != q.w - 1 || sw.max.y != q.h - 1) pbt::fail("exr display window is not the full image");
            vector<string> names, seconds; bool half = false;
            for(auto i = f.header().channels().begin(); i != f.header().channels().end(); ++i)
                if(string(i.name()).substr(0, 7) == "second.") seconds.push_back(i.name()); else { names.push_back(i.name()); half = i.channel().type == Imf::HALF; }
            auto fetch = [&](const string& n) { vector<float> b((size_t)im.w*im.h, NAN); Imf::FrameBuffer fb; fb.insert(n.c_str(), Imf::Slice(Imf::FLOAT, (char*)(b.data() - q.cx0 - (ptrdiff_t)q.cy0*im.w), 4, 4*im.w)); f.setFrameBuffer(fb); f.readPixels(dw.min.y, dw.max.y); return b; };
            if(seconds.size() != (layer ? 1 : 0)) pbt::fail("the second layer of the exr file does not have its channel");
            if(layer)
            {
                Image i2 = load(t.p + "/q.dsp"); window(q, i2, "q.dsp"); auto b = fetch(seconds[0]);
                for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) if(!same(b[(size_t)y*im.w + x], i2.at(x, y, 0))) pbt::fail(fmt("exr second layer pixel %d,%d is %.9g, the display received %.9g", x, y, b[(size_t)y*im.w + x], i2.at(x, y, 0)));
            }
            if(names.size() != ch.size()) pbt::fail(fmt("exr file has %zu channels", names.size()));
            for(size_t c = 0; c < ch.size(); ++c)
            {
                string want; for(auto& n : names) if(n.size() >= 2 && tolower(n.back()) == ch[c].first[0] && n[n.size()-2] == '.') want = n; if(want.empty()) pbt::fail("exr file has no channel for " + ch[c].first);
                auto b = fetch(want);
                for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) compare(x, y, c, b[(size_t)y*im.w + x], half);
            }
        }
        catch(const std::exception& x) { pbt::fail(string("exr file cannot be read: ") + x.what() + "\n" + r.out.substr(0, 300)); }
    }
    else
    {
        Tiff T = readTiff(path); if(!T.ok) pbt::fail(kind + " file cannot be read");
        if(T.w != im.w || T.h != im.h || T.spp != (int)ch.size()) pbt::fail(fmt("%s file is %dx%dx%d for a window of %dx%dx%zu", kind.c_str(), T.w, T.h, T.spp, im.w, im.h, ch.size()));
        int bits = Q.one == 0 || Q.hi > 65535 ? 32 : Q.hi <= 255 ? 8 : 16;
        if(T.bits != bits || T.sf != (Q.one == 0 ? 3 : 1)) pbt::fail(fmt("%s file has %d bits per sample, format %d, for one %g range %g..%g", kind.c_str(), T.bits, T.sf, Q.one, Q.lo, Q.hi));
        matrices(im, T.NP, T.Nl, kind);
        if(kind == "shadow") { if(T.tex.empty()) pbt::fail("shadow file is not marked as a shadow map"); }
        else if(T.xp != q.cx0 || T.yp != q.cy0 || T.fullw != q.w || T.fullh != q.h) pbt::fail(fmt("%s file says position %g,%g of %dx%d", kind.c_str(), T.xp, T.yp, T.fullw, T.fullh));
        for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x) for(size_t c = 0; c < ch.size(); ++c) compare(x, y, c, T.v[((size_t)y*im.w + x)*T.spp + c], false);
    }
    if(q.rs.size()) src.nontrivial(rib);
}
int main(int argc, char** argv)
{
    Shaders sh(SH);
    return pbt::mainLoop(argc, argv, "distinct scenes with at least one rectangle (two displays in the displays suite)");
}
