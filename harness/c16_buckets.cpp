// C16: the image does not depend on how the work is divided.
#include "rd_scene.h"
using namespace rd;

static string sampling(Src& s, bool jitter)
{
    string t; int sx = s.range(1, 3), sy = s.range(1, 3);
    t += fmt("PixelSamples %d %d\n", sx, sy);
    string f = s.pick(vector<string>{"box", "triangle", "gaussian", "catmull-rom", "sinc"});
    double fw = s.pick(vector<double>{1, 1, 2, 3, 4.5}), fh = s.pick(vector<double>{1, 2, 3, 1.5});
    t += fmt("PixelFilter \"%s\" %s %s\n", f.c_str(), num(fw).c_str(), num(fh).c_str());
    if(!jitter) t += "Hider \"hidden\" \"integer jitter\" [0]\n";
    return t;
}
static void equal(const Image& a, const Image& b, const string& what, double tol = 0)
{
    complete(b);
    if(a.w != b.w || a.h != b.h || a.nc != b.nc) pbt::fail(what + ": image size or channels differ");
    for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) for(int c = 0; c < a.nc; ++c)
        if(!same(a.at(x, y, c), b.at(x, y, c)) && !(fabs(a.at(x, y, c) - b.at(x, y, c)) <= tol*std::max(1.0, fabs((double)a.at(x, y, c)))))
            pbt::fail(what + fmt(": pixel %d,%d channel %s is %.9g instead of %.9g", x, y, a.formats[c].first.c_str(), b.at(x, y, c), a.at(x, y, c)));
}
static bool anything(const Image& a) { int c = a.chan("a"); for(int i = 0; i < a.w*a.h; ++i) if(a.data[(size_t)i*a.nc + c] != 0) return true; return false; }

static const string DISP = "Display \"o.dsp\" \"dump\" \"rgbaz\"\nQuantize \"rgba\" 0 0 0 0\nQuantize \"z\" 0 0 0 0\n";

struct Scene { Cam cam; string samp, world, head; };
static Scene gen(Src& s, bool flat, bool mayJitter)
{
    Scene c; c.cam = genCam(s); c.samp = sampling(s, mayJitter && s.chance(50));
    double z = c.cam.persp ? 3 : 2; c.world = genWorld(s, flat, 4, z, c.cam.persp ? 1.5 : 1.1, true, flat ? 5 : 0);   // flat surfaces: at separate depths, so that none pass through each other
    c.head = shaderOption() + DISP + c.cam.text() + c.samp;
    return c;
}
static string full(const Scene& c, const string& opts) { return c.head + opts + "WorldBegin\nSurface \"flat\"\n" + c.world + "WorldEnd\n"; }

PBT_SUITE(buckets, 500, 12000)
{
    Scene c = gen(src, false, false);
    int bx = src.range(1, 20), by = src.range(1, 20);
    string o1 = "", o2 = fmt("Option \"limits\" \"integer[2] bucketsize\" [%d %d]\n", bx, by);
    src.note(full(c, o2)); src.nontrivial(c.world.substr(0, 300));
    Image a = render(full(c, o1)), b = render(full(c, o2));
    complete(a); src.label(anything(a) ? "covered" : "empty");
    equal(a, b, fmt("bucket size %dx%d", bx, by), 1e-5);   // filter sums may round differently
}
PBT_SUITE(grids, 300, 6000)
{
    // flat constant surfaces: the way a surface is cut into grids cannot show
    Scene c = gen(src, true, false);
    string o2; int k = src.range(0, 3);
    if(k & 1) o2 += fmt("Option \"limits\" \"integer gridsize\" [%d]\n", src.range(4, 400));
    string world = c.world;
    if(k != 1) world = fmt("ShadingRate %s\n", num(src.pick(vector<double>{0.25, 0.5, 2, 4, 16})).c_str()) + world;
    src.note(full(c, o2) + world); src.nontrivial(c.world.substr(0, 300));
    Scene d = c; d.world = world;
    Image a = render(full(c, "")), b = render(full(d, o2));
    complete(a); complete(b);
    // samples on an edge may fall either way: at most isolated samples may differ, and only where
    // the image is not constant around the pixel
    int bad = 0; string first;
    for(int y = 0; y < a.h; ++y) for(int x = 0; x < a.w; ++x) for(int ch = 0; ch < 4; ++ch)
        if(fabs(a.at(x, y, ch) - b.at(x, y, ch)) > 2e-5) { if(!bad++) first = fmt("pixel %d,%d channel %d: %.7g and %.7g", x, y, ch, a.at(x, y, ch), b.at(x, y, ch)); }
    if(bad) pbt::fail("grid size or shading rate changes a flat constant image: " + first);
}
PBT_SUITE(repeat, 200, 4000)
{
    Scene c = gen(src, false, true), d = gen(src, false, true);
    string w = "WorldBegin\nSurface \"flat\"\n";
    auto frame = [&](int n, Scene& q, const string& f) { string h = q.head; size_t p = h.find("o.dsp"); h.replace(p, 5, f); return fmt("FrameBegin %d\n", n) + h + w + q.world + "WorldEnd\nFrameEnd\n"; };
    string rib = frame(1, c, "a.dsp") + frame(2, d, "b.dsp") + frame(3, c, "c.dsp");
    src.note(rib); src.nontrivial(c.world.substr(0, 300));
    TempDir t; Result r = renderIn(t.p, rib);
    Image a = load(t.p + "/a.dsp"), b = load(t.p + "/b.dsp"), e = load(t.p + "/c.dsp");
    Image a1 = render(c.head + w + c.world + "WorldEnd\n"), b1 = render(d.head + w + d.world + "WorldEnd\n");
    Image a2 = render(c.head + w + c.world + "WorldEnd\n");
    equal(a1, a2, "rendering again"); equal(a1, a, "first of three frames against its own file"); equal(b1, b, "second frame against its own file"); equal(a1, e, "third frame against its own file");
}
int main(int argc, char** argv)
{
    std::map<string,string> m{{"flat", "surface flat() { Oi = Os; Ci = Cs*Os; }"}}; Shaders sh(m);
    return pbt::mainLoop(argc, argv, "a scene with at least one primitive; distinct by the scene text");
}
