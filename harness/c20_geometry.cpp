// C20: coverage and depth of every primitive against a finely tessellated reference.
#include "rd_shape.h"
using namespace rd;

static bool sharp(const Shape& s) { return s.kind.find("crease") != string::npos || s.kind.find("corner") != string::npos; }
// the distance, in fifths of a pixel, within which coverage is not judged: trim curves are polygons of the length of a micropolygon; limits about creases are approximate
static int apart(const Shape& s) { return s.kind.find("trimmed") != string::npos || sharp(s) ? 7 : s.curved ? 3 : 1; }
PBT_SUITE(shapes, 2200, 40000)
{
    Shape sh = genShape(src); Cam cam = genCam(src); cam.w = src.range(10, 48); cam.h = src.range(10, 40); if(sh.rigid) cam.par = 1;
    View view(cam); M4 m = genPlace(src, cam, view, sh); double rate = src.pick(vector<double>{0.25, 0.5, 1, 1});
    src.label(sh.kind); if(m.det() < 0) src.label("mirrored");
    double nearz = 0.05; string clip = "Clipping 0.05 1000\n";
    string rib = shaderOption() + "Display \"o.dsp\" \"dump\" \"rgbaz\"\nQuantize \"rgba\" 0 0 0 0\nQuantize \"z\" 0 0 0 0\n" + cam.text() + clip
        + "PixelSamples 1 1\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\nShadingRate " + num(rate) + "\n";
    if(src.chance(40)) { rib += src.pick(vector<string>{"Option \"limits\" \"integer gridsize\" [16]\n", "Option \"limits\" \"integer gridsize\" [64]\n", "Option \"limits\" \"integer[2] bucketsize\" [8 8]\n"}); src.label("grids"); }
    rib += "WorldBegin\nSurface \"flat\"\nConcatTransform " + m.text() + "\n" + sh.rib + sh.params + "\nWorldEnd\n";
    src.note(sh.kind + "\n" + rib);
    Ref ref(view, nearz, 1000); Val none; sh.draw(ref, m, none);
    Image F = render(rib); complete(F); if(F.w != cam.w || F.h != cam.h) pbt::fail("image size");
    int ca = F.chan("a"), cz = F.chan("z"), full = 0, out = 0, hole = 0, odd = 0; string first;
    double pix = cam.persp ? 0 : (view.r - view.l)/view.w;
    for(int y = 0; y < F.h; ++y) for(int x = 0; x < F.w; ++x)
    {
        Ref::Near n = ref.near(x, y, apart(sh)); double a = F.at(x, y, ca), z = F.at(x, y, cz);
        if(n.none) { ++out; if(a != 0) { ++odd; if(first.empty()) first = fmt("pixel %d,%d: nothing of the primitive is near, but alpha is %g, depth %g", x, y, a, z); } continue; }
        if(n.all)
        {
            ++full; double p = cam.persp ? 2*view.k*n.z1/view.h : pix;
            if(a == 0) { ++hole; if(first.empty()) first = fmt("pixel %d,%d: well inside the primitive (depth %g to %g), but not covered", x, y, n.z0, n.z1); continue; }
            if(a != 1) pbt::fail(fmt("pixel %d,%d: alpha of an opaque primitive is %g", x, y, a));
            double tol = 1e-3*n.z1 + 0.3*p + 0.5*(n.z1 - n.z0); if(sharp(sh)) tol += 0.3*n.z1; if(sh.kind.find("rational") != string::npos) tol = 2*tol + 0.3*p; if(sh.curved && z > n.z1 + tol) { ++hole; if(first.empty()) first = fmt("pixel %d,%d: depth %g, but the primitive lies at %g to %g there", x, y, z, n.z0, n.z1); continue; } // another sheet seen through a crack
            if(!(z >= n.z0 - tol && z <= n.z1 + tol)) { ++odd; if(first.empty()) first = fmt("pixel %d,%d: depth %g, but the primitive lies at %g to %g there", x, y, z, n.z0, n.z1); }
        }
        else if(a != 0 && a != 1) pbt::fail(fmt("pixel %d,%d: alpha of an opaque primitive is %g", x, y, a));
    }
    if(full >= 8 && out >= 8) src.nontrivial(fmt("%s|%d|%d", sh.kind.c_str(), full, out));
    if(FILE* mf = getenv("PBT_MAP") && (odd || hole) ? fopen(getenv("PBT_MAP"), "w") : 0) { for(int y = 0; y < F.h; ++y) { string a, b; for(int x = 0; x < F.w; ++x) { Ref::Near n = ref.near(x, y, apart(sh)); a += n.all ? '#' : n.none ? '.' : '+'; b += F.at(x, y, ca) ? '#' : '.'; } fprintf(mf, "%s  %s\n", a.c_str(), b.c_str()); } fclose(mf); }
    // limit points upon and about creases and corners are approximate
    if(odd > (sharp(sh) ? 2 + full/5 : sh.curved ? 1 + full/100 : 0)) pbt::fail(first + fmt(" (%d such pixels)", odd));
    if(hole > (sh.curved ? std::max(3, full/(sharp(sh) ? 5 : sh.rigid ? 25 : 50)) : 0)) pbt::fail(fmt("%d of %d pixels missing; ", hole, full) + first);
}
int main(int argc, char** argv)
{
    Shaders sh({{"flat", "surface flat() { Ci = Os*Cs; Oi = Os; }"}});
    return pbt::mainLoop(argc, argv, "the primitive covers at least 8 pixels wholly and leaves at least 8 clear; distinct by kind and coverage");
}
