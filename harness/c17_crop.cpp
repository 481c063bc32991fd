// C17: a crop window reproduces exactly that part of the full image; screen mapping.
#include "rd_scene.h"
using namespace rd;

static string sampling(Src& s)
{
    int sx = s.range(1, 3), sy = s.range(1, 3);
    string f = s.pick(vector<string>{"box", "triangle", "gaussian", "catmull-rom", "sinc"});
    double fw = s.pick(vector<double>{1, 1, 2, 3, 4.5}), fh = s.pick(vector<double>{1, 2, 3, 1.5});
    return fmt("PixelSamples %d %d\nPixelFilter \"%s\" %s %s\nHider \"hidden\" \"integer jitter\" [0]\n", sx, sy, f.c_str(), num(fw).c_str(), num(fh).c_str());
}
static const string DISP = "Display \"o.dsp\" \"dump\" \"rgba\"\nQuantize \"rgba\" 0 0 0 0\n";
static string body(const string& world) { return "WorldBegin\nSurface \"flat\"\n" + world + "WorldEnd\n"; }

/// cut positions in (0,1), sorted, with 0 and 1
static vector<double> cuts(Src& s, int res)
{
    vector<double> v{0, 1}; int n = s.range(0, 2);
    for(int i = 0; i < n; ++i)
    {
        double c = s.coin() ? (double)s.range(0, res)/res : real(s, 0.01, 0.99);
        v.push_back((float)c);
    }
    std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
PBT_SUITE(partition, 360, 5000)
{
    Cam cam = genCam(src); string samp = sampling(src); double z = cam.persp ? 3 : 2;
    string world = genWorld(src, false, 4, z, cam.persp ? 1.5 : 1.1);
    string head = shaderOption() + DISP + cam.text() + samp;
    if(src.chance(50)) head += fmt("Option \"limits\" \"integer[2] bucketsize\" [%d %d]\n", src.range(1, 20), src.range(1, 20));
    vector<double> cx = cuts(src, cam.w), cy = cuts(src, cam.h);
    src.note(head + fmt("cuts x %s y %s\n", nums(cx).c_str(), nums(cy).c_str()) + world);
    Image F = render(head + body(world)); complete(F);
    if(F.w != cam.w || F.h != cam.h) pbt::fail(fmt("full image is %dx%d", F.w, F.h));
    vector<int> cover(F.w*F.h, 0); bool any = false;
    for(size_t i = 0; i + 1 < cx.size(); ++i) for(size_t j = 0; j + 1 < cy.size(); ++j)
    {
        string crop = fmt("CropWindow %s %s %s %s\n", num(cx[i]).c_str(), num(cx[i+1]).c_str(), num(cy[j]).c_str(), num(cy[j+1]).c_str());
        // windows without any pixel are not rendered
        int x0 = ceil((float)cx[i]*F.w - 1e-4), x1 = ceil((float)cx[i+1]*F.w + 1e-4), y0 = ceil((float)cy[j]*F.h - 1e-4), y1 = ceil((float)cy[j+1]*F.h + 1e-4);
        if(ceil((float)cx[i]*F.w + 1e-4) >= ceil((float)cx[i+1]*F.w - 1e-4) || ceil((float)cy[j]*F.h + 1e-4) >= ceil((float)cy[j+1]*F.h - 1e-4)) { src.label("tiny window"); continue; }
        Image C = render(head + crop + body(world)); complete(C);
        if(C.ox < x0 || C.ox + C.w > x1 || C.oy < y0 || C.oy + C.h > y1) pbt::fail(crop + fmt("gives pixels %d..%d x %d..%d of a %dx%d image", C.ox, C.ox + C.w, C.oy, C.oy + C.h, F.w, F.h));
        for(int y = 0; y < C.h; ++y) for(int x = 0; x < C.w; ++x)
        {
            int X = C.ox + x, Y = C.oy + y; ++cover[Y*F.w + X];
            for(int c = 0; c < C.nc; ++c) if(!same(C.at(x, y, c), F.at(X, Y, c)) && !(fabs(C.at(x, y, c) - F.at(X, Y, c)) <= 1e-5*std::max(1.0, fabs((double)F.at(X, Y, c)))))   // filter sums may round differently
               
                pbt::fail(crop + fmt("pixel %d,%d channel %s is %.9g instead of %.9g", X, Y, C.formats[c].first.c_str(), C.at(x, y, c), F.at(X, Y, c)));
        }
        if(C.w < F.w || C.h < F.h) any = true;
    }
    // windows that were rendered never overlap, and pixels in none lie in a window left out as tiny
    for(int y = 0; y < F.h; ++y) for(int x = 0; x < F.w; ++x)
    {
        int n = cover[y*F.w + x]; if(n > 1) pbt::fail(fmt("pixel %d,%d is in %d windows of a partition", x, y, n));
        if(n == 0)
        {
            bool tiny = false;
            for(size_t i = 0; i + 1 < cx.size(); ++i) for(size_t j = 0; j + 1 < cy.size(); ++j)
                if((ceil((float)cx[i]*F.w + 1e-4) >= ceil((float)cx[i+1]*F.w - 1e-4) || ceil((float)cy[j]*F.h + 1e-4) >= ceil((float)cy[j+1]*F.h - 1e-4))
                   && x + 1 >= (float)cx[i]*F.w - 1e-4 && x - 1 <= (float)cx[i+1]*F.w + 1e-4 && y + 1 >= (float)cy[j]*F.h - 1e-4 && y - 1 <= (float)cy[j+1]*F.h + 1e-4) tiny = true;
            if(!tiny) pbt::fail(fmt("pixel %d,%d is in no window of the partition", x, y));
        }
    }
    if(any) src.nontrivial(world.substr(0, 200) + nums(cx) + nums(cy));
}
/// Rectangles of known screen position must land on the pixels the mapping gives.
PBT_SUITE(mapping, 500, 6000)
{
    int w = src.range(2, 40), h = src.range(2, 40); double par = src.coin() ? 1 : real(src, 0.4, 2.5);
    bool persp = src.coin(); double fov = real(src, 20, 120);
    double l, r, b, t; string sw;
    double fa = w*par/h;
    if(src.coin()) { if(fa >= 1) { l = -fa; r = fa; b = -1; t = 1; } else { l = -1; r = 1; b = -1/fa; t = 1/fa; } }
    else { l = real(src, -2, 0.5); r = l + real(src, 0.3, 3); b = real(src, -2, 0.5); t = b + real(src, 0.3, 3); sw = fmt("ScreenWindow %s %s %s %s\n", num(l).c_str(), num(r).c_str(), num(b).c_str(), num(t).c_str()); src.label("screen window"); }
    string head = shaderOption() + DISP + fmt("Format %d %d %s\n", w, h, num(par).c_str()) + (persp ? "Projection \"perspective\" \"fov\" [" + num(fov) + "]\n" : string("Projection \"orthographic\"\n")) + sw
        + "PixelSamples 1 1\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\n";
    struct R { double x0, x1, y0, y1, z; int id; }; vector<R> rs; string world; int n = src.range(1, 3);
    double k = tan(fov*M_PI/360);
    for(int i = 0; i < n; ++i)
    {
        // raster rectangle with edges a good way from sample centres
        auto edge = [&](int res) { return src.range(-2, res + 1) + 0.5 + (src.coin() ? 0.05 : -0.05)*src.range(1, 9); };
        double X0 = edge(w), X1 = edge(w), Y0 = edge(h), Y1 = edge(h); if(X0 > X1) std::swap(X0, X1); if(Y0 > Y1) std::swap(Y0, Y1);
        if(X1 - X0 < 0.3) X1 = X0 + 1.1; if(Y1 - Y0 < 0.3) Y1 = Y0 + 1.1;
        double z = 1 + i*0.5 + real(src, 0, 0.4), m = persp ? k*z : 1;
        auto sx = [&](double X) { return (l + (r-l)*X/w)*m; }; auto sy = [&](double Y) { return (t + (b-t)*Y/h)*m; };
        rs.push_back({X0, X1, Y0, Y1, z, i + 1});
        vector<double> P{sx(X0), sy(Y0), z, sx(X1), sy(Y0), z, sx(X1), sy(Y1), z, sx(X0), sy(Y1), z};
        world += fmt("Color [%d %d %d]\nPolygon \"P\" ", i + 1, i == 0, i == 1) + nums(P) + "\n";
    }
    src.note(head + world); src.nontrivial(head + world);
    Image F = render(head + body(world)); complete(F);
    if(F.w != w || F.h != h) pbt::fail(fmt("image is %dx%d, not %dx%d", F.w, F.h, w, h));
    int R_ = F.chan("r"), A_ = F.chan("a");
    for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x)
    {
        int want = 0; bool unsure = false;
        for(auto& q : rs)
        {
            double X = x + 0.5, Y = y + 0.5, e = 0.03; bool in = X > q.x0 + e && X < q.x1 - e && Y > q.y0 + e && Y < q.y1 - e, out = X < q.x0 - e || X > q.x1 + e || Y < q.y0 - e || Y > q.y1 + e;
            if(!in && !out) { unsure = true; break; }
            if(in) { want = q.id; break; }     // nearest first
        }
        if(unsure) continue;
        if(fabs(F.at(x, y, R_) - want) > 1e-4 || fabs(F.at(x, y, A_) - (want ? 1 : 0)) > 1e-4)
            pbt::fail(fmt("pixel %d,%d shows rectangle %g (alpha %g) instead of %d", x, y, F.at(x, y, R_), F.at(x, y, A_), want));
    }
}
int main(int argc, char** argv)
{
    std::map<string,string> m{{"flat", "surface flat() { Oi = Os; Ci = Cs*Os; }"}}; Shaders sh(m);
    return pbt::mainLoop(argc, argv, "partition: the screen is cut into at least two windows; mapping: every case; distinct by scene and cuts");
}
