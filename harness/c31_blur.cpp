// C31: motion blur, depth of field and level of detail average the picture over shutter, lens and detail.
#include "rd_scene.h"
using namespace rd;

/// A rectangle parallel to the image: corners and depth at each key time, in camera space.
struct Key { double t, x0, x1, y0, y1, z; };
struct Obj { vector<Key> k; double col[3], op; double lo = 0, hi = 1; };
struct View { int w, h; bool persp; double fov, sx, sy; bool dof = false; double mult = 0, fd = 1; };
struct Smp { double x, y, t, lod, lx, ly; };
struct Val { double c[4] = {0, 0, 0, 0}; bool unsure = false; };

static Key at(const Obj& o, double t)
{
    if(t <= o.k.front().t) return o.k.front();
    if(t >= o.k.back().t) return o.k.back();
    size_t i = 0; while(t >= o.k[i+1].t) ++i;
    const Key &a = o.k[i], &b = o.k[i+1]; double f = (t - a.t)/(b.t - a.t);
    auto m = [&](double p, double q) { return p + (q - p)*f; };
    return Key{t, m(a.x0, b.x0), m(a.x1, b.x1), m(a.y0, b.y0), m(a.y1, b.y1), m(a.z, b.z)};
}
struct Off { double t, x, y; };
/// adds an offset which moves linearly between its own keys
static void addMotion(Obj& o, const vector<Off>& f)
{
    vector<double> ts; for(auto& k : o.k) ts.push_back(k.t); if(o.k.size() == 1) ts.clear();
    for(auto& q : f) ts.push_back(q.t);
    std::sort(ts.begin(), ts.end()); ts.erase(std::unique(ts.begin(), ts.end()), ts.end());
    vector<Key> r;
    for(double t : ts)
    {
        Key k = at(o, t); k.t = t; double x = f.back().x, y = f.back().y; if(t <= f.front().t) { x = f.front().x; y = f.front().y; }
        else for(size_t i = 0; i + 1 < f.size(); ++i) if(t >= f[i].t && t < f[i+1].t) { double u = (t - f[i].t)/(f[i+1].t - f[i].t); x = f[i].x + (f[i+1].x - f[i].x)*u; y = f[i].y + (f[i+1].y - f[i].y)*u; }
        k.x0 += x; k.x1 += x; k.y0 += y; k.y1 += y; r.push_back(k);
    }
    o.k = r;
}
static vector<Off> offsets(Src& s, double open, double close, double ex, double ey)
{
    vector<Off> f; int n = s.range(2, 3); double L = close > open ? close - open : 1, a = open + real(s, -0.5, 0.4)*L, b = a + real(s, 0.3, 1.5)*L;
    for(int i = 0; i < n; ++i) f.push_back({(float)(a + (b - a)*i/(n - 1)), (float)real(s, -ex, ex), (float)real(s, -ey, ey)});
    return f;
}
static string block(const vector<Off>& f)
{
    vector<double> ts; string b; for(auto& q : f) { ts.push_back(q.t); b += fmt("Translate %s %s 0\n", num(q.x).c_str(), num(q.y).c_str()); }
    return "MotionBegin " + nums(ts) + "\n" + b + "MotionEnd\n";
}
/// what one sample sees
static Val see(const View& v, const vector<Obj>& os, const Smp& s, double e)
{
    Val r; vector<std::pair<double, const Obj*>> hit;
    for(auto& o : os)
    {
        Key k = at(o, s.t); double m = v.persp ? 1/k.z : 1, dx = 0, dy = 0;
        if(v.dof) { double c = v.mult*fabs(1/k.z - 1/v.fd); dx = -c*v.sx*s.lx; dy = -c*v.sy*s.ly; }
        double X0 = v.w/2.0 + k.x0*m*v.sx + dx, X1 = v.w/2.0 + k.x1*m*v.sx + dx, Y0 = v.h/2.0 - k.y1*m*v.sy + dy, Y1 = v.h/2.0 - k.y0*m*v.sy + dy;
        bool in = s.x > X0 + e && s.x < X1 - e && s.y > Y0 + e && s.y < Y1 - e, out = s.x < X0 - e || s.x > X1 + e || s.y < Y0 - e || s.y > Y1 + e;
        bool lin = s.lod > o.lo + 1e-3 && s.lod < o.hi - 1e-3, lout = s.lod < o.lo - 1e-3 || s.lod > o.hi + 1e-3;
        if(o.lo <= 0 && o.hi >= 1) lin = true;
        if(out || lout) continue;
        if(!in || !lin) { r.unsure = true; return r; }
        hit.push_back({k.z, &o});
    }
    std::sort(hit.begin(), hit.end(), [](auto& a, auto& b) { return a.first < b.first; });
    double T = 1;
    for(size_t i = 0; i < hit.size(); ++i)
    {
        if(i && hit[i].first - hit[i-1].first < 2e-3) { r.unsure = true; return r; }
        const Obj& o = *hit[i].second; for(int c = 0; c < 3; ++c) r.c[c] += T*o.col[c]*o.op; r.c[3] += T*o.op; T *= 1 - o.op;
        if(o.op == 1) break;
    }
    return r;
}
static string poly(const string& kind, const Key& k)
{
    vector<double> a{k.x0, k.y1, k.z, k.x1, k.y1, k.z, k.x1, k.y0, k.z, k.x0, k.y0, k.z}, b{k.x0, k.y1, k.z, k.x1, k.y1, k.z, k.x0, k.y0, k.z, k.x1, k.y0, k.z};
    if(kind == "patch") return "Patch \"bilinear\" \"P\" " + nums(b) + "\n";
    if(kind == "mesh") return "PointsPolygons [4] [0 1 2 3] \"P\" " + nums(a) + "\n";
    return "Polygon \"P\" " + nums(a) + "\n";
}
static string trans(const char* what, double x, double y, double z) { return fmt("%s %s %s %s\n", what, num(x).c_str(), num(y).c_str(), num(z).c_str()); }

struct Scene { View v; vector<Obj> os; string head, world; int nx, ny; double open, close; bool moving = false, partial = false; };
static Scene gen(Src& s, int mode)   // 0 motion, 1 depth of field (some motion), 2 detail (some motion)
{
    Scene c; View& v = c.v; v.w = s.range(4, 32); v.h = s.range(4, 24); v.persp = mode == 1 || s.chance(30); v.fov = s.pick(vector<double>{40, 60, 90});
    double half = v.persp ? tan(v.fov*M_PI/360) : 1;    // the shorter side of the image spans -half..half at depth 1
    double px = std::min(v.w, v.h)/2.0/half; v.sx = v.sy = px;
    double ex = v.w/2.0/px, ey = v.h/2.0/px;
    c.nx = s.range(1, 4); c.ny = s.range(1, 4);
    bool motion = mode == 0 || s.chance(40);
    c.open = s.coin() ? 0 : (float)real(s, -1, 1); c.close = c.open + (s.chance(15) ? 0 : s.coin() ? 1 : (float)real(s, 0.2, 2)); c.close = (float)c.close;
    if(c.close == c.open) s.label("shut");
    c.head = fmt("Format %d %d 1\n", v.w, v.h) + (v.persp ? "Projection \"perspective\" \"fov\" [" + num(v.fov) + "]\n" : string("Projection \"orthographic\"\n"))
        + fmt("PixelSamples %d %d\nPixelFilter \"box\" 1 1\nShutter %s %s\nClipping 0.1 100\n", c.nx, c.ny, num(c.open).c_str(), num(c.close).c_str());
    if(s.coin()) c.head += fmt("Option \"limits\" \"integer[2] bucketsize\" [%d %d]\n", s.range(2, 20), s.range(2, 20));
    if(mode == 1)
    {
        double fs = (float)real(s, 0.5, 8), fl = (float)real(s, 0.05, 1.2), fd = (float)real(s, 1, 6), D = fl/fs;
        if(s.chance(15)) { s.label("pinhole"); }     // no DepthOfField at all
        else { v.dof = true; v.fd = fd; v.mult = 0.5*D*fd/(fd + D); c.head += fmt("DepthOfField %s %s %s\n", num(fs).c_str(), num(fl).c_str(), num(fd).c_str()); }
    }
    double rel = 1; if(mode == 2 && s.coin()) { rel = (float)real(s, 0.3, 2); c.head += "RelativeDetail " + num(rel) + "\n"; }
    int n = s.range(1, 4);
    for(int i = 0; i < n; ++i)
    {
        Obj o; for(double& q : o.col) q = (float)real(s, 0, 1, 20); o.op = s.chance(70) ? 1 : (float)real(s, 0.1, 0.9);
        double z = 1 + 1.2*i + real(s, 0, 0.9); if(v.dof && s.chance(20)) { z = v.fd; for(auto& q : c.os) if(fabs(q.k[0].z - z) < 0.05) z += 0.11; s.label("in focus"); }
        double m = v.persp ? z : 1; string kind = s.pick(vector<string>{"polygon", "patch", "mesh"});
        auto rect = [&]() { Key k; double a = real(s, -1.2*ex, 1.2*ex), b = real(s, -1.2*ey, 1.2*ey), w = real(s, 0.1, 1.2)*ex, h = real(s, 0.1, 1.2)*ey; if(v.dof && s.chance(30)) { double g = 1 + real(s, 0.02, 0.25); (s.coin() ? a : b) = 0; if(a == 0) b = (s.coin() ? 1 : -1)*(g*ey + h); else a = (s.coin() ? 1 : -1)*(g*ex + w); s.label("just outside the image"); } k.x0 = (float)(m*(a - w)); k.x1 = (float)(m*(a + w)); k.y0 = (float)(m*(b - h)); k.y1 = (float)(m*(b + h)); k.z = (float)z; k.t = 0; return k; };
        Key base = rect(); string text = fmt("AttributeBegin\nColor %s\nOpacity [%s %s %s]\n", nums(vector<double>(o.col, o.col + 3)).c_str(), num(o.op).c_str(), num(o.op).c_str(), num(o.op).c_str());
        if(s.chance(30)) text += "ShadingRate " + num(s.pick(vector<double>{0.3, 4, 25})) + "\n";
        bool mv = motion && s.chance(75); string prim, sharedPrim; Obj shared;
        if(!mv) { o.k.push_back(base); prim = poly(kind, base); }
        else
        {
            int nk = s.range(2, 4); vector<double> ts; double L = c.close - c.open; if(L == 0) L = 1;
            int span = s.range(0, 3); double a = c.open, b = c.open + L;
            if(span == 1) { a -= real(s, 0.1, 1)*L; b += real(s, 0.1, 1)*L; s.label("keys beyond the shutter"); }
            if(span == 2) { a += real(s, 0.05, 0.4)*L; b -= real(s, 0.05, 0.4)*L; s.label("keys inside the shutter"); }
            if(span == 3) { double d = real(s, -0.8, 0.8)*L; a += d; b += d; s.label("keys shifted"); }
            for(int j = 0; j < nk; ++j) ts.push_back((float)(a + (b - a)*j/(nk - 1)));
            if(nk > 2 && s.coin()) ts[1] = (float)(ts[0] + (ts[1] - ts[0])*real(s, 0.2, 1.5));
            string mb = "MotionBegin " + nums(ts) + "\n", body; int how = s.range(0, 3);
            bool zmove = !v.persp && !v.dof && s.chance(30);
            if(how == 0)
            {
                s.label("deformation");
                for(double t : ts) { Key k = s.coin() ? rect() : base; if(zmove) k.z = (float)real(s, 1, 6); k.t = t; o.k.push_back(k); body += poly(kind, k); }
                prim = mb + body + "MotionEnd\n";
            }
            else if(how == 1 || how == 3)
            {
                s.label("translation");
                double ox = 0, oy = 0; if(how == 3) { ox = (float)real(s, -1, 1); oy = (float)real(s, -1, 1); s.label("nested transform"); text += trans("Translate", ox, oy, 0); }
                for(double t : ts)
                {
                    double dx = (float)real(s, -1.2*m*ex, 1.2*m*ex), dy = (float)real(s, -1.2*m*ey, 1.2*m*ey), dz = zmove ? (float)real(s, -0.5, 3) : 0;
                    body += trans("Translate", dx, dy, dz); o.k.push_back(Key{t, base.x0 + dx + ox, base.x1 + dx + ox, base.y0 + dy + oy, base.y1 + dy + oy, base.z + dz});
                }
                prim = mb + body + "MotionEnd\n" + poly(kind, base);
            }
            else
            {
                s.label("scaling");
                for(double t : ts)
                {
                    double fx = (float)real(s, 0.2, 1.5), fy = (float)real(s, 0.2, 1.5); body += trans("Scale", fx, fy, 1);
                    o.k.push_back(Key{t, base.x0*fx, base.x1*fx, base.y0*fy, base.y1*fy, base.z});
                }
                prim = mb + body + "MotionEnd\n" + poly(kind, base);
            }
            c.moving = true;
        }
        if(mode == 2 && !mv && s.chance(80))
        {
            // an area on the image for the detail bound, and a range around it
            double bw = (float)real(s, 0.1, 1.5), bh = (float)real(s, 0.1, 1.5), bx = (float)real(s, -2, 1), by = (float)real(s, -2, 1);
            double bz = base.z, area = ((bx + bw) - bx)*((by + bh) - by)*px*px/(v.persp ? bz*bz : 1)*rel;
            double r[4]; double q = area*real(s, 0.2, 1.6); r[0] = q; r[1] = q + (s.chance(25) ? 0 : area*real(s, 0.05, 1)); r[2] = r[1] + (s.coin() ? 0 : area*real(s, 0, 0.7)); r[3] = r[2] + (s.chance(25) ? 0 : area*real(s, 0.05, 1));
            for(double& x : r) x = (float)x;
            if(r[0] == r[1] && fabs(area - r[0]) < 1e-3*area) r[0] = r[1] = 0; if(r[2] == r[3] && fabs(area - r[2]) < 1e-3*area) r[2] = r[3] = (float)(2*area + r[1]);
            text += "Detail " + nums(vector<double>{bx, bx + bw, by, by + bh, bz, bz}) + "\nDetailRange " + nums(vector<double>(r, r + 4)) + "\n";
            auto cl = [](double x) { return std::max(0.0, std::min(1.0, x)); };
            o.lo = r[0] == r[1] ? (area < r[1] ? 1 : 0) : cl((r[1] - area)/(r[1] - r[0]));
            o.hi = r[2] == r[3] ? (area < r[2] ? 1 : 0) : cl((r[3] - area)/(r[3] - r[2]));
            if(getenv("C31_SHARED") && s.chance(35))   // known finding: detail limits are kept in attributes which primitives share
            {
                // a second primitive under the same attributes, at another size
                shared = o; double fx = (float)real(s, 0.3, 1.5), fy = (float)real(s, 0.3, 1.5), a2 = area*fx*fy; Key k = rect(); k.z = (float)(z + 0.3); if(v.persp) { k.z = base.z; if(!(k.x1*fx < base.x0 || k.x0*fx > base.x1)) { double d = base.x1 - k.x0*fx + 0.1; k.x0 += d/fx; k.x1 += d/fx; } k.x0 = (float)k.x0; k.x1 = (float)k.x1; }
                bool bad = false; for(int q = 0; q < 4; ++q) if(fabs(a2 - r[q]) < 1e-3*a2) bad = true;
                if(!bad)
                {
                    shared.lo = r[0] == r[1] ? (a2 < r[1] ? 1 : 0) : cl((r[1] - a2)/(r[1] - r[0])); shared.hi = r[2] == r[3] ? (a2 < r[2] ? 1 : 0) : cl((r[3] - a2)/(r[3] - r[2]));
                    shared.k = {Key{0, k.x0*fx, k.x1*fx, k.y0*fy, k.y1*fy, k.z}};
                    sharedPrim = "TransformBegin\n" + trans("Scale", fx, fy, 1) + poly(kind, k) + "TransformEnd\n"; if(shared.lo < shared.hi && (shared.lo > 0 || shared.hi < 1)) c.partial = true;
                }
            }
            if(o.lo >= o.hi) s.label("detail: hidden"); else if(o.lo > 0 || o.hi < 1) { s.label("detail: in transition"); c.partial = true; } else s.label("detail: full");
        }
        if(mv && s.chance(20)) { vector<Off> f; for(auto& k : o.k) f.push_back({k.t, (float)real(s, -m*ex, m*ex), (float)real(s, -m*ey, m*ey)}); addMotion(o, f); text += block(f); s.label("motion within motion"); }
        c.world += text + prim;
        if(sharedPrim.size()) { c.world += sharedPrim; if(shared.lo < shared.hi) c.os.push_back(shared); s.label("one detail range, two sizes"); }
        c.world += "AttributeEnd\n"; if(o.lo < o.hi) c.os.push_back(o);
    }
    if(v.dof) c.partial = true;
    if(!c.moving && s.chance(15)) { vector<Off> f = offsets(s, c.open, c.close, ex, ey); for(auto& o : c.os) addMotion(o, f); c.head += block(f); c.moving = true; s.label("moving camera"); }
    c.head += "Display \"o.dsp\" \"dump\" \"rgba\"\nQuantize \"rgba\" 0 0 0 0\n";
    return c;
}
static Image go(Scene& c, bool jitter)
{
    Image im = render(shaderOption() + c.head + (jitter ? "" : "Hider \"hidden\" \"integer jitter\" [0]\n") + "WorldBegin\nSurface \"flat\"\n" + c.world + "WorldEnd\n");
    complete(im); if(im.w != c.v.w || im.h != c.v.h || im.nc != 4) pbt::fail("wrong image size");
    int ch[4] = {im.chan("r"), im.chan("g"), im.chan("b"), im.chan("a")}; vector<double> d = im.data; for(size_t i = 0; i < d.size()/4; ++i) for(int k = 0; k < 4; ++k) im.data[4*i + k] = d[4*i + ch[k]];   // channels in the order rgba
    return im;
}
static void circle(double& x, double& y) { double r = hypot(x, y); if(r > 0) { double a = std::max(fabs(x), fabs(y))/r; x *= a; y *= a; } }

/// With jitter off the samples are regular in position, time, lens and detail: each pixel is known.
static void exact(Src& src, int mode)
{
    Scene c = gen(src, mode); src.note(c.head + c.world); if(c.moving || c.partial) src.nontrivial(c.head + c.world);
    Image im = go(c, false); int n = c.nx*c.ny;
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x)
    {
        double sum[4] = {0, 0, 0, 0}; int unsure = 0;
        for(int j = 0; j < c.ny; ++j) for(int i = 0; i < c.nx; ++i)
        {
            int q = j*c.nx + i; Smp s; double fx = (i + 0.5)/c.nx, fy = (j + 0.5)/c.ny, f = (q + 0.5)/n;
            s.x = x + fx; s.y = y + fy; s.t = c.open + (c.close - c.open)*f; s.lod = f; s.lx = 2*fx - 1; s.ly = 2*fy - 1; circle(s.lx, s.ly);
            Val v = see(c.v, c.os, s, 0.01); if(v.unsure) ++unsure; else for(int k = 0; k < 4; ++k) sum[k] += v.c[k];
        }
        for(int k = 0; k < 4; ++k)
        {
            double got = im.at(x, y, k)*n;
            if(!(got >= sum[k] - 1e-4*n && got <= sum[k] + unsure + 1e-4*n)) pbt::fail(fmt("pixel %d,%d channel %d sums to %.6g over %d samples instead of %.6g (%d samples undecided)", x, y, k, got, n, sum[k], unsure));
        }
    }
}
PBT_SUITE(motion, 900, 9000) { exact(src, 0); }
PBT_SUITE(lens, 700, 8000) { exact(src, 1); }
PBT_SUITE(detail, 500, 6000) { exact(src, 2); }
/// With jitter, pixels which every sample must see alike are exact, and the whole image has the right mean.
PBT_SUITE(jittered, 300, 4000)
{
    int mode = src.range(0, 2); Scene c = gen(src, mode); src.note(c.head + c.world); if(c.moving || c.partial) src.nontrivial(c.head + c.world);
    Image im = go(c, true); int n = c.nx*c.ny; double tot[4] = {0, 0, 0, 0}, want[4] = {0, 0, 0, 0}, var = 0; uint32_t rs = 12345; auto rnd = [&]() { rs = rs*1664525u + 1013904223u; return (rs >> 8)/16777216.0; };
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x)
    {
        const int N = 64; double m[4] = {0, 0, 0, 0}, sq = 0; 
        for(int q = 0; q < N; ++q)
        {
            Smp s; s.x = x + (q%8 + rnd())/8; s.y = y + (q/8 + rnd())/8; s.t = c.open + (c.close - c.open)*rnd(); s.lod = rnd(); s.lx = 2*rnd() - 1; s.ly = 2*rnd() - 1; circle(s.lx, s.ly);
            Val v = see(c.v, c.os, s, 0); for(int k = 0; k < 4; ++k) m[k] += v.c[k]/N; sq += v.c[3]*v.c[3]/N;
        }
        for(int k = 0; k < 4; ++k) { want[k] += m[k]; tot[k] += im.at(x, y, k); if(!(im.at(x, y, k) >= -1e-5 && im.at(x, y, k) <= 1 + 1e-4)) pbt::fail(fmt("pixel %d,%d channel %d is %g", x, y, k, im.at(x, y, k))); }
        var += std::max(0.25*(m[3] > 0 && m[3] < 1), 0.0)*(1.0/n + 1.0/N);
    }
    double P = im.w*im.h;
    for(int k = 0; k < 4; ++k) if(fabs(tot[k] - want[k]) > 6*sqrt(var + 1) + 0.02*P) pbt::fail(fmt("channel %d: the mean of the image is %.5g instead of %.5g", k, tot[k]/P, want[k]/P));
}
int main(int argc, char** argv)
{
    std::map<string,string> m{{"flat", "surface flat() { Oi = Os; Ci = Cs*Os; }"}}; Shaders sh(m);
    return pbt::mainLoop(argc, argv, "something moves, is seen through a lens or is in a detail transition; distinct by the scene text");
}
