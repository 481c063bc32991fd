// C19: hidden surfaces, opacity, matte, sides, clipping, depth modes and CSG against a ray-cast reference.
#include "rd_ref.h"
using namespace rd;

static const double INF = 1e30;
struct Surf {
    vector<V> cam; vector<V> hole; V n; double O[3], C[3]; bool matte; int sides; bool flip; string rib;
};
static vector<V> ring(Src& s, double r) { int n = s.range(3, 6); vector<V> v; double a0 = real(s, 0, 6.28), dir = s.coin() ? 1 : -1; for(int i = 0; i < n; ++i) { double a = a0 + dir*6.2831853*i/n; v.push_back({r*cos(a), r*sin(a), 0}); } return v; }
static string flat(const vector<V>& v) { vector<double> d; for(auto& p : v) { d.push_back(p.x); d.push_back(p.y); d.push_back(p.z); } return nums(d); }
static void roundAll(vector<V>& v) { for(auto& p : v) { p.x = atof(num(p.x).c_str()); p.y = atof(num(p.y).c_str()); p.z = atof(num(p.z).c_str()); } }

/// 1 inside, 0 outside, -1 too close to an edge to tell; convex polygon in raster space
static int insideConvex(const vector<V>& q, double X, double Y, double margin)
{
    bool pos = true, neg = true; double area = 0;
    for(size_t i = 0; i < q.size(); ++i) { V a = q[i], b = q[(i+1)%q.size()]; area += a.x*b.y - b.x*a.y; }
    double sg = area > 0 ? 1 : -1; bool in = true, close = false;
    (void)pos; (void)neg;
    for(size_t i = 0; i < q.size(); ++i)
    {
        V a = q[i], b = q[(i+1)%q.size()]; double l = hypot(b.x - a.x, b.y - a.y); if(l < 1e-9) continue;
        double e = sg*((b.x - a.x)*(Y - a.y) - (b.y - a.y)*(X - a.x))/l;
        if(e < -margin) return 0;
        if(e < margin) close = true;
        if(e < 0) in = false;
    }
    if(close) return -1;
    return in;
}
PBT_SUITE(layers, 1300, 20000)
{
    Cam cam = genCam(src); View view(cam);
    vector<Surf> S; int n = src.range(1, 6); string world;
    for(int i = 0; i < n; ++i)
    {
        Surf f; string t = "AttributeBegin\n"; bool flip = false; // inside?
        for(int c = 0; c < 3; ++c) { f.C[c] = atof(num(real(src, 0, 1)).c_str()); f.O[c] = 1; }
        t += fmt("Color [%s %s %s]\n", num(f.C[0]).c_str(), num(f.C[1]).c_str(), num(f.C[2]).c_str());
        if(src.chance(50))
        {
            src.label("opacity"); for(int c = 0; c < 3; ++c) f.O[c] = src.chance(15) ? src.range(0, 1) : atof(num(real(src, 0, 1)).c_str());
            t += fmt("Opacity [%s %s %s]\n", num(f.O[0]).c_str(), num(f.O[1]).c_str(), num(f.O[2]).c_str());
        }
        f.matte = src.chance(15); if(f.matte) { t += "Matte 1\n"; src.label("matte"); }
        f.sides = src.chance(40) ? 1 : 2; t += fmt("Sides %d\n", f.sides);
        M4 m = mScale({(src.chance(25) ? -1 : 1)*real(src, 0.3, 1.3), real(src, 0.3, 1.3), real(src, 0.3, 1.3)});
        if(src.coin()) m = m*mRotate(real(src, -180, 180), {real(src, -1, 1), real(src, -1, 1), real(src, -1, 1) + 1.1});
        if(src.chance(30)) { M4 sh; sh.m[1][0] = real(src, -0.6, 0.6); sh.m[0][2] = real(src, -0.5, 0.5); m = m*sh; }
        double z = real(src, 2, 6), q = cam.persp ? z*view.k : 1;
        m = rounded(m*mTranslate({real(src, -0.8, 0.8)*q, real(src, -0.8, 0.8)*q, z}));
        bool rh = m.det() < 0;
        auto orient = [&](bool hand) {
            if(!src.chance(40)) return;
            string k = src.pick(vector<string>{"outside", "inside", "lh", "rh", "R", "R"});
            if(k == "R") { t += "ReverseOrientation\n"; flip = !flip; return; }
            t += "Orientation \"" + k + "\"\n"; src.label("orientation " + k);
            if(k == "outside") flip = false; if(k == "inside") flip = true;
            if(k == "lh") flip = hand; if(k == "rh") flip = !hand;
        };
        orient(false);
        t += "ConcatTransform " + m.text() + "\n";
        orient(rh); orient(rh);
        vector<V> P = ring(src, 1); roundAll(P); string kind = src.pick(vector<string>{"Polygon", "PointsPolygons", "GeneralPolygon", "Hole", "PointsGeneralPolygons"});
        V n0 = cross(P[1] - P[0], P[2] - P[0]);
        vector<V> H;
        if(kind == "Polygon") t += "Polygon \"P\" " + flat(P) + "\n";
        else if(kind == "PointsPolygons" || kind == "PointsGeneralPolygons")
        {
            vector<int> id; for(size_t j = 0; j < P.size(); ++j) id.push_back(j);
            t += kind + (kind == "PointsPolygons" ? "" : " [1]") + fmt(" [%d] ", (int)P.size()) + ints(id) + " \"P\" " + flat(P) + "\n";
        }
        else if(kind == "GeneralPolygon") t += fmt("GeneralPolygon [%d] \"P\" ", (int)P.size()) + flat(P) + "\n";
        else
        {
            H = ring(src, real(src, 0.15, 0.45)); roundAll(H); vector<V> all = P; all.insert(all.end(), H.begin(), H.end());
            t += fmt("GeneralPolygon [%d %d] \"P\" ", (int)P.size(), (int)H.size()) + flat(all) + "\n";
        }
        src.label(kind); if(rh) src.label("mirrored"); if(f.sides == 1) src.label("one-sided");
        for(auto& p : P) f.cam.push_back(m.point(p)); for(auto& p : H) f.hole.push_back(m.point(p));
        f.n = m.normal(n0); if(flip) f.n = -1*f.n;
        world += t + "AttributeEnd\n"; S.push_back(f);
    }
    for(auto& f : S) for(auto& p : f.cam) if(p.z < 0.4) throw pbt::Discard();
    double nearz = 0, farz = INF; string clip;
    if(src.chance(35)) { nearz = real(src, 0.2, 3.5); farz = src.coin() ? nearz + real(src, 0.5, 4) : 1e3; clip = fmt("Clipping %s %s\n", num(nearz).c_str(), num(farz).c_str()); src.label("clipping"); }
    string dmode = "min"; double thr[3] = {1, 1, 1}; string zt, hid = "Hider \"hidden\" \"integer jitter\" [0]";
    if(src.chance(60)) { dmode = src.pick(vector<string>{"min", "max", "average", "midpoint"}); hid += " \"string depthfilter\" [\"" + dmode + "\"]"; src.label("depth " + dmode); }
    if(src.chance(30)) { for(int c = 0; c < 3; ++c) thr[c] = real(src, 0.05, 1); zt = fmt("Option \"limits\" \"color zthreshold\" [%s %s %s]\n", num(thr[0]).c_str(), num(thr[1]).c_str(), num(thr[2]).c_str()); src.label("zthreshold"); }
    string rib = shaderOption() + "Display \"o.dsp\" \"dump\" \"rgbaz\"\nQuantize \"rgba\" 0 0 0 0\nQuantize \"z\" 0 0 0 0\n" + cam.text() + clip + zt
        + "PixelSamples 1 1\nPixelFilter \"box\" 1 1\n" + hid + "\nWorldBegin\nSurface \"flat\"\n" + world + "WorldEnd\n";
    src.note(rib);
    Image F = render(rib); complete(F); if(F.w != cam.w || F.h != cam.h) pbt::fail("image size");
    int ch[5] = {F.chan("r"), F.chan("g"), F.chan("b"), F.chan("a"), F.chan("z")};
    int judged = 0, hits = 0;
    for(int y = 0; y < F.h; ++y) for(int x = 0; x < F.w; ++x)
    {
        double X = x + 0.5, Y = y + 0.5; Ray r = view.ray(X, Y); bool unsure = false;
        struct Hit { double z, tol; const Surf* s; }; vector<Hit> hs;
        for(auto& f : S)
        {
            vector<V> q, hq; for(auto& p : f.cam) q.push_back(view.raster(p)); for(auto& p : f.hole) hq.push_back(view.raster(p));
            int in = insideConvex(q, X, Y, 0.02); if(in == 0) continue; if(in < 0) { unsure = true; break; }
            if(!hq.empty()) { int hi = insideConvex(hq, X, Y, 0.02); if(hi > 0) continue; if(hi < 0) { unsure = true; break; } }
            double dn = dot(f.n, r.d), face = dn/(len(f.n)*len(r.d));
            if(fabs(face) < 0.06) { unsure = true; break; }
            double z = dot(f.n, f.cam[0] - r.o)/dn;
            Ray r2 = view.ray(X + 1, Y), r3 = view.ray(X, Y + 1); double z2 = dot(f.n, f.cam[0] - r2.o)/dot(f.n, r2.d), z3 = dot(f.n, f.cam[0] - r3.o)/dot(f.n, r3.d);
            double slope = fabs(z2 - z) + fabs(z3 - z);
            if(f.sides == 1 && dn >= 0) continue;
            double tol = 1e-4*z + (cam.persp ? 0.5*slope*slope/z + 0.02*slope : 1e-3*slope);
            if(fabs(z - nearz) < tol + 0.6*slope + 1e-3 || fabs(z - farz) < tol + 0.6*slope + 1e-3) { unsure = true; break; }
            if(z < nearz || z > farz) continue;
            hs.push_back({z, tol, &f});
        }
        if(unsure) continue;
        std::sort(hs.begin(), hs.end(), [](const Hit& a, const Hit& b) { return a.z < b.z; });
        for(size_t i = 0; i + 1 < hs.size(); ++i) if(hs[i+1].z - hs[i].z < 2*(hs[i].tol + hs[i+1].tol)) unsure = true;
        if(unsure) continue;
        double C[3] = {0, 0, 0}, A[3] = {0, 0, 0}; bool matte = false; double tol = 1e-5;
        for(size_t i = hs.size(); i-- > 0; )
        {
            const Surf& f = *hs[i].s; if(f.matte) matte = true;
            for(int c = 0; c < 3; ++c)
                if(f.matte) { C[c] *= 1 - f.O[c]; A[c] *= 1 - f.O[c]; }
                else { C[c] = f.C[c]*f.O[c] + (1 - f.O[c])*C[c]; A[c] = f.O[c] + (1 - f.O[c])*A[c]; }
        }
        double want[4] = {C[0], C[1], C[2], (A[0] + A[1] + A[2])/3};
        ++judged; hits += hs.size();
        static const char* nm[] = {"red", "green", "blue", "alpha"};
        for(int c = 0; c < 4; ++c) if(!(fabs(F.at(x, y, ch[c]) - want[c]) <= tol))
            pbt::fail(fmt("pixel %d,%d: %s is %.7g, but the %d surfaces there give %.7g", x, y, nm[c], F.at(x, y, ch[c]), (int)hs.size(), want[c]));
        if(matte) continue;
        vector<Hit> op; bool edgeThr = false;
        for(auto& h : hs) { bool all = true; for(int c = 0; c < 3; ++c) { if(h.s->O[c] < thr[c]) all = false; if(fabs(h.s->O[c] - thr[c]) < 1e-6 && thr[c] != 1) edgeThr = true; } if(all) op.push_back(h); }
        if(edgeThr) continue;
        // wholly transparent surfaces are dropped before sampling
        op.erase(std::remove_if(op.begin(), op.end(), [](const Hit& h) { return h.s->O[0] == 0 && h.s->O[1] == 0 && h.s->O[2] == 0; }), op.end());
        double z = F.at(x, y, ch[4]), wz = INF, tz = 0;
        if(dmode == "min" && op.size()) { wz = op[0].z; tz = op[0].tol; }
        if(dmode == "max" && op.size()) { wz = op.back().z; tz = op.back().tol; }
        if(dmode == "average" && op.size()) { wz = 0; for(auto& h : op) { wz += h.z/op.size(); tz = std::max(tz, h.tol); } }
        if(dmode == "midpoint" && op.size() > 1) { wz = (op[0].z + op[1].z)/2; tz = op[0].tol + op[1].tol; }
        if(wz >= INF ? !(z > 1e29) : !(fabs(z - wz) <= tz + 1e-4))
            pbt::fail(fmt("pixel %d,%d: depth (%s) is %.7g instead of %.7g (tolerance %g, %d opaque of %d)", x, y, dmode.c_str(), z, wz, tz, (int)op.size(), (int)hs.size()));
    }
    if(hits) src.nontrivial(world);
    src.label(judged*2 > F.w*F.h ? "judged most pixels" : "judged few pixels");
}

// ---- CSG ----
struct Prim { int kind; M4 m, inv; double C[3]; };   // 0: unit ball; 1: box [-1,1]^3
struct Node { string op; vector<int> kids; int prim = -1; };
struct Csg { vector<Prim> prims; vector<Node> nodes; };
struct Ev { double t; int prim; };
static bool span(const Prim& p, Ray r, double& a, double& b)
{
    V o = p.inv.point(r.o), d = p.inv.vec(r.d);
    if(p.kind == 0)
    {
        double A = dot(d, d), B = dot(o, d), C = dot(o, o) - 1, D = B*B - A*C; if(D <= 0) return false;
        a = (-B - sqrt(D))/A; b = (-B + sqrt(D))/A; return true;
    }
    a = -INF; b = INF; double O[3] = {o.x, o.y, o.z}, E[3] = {d.x, d.y, d.z};
    for(int i = 0; i < 3; ++i)
    {
        if(fabs(E[i]) < 1e-12) { if(fabs(O[i]) >= 1) return false; continue; }
        double u = (-1 - O[i])/E[i], v = (1 - O[i])/E[i]; if(u > v) std::swap(u, v); a = std::max(a, u); b = std::min(b, v);
    }
    return a < b;
}
static bool in(const Csg& c, int node, const vector<char>& st)
{
    const Node& n = c.nodes[node]; if(n.prim >= 0) return st[n.prim];
    bool v = in(c, n.kids[0], st);
    for(size_t i = 1; i < n.kids.size(); ++i) { bool k = in(c, n.kids[i], st); if(n.op == "union") v = v || k; else if(n.op == "intersection") v = v && k; else v = v && !k; }
    return v;
}
static int genNode(Src& s, Csg& c, int depth, double zc, double q, int boxes)
{
    int id = c.nodes.size(); c.nodes.push_back(Node());
    if(depth == 0 || s.chance(25))
    {
        Prim p; p.kind = s.chance(boxes); M4 m = mScale({real(s, 0.3, 0.9)*q, real(s, 0.3, 0.9)*q, real(s, 0.3, 0.9)*q});
        m = m*mRotate(real(s, -180, 180), {real(s, -1, 1), real(s, -1, 1), real(s, 0.1, 1)})*mTranslate({real(s, -0.5, 0.5)*q, real(s, -0.5, 0.5)*q, zc + real(s, -0.5, 0.5)*q});
        p.m = rounded(m); p.inv = p.m.inverse(); for(int i = 0; i < 3; ++i) p.C[i] = real(s, 0.1, 1);
        c.nodes[id].prim = c.prims.size(); c.prims.push_back(p); return id;
    }
    string op = s.pick(vector<string>{"union", "intersection", "difference"}); int n = s.range(2, 3); vector<int> k;
    for(int i = 0; i < n; ++i) k.push_back(genNode(s, c, depth - 1, zc, q, boxes));
    c.nodes[id].op = op; c.nodes[id].kids = k; s.label("csg " + op); return id;
}
static string text(const Csg& c, int id)
{
    const Node& n = c.nodes[id]; string t;
    if(n.prim >= 0)
    {
        const Prim& p = c.prims[n.prim]; t = "SolidBegin \"primitive\"\nAttributeBegin\n" + fmt("Color [%s %s %s]\n", num(p.C[0]).c_str(), num(p.C[1]).c_str(), num(p.C[2]).c_str()) + "ConcatTransform " + p.m.text() + "\n";
        if(p.kind == 0) t += "Sphere 1 -1 1 360\n";
        else t += "PointsPolygons [4 4 4 4 4 4] [0 1 3 2  4 6 7 5  0 4 5 1  2 3 7 6  0 2 6 4  1 5 7 3] \"P\" [-1 -1 -1 1 -1 -1 -1 1 -1 1 1 -1 -1 -1 1 1 -1 1 -1 1 1 1 1 1]\n";
        return t + "AttributeEnd\nSolidEnd\n";
    }
    t = "SolidBegin \"" + n.op + "\"\n"; for(int k : n.kids) t += text(c, k); return t + "SolidEnd\n";
}
PBT_SUITE(solids, 400, 9000)
{
    Cam cam = genCam(src); cam.par = 1; cam.w = 2*cam.w + 16; cam.h = 2*cam.h + 16; View view(cam); int ns = src.range(1, 2);
    int boxes = src.coin() ? 100 : 35; vector<Csg> cs(ns); vector<int> roots; string world; double zc = 4, q = cam.persp ? 0.9*zc*view.k : 0.9;
    for(auto& c : cs) { if(ns > 1 && &c == &cs[1]) zc += 4*q; double qq = cam.persp ? std::min(0.9*zc*view.k, q*1.5) : q; roots.push_back(genNode(src, c, 2, zc, qq, boxes)); if(c.nodes[0].prim >= 0) { Node k = c.nodes[0]; c.nodes.push_back(k); c.nodes[0] = Node(); c.nodes[0].op = "union"; c.nodes[0].kids = {1}; } world += text(c, 0); }
    double back = 0; if(src.coin()) { back = zc + 6*q; double e = 40*std::max(q, back*view.k)*(view.r + view.t); world += fmt("Color [0.25 0.5 0.75]\nPolygon \"P\" %s\n", nums(vector<double>{-e, -e, back, e, -e, back, e, e, back, -e, e, back}).c_str()); src.label("background"); }
    string rib = shaderOption() + "Display \"o.dsp\" \"dump\" \"rgba\"\nQuantize \"rgba\" 0 0 0 0\n" + cam.text() + "PixelSamples 1 1\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\nWorldBegin\nSurface \"flat\"\n" + world + "WorldEnd\n";
    src.note(rib);
    for(auto& c : cs) for(auto& p : c.prims) { V ctr = p.m.point({0, 0, 0}); double rad = 1.8*std::max(len(p.m.vec({1, 0, 0})), std::max(len(p.m.vec({0, 1, 0})), len(p.m.vec({0, 0, 1})))); if(ctr.z - rad < 0.2) throw pbt::Discard(); }
    Image F = render(rib); complete(F); int ch[4] = {F.chan("r"), F.chan("g"), F.chan("b"), F.chan("a")}; int seen = 0, judged = 0, bad = 0; string first;
    for(int y = 0; y < F.h; ++y) for(int x = 0; x < F.w; ++x)
    {
        vector<vector<int>> ref; double want[4] = {0, 0, 0, 0}; bool unsure = false;
        static const double off[9][2] = {{0, 0}, {-1, -1}, {0, -1}, {1, -1}, {-1, 0}, {1, 0}, {-1, 1}, {0, 1}, {1, 1}};
        for(int k = 0; k < 9 && !unsure; ++k)
        {
            Ray r = view.ray(x + 0.5 + 0.8*off[k][0], y + 0.5 + 0.8*off[k][1]); vector<vector<int>> order; double best = back ? back : INF; double col[4] = {back ? 0.25 : 0, back ? 0.5 : 0, back ? 0.75 : 0, back ? 1.0 : 0};
            for(auto& c : cs)
            {
                vector<Ev> ev; for(size_t p = 0; p < c.prims.size(); ++p) { double a, b; if(span(c.prims[p], r, a, b)) { if(b - a < 0.05*q) unsure = true; ev.push_back({a, (int)p}); ev.push_back({b, (int)p}); } }
                std::sort(ev.begin(), ev.end(), [](const Ev& a, const Ev& b) { return a.t < b.t; });
                for(size_t i = 0; i + 1 < ev.size(); ++i) if(ev[i+1].t - ev[i].t < 0.02*q) unsure = true;
                vector<int> o; for(auto& e : ev) o.push_back(e.prim); order.push_back(o);
                vector<char> st(c.prims.size(), 0); bool was = false;
                for(auto& e : ev) { st[e.prim] = !st[e.prim]; bool now = in(c, 0, st); if(now != was) { if(e.t < best) { best = e.t; for(int i = 0; i < 3; ++i) col[i] = c.prims[e.prim].C[i]; col[3] = 1; } break; } }
            }
            if(k == 0) { ref = order; for(int i = 0; i < 4; ++i) want[i] = col[i]; } else if(order != ref) unsure = true;
        }
        if(unsure) continue;
        ++judged;
        if(want[3] && (!back || want[0] != 0.25)) ++seen;
        for(int c = 0; c < 4; ++c) if(!(fabs(F.at(x, y, ch[c]) - want[c]) <= 1e-5))
        { if(!bad++) first = fmt("pixel %d,%d channel %c is %.7g instead of %.7g", x, y, "rgba"[c], F.at(x, y, ch[c]), want[c]); break; }
    }
    bool curved = false; for(auto& c : cs) for(auto& p : c.prims) if(p.kind == 0) curved = true;
    // the grids of a curved surface may leave gaps narrower than a pixel between them, which single samples fall through
    if(bad > (curved ? std::max(4.0, 0.02*seen) : 0)) pbt::fail(fmt("%d of %d pixels are wrong; ", bad, judged) + first);
    src.label(curved ? "with spheres" : "polyhedra only");
    if(seen > 5) src.nontrivial(world);
}
int main(int argc, char** argv)
{
    std::map<string,string> m{{"flat", "surface flat() { Oi = Os; Ci = Cs*Os; }"}}; Shaders sh(m);
    return pbt::mainLoop(argc, argv, "at least one surface (layers) or solid (solids) is hit by a judged sample; distinct by world text");
}
