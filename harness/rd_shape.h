// Random primitives with their reference pictures and the rules of their primitive variables.
#pragma once
#include "rd_tess.h"
#include <array>
#include <memory>
namespace rd {
typedef std::array<double, 3> A3;
/// Values of the one variable which is followed to the picture.
struct Val {
    string cls = "none"; ///< constant, uniform, varying, vertex, facevarying, uv, none
    vector<A3> v;
};
struct Shape {
    string kind, rib;              ///< rib: everything up to where further parameters may follow
    string params;                 ///< the parameters which it cannot do without
    bool curved = true, rigid = false, affine = false;
    int nUniform = 1, nVarying = 0, nVertex = 0, nFacevarying = 0;
    vector<V> at;                  ///< positions of the vertices, for affine values
    vector<int> fvAt, fvFace;      ///< vertex and face of each face corner
    bool hasUv = false;            ///< (u, v) of the whole primitive are known
    double size = 1;               ///< about how far it reaches from the origin
    std::function<void(Ref&, const M4&, const Val&)> draw;
    Keep keep;
};
inline string flat3(const vector<V>& v) { vector<double> d; for(auto& p : v) { d.push_back(p.x); d.push_back(p.y); d.push_back(p.z); } return nums(d); }
inline V round3(V p) { return {r32(p.x), r32(p.y), r32(p.z)}; }
inline void put(Vtx& x, const A3& a) { for(int c = 0; c < 3; ++c) x.a[c] = a[c]; }
inline A3 bilin(const A3& a, const A3& b, const A3& c, const A3& d, double u, double v) { A3 r; for(int i = 0; i < 3; ++i) r[i] = (1-v)*((1-u)*a[i] + u*b[i]) + v*((1-u)*c[i] + u*d[i]); return r; }
inline void flatVal(Vtx& x, const Val& val, int face) { if(val.cls == "constant") put(x, val.v[0]); else if(val.cls == "uniform") put(x, val.v[face]); else if(val.cls == "none") put(x, {0, 0, 0}); }

typedef std::function<V(double, double)> Surf2;
inline Shape simple(const string& kind, const string& rib, Surf2 f)
{
    Shape s; s.kind = kind; s.rib = rib; s.nVarying = s.nVertex = s.nFacevarying = 4; s.hasUv = true;
    s.draw = [f](Ref& r, const M4& m, const Val& val) {
        r.surface([&](double u, double v) { Vtx x; x.p = m.point(f(u, v)); x.uv[0] = u; x.uv[1] = v; flatVal(x, val, 0);
            if(val.cls == "varying" || val.cls == "vertex" || val.cls == "facevarying") put(x, bilin(val.v[0], val.v[1], val.v[2], val.v[3], u, v));
            if(val.cls == "uv") put(x, {u, v, 0}); return x; }, Keep());
    };
    return s;
}
inline Shape genQuadric(Src& s)
{
    const double R = M_PI/180; string k = s.pick(vector<string>{"Sphere", "Cone", "Cylinder", "Hyperboloid", "Paraboloid", "Disk", "Torus"});
    double tm = s.coin() ? 360 : r32(real(s, 30, 355)); if(s.chance(15)) tm = -tm;
    auto g = [&](double a, double b) { return r32(real(s, a, b)); };
    if(k == "Sphere")
    {
        double r = g(0.4, 1), a = s.coin() ? -r : g(-r, 0.2*r), b = s.coin() ? r : g(0.3*r, r); if(a < -r) a = -r; if(b > r) b = r;
        double p0 = asin(std::max(-1.0, a/r)), p1 = asin(std::min(1.0, b/r));
        return simple(k, "Sphere " + num(r) + " " + num(a) + " " + num(b) + " " + num(tm), [=](double u, double v) { double t = u*tm*R, p = p0 + v*(p1 - p0); return V{r*cos(p)*cos(t), r*cos(p)*sin(t), r*sin(p)}; });
    }
    if(k == "Cone") { double h = g(-1.2, 1.2), r = g(0.3, 1); if(fabs(h) < 0.2) h = 0.5; return simple(k, "Cone " + num(h) + " " + num(r) + " " + num(tm), [=](double u, double v) { double t = u*tm*R; return V{r*(1-v)*cos(t), r*(1-v)*sin(t), v*h}; }); }
    if(k == "Cylinder") { double r = g(0.2, 1), a = g(-1, -0.1), b = g(0.1, 1); return simple(k, "Cylinder " + num(r) + " " + num(a) + " " + num(b) + " " + num(tm), [=](double u, double v) { double t = u*tm*R; return V{r*cos(t), r*sin(t), a + v*(b-a)}; }); }
    if(k == "Hyperboloid")
    {
        V p = {g(0.2, 0.9), g(-0.5, 0.5), g(-0.8, 0.8)}, q = {g(-0.9, 0.9), g(-0.9, 0.9), g(-0.8, 0.8)};
        return simple(k, "Hyperboloid " + num(p.x) + " " + num(p.y) + " " + num(p.z) + " " + num(q.x) + " " + num(q.y) + " " + num(q.z) + " " + num(tm),
            [=](double u, double v) { double t = u*tm*R; V w = p + v*(q - p); return V{w.x*cos(t) - w.y*sin(t), w.x*sin(t) + w.y*cos(t), w.z}; });
    }
    if(k == "Paraboloid") { double r = g(0.3, 1), a = s.coin() ? 0 : g(0, 0.4), b = g(0.5, 1.2); return simple(k, "Paraboloid " + num(r) + " " + num(a) + " " + num(b) + " " + num(tm), [=](double u, double v) { double t = u*tm*R, z = a + v*(b-a), q = r*sqrt(z/b); return V{q*cos(t), q*sin(t), z}; }); }
    if(k == "Disk") { double h = g(-0.4, 0.4), r = g(0.3, 1); Shape x = simple(k, "Disk " + num(h) + " " + num(r) + " " + num(tm), [=](double u, double v) { double t = u*tm*R; return V{r*(1-v)*cos(t), r*(1-v)*sin(t), h}; }); return x; }
    double a = g(0.4, 0.8), b = g(0.1, 0.35), p0 = s.coin() ? 0 : g(-180, 100), p1 = s.coin() ? p0 + 360 : p0 + g(60, 350);
    p1 = r32(p1);
    return simple(k, "Torus " + num(a) + " " + num(b) + " " + num(p0) + " " + num(p1) + " " + num(tm), [=](double u, double v) { double t = u*tm*R, p = (p0 + v*(p1-p0))*R, q = a + b*cos(p); return V{q*cos(t), q*sin(t), b*sin(p)}; });
}
/// Control points of a grid; wrap: the direction closes upon itself
inline vector<V> gridPoints(Src& s, int nu, int nv, bool wu, bool wv, double wob)
{
    vector<V> g;
    for(int j = 0; j < nv; ++j) for(int i = 0; i < nu; ++i)
    {
        double a = wu ? 2*M_PI*i/nu : -1 + 2.0*i/std::max(1, nu-1), b = wv ? 2*M_PI*j/nv : -1 + 2.0*j/std::max(1, nv-1); V p;
        if(wu && wv) p = {(0.65 + 0.3*cos(b))*cos(a), (0.65 + 0.3*cos(b))*sin(a), 0.3*sin(b)};
        else if(wu) p = {0.8*cos(a), 0.8*sin(a), b*0.8}; else if(wv) p = {a*0.8, 0.8*cos(b), 0.8*sin(b)}; else p = {a, b, 0};
        double w = (wu || wv) ? wob*0.3 : wob; p = p + V{real(s, -w, w)*0.4, real(s, -w, w)*0.4, real(s, -w, w)*1.5}; g.push_back(round3(p));
    }
    return g;
}
inline Shape genPatch(Src& s)
{
    Shape x; bool mesh = s.coin(), cubic = s.chance(65); x.kind = string(mesh ? "PatchMesh " : "Patch ") + (cubic ? "bicubic" : "bilinear");
    const Basis *bu = &bases()[0], *bv = &bases()[0];
    bool wu = false, wv = false; int nu, nv, pu, pv, su = 1, sv = 1, ord = cubic ? 4 : 2; bool power = false;
    if(cubic)
    {
        bu = &s.pick(bases()); bv = &s.pick(bases()); su = bu->step; sv = bv->step; power = string(bu->name) == "power" || string(bv->name) == "power" || string(bu->name) == "hermite" || string(bv->name) == "hermite";
        x.rib += fmt("Basis \"%s\" %d \"%s\" %d\n", bu->name, su, bv->name, sv); x.kind += string(" ") + bu->name + " " + bv->name;
    }
    if(!mesh) { nu = nv = ord; pu = pv = 1; }
    else
    {
        wu = s.chance(30); wv = s.chance(30); pu = s.range(1, 3); pv = s.range(1, 3);
        if(wu) { pu = s.range(su >= 3 ? 2 : 4, 5); nu = pu*su; } else nu = ord + (pu-1)*su;
        if(wv) { pv = s.range(sv >= 3 ? 2 : 4, 5); nv = pv*sv; } else nv = ord + (pv-1)*sv;
    }
    vector<V> G;
    if(power)
    {
        // the points are coefficients or tangents there: choose them small and keep the surface near
        for(int i = 0; i < nu*nv; ++i) G.push_back(round3({real(s, -0.5, 0.5), real(s, -0.5, 0.5), real(s, -0.5, 0.5)})); x.size = 1.6;
    }
    else G = gridPoints(s, nu, nv, wu, wv, 0.25);
    const char* P[] = {"nonperiodic", "periodic"};
    if(mesh) x.rib += fmt("PatchMesh \"%s\" %d \"%s\" %d \"%s\"", cubic ? "bicubic" : "bilinear", nu, P[wu], nv, P[wv]);
    else x.rib += fmt("Patch \"%s\"", cubic ? "bicubic" : "bilinear");
    x.params = " \"P\" " + flat3(G); x.nUniform = pu*pv; int vu = wu ? pu : pu + 1, vv = wv ? pv : pv + 1;
    x.nVarying = vu*vv; x.nVertex = nu*nv; x.nFacevarying = 0; x.hasUv = true; if(!mesh) x.nFacevarying = 4;
    x.draw = [=](Ref& r, const M4& m, const Val& val) {
        for(int pj = 0; pj < pv; ++pj) for(int pi = 0; pi < pu; ++pi) r.surface([&](double u, double v) {
            double a[4], b[4]; if(cubic) { weights(*bu, u, a); weights(*bv, v, b); } else { a[0] = 1-u; a[1] = u; b[0] = 1-v; b[1] = v; }
            Vtx y; V p{0, 0, 0}; A3 t{{0, 0, 0}}; flatVal(y, val, pj*pu + pi);
            for(int j = 0; j < ord; ++j) for(int i = 0; i < ord; ++i)
            {
                int c = ((pj*sv + j)%nv)*nu + (pi*su + i)%nu; p = p + (a[i]*b[j])*G[c];
                if(val.cls == "vertex") for(int q = 0; q < 3; ++q) t[q] += a[i]*b[j]*val.v[c][q];
            }
            if(val.cls == "vertex") put(y, t);
            if(val.cls == "varying" || val.cls == "facevarying") { int i1 = (pi+1)%vu, j1 = (pj+1)%vv; put(y, bilin(val.v[pj*vu + pi], val.v[pj*vu + i1], val.v[j1*vu + pi], val.v[j1*vu + i1], u, v)); }
            if(val.cls == "uv") put(y, {(pi + u)/pu, (pj + v)/pv, 0});
            y.p = m.point(p); y.uv[0] = u; y.uv[1] = v; return y; }, Keep());
    };
    return x;
}
struct Knots { vector<double> k; int order, n; double lo, hi; };
inline Knots genKnots(Src& s)
{
    Knots K; K.order = s.range(2, 4); K.n = K.order + s.range(0, 3); int inner = K.n - K.order;
    if(s.chance(60)) // clamped
    {
        double t = r32(real(s, -1, 2, 6)); for(int i = 0; i < K.order; ++i) K.k.push_back(t);
        int same = 0; for(int i = 0; i < inner; ++i) { if(s.chance(10) && i && same < K.order - 2) ++same; else { same = 0; t += s.range(1, 3)*0.5; } K.k.push_back(t); }
        t += s.range(1, 3)*0.5; for(int i = 0; i < K.order; ++i) K.k.push_back(t);
    }
    else { double t = s.range(-2, 1); for(int i = 0; i < K.n + K.order; ++i) { K.k.push_back(t); t += s.chance(70) ? 1 : s.range(1, 3)*0.5; } }
    K.lo = K.k[K.order - 1]; K.hi = K.k[K.n]; return K;
}
inline Shape genNu(Src& s, bool mayTrim)
{
    Shape x; x.kind = "NuPatch"; Knots a = genKnots(s), b = genKnots(s); vector<V> G = gridPoints(s, a.n, b.n, false, false, 0.25); vector<double> w(G.size(), 1);
    bool trim = mayTrim && s.chance(45), rational = s.coin(); if(rational) { x.kind += " rational"; for(auto& q : w) q = r32(trim ? real(s, 0.75, 1.4) : real(s, 0.6, 1.7)); }
    if(trim)
    {
        x.kind += " trimmed"; int loops = s.range(1, 2); auto poly = std::make_shared<vector<vector<std::pair<double,double>>>>();
        vector<int> nc, ord, n; vector<double> knot, mn, mx, U, Vv, W; double du = a.hi - a.lo, dv = b.hi - b.lo;
        for(int l = 0; l < loops; ++l)
        {
            double cu = a.lo + du*(l ? 0.5 : real(s, 0.45, 0.55)), cv = b.lo + dv*(l ? 0.5 : real(s, 0.45, 0.55)), rad = l ? real(s, 0.08, 0.15) : real(s, 0.25, 0.42), dir = s.coin() ? 1 : -1; nc.push_back(1);
            vector<std::pair<double,double>> line;
            if(s.coin())
            { // polygon
                int m = s.range(3, 5); ord.push_back(2); n.push_back(m+1); mn.push_back(0); mx.push_back(m); knot.push_back(0); for(int i = 0; i <= m; ++i) knot.push_back(i); knot.push_back(m);
                double a0 = real(s, 0, 6.28); double fu = 0, fv = 0; for(int i = 0; i <= m; ++i) { double t = a0 + dir*2*M_PI*i/m, u = r32(cu + du*rad*cos(t)), v = r32(cv + dv*rad*sin(t)); if(!i) { fu = u; fv = v; } if(i == m) { u = fu; v = fv; } U.push_back(u); Vv.push_back(v); W.push_back(1); line.push_back({u, v}); }
            }
            else
            { // circle as a rational quadratic of nine points
                ord.push_back(3); n.push_back(9); mn.push_back(0); mx.push_back(4); vector<double> kn{0, 0, 0, 1, 1, 2, 2, 3, 3, 4, 4, 4}; knot.insert(knot.end(), kn.begin(), kn.end());
                static const int cx[] = {1, 1, 0, -1, -1, -1, 0, 1, 1}, cy[] = {0, 1, 1, 1, 0, -1, -1, -1, 0}; vector<double> uu, vv, ww;
                for(int i = 0; i < 9; ++i) { double q = i%2 ? sqrt(0.5) : 1; uu.push_back(r32(q*(cu + du*rad*cx[i]))); vv.push_back(r32(q*(cv + dv*rad*dir*cy[i]))); ww.push_back(r32(q)); }
                U.insert(U.end(), uu.begin(), uu.end()); Vv.insert(Vv.end(), vv.begin(), vv.end()); W.insert(W.end(), ww.begin(), ww.end());
                for(int i = 0; i < 64; ++i) { auto N = spline(kn, 3, 9, 4.0*i/64, 4); double p = 0, q = 0, r = 0; for(int c = 0; c < 9; ++c) { p += N[c]*uu[c]; q += N[c]*vv[c]; r += N[c]*ww[c]; } line.push_back({p/r, q/r}); }
            }
            poly->push_back(line);
        }
        x.rib = "TrimCurve " + ints(nc) + " " + ints(ord) + " " + nums(knot) + " " + nums(mn) + " " + nums(mx) + " " + ints(n) + " " + nums(U) + " " + nums(Vv) + " " + nums(W) + "\n";
        bool outside = s.chance(30); if(outside) { x.rib += "Attribute \"trimcurve\" \"string sense\" [\"outside\"]\n"; x.kind += " outside"; }
        x.keep = [poly, outside](double u, double v) {
            bool in = false; for(auto& l : *poly) for(size_t i = 0, j = l.size() - 1; i < l.size(); j = i++)
                if((l[i].second > v) != (l[j].second > v) && u < l[i].first + (v - l[i].second)/(l[j].second - l[i].second)*(l[j].first - l[i].first)) in = !in;
            return in != outside; };
    }
    x.rib += fmt("NuPatch %d %d ", a.n, a.order) + nums(a.k) + " " + num(a.lo) + " " + num(a.hi) + fmt(" %d %d ", b.n, b.order) + nums(b.k) + " " + num(b.lo) + " " + num(b.hi);
    if(rational) { vector<double> d; for(size_t i = 0; i < G.size(); ++i) { double h[4] = {r32(G[i].x*w[i]), r32(G[i].y*w[i]), r32(G[i].z*w[i]), w[i]}; d.insert(d.end(), h, h+4); } x.params = " \"Pw\" " + nums(d); } else x.params = " \"P\" " + flat3(G);
    x.nUniform = 0; x.nVarying = 0; x.nVertex = G.size();
    Keep keep = x.keep;
    x.draw = [=](Ref& r, const M4& m, const Val& val) {
        // piece by piece between knots, so that corners of the surface are met exactly
        vector<double> ku, kv; for(double t : a.k) if(t >= a.lo && t <= a.hi && (ku.empty() || t > ku.back())) ku.push_back(t); for(double t : b.k) if(t >= b.lo && t <= b.hi && (kv.empty() || t > kv.back())) kv.push_back(t);
        for(size_t pj = 0; pj + 1 < kv.size(); ++pj) for(size_t pi = 0; pi + 1 < ku.size(); ++pi) r.surface([&](double u, double v) {
            double U = ku[pi] + std::min(1 - 1e-9, u)*(ku[pi+1] - ku[pi]), Q = kv[pj] + std::min(1 - 1e-9, v)*(kv[pj+1] - kv[pj]);
            auto nu = spline(a.k, a.order, a.n, U, a.hi), nv = spline(b.k, b.order, b.n, Q, b.hi); V p{0, 0, 0}; double W = 0; A3 t{{0, 0, 0}};
            Vtx y; flatVal(y, val, 0);
            for(int j = 0; j < b.n; ++j) for(int i = 0; i < a.n; ++i) { int c = j*a.n + i; double q = nu[i]*nv[j]; W += q*w[c]; p = p + (q*w[c])*G[c]; for(int e = 0; e < 3; ++e) if(val.cls == "vertex") t[e] += q*val.v[c][e]; }
            if(val.cls == "vertex") put(y, t);
            if(val.cls == "uv") put(y, {U, Q, 0});
            y.p = m.point((1/W)*p); y.uv[0] = U; y.uv[1] = Q; return y; }, keep);
    };
    return x;
}
/// A planar face with holes: loops of vertex numbers
struct Face { vector<vector<int>> loops; };
inline bool evenOdd(const vector<vector<std::pair<double,double>>>& ls, double X, double Y)
{
    bool in = false; for(auto& l : ls) for(size_t i = 0, j = l.size() - 1; i < l.size(); j = i++)
        if((l[i].second > Y) != (l[j].second > Y) && X < l[i].first + (Y - l[i].second)/(l[j].second - l[i].second)*(l[j].first - l[i].first)) in = !in;
    return in;
}
inline Shape genPoly(Src& s)
{
    Shape x; x.curved = false; x.affine = true; vector<Face> F; vector<V> G; string k = s.pick(vector<string>{"Polygon", "GeneralPolygon", "PointsPolygons", "PointsGeneralPolygons"}); x.kind = k;
    auto ring = [&](int n, double rlo, double rhi, V c, V e1, V e2, bool general) { vector<int> id; double a0 = real(s, 0, 6.28), dir = s.coin() ? 1 : -1; for(int i = 0; i < n; ++i) { double a = a0 + dir*2*M_PI*i/n, r = general ? real(s, rlo, rhi) : rhi; id.push_back(G.size()); G.push_back(c + (r*cos(a))*e1 + (r*sin(a))*e2); } return id; };
    auto face = [&](V c, double r, bool general) {
        V e1 = {1, 0, real(s, -0.5, 0.5)}, e2 = {0, 1, real(s, -0.5, 0.5)}; if(s.chance(25)) { e1.z = s.pick(vector<double>{-1, 1}); e2.z = s.pick(vector<double>{-1, 0, 0, 1}); if(s.coin()) std::swap(e1, e2); } Face f; 
        f.loops.push_back(ring(s.range(3, general ? 9 : 7), 0.55*r, r, c, e1, e2, general));
        if(general && s.coin()) { f.loops.push_back(ring(s.range(3, 5), 0.1*r, 0.2*r, c, e1, e2, true)); /* more than one: known finding */ }
        F.push_back(f); };
    if(k == "Polygon") face({0, 0, 0}, 1, false);
    else if(k == "GeneralPolygon") face({0, 0, 0}, 1, true);
    else if(k == "PointsGeneralPolygons") { int n = s.range(1, 3); for(int i = 0; i < n; ++i) face({-0.8 + 0.8*i, real(s, -0.4, 0.4), real(s, -0.3, 0.3)}, 0.55, true); }
    else
    { // a sheet of triangles or planar quadrilaterals with common vertices
        int nu = s.range(1, 3), nv = s.range(1, 3); bool bumpy = s.coin(); double ax = real(s, -0.5, 0.5), ay = real(s, -0.5, 0.5);
        for(int j = 0; j <= nv; ++j) for(int i = 0; i <= nu; ++i) { V p = {-0.9 + 1.8*i/nu + real(s, -0.1, 0.1), -0.9 + 1.8*j/nv + real(s, -0.1, 0.1), 0}; p.z = bumpy ? real(s, -0.4, 0.4) : ax*p.x + ay*p.y; G.push_back(p); }
        bool quads = !bumpy && s.coin();
        for(int j = 0; j < nv; ++j) for(int i = 0; i < nu; ++i)
        {
            int a = j*(nu+1) + i, b = a + 1, c = b + nu + 1, d = c - 1;
            if(quads) F.push_back({{{a, b, c, d}}}); else if(s.coin()) { F.push_back({{{a, b, c}}}); F.push_back({{{a, c, d}}}); } else { F.push_back({{{a, b, d}}}); F.push_back({{{b, c, d}}}); }
        }
    }
    for(auto& p : G) p = round3(p);
    vector<int> nl, nvs, ids; for(auto& f : F) { nl.push_back(f.loops.size()); for(auto& l : f.loops) { nvs.push_back(l.size()); for(int i : l) { ids.push_back(i); x.fvAt.push_back(i); x.fvFace.push_back(nl.size() - 1); } } }
    if(k == "Polygon") x.rib = "Polygon"; else if(k == "GeneralPolygon") x.rib = "GeneralPolygon " + ints(nvs); else if(k == "PointsPolygons") x.rib = "PointsPolygons " + ints(nvs) + " " + ints(ids); else x.rib = "PointsGeneralPolygons " + ints(nl) + " " + ints(nvs) + " " + ints(ids);
    if(F.size() == 1 && F[0].loops.size() > 1) x.kind += " holes"; 
    x.params = " \"P\" " + flat3(G); x.at = G; x.nUniform = F.size(); x.nVarying = x.nVertex = G.size(); x.nFacevarying = ids.size();
    x.draw = [=](Ref& r, const M4& m, const Val& val) {
        int fv = 0, fi = 0;
        for(auto& f : F)
        {
            // plane coordinates about the first vertex
            V o = G[f.loops[0][0]], n{0, 0, 0}; const auto& L = f.loops[0];
            for(size_t i = 0; i < L.size(); ++i) n = n + cross(G[L[i]] - o, G[L[(i+1)%L.size()]] - o);
            n = unit(n); V e1 = unit(cross(n, fabs(n.x) < 0.7 ? V{1, 0, 0} : V{0, 1, 0})), e2 = cross(n, e1);
            vector<vector<std::pair<double,double>>> ls; double lo[2] = {1e9, 1e9}, hi[2] = {-1e9, -1e9};
            for(auto& l : f.loops) { vector<std::pair<double,double>> q; for(int i : l) { double a = dot(G[i] - o, e1), b = dot(G[i] - o, e2); q.push_back({a, b}); lo[0] = std::min(lo[0], a); hi[0] = std::max(hi[0], a); lo[1] = std::min(lo[1], b); hi[1] = std::max(hi[1], b); } ls.push_back(q); }
            // the affine values: solved from three corners of the outer loop
            double co[3][3] = {}; bool interp = val.cls == "varying" || val.cls == "vertex" || val.cls == "facevarying";
            if(interp)
            {
                int n0 = L.size(), bi = 1, bj = 2; double best = 0; for(int i = 1; i < n0; ++i) for(int j = i+1; j < n0; ++j) { double d = fabs(ls[0][i].first*ls[0][j].second - ls[0][i].second*ls[0][j].first); if(d > best) { best = d; bi = i; bj = j; } }
                auto get = [&](int i) { return val.cls == "facevarying" ? val.v[fv + i] : val.v[L[i]]; };
                double a1 = ls[0][bi].first, b1 = ls[0][bi].second, a2 = ls[0][bj].first, b2 = ls[0][bj].second, D = a1*b2 - a2*b1; A3 v0 = get(0), v1 = get(bi), v2 = get(bj);
                for(int c = 0; c < 3; ++c) { co[c][0] = v0[c]; double d1 = v1[c] - v0[c], d2 = v2[c] - v0[c]; co[c][1] = (d1*b2 - d2*b1)/D; co[c][2] = (a1*d2 - a2*d1)/D; }
            }
            double U[2] = {0, 0}; (void)U;
            auto vert = [&](double a, double b) { Vtx y; V p = o + a*e1 + b*e2; y.p = m.point(p); y.uv[0] = a; y.uv[1] = b; flatVal(y, val, fi); if(interp) for(int c = 0; c < 3; ++c) y.a[c] = co[c][0] + co[c][1]*a + co[c][2]*b; if(val.cls == "uv") put(y, {p.x, p.y, 0}); return y; };
            r.quad(vert(lo[0], lo[1]), vert(hi[0], lo[1]), vert(hi[0], hi[1]), vert(lo[0], hi[1]), [&](double a, double b) { return evenOdd(ls, a, b); });
            for(auto& l : f.loops) fv += l.size(); ++fi;
        }
    };
    x.hasUv = true; 
    return x;
}
/// Catmull-Clark
struct Cc {
    struct F { vector<int> v; int face; bool hole; vector<A3> fv; };
    vector<V> p; vector<A3> vert, vary; vector<F> f; std::map<std::pair<int,int>, bool> crease; std::map<int, bool> corner;
};
inline std::pair<int,int> ekey(int a, int b) { return {std::min(a, b), std::max(a, b)}; }
inline A3 avg(const A3& a, const A3& b) { return {{(a[0]+b[0])/2, (a[1]+b[1])/2, (a[2]+b[2])/2}}; }
inline Cc refine(const Cc& c)
{
    struct E { vector<int> f; int id; }; std::map<std::pair<int,int>, E> es; vector<vector<int>> vf(c.p.size());
    for(size_t i = 0; i < c.f.size(); ++i) { auto& v = c.f[i].v; for(size_t k = 0; k < v.size(); ++k) { es[ekey(v[k], v[(k+1)%v.size()])].f.push_back(i); vf[v[k]].push_back(i); } }
    int nv = c.p.size(); Cc r; r.p.resize(nv); r.vert.resize(nv); r.vary.resize(nv);
    typedef std::array<double, 9> A9; auto at = [&](int i) { A9 a = {{c.p[i].x, c.p[i].y, c.p[i].z, c.vert[i][0], c.vert[i][1], c.vert[i][2], c.vary[i][0], c.vary[i][1], c.vary[i][2]}}; return a; };
    auto add = [](A9& a, const A9& b, double k) { for(int i = 0; i < 9; ++i) a[i] += k*b[i]; };
    auto set = [&](int i, const A9& a) { if(i >= (int)r.p.size()) { r.p.resize(i+1); r.vert.resize(i+1); r.vary.resize(i+1); } r.p[i] = {a[0], a[1], a[2]}; r.vert[i] = {{a[3], a[4], a[5]}}; r.vary[i] = {{a[6], a[7], a[8]}}; };
    auto keepVary = [&](A9& a, const A9& lin) { for(int i = 6; i < 9; ++i) a[i] = lin[i]; };
    vector<A9> fp(c.f.size()); int next = nv; vector<int> fid(c.f.size());
    for(size_t i = 0; i < c.f.size(); ++i) { A9 a{}; for(int v : c.f[i].v) add(a, at(v), 1.0/c.f[i].v.size()); fp[i] = a; fid[i] = next; set(next++, a); }
    for(auto& e : es)
    {
        int a = e.first.first, b = e.first.second; A9 m{}; add(m, at(a), 0.5); add(m, at(b), 0.5); A9 x = m; bool sharp = e.second.f.size() != 2 || c.crease.count(e.first);
        if(!sharp) { x = A9{}; add(x, m, 0.5); add(x, fp[e.second.f[0]], 0.25); add(x, fp[e.second.f[1]], 0.25); keepVary(x, m); }
        e.second.id = next; set(next++, x);
        if(c.crease.count(e.first)) { r.crease[ekey(a, e.second.id)] = true; r.crease[ekey(b, e.second.id)] = true; }
    }
    for(int i = 0; i < nv; ++i)
    {
        vector<std::pair<int,int>> mine; vector<int> sharp; int n = vf[i].size();
        for(auto& e : es) if(e.first.first == i || e.first.second == i) { mine.push_back(e.first); if(e.second.f.size() != 2 || c.crease.count(e.first)) sharp.push_back(e.first.first == i ? e.first.second : e.first.first); }
        A9 x = at(i), me = x;
        if(c.corner.count(i) || sharp.size() > 2 || n == 0) {}
        else if(sharp.size() == 2) { x = A9{}; add(x, me, 0.75); add(x, at(sharp[0]), 0.125); add(x, at(sharp[1]), 0.125); }
        else
        {
            x = A9{}; for(int f : vf[i]) add(x, fp[f], 1.0/n/n); int k = mine.size();
            for(auto& e : mine) { A9 m{}; add(m, at(e.first), 0.5); add(m, at(e.second), 0.5); add(x, m, 2.0/n/k); }
            add(x, me, (n - 3.0)/n);
        }
        keepVary(x, me); set(i, x); if(c.corner.count(i)) r.corner[i] = true;
    }
    for(size_t i = 0; i < c.f.size(); ++i)
    {
        auto& v = c.f[i].v; auto& fv = c.f[i].fv; int n = v.size(); A3 mid{{0, 0, 0}}; for(auto& q : fv) for(int e = 0; e < 3; ++e) mid[e] += q[e]/n;
        for(int k = 0; k < n; ++k)
        {
            Cc::F g; int pk = (k + n - 1)%n, nk = (k + 1)%n; g.face = c.f[i].face; g.hole = c.f[i].hole;
            g.v = {v[k], es[ekey(v[k], v[nk])].id, fid[i], es[ekey(v[pk], v[k])].id}; g.fv = {fv[k], avg(fv[k], fv[nk]), mid, avg(fv[pk], fv[k])}; r.f.push_back(g);
        }
    }
    return r;
}
inline Shape genSubdiv(Src& s)
{
    Shape x; x.kind = "SubdivisionMesh"; vector<V> G; vector<vector<int>> F; int top = s.range(0, 2);
    if(top == 0)
    { // sheet of quadrilaterals, some cut into triangles
        int nu = s.range(1, 4), nv = s.range(1, 4); G = gridPoints(s, nu+1, nv+1, false, false, 0.25);
        for(int j = 0; j < nv; ++j) for(int i = 0; i < nu; ++i) { int a = j*(nu+1) + i, b = a+1, c = b + nu + 1, d = c - 1; if(s.chance(20)) { F.push_back({a, b, c}); F.push_back({a, c, d}); } else F.push_back({a, b, c, d}); }
        x.kind += " sheet";
    }
    else if(top == 1)
    {
        for(int i = 0; i < 8; ++i) G.push_back(round3({(i&1 ? 0.7 : -0.7) + real(s, -0.2, 0.2), (i&2 ? 0.7 : -0.7) + real(s, -0.2, 0.2), (i&4 ? 0.7 : -0.7) + real(s, -0.2, 0.2)}));
        F = {{0, 2, 3, 1}, {4, 5, 7, 6}, {0, 1, 5, 4}, {2, 6, 7, 3}, {0, 4, 6, 2}, {1, 3, 7, 5}}; x.kind += " cube";
    }
    else
    { // an umbrella of n quadrilaterals or triangles about one vertex
        int n = s.range(3, 7); bool tri = s.coin(); G.push_back(round3({0, 0, real(s, -0.4, 0.4)}));
        for(int i = 0; i < n; ++i) { double a = 2*M_PI*i/n; G.push_back(round3({0.6*cos(a), 0.6*sin(a), real(s, -0.3, 0.3)})); }
        if(tri) for(int i = 0; i < n; ++i) F.push_back({0, 1 + i, 1 + (i+1)%n});
        else { for(int i = 0; i < n; ++i) { double a = 2*M_PI*(i + 0.5)/n; G.push_back(round3({1.0*cos(a), 1.0*sin(a), real(s, -0.3, 0.3)})); } for(int i = 0; i < n; ++i) F.push_back({0, 1 + i, 1 + n + i, 1 + (i+1)%n}); }
        x.kind += tri ? " fan" : " umbrella";
    }
    auto cc = std::make_shared<Cc>(); cc->p = G; for(size_t i = 0; i < F.size(); ++i) cc->f.push_back({F[i], (int)i, false, vector<A3>(F[i].size(), A3{{0, 0, 0}})});
    vector<string> tag; vector<int> na, ia; vector<double> fa;
    bool ib = top == 1 ? s.coin() : s.chance(75); std::map<int,int> boundaryCount; std::map<std::pair<int,int>, int> ec; for(auto& f : F) for(size_t k = 0; k < f.size(); ++k) ec[ekey(f[k], f[(k+1)%f.size()])]++;
    if(ib) { tag.push_back("interpolateboundary"); na.push_back(0); na.push_back(0); x.kind += " interp"; }
    if(s.chance(25) && F.size() > 1) { int h = s.range(0, F.size() - 1); tag.push_back("hole"); na.push_back(1); na.push_back(0); ia.push_back(h); cc->f[h].hole = true; x.kind += " hole"; }
    if(s.chance(25)) { auto it = ec.begin(); std::advance(it, s.range(0, (int)ec.size() - 1)); if(it->second == 2) { tag.push_back("crease"); na.push_back(2); na.push_back(1); ia.push_back(it->first.first); ia.push_back(it->first.second); fa.push_back(10); cc->crease[it->first] = true; x.kind += " crease"; } }
    if(s.chance(15)) { int v = s.range(0, (int)G.size() - 1); tag.push_back("corner"); na.push_back(1); na.push_back(1); ia.push_back(v); fa.push_back(10); cc->corner[v] = true; x.kind += " corner"; }
    // without interpolateboundary the faces along the boundary are not drawn
    std::map<int,int> vf; std::map<int,bool> bnd; for(auto& e : ec) if(e.second == 1) bnd[e.first.first] = bnd[e.first.second] = true;
    for(auto& f : F) for(int v : f) vf[v]++;
    if(!ib) for(size_t i = 0; i < F.size(); ++i) for(int v : F[i]) if(bnd.count(v)) cc->f[i].hole = true;
    if(ib) for(auto& b : bnd) if(vf[b.first] == 1) cc->corner[b.first] = true;
    vector<int> nvs, ids; for(auto& f : F) { nvs.push_back(f.size()); for(int v : f) { ids.push_back(v); x.fvAt.push_back(v); } }
    string tg = "["; for(auto& t : tag) tg += " \"" + t + "\""; tg += "]";
    x.rib = "SubdivisionMesh \"catmull-clark\" " + ints(nvs) + " " + ints(ids) + " " + tg + " " + ints(na) + " " + ints(ia) + " " + nums(fa);
    x.params = " \"P\" " + flat3(G); x.nUniform = F.size(); x.nVarying = x.nVertex = G.size(); x.nFacevarying = ids.size();
    x.draw = [=](Ref& r, const M4& m, const Val& val) {
        Cc c = *cc; c.vert.assign(G.size(), A3{{0, 0, 0}}); c.vary = c.vert; if(val.cls == "vertex") c.vert = val.v; if(val.cls == "varying") c.vary = val.v;
        if(val.cls == "facevarying") { int k = 0; for(auto& f : c.f) for(auto& q : f.fv) q = val.v[k++]; }
        for(int i = 0; i < 5; ++i) c = refine(c);
        for(auto& f : c.f)
        {
            if(f.hole) continue; Vtx q[4];
            for(int k = 0; k < 4; ++k) { Vtx& y = q[k]; int v = f.v[k]; y.p = m.point(c.p[v]); y.uv[0] = y.uv[1] = 0; flatVal(y, val, f.face); if(val.cls == "vertex") put(y, c.vert[v]); if(val.cls == "varying") put(y, c.vary[v]); if(val.cls == "facevarying") put(y, f.fv[k]); }
            r.quad(q[0], q[1], q[2], q[3], Keep());
        }
    };
    return x;
}
inline Shape genCurves(Src& s)
{
    Shape x; bool cubic = s.coin(), wrap = s.chance(20); x.rigid = true; x.kind = string("Curves ") + (cubic ? "cubic" : "linear"); const Basis* b = &bases()[0];
    if(cubic) { b = &bases()[s.range(0, 2)]; x.rib = fmt("Basis \"%s\" %d \"%s\" %d\n", b->name, b->step, b->name, b->step); x.kind += string(" ") + b->name; } if(wrap) x.kind += " periodic";
    int nc = s.range(1, 3), step = cubic ? b->step : 1; vector<int> nvert, nseg; vector<V> G; 
    for(int c = 0; c < nc; ++c)
    {
        int seg, n; if(wrap) { seg = cubic ? (step == 3 ? s.range(2, 3) : s.range(4, 6)) : s.range(3, 5); n = seg*step; } else { seg = s.range(1, 3); n = cubic ? 4 + (seg-1)*step : seg + 1; }
        nvert.push_back(n); nseg.push_back(seg); double y0 = nc == 1 ? 0 : -0.7 + 1.4*c/(nc-1), a0 = real(s, -0.4, 0.4);
        for(int i = 0; i < n; ++i) { V p; if(wrap) { double a = 2*M_PI*i/n; p = {0.7*cos(a), y0*0.3 + 0.7*sin(a), real(s, -0.1, 0.1)}; } else { double t = -1 + 2.0*i/(n-1); p = {t*cos(a0), y0 + t*sin(a0) + real(s, -0.15, 0.15), real(s, -0.15, 0.15)}; } G.push_back(round3(p)); }
    }
    int nw = 0; for(int c = 0; c < nc; ++c) nw += wrap ? nseg[c] : nseg[c] + 1;
    bool vw = s.coin(); vector<double> w; if(vw) { for(int i = 0; i < nw; ++i) w.push_back(r32(real(s, 0.08, 0.3))); x.params = " \"varying float width\" " + nums(w); } else { double c = r32(real(s, 0.05, 0.35)); w.assign(nw, c); x.params = " \"constantwidth\" [" + num(c) + "]"; }
    x.rib += string("Curves \"") + (cubic ? "cubic" : "linear") + "\" " + ints(nvert) + (wrap ? " \"periodic\"" : " \"nonperiodic\""); x.params = " \"P\" " + flat3(G) + x.params;
    x.nUniform = nc; x.nVarying = nw; x.nVertex = G.size();
    x.draw = [=](Ref& r, const M4& m, const Val& val) {
        double k = cbrt(fabs(m.det())); int v0 = 0, w0 = 0;
        for(int c = 0; c < nc; ++c)
        {
            int n = nvert[c], vn = wrap ? nseg[c] : nseg[c] + 1;
            for(int g = 0; g < nseg[c]; ++g) r.surface([&](double u, double v) {
                V p{0, 0, 0}, d{0, 0, 0}; double q[4], e[4]; A3 t{{0, 0, 0}}; Vtx y; flatVal(y, val, c);
                if(cubic) { weights(*b, v, q); for(int i = 0; i < 4; ++i) e[i] = (3*b->m[0][i]*v + 2*b->m[1][i])*v + b->m[2][i]; } else { q[0] = 1-v; q[1] = v; e[0] = -1; e[1] = 1; }
                for(int i = 0; i < (cubic ? 4 : 2); ++i) { int id = v0 + (g*step + i)%n; V w = m.point(G[id]); p = p + q[i]*w; d = d + e[i]*w; if(val.cls == "vertex") for(int z = 0; z < 3; ++z) t[z] += q[i]*val.v[id][z]; }
                int a1 = w0 + g, b1 = w0 + (g+1)%vn; double hw = 0.5*k*((1-v)*w[a1] + v*w[b1]), l = hypot(d.x, d.y); V o = {-d.y/l*hw, d.x/l*hw, 0};
                if(val.cls == "vertex") put(y, t); if(val.cls == "varying") put(y, bilin(val.v[a1], val.v[a1], val.v[b1], val.v[b1], 0, v)); if(val.cls == "uv") put(y, {u, (g + v)/nseg[c], 0});
                y.p = p + (2*u - 1)*o; y.uv[0] = u; y.uv[1] = v; return y; }, Keep());
            v0 += n; w0 += vn;
        }
    };
    return x;
}
inline Shape genPoints(Src& s)
{
    Shape x; x.kind = "Points"; x.rigid = true; int n = s.range(1, 12); vector<V> G; for(int i = 0; i < n; ++i) G.push_back(round3({real(s, -1, 1), real(s, -1, 1), real(s, -0.4, 0.4)}));
    vector<double> w; if(s.coin()) { for(int i = 0; i < n; ++i) w.push_back(r32(real(s, 0.05, 0.5))); x.params = " \"varying float width\" " + nums(w); } else { double c = r32(real(s, 0.05, 0.5)); w.assign(n, c); x.params = " \"constantwidth\" [" + num(c) + "]"; }
    x.rib = "Points"; x.params = " \"P\" " + flat3(G) + x.params; x.nUniform = 1; x.nVarying = x.nVertex = n;
    x.draw = [=](Ref& r, const M4& m, const Val& val) { double k = cbrt(fabs(m.det())); for(int i = 0; i < n; ++i) { Vtx y; y.p = m.point(G[i]); y.uv[0] = y.uv[1] = 0; flatVal(y, val, 0); if(val.cls == "varying" || val.cls == "vertex") put(y, val.v[i]); r.disc(y, 0.5*k*w[i]); } };
    return x;
}
inline Shape genShape(Src& s, bool mayTrim = true)
{
    switch(s.range(0, 12)) { case 0: case 1: case 2: return genQuadric(s); case 3: case 4: case 5: return genPatch(s); case 6: case 7: return genNu(s, mayTrim); case 8: case 9: return genPoly(s); case 10: return genSubdiv(s); case 11: return genCurves(s); }
    return s.chance(60) ? genSubdiv(s) : genPoints(s);
}
/// Places a shape in front of the camera.
inline M4 genPlace(Src& s, const Cam& cam, const View& view, const Shape& sh)
{
    M4 m; double k = real(s, 0.25, 1.1)/sh.size;
    if(sh.rigid) { m = mScale({k, k, k}); if(s.chance(30)) m = m*mScale({-1, 1, 1}); m = m*mRotate(real(s, -180, 180), {real(s, -0.3, 0.3), real(s, -0.3, 0.3), 1}); }
    else
    {
        m = mScale({(s.chance(25) ? -1 : 1)*k*real(s, 0.7, 1.3), k*real(s, 0.7, 1.3), k*real(s, 0.7, 1.3)});
        if(s.chance(80)) m = m*mRotate(real(s, -180, 180), {real(s, -1, 1), real(s, -1, 1), real(s, -1, 1) + 0.01});
        if(s.chance(30)) { M4 t; t.m[1][0] = real(s, -0.6, 0.6); t.m[0][2] = real(s, -0.5, 0.5); m = m*t; }
    }
    double z = real(s, 2, 6), q = cam.persp ? z*view.k : 1, off = s.chance(20) ? 1.1 : 0.5; if(cam.persp) m = m*mScale({q, q, std::min(q, 1.0)});
    if(sh.rigid && cam.persp) { m = mScale({q*k, q*k, q*k}); if(s.chance(30)) m = m*mScale({-1, 1, 1}); m = m*mRotate(real(s, -180, 180), {0, 0, 1}); }
    return rounded(m*mTranslate({real(s, -off, off)*q*(view.r - view.l)/2, real(s, -off, off)*q*(view.t - view.b)/2, z}));
}
}
