// Reference pictures of primitives: parametric pieces, finely tessellated and sampled into a fine depth buffer.
#pragma once
#include "rd_ref.h"
#include <functional>
namespace rd {
/// A point in camera space with three values attached to it.
struct Vtx { V p; double a[3]; double uv[2]; };
inline Vtx mix(const Vtx& x, const Vtx& y, double t) { Vtx r; r.p = x.p + t*(y.p - x.p); for(int i = 0; i < 3; ++i) r.a[i] = x.a[i] + t*(y.a[i] - x.a[i]); for(int i = 0; i < 2; ++i) r.uv[i] = x.uv[i] + t*(y.uv[i] - x.uv[i]); return r; }
typedef std::function<bool(double u, double v)> Keep;
/// K*K samples per pixel, the middle one at the pixel centre, with a border of one pixel.
struct Ref {
    static const int K = 5, B = 1;
    View view; int W, H; double nearz, farz; bool useP = false, useN = false; ///< useN: the values are the unit normal on the side of the camera; useP: the values are the position itself
    vector<double> z, a; vector<char> edge; ///< edge: some edge passes, so that surfaces seen edge-on count as near
    Ref(const View& v, double n, double f) : view(v), W((v.w + 2*B)*K), H((v.h + 2*B)*K), nearz(n), farz(f), z(W*H, 1e30), a(3*W*H, 0), edge(W*H, 0) {}
    double X(int i) const { return (i + 0.5)/K - B; }
    void tri(const Vtx& p, const Vtx& q, const Vtx& r, const Keep& keep)
    {
        // keep what lies beyond the eye
        const double e = std::max(1e-4, nearz*0.5); const Vtx* in[3] = {&p, &q, &r}; vector<Vtx> poly;
        for(int i = 0; i < 3; ++i)
        {
            const Vtx &c = *in[i], &d = *in[(i+1)%3]; bool ci = c.p.z > e, di = d.p.z > e;
            if(ci) poly.push_back(c);
            if(ci != di) poly.push_back(mix(c, d, (e - c.p.z)/(d.p.z - c.p.z)));
        }
        for(size_t i = 2; i < poly.size(); ++i) fill(poly[0], poly[i-1], poly[i], keep);
    }
    void quad(const Vtx& p, const Vtx& q, const Vtx& r, const Vtx& s, const Keep& keep) { tri(p, q, r, keep); tri(p, r, s, keep); }
    void line(const Vtx& p, const Vtx& q, V A, V C, const Keep& keep)
    {
        double len = hypot(C.x - A.x, C.y - A.y); int n = 1 + (int)std::min(2000.0, len*K);
        for(int k = 0; k <= n; ++k)
        {
            double t = k/(double)n; int i = (int)floor((A.x + t*(C.x - A.x) + B)*K), j = (int)floor((A.y + t*(C.y - A.y) + B)*K); if(i < 0 || j < 0 || i >= W || j >= H || edge[(size_t)j*W + i]) continue;
            if(keep && !keep(p.uv[0] + t*(q.uv[0] - p.uv[0]), p.uv[1] + t*(q.uv[1] - p.uv[1]))) continue;
            edge[(size_t)j*W + i] = 1;
        }
    }
    void fill(const Vtx& p, const Vtx& q, const Vtx& r, const Keep& keep)
    {
        V A = view.raster(p.p), C = view.raster(q.p), D = view.raster(r.p);
        line(p, q, A, C, keep); line(q, r, C, D, keep); line(r, p, D, A, keep);
        double area = (C.x - A.x)*(D.y - A.y) - (C.y - A.y)*(D.x - A.x); if(fabs(area) < 1e-14) return;
        double x0 = std::min({A.x, C.x, D.x}), x1 = std::max({A.x, C.x, D.x}), y0 = std::min({A.y, C.y, D.y}), y1 = std::max({A.y, C.y, D.y});
        int i0 = (int)ceil(std::max(-1.0*B, x0 - 1e-6)*K + B*K - 0.5 - 1e-9), i1 = (int)floor(std::min(view.w + 1.0*B, x1 + 1e-6)*K + B*K - 0.5 + 1e-9);
        int j0 = (int)ceil(std::max(-1.0*B, y0 - 1e-6)*K + B*K - 0.5 - 1e-9), j1 = (int)floor(std::min(view.h + 1.0*B, y1 + 1e-6)*K + B*K - 0.5 + 1e-9);
        for(int j = std::max(0, j0); j <= std::min(H-1, j1); ++j) for(int i = std::max(0, i0); i <= std::min(W-1, i1); ++i)
        {
            double x = X(i), y = X(j);
            double b1 = ((x - A.x)*(D.y - A.y) - (y - A.y)*(D.x - A.x))/area, b2 = ((C.x - A.x)*(y - A.y) - (C.y - A.y)*(x - A.x))/area, b0 = 1 - b1 - b2;
            const double t = -1e-9; if(b0 < t || b1 < t || b2 < t) continue;
            if(view.persp) { b0 /= p.p.z; b1 /= q.p.z; b2 /= r.p.z; double s = b0 + b1 + b2; b0 /= s; b1 /= s; b2 /= s; }
            double zz = b0*p.p.z + b1*q.p.z + b2*r.p.z; size_t at = (size_t)j*W + i;
            if(zz < nearz || zz > farz || zz >= z[at]) continue;
            if(keep && !keep(b0*p.uv[0] + b1*q.uv[0] + b2*r.uv[0], b0*p.uv[1] + b1*q.uv[1] + b2*r.uv[1])) continue;
            z[at] = zz; for(int c = 0; c < 3; ++c) a[3*at + c] = b0*p.a[c] + b1*q.a[c] + b2*r.a[c];
            if(useN) { V w = cross(q.p - p.p, r.p - p.p); double l = sqrt(dot(w, w)); if(l > 0) w = (w.z > 0 ? -1/l : 1/l)*w; a[3*at] = w.x; a[3*at + 1] = w.y; a[3*at + 2] = w.z; }
            if(useP) { V w = b0*p.p + b1*q.p + b2*r.p; a[3*at] = w.x; a[3*at + 1] = w.y; a[3*at + 2] = w.z; }
        }
    }
    /// a camera facing disc
    void disc(const Vtx& c, double rad) 
    {
        const int n = 48; for(int i = 0; i < n; ++i)
        {
            Vtx p = c, q = c; double a0 = 2*M_PI*i/n, a1 = 2*M_PI*(i+1)/n;
            p.p = c.p + V{rad*cos(a0), rad*sin(a0), 0}; q.p = c.p + V{rad*cos(a1), rad*sin(a1), 0}; tri(c, p, q, Keep());
        }
    }
    /// a surface over the unit square (u,v)
    void surface(const std::function<Vtx(double, double)>& f, const Keep& keep)
    {
        double lu = 1, lv = 1; const int m = 12; vector<V> g((m+1)*(m+1));
        for(int j = 0; j <= m; ++j) for(int i = 0; i <= m; ++i) { V p = f(i/(double)m, j/(double)m).p; p.z = std::max(p.z, 0.05); g[j*(m+1) + i] = view.raster(p); }
        for(int j = 0; j <= m; ++j) for(int i = 0; i < m; ++i) { V p = g[j*(m+1) + i], q = g[j*(m+1) + i + 1]; lu = std::max(lu, m*hypot(p.x - q.x, p.y - q.y)); }
        for(int i = 0; i <= m; ++i) for(int j = 0; j < m; ++j) { V p = g[j*(m+1) + i], q = g[(j+1)*(m+1) + i]; lv = std::max(lv, m*hypot(p.x - q.x, p.y - q.y)); }
        int nu = (int)std::min(160.0, std::max(24.0, lu*2)), nv = (int)std::min(160.0, std::max(24.0, lv*2));
        vector<Vtx> a(nu + 1), b(nu + 1);
        for(int j = 0; j <= nv; ++j)
        {
            for(int i = 0; i <= nu; ++i) b[i] = f(i/(double)nu, j/(double)nv);
            if(j) for(int i = 0; i < nu; ++i) quad(a[i], a[i+1], b[i+1], b[i], keep);
            a.swap(b);
        }
    }
    struct Near { bool all, none; double z0, z1, a0[3], a1[3]; };
    /// what lies within r samples of the centre of pixel (x, y)
    Near near(int x, int y, int r) const
    {
        Near n; n.all = n.none = true; n.z0 = 1e30; n.z1 = -1e30; for(int c = 0; c < 3; ++c) { n.a0[c] = 1e30; n.a1[c] = -1e30; }
        int ci = (x + B)*K + K/2, cj = (y + B)*K + K/2;
        for(int j = cj - r; j <= cj + r; ++j) for(int i = ci - r; i <= ci + r; ++i)
        {
            size_t at = (size_t)j*W + i; if(edge[at]) n.none = false; if(z[at] >= 1e30) { n.all = false; continue; }
            n.none = false; n.z0 = std::min(n.z0, z[at]); n.z1 = std::max(n.z1, z[at]);
            for(int c = 0; c < 3; ++c) { n.a0[c] = std::min(n.a0[c], a[3*at + c]); n.a1[c] = std::max(n.a1[c], a[3*at + c]); }
        }
        return n;
    }
};
inline double r32(double d) { return atof(num(d).c_str()); }
inline vector<double> genNums(Src& s, int n, double lo, double hi) { vector<double> v; for(int i = 0; i < n; ++i) v.push_back(r32(real(s, lo, hi))); return v; }

/// Cubic bases of RI, rows for t^3, t^2, t, 1.
struct Basis { const char* name; int step; double m[4][4]; };
inline const vector<Basis>& bases()
{
    static const double S = 1.0/6;
    static const vector<Basis> b = {
        {"bezier", 3, {{-1, 3, -3, 1}, {3, -6, 3, 0}, {-3, 3, 0, 0}, {1, 0, 0, 0}}},
        {"b-spline", 1, {{-S, 3*S, -3*S, S}, {3*S, -6*S, 3*S, 0}, {-3*S, 0, 3*S, 0}, {S, 4*S, S, 0}}},
        {"catmull-rom", 1, {{-0.5, 1.5, -1.5, 0.5}, {1, -2.5, 2, -0.5}, {-0.5, 0, 0.5, 0}, {0, 1, 0, 0}}},
        {"hermite", 2, {{2, 1, -2, 1}, {-3, -2, 3, -1}, {0, 1, 0, 0}, {1, 0, 0, 0}}},
        {"power", 4, {{1, 0, 0, 0}, {0, 1, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 1}}}};
    return b;
}
inline void weights(const Basis& b, double t, double w[4]) { for(int k = 0; k < 4; ++k) w[k] = ((b.m[0][k]*t + b.m[1][k])*t + b.m[2][k])*t + b.m[3][k]; }
/// B-spline basis functions of the given order at t, one per control point
inline vector<double> spline(const vector<double>& k, int order, int n, double t, double tmax)
{
    vector<double> N(n + order, 0); int last = -1;
    for(int i = 0; i + 1 < n + order; ++i) if(k[i] < k[i+1] && t >= k[i] && (t < k[i+1] || (t >= tmax && k[i+1] >= tmax))) { last = i; break; }
    if(last < 0) last = n - 1;
    N[last] = 1;
    for(int o = 2; o <= order; ++o) for(int i = 0; i + o < n + order; ++i)
    {
        double a = k[i+o-1] > k[i] ? (t - k[i])/(k[i+o-1] - k[i])*N[i] : 0, b = k[i+o] > k[i+1] ? (k[i+o] - t)/(k[i+o] - k[i+1])*N[i+1] : 0;
        N[i] = a + b;
    }
    N.resize(n); return N;
}
}
