// Geometry for reference rendering: vectors, row-vector matrices and cameras.
#pragma once
#include "rd_scene.h"
namespace rd {
struct V { double x, y, z; };
inline V operator+(V a, V b) { return {a.x+b.x, a.y+b.y, a.z+b.z}; }
inline V operator-(V a, V b) { return {a.x-b.x, a.y-b.y, a.z-b.z}; }
inline V operator*(double k, V a) { return {k*a.x, k*a.y, k*a.z}; }
inline double dot(V a, V b) { return a.x*b.x + a.y*b.y + a.z*b.z; }
inline V cross(V a, V b) { return {a.y*b.z - a.z*b.y, a.z*b.x - a.x*b.z, a.x*b.y - a.y*b.x}; }
inline double len(V a) { return sqrt(dot(a, a)); }
inline V unit(V a) { double l = len(a); return l > 0 ? (1/l)*a : a; }
/// Affine map, row vectors: p' = p*M, as in RIB matrices.
struct M4 {
    double m[4][4];
    M4() { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) m[i][j] = i == j; }
    V point(V p) const { return {p.x*m[0][0] + p.y*m[1][0] + p.z*m[2][0] + m[3][0], p.x*m[0][1] + p.y*m[1][1] + p.z*m[2][1] + m[3][1], p.x*m[0][2] + p.y*m[1][2] + p.z*m[2][2] + m[3][2]}; }
    V vec(V p) const { return {p.x*m[0][0] + p.y*m[1][0] + p.z*m[2][0], p.x*m[0][1] + p.y*m[1][1] + p.z*m[2][1], p.x*m[0][2] + p.y*m[1][2] + p.z*m[2][2]}; }
    double det() const { return m[0][0]*(m[1][1]*m[2][2] - m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2] - m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1] - m[1][1]*m[2][0]); }
    string text() const { vector<double> v; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) v.push_back(m[i][j]); return nums(v); }
    M4 inverse() const
    {
        M4 r; double d = det();
        for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j)
        {
            int a = (j+1)%3, b = (j+2)%3, c = (i+1)%3, e = (i+2)%3;
            r.m[i][j] = (m[a][c]*m[b][e] - m[a][e]*m[b][c])/d;
        }
        for(int j = 0; j < 3; ++j) r.m[3][j] = -(m[3][0]*r.m[0][j] + m[3][1]*r.m[1][j] + m[3][2]*r.m[2][j]);
        return r;
    }
    V normal(V n) const { M4 i = inverse(); return {n.x*i.m[0][0] + n.y*i.m[0][1] + n.z*i.m[0][2], n.x*i.m[1][0] + n.y*i.m[1][1] + n.z*i.m[1][2], n.x*i.m[2][0] + n.y*i.m[2][1] + n.z*i.m[2][2]}; }
};
inline M4 operator*(const M4& a, const M4& b) { M4 r; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { r.m[i][j] = 0; for(int k = 0; k < 4; ++k) r.m[i][j] += a.m[i][k]*b.m[k][j]; } return r; }
inline M4 mTranslate(V t) { M4 r; r.m[3][0] = t.x; r.m[3][1] = t.y; r.m[3][2] = t.z; return r; }
inline M4 mScale(V t) { M4 r; r.m[0][0] = t.x; r.m[1][1] = t.y; r.m[2][2] = t.z; return r; }
inline M4 mRotate(double deg, V ax)
{
    ax = unit(ax); double a = deg*M_PI/180, c = cos(a), s = sin(a), t = 1 - c; M4 r; double x = ax.x, y = ax.y, z = ax.z;
    double q[3][3] = {{t*x*x + c, t*x*y + s*z, t*x*z - s*y}, {t*x*y - s*z, t*y*y + c, t*y*z + s*x}, {t*x*z + s*y, t*y*z - s*x, t*z*z + c}};
    for(int i = 0; i < 3; ++i) for(int j = 0; j < 3; ++j) r.m[i][j] = q[i][j];
    return r;
}
/// rounds to the floats which the renderer will read
inline M4 rounded(M4 a) { for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) a.m[i][j] = atof(num(a.m[i][j]).c_str()); return a; }
struct Ray { V o, d; };
struct View {
    int w, h; bool persp; double k, l, r, b, t;
    explicit View(const Cam& c) : w(c.w), h(c.h), persp(c.persp), k(tan(c.fov*M_PI/360))
    {
        double fa = c.w*c.par/c.h; if(fa >= 1) { l = -fa; r = fa; b = -1; t = 1; } else { l = -1; r = 1; b = -1/fa; t = 1/fa; }
    }
    /// d.z is 1, so that the ray parameter is the camera depth
    Ray ray(double X, double Y) const
    {
        double sx = l + (r-l)*X/w, sy = t + (b-t)*Y/h;
        if(persp) return {{0, 0, 0}, {sx*k, sy*k, 1}};
        return {{sx, sy, 0}, {0, 0, 1}};
    }
    V raster(V p) const
    {
        double sx = p.x, sy = p.y; if(persp) { sx /= p.z*k; sy /= p.z*k; }
        return {(sx - l)/(r-l)*w, (sy - t)/(b-t)*h, p.z};
    }
};
inline V genVec(Src& s, double a) { return {real(s, -a, a), real(s, -a, a), real(s, -a, a)}; }
}
