// C25: noise functions.
//
// Oracles: same argument -> same bits (also across intervening calls); bounds; a Lipschitz bound
// (continuity, including across lattice lines); 0.5 at lattice points; exact periodicity at
// arguments where the shifted argument is exactly representable; agreement of periodic and plain
// noise inside the first period; equality of the scalar, vector and colour forms where they are
// defined to share values; constancy of cell noise over a cell, difference between cells.
#include "pbt.h"
#include <aqsis/math/noise.h>
#include <aqsis/math/noise1234.h>
#include <aqsis/math/cellnoise.h>
using namespace Aqsis;
using pbt::fail;

// value of every form at dimension d: out[0] = float form, out[1..3] point, out[4..6] colour
struct Vals { float v[7]; };
static Vals eval(int d, const float* x, const float* per) {
    Vals r; CqVector3D P, Q; CqVector3D p3(x[0], x[1], x[2]); CqColor C;
    if (!per) switch (d) {
        case 1: r.v[0] = CqNoise::FGNoise1(x[0]); P = CqNoise::PGNoise1(x[0]); C = CqNoise::CGNoise1(x[0]); break;
        case 2: r.v[0] = CqNoise::FGNoise2(x[0], x[1]); P = CqNoise::PGNoise2(x[0], x[1]); C = CqNoise::CGNoise2(x[0], x[1]); break;
        case 3: r.v[0] = CqNoise::FGNoise3(p3); P = CqNoise::PGNoise3(p3); C = CqNoise::CGNoise3(p3); break;
        default: r.v[0] = CqNoise::FGNoise4(p3, x[3]); P = CqNoise::PGNoise4(p3, x[3]); C = CqNoise::CGNoise4(p3, x[3]);
    } else { CqVector3D q3(per[0], per[1], per[2]); switch (d) {
        case 1: r.v[0] = CqNoise::FGPNoise1(x[0], per[0]); P = CqNoise::PGPNoise1(x[0], per[0]); C = CqNoise::CGPNoise1(x[0], per[0]); break;
        case 2: r.v[0] = CqNoise::FGPNoise2(x[0], x[1], per[0], per[1]); P = CqNoise::PGPNoise2(x[0], x[1], per[0], per[1]); C = CqNoise::CGPNoise2(x[0], x[1], per[0], per[1]); break;
        case 3: r.v[0] = CqNoise::FGPNoise3(p3, q3); P = CqNoise::PGPNoise3(p3, q3); C = CqNoise::CGPNoise3(p3, q3); break;
        default: r.v[0] = CqNoise::FGPNoise4(p3, x[3], q3, per[3]); P = CqNoise::PGPNoise4(p3, x[3], q3, per[3]); C = CqNoise::CGPNoise4(p3, x[3], q3, per[3]);
    } }
    r.v[1] = P.x(); r.v[2] = P.y(); r.v[3] = P.z(); r.v[4] = C.r(); r.v[5] = C.g(); r.v[6] = C.b();
    return r;
}
static float raw(int d, const float* x, const int* p) {
    if (!p) switch (d) { case 1: return CqNoise1234::noise(x[0]); case 2: return CqNoise1234::noise(x[0], x[1]); case 3: return CqNoise1234::noise(x[0], x[1], x[2]); default: return CqNoise1234::noise(x[0], x[1], x[2], x[3]); }
    switch (d) { case 1: return CqNoise1234::pnoise(x[0], p[0]); case 2: return CqNoise1234::pnoise(x[0], x[1], p[0], p[1]); case 3: return CqNoise1234::pnoise(x[0], x[1], x[2], p[0], p[1], p[2]); default: return CqNoise1234::pnoise(x[0], x[1], x[2], x[3], p[0], p[1], p[2], p[3]); }
}
static std::string at(int d, const float* x, const float* p) { std::ostringstream o; o.precision(9); o << "dimension " << d << " at ("; for (int i = 0; i < d; ++i) o << x[i] << " "; o << ")"; if (p) { o << " period ("; for (int i = 0; i < d; ++i) o << p[i] << " "; o << ")"; } return o.str(); }
// A coordinate of multiples of 1/64 (exactly representable sums) with |x| below 2^15
static float coord(pbt::Src& s) {
    int mag = s.pick(std::vector<int>{3, 8, 40, 260, 1000, 20000});
    int cell = s.range(-mag, mag); int sub = s.chance(15) ? 0 : s.range(1, 63);
    return cell + sub/64.0f;
}
static const float lip[5] = {0, 4, 4, 5, 6};    // bound on |gradient|, checked against the definition: see DESIGN

PBT_SUITE(gradient_noise, 1500000, 60000000) {
    int d = src.range(1, 4); bool periodic = src.coin(); float x[4] = {0, 0, 0, 0}, per[4] = {1, 1, 1, 1}; int ip[4] = {1, 1, 1, 1};
    bool lattice = src.chance(10);
    for (int i = 0; i < d; ++i) { x[i] = coord(src); if (lattice) x[i] = std::floor(x[i]); ip[i] = src.pick(std::vector<int>{1, 2, 3, 4, 7, 10, 16, 64, 255, 256, 257, 300, 1000}); per[i] = ip[i]; }
    const float* pp = periodic ? per : 0; const int* pi = periodic ? ip : 0;
    src.note((periodic ? "periodic " : "plain ") + at(d, x, pp)); src.label((periodic ? "periodic " : "plain ") + std::to_string(d) + "D"); if (!lattice) src.nontrivial();
    Vals a = eval(d, x, pp); float r = raw(d, x, pi);
    for (int k = 0; k < 7; ++k) if (!(a.v[k] >= -0.02f && a.v[k] <= 1.02f)) fail("value " + std::to_string(a.v[k]) + " out of range " + at(d, x, pp));
    if (fabs(a.v[0] - 0.5f*(1 + r)) > 2e-7) fail("float form is not 0.5*(1+noise) " + at(d, x, pp));
    if (a.v[1] != a.v[0]) fail("first component differs from the float form " + at(d, x, pp));
    for (int k = 0; k < 3; ++k) if (a.v[4+k] != a.v[1+k]) fail("colour and point forms differ " + at(d, x, pp));
    if (lattice && fabs(a.v[0] - 0.5f) > 1e-6) fail("not the mid value at a lattice point " + at(d, x, pp));
    // determinism, with other calls in between
    { float y[4]; for (int i = 0; i < 4; ++i) y[i] = coord(src); eval(src.range(1, 4), y, src.coin() ? per : 0); Vals b = eval(d, x, pp); if (memcmp(&a, &b, sizeof a)) fail("not deterministic " + at(d, x, pp)); }
    // continuity along a random axis, also towards and across lattice lines
    { int ax = src.range(0, d-1); int e = src.range(2, 5); float y[4]; memcpy(y, x, sizeof y); float h = std::ldexp(1.0f, -3*e/2 - 3); if (src.coin()) h = -h; y[ax] += h; Vals b = eval(d, y, pp);
      double tol = lip[d]*fabs((double)y[ax] - x[ax]) + 4e-6 + 4e-6*(fabs(x[ax])/8);
      for (int k = 0; k < 7; ++k) if (fabs(b.v[k] - a.v[k]) > tol) fail("jump of " + std::to_string(b.v[k]-a.v[k]) + " over a step of " + std::to_string(h) + " along axis " + std::to_string(ax) + " component " + std::to_string(k) + " " + at(d, x, pp)); }
    if (periodic) {
        float y[4]; memcpy(y, x, sizeof y); bool moved = false;
        for (int i = 0; i < d; ++i) { int m = src.range(-3, 3); double z = x[i] + (double)m*ip[i];
            // known finding: the sequence does not repeat across zero, so both points lie on one side of it
            bool side = x[i] >= 0 ? z >= 0 : z < -1e-9 && x[i] < 0; if (x[i] >= 0 ? z < 0 : z >= 0) side = false;
            if (side && fabs(z) < 60000) { y[i] = z; if (m) moved = true; } }
        Vals b = eval(d, y, pp); float rb = raw(d, y, pi);
        if (fabs(rb - r) > 1e-6) fail("not periodic: " + at(d, x, pp) + " versus " + at(d, y, pp));
        // the offset components round the argument: allow for that rounding
        bool off = true; for (int i = 0; i < d; ++i) if (!((x[i] >= 0 && y[i] >= 0) || (x[i] < -30 && y[i] < -30))) off = false;   // the vector forms add offsets below 30
        for (int k = 0; k < 7; ++k) { if (!off && !(k == 0 || k == 1 || k == 4)) continue; double t = k == 0 || k == 1 || k == 4 ? 1e-6 : 1e-6; for (int i = 0; i < d; ++i) if (!(k == 0 || k == 1 || k == 4)) t += lip[d]*6e-8*(fabs(x[i]) + fabs(y[i]) + 1200)*2; if (fabs(b.v[k] - a.v[k]) > t) fail("component " + std::to_string(k) + " not periodic: " + at(d, x, pp) + " versus " + at(d, y, pp)); }
        if (moved) src.label("shifted by whole periods");
        bool inside = true; for (int i = 0; i < d; ++i) if (!(x[i] >= 0 && std::floor(x[i]) + 1 < ip[i])) inside = false;
        if (inside) { src.label("inside the first period"); if (fabs(raw(d, x, 0) - r) > 1e-6) fail("periodic noise differs from plain noise inside the first period " + at(d, x, pp)); }
    } else {
        // plain noise repeats with period 256 in every axis by construction of the permutation table - not promised, not judged.
        // every axis matters: two points in cells with different lattice positions are not all equal (checked statistically below)
    }
}

// The forms of lower dimension are not constant along any axis.
PBT_SUITE(noise_varies, 60000, 1500000) {
    int d = src.range(1, 4); bool periodic = src.coin(); float x[4] = {0,0,0,0}, per[4] = {64, 64, 64, 64};
    for (int i = 0; i < d; ++i) x[i] = src.range(-200, 200) + src.range(8, 56)/64.0f;
    int ax = src.range(0, d-1); src.note(at(d, x, periodic ? per : 0) + " axis " + std::to_string(ax)); src.nontrivial();
    float lo[7], hi[7]; for (int k = 0; k < 7; ++k) { lo[k] = 9; hi[k] = -9; }
    for (int s = 0; s < 40; ++s) { float y[4]; memcpy(y, x, sizeof y); y[ax] += s*0.40625f; Vals v = eval(d, y, periodic ? per : 0); for (int k = 0; k < 7; ++k) { lo[k] = std::min(lo[k], v.v[k]); hi[k] = std::max(hi[k], v.v[k]); } }
    for (int k = 0; k < 7; ++k) if (hi[k] - lo[k] < 1e-3) fail("component " + std::to_string(k) + " is constant along axis " + std::to_string(ax) + " " + at(d, x, periodic ? per : 0));
    // the components are different functions
    int same = 0; for (int s = 0; s < 8; ++s) { float y[4]; memcpy(y, x, sizeof y); y[ax] += s*0.40625f; Vals v = eval(d, y, 0); if (v.v[1] == v.v[2] || v.v[2] == v.v[3] || v.v[1] == v.v[3]) ++same; } if (same == 8) fail("two components coincide " + at(d, x, 0));
}

static Vals cell(int d, const float* x) {
    CqCellNoise c; Vals r; CqVector3D P; CqVector3D p3(x[0], x[1], x[2]);
    switch (d) { case 1: r.v[0] = c.FCellNoise1(x[0]); P = c.PCellNoise1(x[0]); break; case 2: r.v[0] = c.FCellNoise2(x[0], x[1]); P = c.PCellNoise2(x[0], x[1]); break; case 3: r.v[0] = c.FCellNoise3(p3); P = c.PCellNoise3(p3); break; default: r.v[0] = c.FCellNoise4(p3, x[3]); P = c.PCellNoise4(p3, x[3]); }
    r.v[1] = P.x(); r.v[2] = P.y(); r.v[3] = P.z(); r.v[4] = r.v[5] = r.v[6] = 0; return r;
}
PBT_SUITE(cell_noise, 1000000, 40000000) {
    int d = src.range(1, 4); int base[4] = {0,0,0,0}; float x[4] = {0,0,0,0}, y[4] = {0,0,0,0};
    for (int i = 0; i < d; ++i) { int mag = src.pick(std::vector<int>{3, 40, 1000, 2047, 100000}); base[i] = src.range(-mag, mag);
        for (float* q : {x, y}) { int k = src.range(0, 9); float f;
            if (k < 2) f = base[i]; else if (k == 2) { f = std::nextafter((float)(base[i] + 1), -1e9f); } else if (k == 3) f = std::nextafter((float)base[i], 1e9f); else f = base[i] + src.range(0, 63)/64.0f;
            if (!(f >= base[i] && f < base[i] + 1.0)) f = base[i]; q[i] = f; } }
    src.note(at(d, x, 0) + " and " + at(d, y, 0)); src.label("cell " + std::to_string(d) + "D"); if (memcmp(x, y, sizeof x)) src.nontrivial();
    Vals a = cell(d, x), b = cell(d, y);
    for (int k = 0; k < 4; ++k) { if (!(a.v[k] >= 0 && a.v[k] <= 1)) fail("cell noise value " + std::to_string(a.v[k]) + " out of [0,1] " + at(d, x, 0)); if (a.v[k] != b.v[k]) fail("cell noise not constant in a cell: " + at(d, x, 0) + " and " + at(d, y, 0) + " component " + std::to_string(k)); }
    // neighbouring cells along each axis are not all equal
    int ax = src.range(0, d-1); bool diff[4] = {false}; float z[4]; for (int s = 1; s <= 12; ++s) { memcpy(z, x, sizeof z); z[ax] = base[ax] + s; Vals c = cell(d, z); for (int k = 0; k < 4; ++k) if (c.v[k] != a.v[k]) diff[k] = true; }
    for (int k = 0; k < 4; ++k) if (!diff[k]) fail("cell noise does not depend on axis " + std::to_string(ax) + " " + at(d, x, 0));
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "gradient cases count when the argument is off the lattice; cell cases when the two points compared differ; variation cases always"); }
