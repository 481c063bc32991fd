// Typed shading language expressions: generator, printer and reference evaluator.
// The evaluator works in double precision and carries an error bound, so that a value (or a
// comparison) which single precision arithmetic cannot decide is never judged.
#ifndef VERIF_SL_GEN_H
#define VERIF_SL_GEN_H
#include "sl_vm.h"
#include <memory>

namespace sl {

enum T { F, C, P, V, N, M, S };
static const char* TN[] = {"float", "color", "point", "vector", "normal", "matrix", "string"};
inline int comps(T t) { return t == F ? 1 : t == M ? 16 : t == S ? 0 : 3; }
inline bool geo(T t) { return t == P || t == V || t == N; }
inline int aqType(T t) { switch (t) { case F: return type_float; case C: return type_color; case P: return type_point; case V: return type_vector; case N: return type_normal; case M: return type_matrix; default: return type_string; } }

static const double FEPS = 6e-8;
struct Num {
    double v = 0, e = 0;
    Num() {}
    Num(double x) : v(x), e(0) {}
    Num(double x, double er) : v(x), e(er) {}
    bool bad() const { return !(e <= 0.01*(1 + std::fabs(v))) || !std::isfinite(v) || std::fabs(v) > 1e30; }
};
inline Num undecided() { return Num(0, INFINITY); }
inline Num rnd(double v, double e) {          // one float rounding on top of an inherited error
    if (!std::isfinite(v) || !std::isfinite(e)) return undecided();
    if (e == 0 && (double)(float)v == v) return Num(v, 0);
    return Num(v, e*1.01 + FEPS*std::fabs(v)*2 + 1e-37);
}
inline Num operator+(Num a, Num b) { return rnd(a.v + b.v, a.e + b.e); }
inline Num operator-(Num a, Num b) { return rnd(a.v - b.v, a.e + b.e); }
inline Num operator-(Num a) { return Num(-a.v, a.e); }
inline Num operator*(Num a, Num b) { return rnd(a.v*b.v, a.e*std::fabs(b.v) + b.e*std::fabs(a.v) + a.e*b.e); }
inline Num operator/(Num a, Num b) {
    if (std::fabs(b.v) <= 2*b.e || b.v == 0) return undecided();
    double m = std::fabs(b.v) - b.e;
    return rnd(a.v/b.v, (a.e + std::fabs(a.v/b.v)*b.e)/m + FEPS*std::fabs(a.v/b.v)*2*((double)(float)(a.v/b.v) != a.v/b.v || a.e || b.e));
}
// tri-state truth
struct Tri { bool v; bool ok; };
inline Tri lt(Num a, Num b) { double d = b.v - a.v, e = a.e + b.e; if (!std::isfinite(e) || (e > 0 && std::fabs(d) <= e*2)) return {false, false}; return {d > 0, true}; }
inline Tri eq(Num a, Num b) { double d = b.v - a.v, e = a.e + b.e; if (!std::isfinite(e) || (e > 0 && std::fabs(d) <= e*2)) return {false, false}; return {d == 0, true}; }

// A function of several numbers: the inherited error and a few roundings of each input, to first order.
typedef std::function<double(const double*)> Fn;
inline Num ap(const Fn& f, const std::vector<Num>& a, bool exact = false, double ulps = 8) {
    size_t n = a.size(); std::vector<double> x(n); double e = 0; bool anyErr = false;
    for (size_t i = 0; i < n; ++i) { if (!std::isfinite(a[i].v) || !std::isfinite(a[i].e)) return undecided(); x[i] = a[i].v; anyErr |= a[i].e > 0; }
    double c = f(x.data()); if (!std::isfinite(c)) return undecided();
    if (!(exact && !anyErr))
        for (size_t i = 0; i < n; ++i) {
            double d = a[i].e + (exact ? 0 : 4*FEPS*std::fabs(a[i].v) + 1e-37);
            x[i] = a[i].v + d; double p = f(x.data()); x[i] = a[i].v - d; double q = f(x.data()); x[i] = a[i].v;
            if (!std::isfinite(p) || !std::isfinite(q)) return undecided();
            e += std::max(std::fabs(p - c), std::fabs(q - c));
        }
    if (exact) return rnd(c, e*2);
    return Num(c, e*2 + ulps*FEPS*std::fabs(c) + 1e-7*1e-3);
}

struct Val { T t = F; std::array<Num, 16> n; std::string s; bool sok = true; };
inline Val mk(T t, Num a) { Val v; v.t = t; v.n[0] = a; return v; }
inline Val mk3(T t, Num a, Num b, Num c) { Val v; v.t = t; v.n[0] = a; v.n[1] = b; v.n[2] = c; return v; }
inline Val str(const std::string& s, bool ok = true) { Val v; v.t = S; v.s = s; v.sok = ok; return v; }
inline Val allBad(T t) { Val v; v.t = t; v.sok = false; for (auto& x : v.n) x = undecided(); return v; }
inline Val matVal(const M16& m) { Val v; v.t = M; for (int i = 0; i < 16; ++i) v.n[i] = Num((double)(float)m[i], (double)(float)m[i] == m[i] ? 0 : FEPS*std::fabs(m[i])*2); return v; }

typedef std::map<std::string, Val> Env;         // variables at one shading point

struct Expr; typedef std::shared_ptr<Expr> E;
struct Expr {
    enum K { LIT, VAR, BIN, NEG, CALL, TRIPLE, COND, REL, LOGIC, NOT, CAST, MATLIT } k = LIT;
    T t = F; std::string op;                    // operator, variable, function or space name
    std::vector<E> a; double lit = 0; std::string s;
    T as[8] = {};                               // types the arguments are passed as
    bool polyRet = false;                       // needs an explicit cast to choose the overload
};

inline std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%.9g", std::fabs(d)); return b; }
inline int prec(const E& e) {
    if (e->k == Expr::BIN) { char c = e->op[0]; return c == '+' || c == '-' ? 5 : c == '^' ? 6 : c == '*' || c == '/' ? 7 : 8; }
    if (e->k == Expr::NEG || (e->k == Expr::LIT && std::signbit(e->lit) && e->t == F)) return 9;
    if (e->k == Expr::REL) return 4;
    if (e->k == Expr::LOGIC) return e->op == "&&" ? 3 : 2;
    if (e->k == Expr::NOT) return 9;
    if (e->k == Expr::CAST) return 9;
    return 10;
}
inline std::string print(const E& e);
inline std::string wrap(const E& e, int min) { return prec(e) < min ? "(" + print(e) + ")" : print(e); }
inline bool exactType(const E& e, T t) {
    if (e->k == Expr::VAR || e->k == Expr::CAST) return e->t == t;
    if (e->k == Expr::LIT) return e->t == t;
    if (e->t != t) return false;
    return t == F || t == C || t == M || t == S;
}
inline std::string argStr(const E& e, T want) { return exactType(e, want) ? print(e) : std::string(TN[want]) + " (" + print(e) + ")"; }
inline std::string print(const E& e) {
    switch (e->k) {
        case Expr::LIT: if (e->t == S) return "\"" + e->s + "\""; return (std::signbit(e->lit) ? "-" : "") + num(e->lit);
        case Expr::VAR: return e->op;
        case Expr::NEG: return "-" + wrap(e->a[0], 9);
        case Expr::BIN: { int p = prec(e); return wrap(e->a[0], p) + " " + e->op + " " + wrap(e->a[1], p + 1); }
        case Expr::REL: return wrap(e->a[0], 5) + " " + e->op + " " + wrap(e->a[1], 5);
        case Expr::LOGIC: { int p = prec(e); return wrap(e->a[0], p) + " " + e->op + " " + wrap(e->a[1], p + 1); }
        case Expr::NOT: return "!(" + print(e->a[0]) + ")";
        case Expr::COND: return "((" + print(e->a[0]) + ") ? " + wrap(e->a[1], 5) + " : " + wrap(e->a[2], 5) + ")";
        case Expr::TRIPLE: return std::string(TN[e->t]) + " " + (e->s.empty() ? "" : "\"" + e->s + "\" ") + "(" + print(e->a[0]) + ", " + print(e->a[1]) + ", " + print(e->a[2]) + ")";
        case Expr::MATLIT: { std::string r = "matrix (" ; for (int i = 0; i < 16; ++i) r += (i ? ", " : "") + print(e->a[i]); return r + ")"; }
        case Expr::CAST: return std::string(TN[e->t]) + " (" + print(e->a[0]) + ")";
        case Expr::CALL: {
            std::string r = (e->polyRet ? std::string(TN[e->t]) + " " : "") + e->op + "(";
            for (size_t i = 0; i < e->a.size(); ++i) r += (i ? ", " : "") + argStr(e->a[i], e->as[i < 8 ? i : 7]);
            return r + ")";
        }
    }
    return "?";
}

// The number of digits printed is not part of the language: numbers in expected strings are
// marked and compared by value, to the six significant digits any format gives.
inline bool sameText(const std::string& got, const std::string& want) {
    const char* g = got.c_str(); size_t i = 0;
    while (i < want.size()) {
        if (want[i] != '\x01') { if (*g != want[i]) return false; ++g; ++i; continue; }
        char* e; double v = strtod(want.c_str() + i + 1, &e), err = strtod(e + 1, &e); i = e - want.c_str() + 1;
        char* ge; double x = strtod(g, &ge); if (ge == g) return false; g = ge;
        if (!(std::fabs(x - v) <= 1.5*err + 2e-5*std::fabs(v) + 1e-6)) return false;
    }
    return *g == 0;
}

struct Ctx { const Spaces* sp; };

// ---- evaluation ---------------------------------------------------------------------------
inline Val eval(const E& e, const Env& env, const Ctx& cx);
inline Num dot(const Val& a, const Val& b) { return a.n[0]*b.n[0] + a.n[1]*b.n[1] + a.n[2]*b.n[2]; }
inline Val triple(T t, const std::function<Num(int)>& f) { return mk3(t, f(0), f(1), f(2)); }
inline Num nsqrt(Num x) { if (x.v - x.e < 0) return x.v > -1e-30 && x.e == 0 ? Num(0) : undecided(); return ap([](const double* p) { return p[0] <= 0 ? 0 : std::sqrt(p[0]); }, {x}); }
inline Val conv(const Val& v, T t) {
    if (v.t == t) return v;
    if (v.t == F && t != M && t != S) return mk3(t, v.n[0], v.n[0], v.n[0]);
    if (v.t == F && t == M) { Val r; r.t = M; for (int i = 0; i < 4; ++i) r.n[i*4+i] = v.n[0]; if (true) for (int i = 0; i < 16; ++i) if (i % 5) r.n[i] = Num(0); return r; }
    if (comps(v.t) == 3 && comps(t) == 3) { Val r = v; r.t = t; return r; }
    pbt::fail("harness: bad conversion");
}
inline Tri evalRel(const E& e, const Env& env, const Ctx& cx);
inline Val mmul(const Val& a, const Val& b) { Val r; r.t = M; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { Num s(0); for (int k = 0; k < 4; ++k) s = s + a.n[i*4+k]*b.n[k*4+j]; r.n[i*4+j] = s; } return r; }
inline Num mcof(const Val& m, int r, int c) {
    Num s[9]; int k = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != r && j != c) s[k++] = m.n[i*4+j];
    Num d = s[0]*(s[4]*s[8] - s[5]*s[7]) - s[1]*(s[3]*s[8] - s[5]*s[6]) + s[2]*(s[3]*s[7] - s[4]*s[6]);
    return (r + c) & 1 ? -d : d;
}
inline Num mdet(const Val& m) { Num d(0); for (int j = 0; j < 4; ++j) d = d + m.n[j]*mcof(m, 0, j); return d; }
inline double mnorm(const Val& m) { double s = 0; for (auto& x : m.n) s = std::max(s, std::fabs(x.v) + x.e); return s; }
inline Val minv(const Val& m) {
    Num d = mdet(m); Val r; r.t = M;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.n[j*4+i] = mcof(m, i, j)/d;
    // the inverse may be computed by elimination: allow for a condition-number error
    double k = mnorm(m)*mnorm(r)*16;
    for (auto& x : r.n) x.e += FEPS*k*mnorm(r)*8;
    return r;
}
inline Val xform(const Val& m, const Val& p, T t, bool point) {
    Num c[4]; for (int j = 0; j < 4; ++j) { Num s(0); for (int i = 0; i < 3; ++i) s = s + p.n[i]*m.n[i*4+j]; if (point) s = s + m.n[12+j]; c[j] = s; }
    if (point) { if (!(c[3].e == 0 && c[3].v == 1)) for (int j = 0; j < 3; ++j) c[j] = c[j]/c[3]; }
    return mk3(t, c[0], c[1], c[2]);
}
inline double hueToRgb(double m1, double m2, double h) { h -= std::floor(h); if (6*h < 1) return m1 + (m2 - m1)*h*6; if (2*h < 1) return m2; if (3*h < 2) return m1 + (m2 - m1)*(2./3 - h)*6; return m1; }
inline void toRgb(const std::string& sp, const double* c, double* o) {
    if (sp == "hsv") {
        double h = c[0], s = c[1], v = c[2]; h -= std::floor(h); h *= 6; int i = (int)h; double f = h - i, p = v*(1 - s), q = v*(1 - s*f), t = v*(1 - s*(1 - f));
        double r[6][3] = {{v, t, p}, {q, v, p}, {p, v, t}, {p, q, v}, {t, p, v}, {v, p, q}}; for (int k = 0; k < 3; ++k) o[k] = r[i % 6][k];
    } else if (sp == "hsl") {
        double h = c[0], s = c[1], l = c[2]; double m2 = l <= .5 ? l*(1 + s) : l + s - l*s, m1 = 2*l - m2;
        o[0] = hueToRgb(m1, m2, h + 1./3); o[1] = hueToRgb(m1, m2, h); o[2] = hueToRgb(m1, m2, h - 1./3);
    } else for (int k = 0; k < 3; ++k) o[k] = c[k];
}
inline Val colIn(const std::string& sp, const Val& c) {
    if (sp == "rgb" || sp.empty()) return c;
    // the defined domain of these spaces
    for (int k = 0; k < 3; ++k) if (c.n[k].bad() || c.n[k].v < 0.01 || c.n[k].v > 0.99) return allBad(C);
    return triple(C, [&](int k) { return ap([&](const double* x) { double o[3]; toRgb(sp, x, o); return o[k]; }, {c.n[0], c.n[1], c.n[2]}, false, 32); });
}
inline double splineRef(const std::string& basis, double u, const double* cv, int n) {
    // segments of four consecutive control values
    int step = basis == "bezier" ? 3 : basis == "hermite" ? 2 : 1;
    int segs = (n - 4)/step + 1;
    if (u < 0) u = 0; if (u > 1) u = 1;
    double x = u*segs; int s = (int)std::floor(x); if (s >= segs) s = segs - 1; double t = x - s; const double* c = cv + s*step;
    double a = t*t*t, b = t*t;
    if (basis == "bspline") return ((-a + 3*b - 3*t + 1)*c[0] + (3*a - 6*b + 4)*c[1] + (-3*a + 3*b + 3*t + 1)*c[2] + a*c[3])/6;
    if (basis == "linear") return c[1] + (c[2] - c[1])*t;
    if (basis == "bezier") { double q = 1 - t; return q*q*q*c[0] + 3*q*q*t*c[1] + 3*q*t*t*c[2] + a*c[3]; }
    return ((-a + 2*b - t)*c[0] + (3*a - 5*b + 2)*c[1] + (-3*a + 4*b + t)*c[2] + (a - b)*c[3])/2;
}

inline Num fn1(const std::string& f, Num x) {
    auto A = [&](double (*g)(double), double ulps = 8) { return ap([g](const double* p) { return g(p[0]); }, {x}, false, ulps); };
    if (f == "radians") return x*Num(M_PI/180, FEPS*0.02);
    if (f == "degrees") return x*Num(180/M_PI, FEPS*60);
    if (f == "sin") return A(std::sin); if (f == "cos") return A(std::cos);
    if (f == "tan") return std::fabs(std::cos(x.v)) < 0.05 ? undecided() : A(std::tan);
    if (f == "asin") return std::fabs(x.v) + x.e > 0.999 ? undecided() : A(std::asin);
    if (f == "acos") return std::fabs(x.v) + x.e > 0.999 ? undecided() : A(std::acos);
    if (f == "atan") return A(std::atan);
    if (f == "exp") return std::fabs(x.v) > 40 ? undecided() : A(std::exp);
    if (f == "sqrt") return nsqrt(x);
    if (f == "inversesqrt") return x.v - 2*x.e <= 1e-6 ? undecided() : ap([](const double* p) { return 1/std::sqrt(p[0]); }, {x});
    if (f == "log") return x.v - 2*x.e <= 1e-6 ? undecided() : A(std::log);
    if (f == "abs") return Num(std::fabs(x.v), x.e);
    if (f == "sign") { Tri z = lt(x, Num(0)), p = lt(Num(0), x); if (!z.ok || !p.ok || z.v == p.v) return undecided(); return Num(z.v ? -1 : 1); }
    if (f == "floor") return ap([](const double* p) { return std::floor(p[0]); }, {x}, true);
    if (f == "ceil") return ap([](const double* p) { return std::ceil(p[0]); }, {x}, true);
    if (f == "round") { Num r = ap([](const double* p) { return std::floor(p[0] + .5); }, {x}, true); if (std::fabs(x.v - std::floor(x.v) - .5) < 1e-4) return undecided(); return r; }
    pbt::fail("harness: fn1 " + f);
}
inline Num nmin(Num a, Num b) { Tri t = lt(a, b); if (!t.ok) { if (!std::isfinite(a.e + b.e)) return undecided(); return Num(std::min(a.v, b.v), std::max(a.e, b.e)*3); } return t.v ? a : b; }
inline Num nmax(Num a, Num b) { return -nmin(-a, -b); }

inline Val evalCall(const E& e, const Env& env, const Ctx& cx) {
    std::vector<Val> a; for (size_t i = 0; i < e->a.size(); ++i) a.push_back(conv(eval(e->a[i], env, cx), e->as[i < 8 ? i : 7]));
    const std::string& f = e->op; T t = e->t;
    auto comp = [&](int i) { return [&, i](int k) { return a[i].n[k]; }; }; (void)comp;
    if (f == "min" || f == "max") { Val r = a[0]; for (size_t i = 1; i < a.size(); ++i) for (int k = 0; k < comps(t); ++k) r.n[k] = f == "min" ? nmin(r.n[k], a[i].n[k]) : nmax(r.n[k], a[i].n[k]); r.t = t; return r; }
    if (f == "clamp") {
        Val r = a[0]; for (int k = 0; k < comps(t); ++k) { Tri o = lt(a[2].n[k], a[1].n[k]); if (!o.ok || o.v) r.n[k] = undecided(); else r.n[k] = nmin(nmax(a[0].n[k], a[1].n[k]), a[2].n[k]); } return r;
    }
    if (f == "mix") { Val r = a[0]; for (int k = 0; k < comps(t); ++k) { Num w = a[2].n[a[2].t == F ? 0 : k]; r.n[k] = (Num(1) - w)*a[0].n[k] + w*a[1].n[k]; } return r; }
    if (f == "spline") {
        size_t o = e->as[0] == S ? 1 : 0; std::string basis = o ? a[0].s : "catmull-rom"; int n = (int)a.size() - (int)o - 1;
        Val r; r.t = t;
        for (int k = 0; k < comps(t); ++k) {
            std::vector<Num> in{a[o].n[0]}; for (int i = 0; i < n; ++i) in.push_back(a[o+1+i].n[k]);
            double u = a[o].n[0].v, eu = a[o].n[0].e;
            r.n[k] = ap([&](const double* x) { return splineRef(basis, x[0], x + 1, n); }, in, false, 32);
            double big = 0; for (auto& x : in) big = std::max(big, std::fabs(x.v)); r.n[k].e += 64*FEPS*big;
            // ends: aqsis returns the second value from either end, which is the limit only for interpolating bases
            if (u - eu <= 1e-5 || u + eu >= 1 - 1e-5) if (basis != "catmull-rom" && basis != "linear") r.n[k] = undecided();
            if (basis == "linear") { double q = u*(n - 3); if (std::fabs(q - std::round(q)) < 1e-4) r.n[k].e += 1e-3*big; }
        }
        return r;
    }
    if (a.size() == 1 && t == F && a[0].t == F) return mk(F, fn1(f, a[0].n[0]));
    if (f == "atan") {
        double r = std::hypot(a[0].n[0].v, a[1].n[0].v); if (!(r > 0.01) || (a[1].n[0].v < 0.01 && std::fabs(a[0].n[0].v) < 1e-3)) return allBad(F);
        return mk(F, ap([](const double* p) { return std::atan2(p[0], p[1]); }, {a[0].n[0], a[1].n[0]}));
    }
    if (f == "pow") {
        Num x = a[0].n[0], y = a[1].n[0];
        if (x.v <= 0.01) { if (!(x.e == 0 && y.e == 0 && y.v == std::floor(y.v) && y.v > 0 && y.v < 5 && x.v != 0)) return allBad(F);
            double r = std::pow(x.v, y.v); return mk(F, Num(r, 8*FEPS*std::fabs(r))); }
        if (std::fabs(y.v*std::log(x.v)) > 30) return allBad(F);
        return mk(F, ap([](const double* p) { return std::pow(p[0], p[1]); }, {x, y}, false, 32));
    }
    if (f == "log") {
        Num x = a[0].n[0], b = a[1].n[0]; if (x.v - 2*x.e < 1e-4 || b.v - 2*b.e < 1e-4 || std::fabs(b.v - 1) < 0.05) return allBad(F);
        return mk(F, ap([](const double* p) { return std::log(p[0])/std::log(p[1]); }, {x, b}, false, 16));
    }
    if (f == "mod") {
        Num x = a[0].n[0], b = a[1].n[0]; if (b.v - 2*b.e < 1e-3 || std::fabs(x.v/b.v) > 1e4) return allBad(F);
        if (x.e == 0 && b.e == 0 && std::fmod(x.v*1024, 1) == 0 && std::fmod(b.v*1024, 1) == 0 && std::fabs(x.v) < 64 && b.v < 64) {
            double q = x.v/b.v; if (q == std::floor(q)) return mk(F, Num(0));
            if (std::fabs(q - std::round(q)) < 1e-5) return allBad(F);
            return mk(F, Num(x.v - b.v*std::floor(q), FEPS*16*(std::fabs(x.v) + b.v)));
        }
        Num r = ap([](const double* p) { return p[0] - p[1]*std::floor(p[0]/p[1]); }, {x, b}); r.e += FEPS*16*(std::fabs(x.v) + b.v);
        return mk(F, r);
    }
    if (f == "step") { Tri z = lt(a[1].n[0], a[0].n[0]); if (!z.ok) return allBad(F); return mk(F, Num(z.v ? 0 : 1)); }
    if (f == "smoothstep") {
        Tri o = lt(a[0].n[0], a[1].n[0]); if (!o.ok || !o.v || a[1].n[0].v - a[0].n[0].v < 1e-3) return allBad(F);
        return mk(F, ap([](const double* p) { double x = (p[2] - p[0])/(p[1] - p[0]); if (x <= 0) return 0.; if (x >= 1) return 1.; return x*x*(3 - 2*x); }, {a[0].n[0], a[1].n[0], a[2].n[0]}));
    }
    if (f == "xcomp") return mk(F, a[0].n[0]);
    if (f == "ycomp") return mk(F, a[0].n[1]);
    if (f == "zcomp") return mk(F, a[0].n[2]);
    if (f == "comp" && a[0].t == C) { if (a[1].n[0].e) return allBad(F); return mk(F, a[0].n[(int)a[1].n[0].v]); }
    if (f == "comp") { if (a[1].n[0].e || a[2].n[0].e) return allBad(F); return mk(F, a[0].n[(int)a[1].n[0].v*4 + (int)a[2].n[0].v]); }
    if (f == "length") return mk(F, nsqrt(dot(a[0], a[0])));
    if (f == "distance") { Val d = triple(V, [&](int k) { return a[0].n[k] - a[1].n[k]; }); return mk(F, nsqrt(dot(d, d))); }
    if (f == "normalize") { Num l = nsqrt(dot(a[0], a[0])); if (l.bad() || l.v < 1e-2) return allBad(t); return triple(t, [&](int k) { return a[0].n[k]/l; }); }
    if (f == "faceforward") {
        // the surface element's side is given by Ng unless a reference normal is passed
        Val ref = a.size() > 2 ? a[2] : env.at("Ng");
        Tri s = lt(Num(0), dot(a[1], ref)), z = lt(dot(a[1], ref), Num(0)), s2 = lt(Num(0), dot(a[0], ref));
        if (!s.ok || !z.ok || s.v == z.v) return allBad(t);
        if (a.size() == 2 && (!s2.ok || !s2.v)) return allBad(t);
        return triple(t, [&](int k) { return s.v ? -a[0].n[k] : a[0].n[k]; });
    }
    if (f == "reflect") { Num d = Num(2)*dot(a[0], a[1]); return triple(t, [&](int k) { return a[0].n[k] - d*a[1].n[k]; }); }
    if (f == "refract") {
        Num d = dot(a[0], a[1]), eta = a[2].n[0], k = Num(1) - eta*eta*(Num(1) - d*d); Tri z = lt(k, Num(0)); if (!z.ok) return allBad(t);
        // defined for unit vectors on opposite sides
        Num li = dot(a[0], a[0]), ln = dot(a[1], a[1]);
        if (std::fabs(li.v - 1) > 1e-3 || std::fabs(ln.v - 1) > 1e-3 || eta.v < .1) return allBad(t);
        if (z.v) return mk3(t, Num(0), Num(0), Num(0));
        Num q = eta*d + nsqrt(k); return triple(t, [&](int c) { return eta*a[0].n[c] - q*a[1].n[c]; });
    }
    if (f == "rotate" && t != M) {
        Val d = triple(V, [&](int k) { return a[3].n[k] - a[2].n[k]; }); Num l2 = dot(d, d); if (l2.bad() || l2.v < .01) return allBad(t);
        std::vector<Num> in; for (int k = 0; k < 3; ++k) in.push_back(a[0].n[k]); in.push_back(a[1].n[0]);
        for (int k = 0; k < 3; ++k) in.push_back(a[2].n[k]); for (int k = 0; k < 3; ++k) in.push_back(a[3].n[k]);
        for (auto& x : in) if (x.bad() || std::fabs(x.v) > 1e4) return allBad(t);
        return triple(t, [&](int c) {
            Num r = ap([c](const double* p) {
                double ax[3], q[3], L = 0, dd = 0; for (int k = 0; k < 3; ++k) { ax[k] = p[7+k] - p[4+k]; q[k] = p[k] - p[4+k]; L += ax[k]*ax[k]; }
                L = std::sqrt(L); for (int k = 0; k < 3; ++k) { ax[k] /= L; dd += ax[k]*q[k]; }
                double cr[3] = {ax[1]*q[2] - ax[2]*q[1], ax[2]*q[0] - ax[0]*q[2], ax[0]*q[1] - ax[1]*q[0]};
                return p[4+c] + q[c]*std::cos(p[3]) + cr[c]*std::sin(p[3]) + ax[c]*dd*(1 - std::cos(p[3]));
            }, in);
            double big = 0; for (auto& x : in) big = std::max(big, std::fabs(x.v)); r.e += 32*FEPS*big; return r; });
    }
    if (f == "ptlined") {
        std::vector<Num> in; for (int j = 0; j < 3; ++j) for (int k = 0; k < 3; ++k) in.push_back(a[j].n[k]);
        double big = 0; for (auto& x : in) { if (x.bad()) return allBad(F); big = std::max(big, std::fabs(x.v)); }
        Num r = ap([](const double* p) {
            double d[3], q[3], l = 0, t = 0; for (int k = 0; k < 3; ++k) { d[k] = p[3+k] - p[k]; q[k] = p[6+k] - p[k]; l += d[k]*d[k]; t += d[k]*q[k]; }
            t = l > 0 ? std::min(1., std::max(0., t/l)) : 0; double s = 0; for (int k = 0; k < 3; ++k) { double x = q[k] - t*d[k]; s += x*x; } return std::sqrt(s); }, in);
        r.e += 16*FEPS*big; if (r.v < 1e-3*big) r.e += 1e-3*big; return mk(F, r);
    }
    if (f == "determinant") { Num d = mdet(a[0]); double n = mnorm(a[0]); d.e += 64*FEPS*n*n*n*n*(d.e > 0); return mk(F, d); }
    if (f == "transform" || f == "vtransform" || f == "ntransform") {
        bool pt = f[0] == 't', nm = f[0] == 'n';
        if (a[0].t == M) { if (nm) { return xform(conv(matVal(ident()), M), a[1], t, false), allBad(t); }
            // a point which ends up at infinity has no value (aqsis asserts)
            if (pt) { Num h = a[1].n[0]*a[0].n[3] + a[1].n[1]*a[0].n[7] + a[1].n[2]*a[0].n[11] + a[0].n[15]; if (h.bad() || std::fabs(h.v) < 1e-3 + 2*h.e) throw pbt::Discard(); }
            return xform(a[0], a[1], t, pt); }
        std::string from = a.size() == 3 ? a[0].s : "current", to = a.size() == 3 ? a[1].s : a[0].s; const Val& p = a.back();
        M16 m; if (!cx.sp->between(from, to, m)) return allBad(t);
        if (!pt) m = linear(m); if (nm) m = transpose(inverse(m));
        return xform(matVal(m), p, t, pt);
    }
    if (f == "ctransform") {
        std::string from = a.size() == 3 ? a[0].s : "rgb", to = a.size() == 3 ? a[1].s : a[0].s; Val c = colIn(from, a.back());
        if (to == "rgb") return c;
        // judged by going back: the caller only generates the round trip
        return allBad(C);
    }
    if (f == "translate") { M16 i = ident(); Val tm = matVal(i); for (int k = 0; k < 3; ++k) tm.n[12+k] = a[1].n[k]; return mmul(a[0], tm); }
    if (f == "scale") { Val sm = matVal(ident()); for (int k = 0; k < 3; ++k) sm.n[k*5] = a[1].n[k]; return mmul(a[0], sm); }
    if (f == "rotate") {
        Num l2 = dot(a[2], a[2]); if (l2.bad() || l2.v < .01) return allBad(M);
        std::vector<Num> in{a[1].n[0], a[2].n[0], a[2].n[1], a[2].n[2]}; for (auto& x : in) if (x.bad() || std::fabs(x.v) > 1e4) return allBad(M);
        Val rm = matVal(ident());
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { rm.n[i*4+j] = ap([i, j](const double* p) {
            double L = std::sqrt(p[1]*p[1] + p[2]*p[2] + p[3]*p[3]), x[3] = {p[1]/L, p[2]/L, p[3]/L}, c = std::cos(p[0]), s = std::sin(p[0]);
            double cr[3][3] = {{0, x[2], -x[1]}, {-x[2], 0, x[0]}, {x[1], -x[0], 0}};   // row vectors
            return (i == j ? c : 0) + x[i]*x[j]*(1 - c) + cr[i][j]*s; }, in); rm.n[i*4+j].e += 8*FEPS; }
        return mmul(a[0], rm);
    }
    if (f == "concat") { std::string r; bool ok = true; for (auto& x : a) { r += x.s; ok &= x.sok; } return str(r, ok); }
    if (f == "format") {
        std::string r, fm = a[0].s; size_t k = 1; bool ok = a[0].sok; char b[64];
        for (size_t i = 0; i < fm.size(); ++i) {
            if (fm[i] != '%') { r += fm[i]; continue; }
            ++i; Val& v = a[k++];
            if (fm[i] == 's') { r += v.s; ok &= v.sok; continue; }
            int n = comps(v.t); for (int c = 0; c < n; ++c) { if (v.n[c].bad()) ok = false; snprintf(b, sizeof b, "%s\x01%.12g;%.3g\x02", c ? "," : "", v.n[c].v, v.n[c].e); r += b; }
        }
        return str(r, ok);
    }
    if (f == "match") { if (!a[0].sok || !a[1].sok || a[1].s.find('\x01') != std::string::npos) return allBad(F); return mk(F, Num(a[1].s.find(a[0].s) != std::string::npos)); }
    pbt::fail("harness: call " + f);
}
inline Tri evalRel(const E& e, const Env& env, const Ctx& cx) {
    if (e->k == Expr::NOT) { Tri a = evalRel(e->a[0], env, cx); return {!a.v, a.ok}; }
    if (e->k == Expr::LOGIC) {
        Tri a = evalRel(e->a[0], env, cx), b = evalRel(e->a[1], env, cx); bool o = e->op == "||";
        if (a.ok && a.v == o) return {o, true}; if (b.ok && b.v == o) return {o, true};
        return {o ? a.v || b.v : a.v && b.v, a.ok && b.ok};
    }
    Val a = eval(e->a[0], env, cx), b = eval(e->a[1], env, cx); const std::string& o = e->op;
    if (a.t == S && (a.s + b.s).find('\x01') != std::string::npos) return {false, false};
    if (a.t == S) { bool q = a.s == b.s; return {o == "==" ? q : !q, a.sok && b.sok}; }
    if (a.t == F) {
        if (o == "<") return lt(a.n[0], b.n[0]); if (o == ">") return lt(b.n[0], a.n[0]);
        if (o == "<=") { Tri r = lt(b.n[0], a.n[0]); return {!r.v, r.ok}; } if (o == ">=") { Tri r = lt(a.n[0], b.n[0]); return {!r.v, r.ok}; }
        Tri r = eq(a.n[0], b.n[0]); return {o == "==" ? r.v : !r.v, r.ok};
    }
    bool all = true, ok = true, no = false; for (int k = 0; k < comps(a.t); ++k) { Tri r = eq(a.n[k], b.n[k]); if (r.ok && !r.v) no = true; ok &= r.ok; all &= r.v; }
    if (no) return {o != "==", true}; return {o == "==" ? all : !all, ok};
}
inline Val eval(const E& e, const Env& env, const Ctx& cx) {
    switch (e->k) {
        case Expr::LIT: return e->t == S ? str(e->s) : mk(F, Num((double)(float)e->lit));
        case Expr::VAR: { auto i = env.find(e->op); if (i == env.end()) pbt::fail("harness: variable " + e->op); return i->second; }
        case Expr::NEG: { Val v = eval(e->a[0], env, cx); for (int k = 0; k < comps(v.t); ++k) v.n[k] = -v.n[k]; v.t = e->t; return v; }
        case Expr::CAST: return conv(eval(e->a[0], env, cx), e->t);
        case Expr::TRIPLE: {
            Val v = mk3(e->t, eval(e->a[0], env, cx).n[0], eval(e->a[1], env, cx).n[0], eval(e->a[2], env, cx).n[0]);
            if (e->s.empty()) return v;
            if (e->t == C) return colIn(e->s, v);
            M16 m; if (!cx.sp->between(e->s, "current", m)) return allBad(e->t);
            if (e->t != P) m = linear(m); if (e->t == N) m = transpose(inverse(m));
            return xform(matVal(m), v, e->t, e->t == P);
        }
        case Expr::MATLIT: { Val v; v.t = M; for (int i = 0; i < 16; ++i) v.n[i] = eval(e->a[i], env, cx).n[0]; return v; }
        case Expr::COND: {
            Tri c = evalRel(e->a[0], env, cx); Val x = conv(eval(e->a[1], env, cx), e->t), y = conv(eval(e->a[2], env, cx), e->t);
            if (!c.ok) return allBad(e->t); return c.v ? x : y;
        }
        case Expr::BIN: {
            Val a = eval(e->a[0], env, cx), b = eval(e->a[1], env, cx);
            if (e->op == ".") return mk(F, dot(a, b));
            if (e->op == "^") return mk3(e->t, a.n[1]*b.n[2] - a.n[2]*b.n[1], a.n[2]*b.n[0] - a.n[0]*b.n[2], a.n[0]*b.n[1] - a.n[1]*b.n[0]);
            if (e->t == M) { a = conv(a, M); b = conv(b, M); return e->op == "*" ? mmul(b, a) : mmul(minv(b), a); }   // A*B applies B first, as the C++ matrices do
            Val r; r.t = e->t;
            for (int k = 0; k < comps(e->t); ++k) {
                Num x = a.n[a.t == F ? 0 : k], y = b.n[b.t == F ? 0 : k];
                r.n[k] = e->op == "+" ? x + y : e->op == "-" ? x - y : e->op == "*" ? x*y : x/y;
            }
            return r;
        }
        case Expr::CALL: return evalCall(e, env, cx);
        default: { Tri t = evalRel(e, env, cx); return t.ok ? mk(F, Num(t.v)) : allBad(F); }
    }
}

// ---- generation ---------------------------------------------------------------------------
struct Var { std::string name; T t; bool varying; };
struct Gen {
    pbt::Src& src; std::vector<Var> vars; bool uniformOnly = false; std::vector<std::string> spaces; bool exactOnly = false;
    Gen(pbt::Src& s) : src(s) {}
    E node(Expr::K k, T t) { E e = std::make_shared<Expr>(); e->k = k; e->t = t; return e; }
    E flit() { E e = node(Expr::LIT, F); e->lit = litVal(); return e; }
    double litVal() {
        if (exactOnly || !src.chance(25)) return (double)src.range(-16, 16)/(src.coin() ? 1 : 4);
        return (float)((double)src.range(-100000, 100000)/(src.coin() ? 10000. : 100000.));
    }
    E slit() { static const char* w[] = {"", "a", "abc", "bc", "hello world", "x_1", "abab"}; E e = node(Expr::LIT, S); e->s = w[src.range(0, 6)]; return e; }
    E call(T t, const std::string& f, std::vector<E> a, std::vector<T> as, bool poly = false) { E e = node(Expr::CALL, t); e->op = f; e->a = a; for (size_t i = 0; i < 8; ++i) e->as[i] = i < as.size() ? as[i] : as.back(); e->polyRet = poly; return e; }
    E bin(T t, const std::string& o, E a, E b) { E e = node(Expr::BIN, t); e->op = o; e->a = {a, b}; return e; }
    T anyGeo() { return (T)src.range(P, N); }
    E leaf(T t) {
        std::vector<int> c; for (size_t i = 0; i < vars.size(); ++i) if (vars[i].t == t && !(uniformOnly && vars[i].varying)) c.push_back((int)i);
        if (!c.empty() && src.chance(70)) { E e = node(Expr::VAR, t); e->op = vars[c[src.range(0, (int)c.size() - 1)]].name; return e; }
        if (t == F) return flit();
        if (t == S) return slit();
        if (t == M) { E e = node(Expr::MATLIT, M); bool persp = src.chance(15); for (int i = 0; i < 16; ++i) { E x = flit(); if (i % 4 == 3 && !persp) x->lit = i == 15; e->a.push_back(x); } return e; }
        E e = node(Expr::TRIPLE, t); e->a = {flit(), flit(), flit()}; return e;
    }
    E triple3(T t, int d) { E e = node(Expr::TRIPLE, t); e->a = {gen(F, d), gen(F, d), gen(F, d)}; return e; }
    E cond(int d) {
        int k = src.range(0, 9);
        if (d > 0 && k == 0) { E e = node(Expr::NOT, F); e->a = {cond(d - 1)}; return e; }
        if (d > 0 && k <= 2) { E e = node(Expr::LOGIC, F); e->op = src.coin() ? "&&" : "||"; e->a = {cond(d - 1), cond(d - 1)}; return e; }
        E e = node(Expr::REL, F);
        T t = k <= 7 ? F : k == 8 ? (src.coin() ? C : anyGeo()) : S;
        static const char* ops[] = {"<", ">", "<=", ">=", "==", "!="};
        e->op = ops[t == F ? src.range(0, 5) : src.range(4, 5)];
        e->a = {gen(t, d - 1), gen(t, d - 1)};
        return e;
    }
    E gen(T t, int d) {
        if (d <= 0 || src.chance(12)) return leaf(t);
        if (t != S && src.chance(6)) { E e = node(Expr::COND, t); e->a = {cond(d - 1), gen(t, d - 1), gen(t, d - 1)}; return e; }
        switch (t) {
            case F: return genF(d);
            case C: return genC(d);
            case M: return genM(d);
            case S: return genS(d);
            default: return genG(t, d);
        }
    }
    E arith(T t, int d) {
        static const char* ops[] = {"+", "-", "*", "/"}; const char* o = ops[src.range(0, 3)];
        if (t == F) return bin(F, o, gen(F, d - 1), gen(F, d - 1));
        int k = src.range(0, 3);      // same type, float with triple, triple with float, mixed triples
        if (k == 1) return bin(t, o, gen(F, d - 1), gen(t, d - 1));
        if (k == 2) return bin(t, o, gen(t, d - 1), gen(F, d - 1));
        if (k == 3 && geo(t)) return bin(t, src.coin() ? "+" : "-", gen(P, d - 1), gen(V, d - 1));
        return bin(t, o, gen(t, d - 1), gen(t, d - 1));
    }
    E genF(int d) {
        int k = src.range(0, 30);
        if (k < 10) return arith(F, d);
        if (k == 10) { E e = node(Expr::NEG, F); e->a = {gen(F, d - 1)}; return e; }
        if (k == 11) { T a = anyGeo(), b = anyGeo(); return bin(F, ".", gen(a, d - 1), gen(b, d - 1)); }
        static const char* one[] = {"radians", "degrees", "sin", "cos", "tan", "asin", "acos", "atan", "exp", "sqrt", "inversesqrt", "log", "abs", "sign", "floor", "ceil", "round"};
        if (k < 17) { std::string f = one[src.range(0, 16)]; E x = gen(F, d - 1); if (f == "sqrt" || f == "log" || f == "inversesqrt") if (src.chance(60)) x = call(F, "abs", {x}, {F}); return call(F, f, {x}, {F}); }
        switch (k) {
            case 17: return call(F, "atan", {gen(F, d - 1), gen(F, d - 1)}, {F});
            case 18: { E x = gen(F, d - 1); if (src.chance(60)) x = call(F, "abs", {x}, {F}); return call(F, src.coin() ? "pow" : "log", {x, gen(F, d - 1)}, {F}); }
            case 19: return call(F, "mod", {gen(F, d - 1), gen(F, d - 1)}, {F});
            case 20: case 21: { int n = src.range(2, 5); std::vector<E> a; for (int i = 0; i < n; ++i) a.push_back(gen(F, d - 1)); return call(F, src.coin() ? "min" : "max", a, {F}); }
            case 22: return call(F, src.coin() ? "clamp" : "mix", {gen(F, d - 1), gen(F, d - 1), gen(F, d - 1)}, {F});
            case 23: return src.coin() ? call(F, "step", {gen(F, d - 1), gen(F, d - 1)}, {F}) : call(F, "smoothstep", {gen(F, d - 1), gen(F, d - 1), gen(F, d - 1)}, {F});
            case 24: { static const char* f[] = {"xcomp", "ycomp", "zcomp"}; T g = anyGeo(); return call(F, f[src.range(0, 2)], {gen(g, d - 1)}, {g}); }
            case 25: { E i = flit(); i->lit = src.range(0, 2); return call(F, "comp", {gen(C, d - 1), i}, {C, F}); }
            case 26: { E i = flit(), j = flit(); i->lit = src.range(0, 3); j->lit = src.range(0, 3); return call(F, "comp", {gen(M, d - 1), i, j}, {M, F, F}); }
            case 27: return src.coin() ? call(F, "length", {gen(V, d - 1)}, {V}) : call(F, "distance", {gen(P, d - 1), gen(P, d - 1)}, {P});
            case 28: return src.coin() ? call(F, "ptlined", {gen(P, d - 1), gen(P, d - 1), gen(P, d - 1)}, {P}) : call(F, "determinant", {gen(M, d - 1)}, {M});
            case 29: return spline(F, d);
            default: { static const char* w[] = {"a", "bc", "abc", "b", "ab"}; E p = slit(); p->s = w[src.range(0, 4)]; return call(F, "match", {p, gen(S, d - 1)}, {S}); }
        }
    }
    E spline(T t, int d) {
        static const char* bs[] = {"catmull-rom", "bspline", "linear", "bezier"};
        bool named = src.coin(); std::string b = named ? bs[src.range(0, 3)] : "catmull-rom"; int n = 4 + (b == "bezier" ? 3*src.range(0, 2) : src.range(0, 4));
        E u = src.chance(80) ? call(F, "mod", {gen(F, d - 1), oneLit()}, {F}) : gen(F, d - 1);
        std::vector<E> a; std::vector<T> as; if (named) { E s = slit(); s->s = b; a.push_back(s); as.push_back(S); }
        a.push_back(u); as.push_back(F); for (int i = 0; i < n; ++i) { a.push_back(gen(t, std::min(d - 1, 1))); } as.push_back(t);
        return call(t, "spline", a, as, t != F && false);
    }
    E oneLit() { E e = flit(); e->lit = 1; return e; }
    E genC(int d) {
        int k = src.range(0, 15);
        if (k < 6) return arith(C, d);
        switch (k) {
            case 6: { E e = node(Expr::NEG, C); e->a = {gen(C, d - 1)}; return e; }
            case 7: case 8: return triple3(C, d - 1);
            case 9: { E e = node(Expr::CAST, C); e->a = {gen(F, d - 1)}; return e; }
            case 10: return call(C, "mix", {gen(C, d - 1), gen(C, d - 1), gen(F, d - 1)}, {C, C, F});
            case 11: return call(C, "mix", {gen(C, d - 1), gen(C, d - 1), gen(C, d - 1)}, {C, C, C});
            case 12: { int n = src.range(2, 4); std::vector<E> a; for (int i = 0; i < n; ++i) a.push_back(gen(C, d - 1)); return call(C, src.coin() ? "min" : "max", a, {C}); }
            case 13: return call(C, "clamp", {gen(C, d - 1), gen(C, d - 1), gen(C, d - 1)}, {C});
            case 14: { E e = triple3(C, d - 1); for (auto& x : e->a) x = call(F, "mod", {x, oneLit()}, {F}); e->s = src.coin() ? "hsv" : src.coin() ? "hsl" : "rgb";
                       if (src.coin()) { E f = slit(); f->s = e->s; e->s = ""; E to = slit(); to->s = "rgb"; return call(C, "ctransform", {f, to, e}, {S, S, C}); } return e; }
            default: return spline(C, d);
        }
    }
    E unit(T t, int d) { return call(t, "normalize", {gen(t, d)}, {t}); }
    std::string space() { return spaces.empty() ? "current" : spaces[src.range(0, (int)spaces.size() - 1)]; }
    E sp() { E e = slit(); e->s = space(); return e; }
    E genG(T t, int d) {
        int k = src.range(0, 19);
        if (k < 6) return arith(t, d);
        switch (k) {
            case 6: { E e = node(Expr::NEG, t); e->a = {gen(t, d - 1)}; return e; }
            case 7: case 8: { E e = triple3(t, d - 1); if (src.coin()) e->s = space(); return e; }
            case 9: { E e = node(Expr::CAST, t); T f = src.coin() ? F : src.coin() ? C : anyGeo(); if (f == C) f = V; e->a = {gen(f, d - 1)}; return e; }
            case 10: return bin(t, "^", gen(t, d - 1), gen(t, d - 1));
            case 11: return call(t, "mix", {gen(t, d - 1), gen(t, d - 1), gen(src.coin() ? F : C, d - 1)}, {t, t, F}), fixMix(t, d);
            case 12: { int n = src.range(2, 4); std::vector<E> a; for (int i = 0; i < n; ++i) a.push_back(gen(t, d - 1)); return call(t, src.coin() ? "min" : "max", a, {t}); }
            case 13: return call(t, "clamp", {gen(t, d - 1), gen(t, d - 1), gen(t, d - 1)}, {t});
            case 14: return unit(t, d - 1);
            case 15: { std::vector<E> a{gen(N, d - 1), gen(V, d - 1)}; a.push_back(gen(N, d - 1)); return call(t, "faceforward", a, {N, V, N}); }
            case 16: return src.coin() ? call(t, "reflect", {gen(V, d - 1), gen(N, d - 1)}, {V, N}) : call(t, "refract", {unit(V, d - 1), unit(N, d - 1), gen(F, d - 1)}, {V, N, F});
            case 17: return call(t, "rotate", {gen(P, d - 1), gen(F, d - 1), gen(P, d - 1), gen(P, d - 1)}, {P, F, P, P});
            case 18: {
                std::string f = t == P ? "transform" : t == V ? "vtransform" : "ntransform"; int w = src.range(0, 2);
                if (w == 0 && t != N) return call(t, f, {gen(M, d - 1), gen(t, d - 1)}, {M, t});
                if (w == 1) return call(t, f, {sp(), gen(t, d - 1)}, {S, t});
                return call(t, f, {sp(), sp(), gen(t, d - 1)}, {S, S, t});
            }
            default: return t == N ? arith(t, d) : spline(t, d);
        }
    }
    E fixMix(T t, int d) { T w = src.coin() ? F : C; return call(t, "mix", {gen(t, d - 1), gen(t, d - 1), gen(w, d - 1)}, {t, t, w}); }
    E genM(int d) {
        int k = src.range(0, 7);
        if (k < 2) return bin(M, "*", gen(M, d - 1), gen(M, d - 1));
        if (k == 2) return bin(M, "/", gen(M, d - 1), gen(M, d - 1));
        if (k == 3) { E e = node(Expr::CAST, M); e->a = {gen(F, d - 1)}; return e; }
        if (k == 4) return call(M, "translate", {gen(M, d - 1), gen(V, d - 1)}, {M, V});
        if (k == 5) return call(M, "rotate", {gen(M, d - 1), gen(F, d - 1), gen(V, d - 1)}, {M, F, V});
        if (k == 6) return call(M, "scale", {gen(M, d - 1), gen(P, d - 1)}, {M, P});
        E e = node(Expr::MATLIT, M); for (int i = 0; i < 16; ++i) { E x = src.chance(30) ? gen(F, std::min(1, d - 1)) : flit(); if (i % 4 == 3) { x = flit(); x->lit = i == 15; } e->a.push_back(x); } return e;
    }
    E genS(int d) {
        if (src.coin()) { int n = src.range(2, 4); std::vector<E> a; for (int i = 0; i < n; ++i) a.push_back(gen(S, d - 1)); return call(S, "concat", a, {S}); }
        if (src.coin()) return leaf(S);
        std::string f = "<"; std::vector<E> a{slit()}; std::vector<T> as{S}; int n = src.range(1, 3);
        for (int i = 0; i < n; ++i) switch (src.range(0, 3)) {
            case 0: f += "%f;"; a.push_back(gen(F, d - 1)); as.push_back(F); break;
            case 1: f += "%p "; a.push_back(gen(P, d - 1)); as.push_back(P); break;
            case 2: f += "%c|"; a.push_back(gen(C, d - 1)); as.push_back(C); break;
            default: f += "%s "; a.push_back(gen(S, d - 1)); as.push_back(S);
        }
        a[0]->s = f; return call(S, "format", a, as);
    }
    bool ng = false;
};
inline int count(const E& e) { int n = 1; for (auto& x : e->a) n += count(x); return n; }
}
#endif
