// Independent model of the interface rules: scopes, ranges, array lengths, class counts.
#ifndef VERIF_RI_SCOPE_H
#define VERIF_RI_SCOPE_H
#include "ri_model.h"
using namespace rim;

struct Model {
    std::vector<std::string> scopes; std::vector<std::pair<int,int>> steps; bool relaxed;
    std::vector<int> res; // open resource blocks per scope level
    std::vector<std::vector<std::string>> arch; // blocks opened inside the archive at this level
    Model(bool r) : relaxed(r) { scopes.push_back(r ? "Any" : "BeginEnd"); steps.push_back({3, 3}); res.push_back(0); arch.push_back({}); }
    const std::string& top() const { return scopes.back(); }
};

static bool inList(const char* list, const std::string& s) { std::istringstream is(list); std::string x; while (std::getline(is, x, ',')) if (x == s) return true; return false; }
static std::vector<int> asInts(const Val& v) { return v.i; }

// values of named arguments for length expressions
struct ArgView {
    std::map<std::string, const Val*> v;
    ArgView(const Proc& p, const Call& c) { size_t j = 0; for (auto& a : p.args) { if (a.kind[0] == 'A') continue; if (j < c.a.size()) v[a.name] = &c.a[j++]; } }
    long size(const std::string& n) const { const Val* x = v.at(n); return x->k == 'I' ? x->i.size() : x->k == 'F' ? x->f.size() : x->s.size(); }
    long sum(const std::string& n, int st = 0, int step = 1) const { long t = 0; for (size_t i = st; i < v.at(n)->i.size(); i += step) t += v.at(n)->i[i]; return t; }
    long mx(const std::string& n) const { long t = 0; bool first = true; for (int x : v.at(n)->i) { if (first || x > t) t = x; first = false; } return t; }
    long num(const std::string& n) const { return v.at(n)->i[0]; }
    bool has(const std::string& n) const { return v.count(n); }
};
static long lengthOf(const std::string& e, const ArgView& a) {
    if (e == "size(nRGB)") return a.size("nRGB");
    if (e == "size(order)") return a.size("order");
    if (e == "size(u)") return a.size("u");
    if (e == "sum(ncurves)") return a.sum("ncurves");
    if (e == "sum(nargs,1,2)") return a.sum("nargs", 1, 2);
    if (e == "sum(nargs,0,2)") return a.sum("nargs", 0, 2);
    if (e == "sum(nverts)") return a.sum("nverts");
    if (e == "sum(nvertices)") return a.sum("nvertices");
    if (e == "sum(nloops)") return a.sum("nloops");
    if (e == "sum(n)") return a.sum("n");
    if (e == "nu+uorder") return a.num("nu") + a.num("uorder");
    if (e == "nv+vorder") return a.num("nv") + a.num("vorder");
    if (e == "sum(order)+sum(n)") return a.sum("order") + a.sum("n");
    if (e == "2*size(tags)") return 2*a.size("tags");
    fail("harness: unknown length expression " + e);
}
static long countP(const std::vector<PVal>& l) { for (auto& p : l) { if (p.name == "P") return p.size()/3; if (p.name == "Pw") return p.size()/4; } return -1; }

/// Expected element counts, -1: not determined.  {uniform, varying, vertex, facevarying, facevertex}
static bool counts(const Proc& p, const Call& c, const Model& m, long out[5]) {
    std::string n = p.name; ArgView a(p, c); const std::vector<PVal>* pl = 0; for (auto& v : c.a) if (v.k == 'L') pl = &v.pl;
    auto set = [&](long u, long v, long x, long fv) { out[0] = u; out[1] = v; out[2] = x; out[3] = fv; out[4] = fv; };
    set(1, 1, 1, 1);
    if (n == "Polygon" || n == "Points") { long k = countP(*pl); if (k < 0) return false; set(1, k, k, k); }
    else if (n == "GeneralPolygon") { long k = a.sum("nverts"); set(1, k, k, k); }
    else if (n == "PointsPolygons") { long k = a.mx("verts") + 1; set(a.size("nverts"), k, k, a.sum("nverts")); }
    else if (n == "PointsGeneralPolygons") { long k = a.mx("verts") + 1; set(a.size("nloops"), k, k, a.sum("nverts")); }
    else if (n == "SubdivisionMesh") { long k = a.mx("vertices") + 1; set(a.size("nvertices"), k, k, a.sum("nvertices")); }
    else if (n == "Patch") { bool bl = c.a[0].s[0] == "bilinear"; set(1, 4, bl ? 4 : 16, 4); }
    else if (n == "NuPatch") { long k = (2 + a.num("nu") - a.num("uorder"))*(2 + a.num("nv") - a.num("vorder")); set(k, k, a.num("nu")*a.num("nv"), k); }
    else if (n == "Blobby") { long k = a.num("nleaf"); set(1, k, k, k); }
    else if (n == "Geometry") set(-1, -1, -1, -1);
    else if (strstr(p.iclass, "Varying=4")) set(1, 4, 4, 4);
    else if (n == "PatchMesh") {
        bool bl = c.a[0].s[0] == "bilinear", up = c.a[2].s[0] == "periodic", vp = c.a[4].s[0] == "periodic"; long nu = c.a[1].i[0], nv = c.a[3].i[0];
        long us = m.steps.back().first, vs = m.steps.back().second;
        if (m.top() == "Archive") { set(-1, -1, -1, -1); return true; }
        long pu = bl ? (up ? nu : nu - 1) : up ? nu/us : (nu - 4)/us + 1, pv = bl ? (vp ? nv : nv - 1) : vp ? nv/vs : (nv - 4)/vs + 1;
        set(pu*pv, (pu + !up)*(pv + !vp), nu*nv, 1);
        if (!bl && m.relaxed) out[0] = out[1] = -1;
    } else if (n == "Curves") {
        if (m.top() == "Archive") { set(-1, -1, -1, -1); return true; }
        bool lin = c.a[0].s[0] == "linear", per = c.a[2].s[0] == "periodic"; long var = 0, vs = m.steps.back().second;
        for (int x : c.a[1].i) var += lin ? x : per ? x/vs : (x - 4)/vs + 2;
        set(c.a[1].i.size(), var, a.sum("nvertices"), 1);
        if (!lin && m.relaxed) out[1] = -1;
    }
    return true;
}

static bool needsP(const std::string& n) { return n == "Polygon" || n == "GeneralPolygon" || n == "PointsPolygons" || n == "Points" || n == "Curves"; }

/// "" when the call is legal, otherwise why not.
static std::string illegal(const Proc& p, const Call& c, const Model& m) {
    if (strcmp(p.scopes, "*") && m.top() != "Any" && !inList(p.scopes, m.top())) return "scope " + m.top();
    ArgView a(p, c);
    for (auto& g : p.args) if (*g.range && a.has(g.name)) {
        const Val& v = *a.v[g.name]; std::istringstream is(g.range); std::string item;
        while (std::getline(is, item, ';')) {
            std::string op = item.substr(0, 2), rhs = item.substr(3); double x = v.k == 'i' ? (double)v.i[0] : v.f[0], y;
            if (a.has(rhs)) { const Val& w = *a.v[rhs]; y = w.k == 'i' ? (double)w.i[0] : w.f[0]; } else y = rhs == "RI_EPSILON" ? FLT_EPSILON : atof(rhs.c_str());
            bool ok = op == "ne" ? x != y : op == "gt" ? x > y : op == "ge" ? x >= y : op == "lt" ? x < y : x <= y;
            if (!ok) return "range " + item + " of " + g.name;
        }
    }
    for (auto& g : p.args) if (*g.length && a.has(g.name)) if (a.size(g.name) < lengthOf(g.length, a)) return std::string("length of ") + g.name;
    for (auto& v : c.a) if (v.k == 'L') {
        long n[5]; if (!counts(p, c, m, n)) return "no P";
        // inside an archive the basis at replay time is unknown: the check waits for the replay
        bool later = m.top() == "Archive" && (c.name == "PatchMesh" || c.name == "Curves");
        if (!later) for (auto& q : v.pl) {
            long k = q.spec.iclass == TS::Constant ? 1 : q.spec.iclass == TS::Uniform ? n[0] : q.spec.iclass == TS::Varying ? n[1] : q.spec.iclass == TS::Vertex ? n[2] : q.spec.iclass == TS::FaceVarying ? n[3] : n[4];
            if (k*q.spec.storageCount() > (long)q.size()) return "length of parameter " + q.name;
        }
        if (needsP(p.name) && countP(v.pl) < 0) return "no P";
    }
    return "";
}

static void apply(Model& m, const Call& c) {
    const std::string& n = c.name;
    auto ends = [&](const char* s) { size_t l = strlen(s); return n.size() > l && n.compare(n.size() - l, l, s) == 0; };
    if (n == "Basis") m.steps.back() = {c.a[1].i[0], c.a[3].i[0]};
    if (n == "ResourceBegin") { m.res.back()++; return; }
    if (n == "ResourceEnd") { m.res.back()--; return; }
    if (n == "IfBegin" || n == "IfEnd") return;
    if (ends("Begin")) {
        std::string sc = n.substr(0, n.size() - 5);
        if (m.top() == "Archive" && sc != "Archive") { m.arch.back().push_back(sc); m.steps.push_back(m.steps.back()); return; }
        m.scopes.push_back(sc); m.res.push_back(0); m.arch.push_back({});
        m.steps.push_back(m.steps.back()); // transform blocks share the attribute state, see below
    } else if (ends("End")) {
        std::string sc = n.substr(0, n.size() - 3);
        auto pop = [&] { auto s = m.steps.back(); m.steps.pop_back(); if (sc == "Transform") m.steps.back() = s; };
        if (m.top() == "Archive" && sc != "Archive") { if (!m.arch.back().empty()) { m.arch.back().pop_back(); pop(); } return; }
        if (m.scopes.size() == 1) return;
        m.scopes.pop_back(); m.res.pop_back(); m.arch.pop_back(); pop();
    }
}

/// Parameters whose required count the interface leaves open are kept out.
static bool faceAmbiguous(const std::string& n) { return !(n == "Polygon" || n == "GeneralPolygon" || n == "PointsPolygons" || n == "PointsGeneralPolygons" || n == "SubdivisionMesh"); }
static void tidy(const std::string& n, Call& c) {
    if (c.a.empty() || c.a.back().k != 'L') return;
    auto& l = c.a.back().pl;
    for (size_t i = 0; i < l.size(); ) { bool bad = (faceAmbiguous(n) && (l[i].spec.iclass == TS::FaceVarying || l[i].spec.iclass == TS::FaceVertex)) || (n == "NuPatch" && l[i].spec.iclass == TS::Uniform); if (bad) l.erase(l.begin() + i); else ++i; }
}

static bool usable(const Model& m, const std::string& n) {
    if (n == "ResourceEnd" && m.res.back() == 0) return false;
    auto isEnd = n.size() > 3 && n.compare(n.size() - 3, 3, "End") == 0 && n != "IfEnd" && n != "ResourceEnd";
    if (n == "Basis" && (m.res.back() > 0 || m.top() == "Motion" || m.relaxed || m.top() == "Archive")) return false;
    if (m.top() == "Archive" && isEnd) {
        std::string sc = n.substr(0, n.size() - 3);
        if (sc == "Archive") return m.arch.back().empty() && m.res.back() == 0;
        if (m.arch.back().empty() || m.arch.back().back() != sc) return false;
    } else if (isEnd && m.top() == n.substr(0, n.size() - 3) && m.res.back() > 0) return false;
    return true;
}

#endif
