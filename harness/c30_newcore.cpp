// C30: the structures of the new core driven with generated histories against plain models.
#define AQSIS_USE_THREADS
#include "pbt.h"
#include "ustring.h"
#include "util.h"
#include "varspec.h"
#include "arrayview.h"
#include "primvar.h"
#include "gridstorage.h"
#include "treearraystorage.h"
#include "occlusion.h"
#include "samplegen.h"
#include "pointinquad.h"
#include "invbilin.h"
#include "filters.h"
#include "bucketscheduler.h"
#include <thread>
#include <map>
#include <set>
using namespace Aqsis; using pbt::Src; using std::string; using std::vector;
static string fmt(const char* f, ...) { char b[2000]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof(b), f, ap); va_end(ap); return b; }
#define REQUIRE(c, ...) do { if(!(c)) pbt::fail(fmt(__VA_ARGS__)); } while(0)

static string genText(Src& s)
{
    static const char* base[] = {"P", "Cs", "Ci", "s", "t", "a", "ab", "abc", "P ", "p", "Ng", "N", "x1", "x10"}; if(s.coin()) return s.pick(base);
    int n = s.chance(5) ? s.range(15, 40) : s.range(1, 6); string r; for(int i = 0; i < n; ++i) r += s.chance(80) ? "abAB01"[s.range(0, 5)] : (char)s.range(1, 255); return r;
}
PBT_SUITE(names, 60000, 3000000)
{ // interned strings: a name is its content, whatever other names were made before
    vector<std::pair<string, ustring>> v; string key; int n = src.range(2, 30);
    for(int i = 0; i < n; ++i)
    {
        string t = v.size() && src.chance(30) ? v[src.range(0, v.size() - 1)].first : genText(src); ustring u; src.note(t); key += t + "\n";
        switch(src.range(0, 7))
        {
            case 0: u = ustring(t.c_str()); break; case 1: u = ustring(t); break; case 2: u = t; break; case 3: u.assign(t.c_str()); break;
            case 4: { int k = src.range(0, t.size() - 1); string w = t.substr(0, k + 1); u = ustring(t, 0, k + 1); t = w; break; }
            case 5: { int k = src.range(0, t.size() - 1), m = src.range(1, 8); string w = t.substr(k, m); u = ustring(ustring(t), k, m); t = w; break; }
            case 6: { int k = src.range(1, 6); t = string(k, t[0]); u = ustring(k, t[0]); break; }
            default: { int len = src.chance(10) ? src.range(1000, 2500) : src.range(1, 40), x = src.range(-99, 99); string w = t + string(src.coin() ? std::max(0, len - (int)t.size()) : len, 'q'); u = ustring::format("%s%d", w.c_str(), x); t = w + std::to_string(x); if(src.chance(10)) { int m = 1024 + src.range(-3, 3); w.assign(m, 'r'); u = ustring::format("%s", w.c_str()); t = w; } }
        }
        REQUIRE(string(u.c_str()) == t && u.string() == t && u.length() == t.size() && u.size() == t.size() && string(u.begin(), u.end()) == t && !u.empty(), "the name made from\n%.600s\nreads back as\n%.600s (%d characters for %d)", t.c_str(), u.c_str(), (int)u.length(), (int)t.size());
        v.push_back({t, u});
    }
    for(auto& a : v) for(auto& b : v)
    {
        bool same = a.first == b.first; REQUIRE((a.second == b.second) == same && (a.second != b.second) == !same && (a.second == b.first) == same && (a.first != b.second) == !same, "the names %.200s and %.200s compare wrongly", a.first.c_str(), b.first.c_str());
        int c = strcmp(a.first.c_str(), b.first.c_str()); REQUIRE((a.second < b.second) == (c < 0) && (a.second.compare(b.second) < 0) == (c < 0) && (a.second.compare(b.first) > 0) == (c > 0), "the names %.200s and %.200s are in the wrong order", a.first.c_str(), b.first.c_str());
        if(same) REQUIRE(a.second.hash() == b.second.hash(), "two hashes of one name %.200s", a.first.c_str());
    }
    for(auto& a : v) REQUIRE(a.second.string() == a.first, "a name changed");
    src.nontrivial(key);
}
static VarSpec genSpec(Src& s, bool anyType)
{
    static const VarSpec stds[] = {Stdvar::P, Stdvar::Cs, Stdvar::Ci, Stdvar::Os, Stdvar::Oi, Stdvar::s, Stdvar::t, Stdvar::u, Stdvar::v, Stdvar::I, Stdvar::N, Stdvar::Ng};
    if(s.chance(60)) { VarSpec v = s.pick(stds); if(s.chance(15)) v.arraySize = s.range(1, 3); if(anyType && s.chance(10)) v.type = VarSpec::Float; return v; }
    static const VarSpec::Type ty[] = {VarSpec::Float, VarSpec::Point, VarSpec::Vector, VarSpec::Normal, VarSpec::Color, VarSpec::Matrix, VarSpec::Hpoint}; VarSpec v; v.type = ty[s.range(0, anyType ? 6 : 4)]; v.arraySize = s.chance(70) ? 1 : s.range(2, 4); v.name = ustring(genText(s)); return v;
}
static string text(const VarSpec& v) { static const char* n[] = {"float", "point", "hpoint", "vector", "normal", "color", "matrix", "string"}; return fmt("%s %.100s[%d]", n[v.type], v.name.c_str(), v.arraySize); }
static int width(VarSpec::Type t) { return t == VarSpec::Float || t == VarSpec::String ? 1 : t == VarSpec::Matrix ? 16 : t == VarSpec::Hpoint ? 4 : 3; }
typedef std::map<string, VarSpec> Model; // keyed by text
static const std::pair<StdIndices::Id, const VarSpec*> STD[] = {{StdIndices::P, &Stdvar::P}, {StdIndices::Cs, &Stdvar::Cs}, {StdIndices::Ci, &Stdvar::Ci}, {StdIndices::Os, &Stdvar::Os}, {StdIndices::Oi, &Stdvar::Oi}, {StdIndices::s, &Stdvar::s}, {StdIndices::t, &Stdvar::t}, {StdIndices::u, &Stdvar::u}, {StdIndices::v, &Stdvar::v}, {StdIndices::I, &Stdvar::I}, {StdIndices::N, &Stdvar::N}, {StdIndices::Ng, &Stdvar::Ng}};
template<class S> static void checkSet(const S& set, const Model& m, Src& src)
{
    REQUIRE(set.size() == (int)m.size(), "a set of %d variables has %d", (int)m.size(), set.size());
    for(int i = 0; i < set.size(); ++i) REQUIRE(m.count(text(set[i])), "a variable %s which is not in the set", text(set[i]).c_str());
    for(int i = 1; i < set.size(); ++i) REQUIRE(set[i-1] < set[i], "the variables are not in order");
    for(auto& e : m) { int i = set.find(e.second); REQUIRE(i >= 0 && i < set.size() && text(set[i]) == e.first && set.contains(e.second), "%s is in the set but found at %d", e.first.c_str(), i); }
    for(int k = 0; k < 6; ++k) { VarSpec q = genSpec(src, true); REQUIRE(set.contains(q) == (m.count(text(q)) > 0) && (set.find(q) >= 0) == (m.count(text(q)) > 0), "membership of %s is wrong", text(q).c_str()); }
    for(auto& e : STD) { bool in = m.count(text(*e.second)); int i = set.find(e.first); REQUIRE(set.contains(e.first) == in && (in ? i >= 0 && i < set.size() && text(set[i]) == text(*e.second) : i == -1), "the standard variable %s %s the set but is found at %d", text(*e.second).c_str(), in ? "is in" : "is not in", i); }
}
PBT_SUITE(sets, 60000, 3000000)
{
    VarSet set; string key; int n = src.range(1, 4);
    for(int k = 0; k < n; ++k)
    {
        Model m; vector<VarSpec> v; int c = src.range(0, 12); src.note("assign"); for(int i = 0; i < c; ++i) { VarSpec q = genSpec(src, true); if(m.insert({text(q), q}).second) { v.push_back(q); src.note("  " + text(q)); key += text(q); } }
        set.assign(v.begin(), v.end()); checkSet(set, m, src); for(auto& q : v) REQUIRE(q.scalarSize() == width(q.type)*q.arraySize, "%s takes %d numbers", text(q).c_str(), q.scalarSize());
        VarSet copy(set.begin(), set.end()); checkSet(copy, m, src);
    }
    src.nontrivial(key);
}
PBT_SUITE(views, 60000, 3000000)
{ // copies and differences through views of any stride, against arrays
    int el = src.range(1, 4), n = src.range(1, 9), ds = el + src.range(0, 3), ss = src.chance(15) ? 0 : el + src.range(0, 3); vector<float> d(ds*n + 4), s(std::max(ss, el)*n + 4); for(auto& x : d) x = src.smallInt(50); for(auto& x : s) x = src.smallInt(50); vector<float> want = d; int off = src.range(0, 3);
    src.note(fmt("element %d count %d strides %d %d", el, n, ds, ss)); for(int i = 0; i < n; ++i) for(int k = 0; k < el; ++k) want[i*ds+k] = s[i*ss+k];
    FvecView dv(d.data(), el, ds); ConstFvecView sv(s.data(), el, ss); copy(dv, sv, n); REQUIRE(d == want, "copying %d elements of %d numbers between strides %d and %d", n, el, ss, ds);
    REQUIRE(dv.isDense() == (ds == el) && dv.stride() == ds && dv.elSize() == el && sv.uniform() == (ss == 0), "shape of the view");
    int i = src.range(0, n - 1); REQUIRE(dv[i] == d.data() + i*ds && *(dv + i) == d.data() + i*ds, "element %d of the view", i); int m = src.range(1, 3); REQUIRE(slice(dv, m)[i] == d.data() + i*ds*m, "element %d of a slice by %d", i, m); FvecView it = dv; for(int k = 0; k < i; ++k) ++it; REQUIRE(*it == dv[i], "stepping to element %d", i);
    // differences along a sequence of numbers and of points
    int len = src.range(2, 9), str = src.range(1, 3), q = src.range(0, len - 1); bool centred = src.chance(70); vector<float> f(len*str); vector<V3f> p(len*str); float c0 = src.smallInt(9), c1 = src.smallInt(9), c2 = src.smallInt(5); for(int k = 0; k < len*str; ++k) { f[k] = src.smallInt(99); p[k] = V3f(src.smallInt(99)); }
    auto F = [&](int k) { return c0 + c1*k + c2*k*k; }; for(int k = 0; k < len; ++k) { f[k*str] = F(k); p[k*str] = V3f(F(k), -F(k), 2*F(k)); }
    float w = centred && len > 2 ? c1 + 2*c2*q : q == len - 1 ? F(q) - F(q-1) : F(q+1) - F(q); float g = diff(ConstDataView<float>(f.data(), str) + q, q, len, centred); V3f h = diff(DataView<V3f>((float*)p.data(), 3*str) + q, q, len, centred);
    REQUIRE(std::fabs(g - w) < 1e-3 && (h - V3f(w, -w, 2*w)).length() < 1e-3, "the difference of %g + %gk + %gkk at %d of %d is %g rather than %g (%g %g %g)", c0, c1, c2, q, len, g, w, h.x, h.y, h.z); (void)off;
    src.nontrivial();
}
struct Cell { float* p; int el, stride, n; float base; };
static void fillAndCheck(vector<Cell>& c, Src& src)
{ // write every value of every variable, in some order, then read all: they are disjoint
    for(int r = 0; r < 2; ++r) { vector<int> o(c.size()); for(size_t i = 0; i < o.size(); ++i) o[i] = i; for(size_t i = o.size(); i > 1; --i) std::swap(o[i-1], o[src.range(0, i - 1)]);
    for(int k : o) for(int i = 0; i < c[k].n; ++i) for(int j = 0; j < c[k].el; ++j) c[k].p[i*c[k].stride+j] = c[k].base + 1000*r + i*c[k].el + j;
    for(auto& q : c) for(int i = 0; i < q.n; ++i) for(int j = 0; j < q.el; ++j) REQUIRE(q.p[i*q.stride+j] == q.base + 1000*r + i*q.el + j, "a value was overwritten by that of another variable"); }
}
PBT_SUITE(grids, 40000, 2000000)
{
    GridStorageBuilder b; string key; int rounds = src.range(1, 3);
    for(int r = 0; r < rounds; ++r)
    {
        Model m; std::map<string, std::pair<int, std::set<bool>>> how; int n = src.range(1, 10), geomFrom = src.chance(60) ? src.range(0, n) : n; src.note("grid");
        for(int i = 0; i < n; ++i)
        {
            if(i == geomFrom) b.setFromGeom(); VarSpec q = genSpec(src, false); bool uni = src.coin(); int prec = i >= geomFrom; string t = text(q); src.note(fmt("  %s %s%s", t.c_str(), uni ? "uniform" : "varying", prec ? " from the geometry" : "")); key += t; m[t] = q;
            if(src.coin()) b.add(q, uni ? GridStorage::Uniform : GridStorage::Varying); else { static const PrimvarSpec::Iclass u[] = {PrimvarSpec::Constant, PrimvarSpec::Uniform}, w[] = {PrimvarSpec::Varying, PrimvarSpec::Vertex, PrimvarSpec::FaceVarying, PrimvarSpec::FaceVertex}; b.add(PrimvarSpec(uni ? src.pick(u) : src.pick(w), q.type, q.arraySize, q.name)); }
            auto& e = how[t]; if(e.second.empty() || prec > e.first) { e.first = prec; e.second = {uni}; } else if(prec == e.first) e.second.insert(uni);
        }
        int nv = src.range(1, 20); GridStoragePtr g = b.build(nv); checkSet(g->varSet(), m, src); REQUIRE(g->nverts() == nv, "number of vertices"); vector<Cell> c; int mx = 0;
        for(auto& e : m)
        {
            FvecView v = g->get(e.second); int el = width(e.second.type)*e.second.arraySize; mx = std::max(mx, el); REQUIRE((const void*)v && v.elSize() == el, "%s has elements of %d numbers", e.first.c_str(), v.elSize()); bool uni = v.uniform(); auto& h = how[e.first]; REQUIRE(h.second.count(uni), "%s is stored as %s", e.first.c_str(), uni ? "uniform" : "varying"); REQUIRE(uni || v.isDense(), "%s is not dense", e.first.c_str());
            c.push_back({v.storage(), el, v.stride(), uni ? 1 : nv, 10000.f*c.size()});
        }
        fillAndCheck(c, src); REQUIRE(g->maxAggregateSize() == mx, "the largest element has %d numbers rather than %d", g->maxAggregateSize(), mx); VarSpec no(VarSpec::Color, 7, ustring("none")); REQUIRE(!(const void*)g->get(no), "a variable which is not there was found");
        for(auto& e : STD) if(m.count(text(*e.second))) { REQUIRE(g->get(e.first).storage() == g->get(*e.second).storage(), "%s is two things", text(*e.second).c_str()); bool dg = b.dicedByGeom(*g, e.first); REQUIRE(dg == (how[text(*e.second)].first > 0), "%s %s from the geometry", text(*e.second).c_str(), dg ? "is taken for one" : "is not taken for one"); }
        b.clear();
    }
    src.nontrivial(key);
}
PBT_SUITE(primvars, 40000, 2000000)
{
    PrimvarStorageBuilder b; IclassStorage cnt(src.range(1, 4), src.range(1, 5), src.range(1, 7), src.range(1, 7), src.range(1, 7)); Model m; string key; std::map<string, vector<float>> data, want; std::map<string, vector<int>> idx; std::map<string, PrimvarSpec> specs; int n = src.range(1, 8); bool shortOne = src.chance(8), isShort = false;
    for(int i = 0; i < n; ++i)
    {
        VarSpec q = genSpec(src, false); string t = text(q); if(!m.insert({t, q}).second) continue; PrimvarSpec::Iclass cl = (PrimvarSpec::Iclass)src.range(0, 5); PrimvarSpec ps(cl, q.type, q.arraySize, q.name); specs[t] = ps; int el = width(q.type)*q.arraySize, k = cnt.storage(cl); src.note(fmt("%s class %d of %d", t.c_str(), cl, k)); key += t + fmt("%d %d;", cl, k);
        if(src.coin())
        { // given directly
            int len = el*k; if(shortOne && !isShort) { len = src.range(0, len - 1); isShort = true; } auto& d = data[t]; for(int j = 0; j < len; ++j) d.push_back(src.smallInt(100)); b.add(ps, d.data(), len); want[t] = d;
        }
        else { int pool = src.range(1, 6); auto& d = data[t]; for(int j = 0; j < pool*el; ++j) d.push_back(src.smallInt(100)); auto& x = idx[t]; for(int j = 0; j < k; ++j) x.push_back(src.range(0, pool - 1)); b.add(ps, ConstFvecView(d.data(), el), x.data()); for(int j : x) want[t].insert(want[t].end(), d.begin() + j*el, d.begin() + (j+1)*el); }
    }
    PrimvarStoragePtr s; try { s = b.build(cnt); } catch(std::runtime_error&) { if(!isShort) pbt::fail("enough values were refused"); src.nontrivial(key); return; } if(isShort) pbt::fail("a variable with too few values was accepted");
    checkSet(s->varSet(), m, src); for(auto& e : m) { int i = s->varSet().find(e.second); ConstFvecView v = static_cast<const PrimvarStorage&>(*s).get(i); vector<float>& w = want[e.first]; int el = width(e.second.type)*e.second.arraySize; REQUIRE(v.elSize() == el && s->varSet()[i].iclass == specs[e.first].iclass, "shape of %s", e.first.c_str()); for(size_t j = 0; j < w.size(); ++j) REQUIRE(v[j/el][j%el] == w[j], "value %d of %s is %g rather than %g", (int)j, e.first.c_str(), v[j/el][j%el], w[j]); }
    // a change of coordinates
    M44f M(src.range(1, 3), src.smallInt(2), 0, 0, 0, src.range(1, 3), src.smallInt(2), 0, src.smallInt(1), 0, src.range(1, 3), 0, src.smallInt(), src.smallInt(), src.smallInt(), 1); M33f A(M[0][0], M[0][1], M[0][2], M[1][0], M[1][1], M[1][2], M[2][0], M[2][1], M[2][2]); float det = A[0][0]*(A[1][1]*A[2][2] - A[1][2]*A[2][1]) - A[0][1]*(A[1][0]*A[2][2] - A[1][2]*A[2][0]) + A[0][2]*(A[1][0]*A[2][1] - A[1][1]*A[2][0]); if(std::fabs(det) < 0.5f) { src.nontrivial(key); return; }
    s->transform(M); for(auto& e : m)
    {
        int i = s->varSet().find(e.second); FvecView v = s->get(i); vector<float>& w = want[e.first]; int el = v.elSize(); VarSpec::Type t = e.second.type;
        for(size_t j = 0; j + 2 < w.size() || (t == VarSpec::Float && j < w.size()); ++j)
        {
            float got = v[j/el][j%el]; if(t == VarSpec::Float || t == VarSpec::Color) { REQUIRE(got == w[j], "%s changed with the coordinates", e.first.c_str()); continue; } if(j % 3) continue;
            double x[3] = {w[j], w[j+1], w[j+2]}; float* g = v[j/el] + j%el;
            if(t == VarSpec::Normal) { double y[3]; for(int c = 0; c < 3; ++c) y[c] = A[c][0]*g[0] + A[c][1]*g[1] + A[c][2]*g[2]; for(int c = 0; c < 3; ++c) REQUIRE(std::fabs(y[c] - x[c]) < 1e-2*(1 + std::fabs(x[0]) + std::fabs(x[1]) + std::fabs(x[2])), "the normal %s became %g %g %g", e.first.c_str(), g[0], g[1], g[2]); }
            else for(int c = 0; c < 3; ++c) { double y = (t == VarSpec::Point ? M[3][c] : 0); for(int k = 0; k < 3; ++k) y += x[k]*M[k][c]; REQUIRE(std::fabs(y - g[c]) < 1e-3*(1 + std::fabs(y)), "element %d of %s became %g rather than %g", (int)j, e.first.c_str(), g[c], y); }
        }
    }
    src.nontrivial(key);
}
PBT_SUITE(trees, 20000, 1000000)
{ // the occlusion tree against an array of depths
    int w = src.range(1, 20), h = src.range(w == 1 ? 2 : 1, 20); OcclusionTree t(V2i(w, h)); t.reset(); vector<float> z(w*h, FLT_MAX); std::set<int> ids; string key = fmt("%dx%d", w, h); src.note(key);
    for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) REQUIRE(ids.insert(t.nodeIndex(i, j)).second, "two leaves share one node");
    int n = src.range(1, 60); for(int k = 0; k < n; ++k)
    {
        if(src.chance(60)) { int x = src.range(0, w - 1), y = src.range(0, h - 1); float d = src.range(1, 12); t.setDepth(t.nodeIndex(x, y), d); z[y*w+x] = d; src.note(fmt("depth of %d %d is %g", x, y, d)); if(src.chance(20)) { float e = src.range(1, 12); for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) { t.setDepth(t.nodeIndex(i, j), e); z[j*w+i] = e; } src.note(fmt("all depths %g", e)); } }
        else if(src.chance(3)) { t.reset(); z.assign(w*h, FLT_MAX); src.note("reset"); }
        else { int x0 = src.range(-2, w), y0 = src.range(-2, h), x1 = x0 + src.range(0, w), y1 = y0 + src.range(0, h); float d = src.range(0, 12) + (src.coin() ? 0.5f : 0); bool want = true; for(int j = std::max(0, y0); j < std::min(h, y1); ++j) for(int i = std::max(0, x0); i < std::min(w, x1); ++i) want &= d > z[j*w+i]; bool got = t.isOccluded(Box2i(V2i(x0, y0), V2i(x1, y1)), d); src.note(fmt("%d %d - %d %d at %g", x0, y0, x1, y1, d)); REQUIRE(got == want, "%d %d - %d %d at depth %g is %s", x0, y0, x1, y1, d, got ? "hidden though part of it is not" : "not hidden though all of it is"); }
    }
    for(int j = 0; j < h; ++j) for(int i = 0; i < w; ++i) REQUIRE(t.getDepth(t.nodeIndex(i, j)) == z[j*w+i], "the depth of %d %d was lost", i, j);
    // indices of the trees themselves
    int dep = src.range(0, 6); std::set<int> q, s2; for(int y = 0; y < 1 << dep; ++y) for(int x = 0; x < 1 << dep; ++x) { int i = quadTreeNodeIndex(x, y, dep); REQUIRE(i >= quadTreeNumNodes(dep - 1) && i < quadTreeNumNodes(dep) && q.insert(i).second, "node %d for %d %d at depth %d", i, x, y, dep); if(dep) { REQUIRE(quadTreeParentNode(i) == quadTreeNodeIndex(x/2, y/2, dep - 1), "the parent of node %d %d at depth %d", x, y, dep); int f = quadTreeFirstSibling(i); REQUIRE(f <= i && i < f + 4 && quadTreeParentNode(f) == quadTreeParentNode(i) && (f == 1 || quadTreeParentNode(f - 1) != quadTreeParentNode(f)), "the first sibling of node %d is %d", i, f); } }
    int bd = src.range(0, 9), nx = 1 << (bd + 1)/2, ny = 1 << bd/2; if(bd % 2 == 0) nx = ny = 1 << bd/2; for(int y = 0; y < ny; ++y) for(int x = 0; x < nx; ++x) { int i = bspTreeNodeIndex(x, y, bd); REQUIRE(i >= (1 << bd) - 1 && i < (2 << bd) - 1 && s2.insert(i).second, "binary tree node %d for %d %d at depth %d", i, x, y, bd); }
    src.nontrivial();
}
PBT_SUITE(tiles, 120, 4000)
{ // sample tiles: every tile of a set uses every sample once
    int w = src.chance(10) ? src.range(11, 16) : src.range(4, 10); float qual = src.range(0, 10)/10.f, t0 = src.smallInt(3), t1 = t0 + src.range(0, 4)*0.5f; srand(src.range(1, 1 << 30)); src.note(fmt("tile width %d quality %g shutter %g %g", w, qual, t0, t1));
    DofMbTileSet set(w, qual, t0, t1); auto& tl = set.timeLensPositions(); int n = w*w; REQUIRE((int)tl.size() == n && set.tileSize() == V2i(w), "size of the tile");
    std::set<std::pair<float, float>> seen; for(auto& p : tl) { REQUIRE(p.time >= t0 - 1e-5 && p.time <= t1 + 1e-5, "time %g outside the shutter", p.time); REQUIRE(p.lens.length() <= 1 + 1e-5, "a point %g %g off the lens", p.lens.x, p.lens.y); seen.insert({p.lens.x, p.lens.y}); } REQUIRE((int)seen.size() == n, "two samples share a point of the lens");
    // stratified in time: each of the n/2^k..., here each of the quarters of the shutter holds about a quarter of the samples
    if(t1 > t0) { int c[4] = {}; for(auto& p : tl) ++c[std::min(3, (int)(4*(p.time - t0)/(t1 - t0)))]; for(int i = 0; i < 4; ++i) REQUIRE(std::abs(4*c[i] - n) <= 8, "%d of %d samples in quarter %d of the shutter", c[i], n, i); }
    for(int k = 0; k < 81; ++k) { const int* t = set.getTile(k%3, k/3%3, k/9%3, k/27); vector<bool> used(n); for(int i = 0; i < n; ++i) { REQUIRE(t[i] >= 0 && t[i] < n && !used[t[i]], "tile %d of width %d: sample %d at %d %s", k, w, t[i], i, t[i] >= 0 && t[i] < n ? "twice" : "does not exist"); used[t[i]] = true; } }
    SpatialHash hash(src.range(1, 5)); int col = 0; (void)col; for(int k = 0; k < 50; ++k) { int x = src.range(-1000, 1000), y = src.range(-1000, 1000), c = hash(x, y); REQUIRE(c >= 0 && c < 5 && c == hash(x, y), "colour of the corner %d %d", x, y); }
    src.nontrivial();
}
static bool evenOdd(const V2f* v, V2f p) { bool in = false; for(int i = 0, j = 3; i < 4; j = i++) if((v[i].y > p.y) != (v[j].y > p.y)) { double x = v[i].x + (double)(v[j].x - v[i].x)*(p.y - v[i].y)/(v[j].y - v[i].y); if(p.x < x) in = !in; } return in; }
PBT_SUITE(quads, 60000, 3000000)
{
    if(src.chance(60))
    { // a net of convex quadrilaterals: every point inside it is in just one, those on edges and corners too
        int w = src.range(1, 4), h = src.range(1, 4); bool whole = src.coin(), mirror = src.coin(), turn = src.coin(); vector<V2f> v; for(int j = 0; j <= h; ++j) for(int i = 0; i <= w; ++i) { V2f p; if(whole) p = V2f(16*i + src.range(-3, 3), 16*j + src.range(-3, 3)); else p = V2f(16*i + src.uniform(-3, 3), 16*j + src.uniform(-3, 3)); if(mirror) p.x = -p.x; if(turn) std::swap(p.x, p.y); v.push_back(p); }
        for(int k = 0; k < 12; ++k)
        {
            V2f p; int i = src.range(0, w), j = src.range(0, h); V2f a = v[j*(w+1)+i]; bool inside = true;
            if(whole && src.chance(40)) { p = a; inside = i > 0 && i < w && j > 0 && j < h; }
            else if(src.chance(50)) { bool hor = src.coin(); if(hor) i = src.range(0, w - 1); else j = src.range(0, h - 1); a = v[j*(w+1)+i]; V2f b = v[(j + !hor)*(w+1) + i + hor]; float t = src.range(2, 14)/16.f; p = a + (b - a)*t; if(!whole && src.coin()) { p.x = nextafterf(p.x, src.coin() ? 1e9f : -1e9f); } inside = hor ? j > 0 && j < h : i > 0 && i < w; }
            else { i = src.range(0, w - 1); j = src.range(0, h - 1); float s = src.range(1, 15)/16.f, t = src.range(1, 15)/16.f; V2f q[4] = {v[j*(w+1)+i], v[j*(w+1)+i+1], v[(j+1)*(w+1)+i], v[(j+1)*(w+1)+i+1]}; p = q[0]*(1-s)*(1-t) + q[1]*s*(1-t) + q[2]*(1-s)*t + q[3]*s*t; }
            int in = 0; string where; for(int y = 0; y < h; ++y) for(int x = 0; x < w; ++x) { PointInQuad t; t.init(v[y*(w+1)+x], v[y*(w+1)+x+1], v[(y+1)*(w+1)+x+1], v[(y+1)*(w+1)+x], whole ? true : (x + y)%2); if(t(p)) { ++in; where += fmt(" %d,%d", x, y); } }
            if(in > 1 || (inside && in != 1)) { string s; for(auto& q : v) s += fmt("%.9g %.9g  ", q.x, q.y); pbt::fail(fmt("the point %.9g %.9g is in %d quadrilaterals (%s) of the net of %d by %d\n", p.x, p.y, in, where.c_str(), w, h) + s); }
        }
        src.nontrivial(); return;
    }
    V2f v[4]; for(auto& p : v) p = V2f(src.range(0, 24), src.range(0, 24)); for(int i = 0; i < 4; ++i) { V2f e = v[(i+1)%4] - v[i], f = v[(i+2)%4] - v[(i+1)%4]; if(cross(e, f) == 0) throw pbt::Discard(); } PointInQuad t; t.init(v[0], v[1], v[2], v[3], src.coin());
    { int pos = 0; for(int i = 0; i < 4; ++i) pos += cross(v[(i+1)%4] - v[i], v[(i+2)%4] - v[(i+1)%4]) > 0; src.label(pos % 4 == 0 ? "convex" : pos == 2 ? "crossed" : "arrow"); }
    for(int k = 0; k < 20; ++k)
    {
        V2f p(src.range(0, 96)/4.f, src.range(0, 96)/4.f); bool skip = false; for(int i = 0; i < 4; ++i) { V2f e = v[(i+1)%4] - v[i], f = p - v[i]; skip |= std::fabs(cross(e, f)) < 1e-3; } if(skip) continue;
        REQUIRE(t(p) == evenOdd(v, p), "the point %g %g is %s the quadrilateral %g %g  %g %g  %g %g  %g %g", p.x, p.y, t(p) ? "not in but taken for in" : "in but taken for not in", v[0].x, v[0].y, v[1].x, v[1].y, v[2].x, v[2].y, v[3].x, v[3].y);
    }
    // positions within a parallelogram are found again
    V2f A = v[0], E = v[1] - v[0], F = v[3] - v[0]; if(std::fabs(cross(E, F)) > 30) { InvBilin ib; ib.init(A, A + E, A + F, A + E + F); float s = src.range(0, 16)/16.f, q = src.range(0, 16)/16.f; V2f r = ib(A + E*s + F*q); REQUIRE(std::fabs(r.x - s) < 1e-3 && std::fabs(r.y - q) < 1e-3, "the position %g %g in a parallelogram is found as %g %g", s, q, r.x, r.y); }
    src.nontrivial();
}
PBT_SUITE(schedule, 20000, 600000)
{ // buckets are handed out once each, whatever the order in which the workers ask, or all at once
    V2i n(src.range(1, 13), src.range(1, 13)); int k = src.range(1, 6); BucketSchedulerShared sh(n); vector<std::unique_ptr<BucketScheduler>> w; for(int i = 0; i < k; ++i) w.emplace_back(new BucketScheduler(sh)); vector<int> got(n.x*n.y); vector<vector<V2i>> by(k); src.note(fmt("%d x %d buckets, %d workers", n.x, n.y, k));
    bool par = k > 1 && src.chance(10);
    if(par) { vector<std::thread> th; for(int i = 0; i < k; ++i) th.emplace_back([&, i] { V2i p; while(w[i]->nextBucket(p)) by[i].push_back(p); }); for(auto& t : th) t.join(); }
    else { vector<int> live(k, 1); int left = k; while(left) { int i = src.range(0, k - 1); while(!live[i]) i = (i + 1)%k; V2i p; int m = src.range(1, 5); for(int q = 0; q < m && live[i]; ++q) if(w[i]->nextBucket(p)) by[i].push_back(p); else { live[i] = 0; --left; } if((int)by[i].size() > n.x*n.y) pbt::fail("buckets without end"); } }
    for(auto& b : by) for(auto& p : b) { REQUIRE(p.x >= 0 && p.y >= 0 && p.x < n.x && p.y < n.y, "bucket %d %d of %d x %d", p.x, p.y, n.x, n.y); REQUIRE(++got[p.y*n.x+p.x] == 1, "bucket %d %d was handed out twice", p.x, p.y); } for(size_t i = 0; i < got.size(); ++i) REQUIRE(got[i] == 1, "bucket %d %d was never handed out", (int)i % n.x, (int)i / n.x);
    src.nontrivial();
}
PBT_SUITE(numbers, 60000, 3000000)
{
    int b = src.pick(vector<int>{2, 3, 5, 7, 10}), n = src.chance(70) ? src.range(0, 3000) : src.range(0, 1 << 30); double r = 0, f = 1.0/b; for(int m = n; m; m /= b, f /= b) r += (m % b)*f; REQUIRE(std::fabs(radicalInverse(n, b) - r) < 1e-6, "%d reversed in base %d is %g rather than %g", n, b, radicalInverse(n, b), r);
    float x = src.coin() ? src.smallInt(40)/4 : src.uniform(-1000, 1000); REQUIRE(ifloor(x) == (int)std::floor(x) && iceil(x) == (int)std::ceil(x), "whole numbers around %g: %d %d", x, ifloor(x), iceil(x)); int p = src.range(1, 1000), q = src.range(1, 30); REQUIRE(ceildiv(p, q) == (p + q - 1)/q, "%d/%d upwards is %d", p, q, ceildiv(p, q));
    // a bound holds the image of everything inside it
    M44f M; for(int i = 0; i < 4; ++i) for(int j = 0; j < 3; ++j) M[i][j] = src.smallInt(5); Box3f box; for(int i = 0; i < 2; ++i) box.extendBy(V3f(src.smallInt(9), src.smallInt(9), src.smallInt(9))); Box3f o = transformBound(box, M); Box3f tight;
    for(int k = 0; k < 8; ++k) { V3f c(k & 1 ? box.max.x : box.min.x, k & 2 ? box.max.y : box.min.y, k & 4 ? box.max.z : box.min.z); tight.extendBy(c*M); } for(int c = 0; c < 3; ++c) REQUIRE(std::fabs(tight.min[c] - o.min[c]) < 1e-3 && std::fabs(tight.max[c] - o.max[c]) < 1e-3, "the bound of a moved box is %g..%g rather than %g..%g on axis %d", o.min[c], o.max[c], tight.min[c], tight.max[c], c);
    V2f wd(src.range(4, 24)/4.f, src.range(4, 24)/4.f); FilterPtr fl = src.range(0, 3) == 0 ? makeBoxFilter(wd) : src.coin() ? makeGaussianFilter(wd) : src.coin() ? makeSincFilter(wd) : makeDiscFilter(wd); float fx = src.uniform(-8, 8), fy = src.uniform(-8, 8); REQUIRE(fl->width() == wd, "width of the filter"); float c = (*fl)(fx, fy); REQUIRE(std::fabs(c - (*fl)(-fx, fy)) < 1e-5 && std::fabs(c - (*fl)(fx, -fy)) < 1e-5, "the filter is not symmetrical at %g %g", fx, fy); REQUIRE(std::fabs((*fl)(0, 0) - 1) < 1e-5, "the filter is %g in the middle", (*fl)(0, 0)); if(fl->isSeparable()) REQUIRE(std::fabs(c - (*fl)(fx, 0)*(*fl)(0, fy)) < 1e-4, "the filter is not the product of its parts at %g %g", fx, fy);
    src.nontrivial();
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "every case that was not discarded; distinct by its text or its choices"); }
