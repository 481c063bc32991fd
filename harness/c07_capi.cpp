// C07: the C interface (libaqsis_ri2rib) writes exactly the calls made.
// Histories of legal calls are generated against the interface model, made through the C API
// (vector and varargs forms, one or two contexts) with argument memory that is overwritten and
// freed right after each call; the resulting RIB is parsed back and compared with the calls.
#include "ri_scope.h"
#include <aqsis/ri/ri.h>
#include <fstream>
using namespace rim;

static RtFilterFunc capiFilter(const std::string& n) {
    static const RtFilterFunc f[] = {RiBoxFilter, RiGaussianFilter, RiTriangleFilter, RiMitchellFilter, RiCatmullRomFilter, RiSincFilter, RiBesselFilter, RiDiskFilter};
    for (int i = 0; i < 8; ++i) if (n == filterNames[i]) return f[i]; return 0;
}
static RtErrorFunc capiError(const std::string& n) { return n == "ignore" ? RiErrorIgnore : n == "print" ? RiErrorPrint : RiErrorAbort; }
static long capiCountP(const std::vector<PVal>& l) { return countP(l); }

struct TokStyle { Src* src; std::map<std::string, TS>* decl; };
static std::string tokenText(TokStyle& t, const PVal& p) {
    auto d = t.decl->find(p.name);
    if (d != t.decl->end() && d->second == p.spec && t.src->coin()) { t.src->label("bare token"); return p.name; }
    static const char* cls[] = {"constant", "uniform", "varying", "vertex", "facevarying", "facevertex"};
    std::ostringstream o; auto sp = [&] { static const char* ws[] = {" ", "  ", "\t", " \t "}; return std::string(t.src->chance(3, 4) ? " " : t.src->pick(ws)); };
    std::string ty = typeStr(TS(TS::Uniform, p.spec.type, 1)); // "uniform <type>"
    size_t k = ty.find(' '); std::string tn = ty.substr(k + 1); if (tn.find('[') != std::string::npos) tn = tn.substr(0, tn.find('['));
    const char* cn = p.spec.iclass == TS::Constant ? cls[0] : p.spec.iclass == TS::Uniform ? cls[1] : p.spec.iclass == TS::Varying ? cls[2] : p.spec.iclass == TS::Vertex ? cls[3] : p.spec.iclass == TS::FaceVarying ? cls[4] : cls[5];
    if (!(p.spec.iclass == TS::Uniform && t.src->chance(1, 4))) o << cn << sp();
    o << tn; if (p.spec.arraySize != 1) { if (t.src->chance(1, 4)) o << sp(); o << "[" << p.spec.arraySize << "]"; }
    o << sp() << p.name; if (t.src->chance(1, 5)) { o << sp(); t.src->label("token with trailing space"); }
    return o.str();
}

/// Owns copies of every argument; scrubs and frees them when the call has returned.
struct Hold {
    std::vector<std::pair<void*, size_t>> mem; std::map<std::string, RtPointer>* handles; std::string newName;
    std::vector<RtToken> tok; std::vector<RtPointer> val;
    void* get(const void* p, size_t n) { void* d = malloc(n ? n : 1); if (n) memcpy(d, p, n); mem.push_back({d, n}); return d; }
    char* str(const std::string& s) { return (char*)get(s.c_str(), s.size() + 1); }
    RtFloat* flts(const std::vector<float>& f) { return (RtFloat*)get(f.empty() ? 0 : &f[0], f.size()*sizeof(float)); }
    RtInt* ints(const std::vector<int>& f) { return (RtInt*)get(f.empty() ? 0 : &f[0], f.size()*sizeof(int)); }
    RtToken* strs(const std::vector<std::string>& s) { std::vector<char*> p; for (auto& x : s) p.push_back(str(x)); return (RtToken*)get(p.empty() ? 0 : &p[0], p.size()*sizeof(char*)); }
    RtPointer handle(const std::string& n) { return handles->at(n); }
    void made(RtPointer h) { (*handles)[newName] = h; }
    void plist(const std::vector<PVal>& l, TokStyle& t) { for (auto& p : l) { tok.push_back(str(tokenText(t, p))); val.push_back(p.spec.storageType() == TS::Float ? (void*)flts(p.f) : p.spec.storageType() == TS::Integer ? (void*)ints(p.i) : (void*)strs(p.s)); } }
    RtToken* toks() { return tok.empty() ? 0 : &tok[0]; }
    RtPointer* vals() { return val.empty() ? 0 : &val[0]; }
    ~Hold() { for (auto& m : mem) { memset(m.first, 0x7b, m.second); free(m.first); } }
};
static void procFree(RtPointer p) { free(p); }

static void applyC(const Call& c, Hold& H, TokStyle& tok, bool va) {
    if (c.name == "Procedural") {
        size_t n = c.a[1].s.size(), sz = 0; for (auto& s : c.a[1].s) sz += sizeof(char*) + s.size() + 1;
        char* d = (char*)malloc(std::max<size_t>(sz, 1)); char* p = d + n*sizeof(char*);
        for (size_t i = 0; i < n; ++i) { ((char**)d)[i] = p; strcpy(p, c.a[1].s[i].c_str()); p += c.a[1].s[i].size() + 1; }
        RtProcSubdivFunc f = c.a[0].s[0] == "DelayedReadArchive" ? RiProcDelayedReadArchive : c.a[0].s[0] == "RunProgram" ? RiProcRunProgram : RiProcDynamicLoad;
        RiProcedural(d, H.flts(c.a[2].f), f, procFree); return;
    }
    if (c.name == "MotionBegin") {
        const auto& t = c.a[0].f;
        if (va && t.size() == 1) RiMotionBegin(1, (double)t[0]); else if (va && t.size() == 2) RiMotionBegin(2, (double)t[0], (double)t[1]);
        else if (va && t.size() == 3) RiMotionBegin(3, (double)t[0], (double)t[1], (double)t[2]); else RiMotionBeginV(t.size(), H.flts(t));
        return;
    }
#define RI_GEN_CAPI
#include "ri_gen.h"
#undef RI_GEN_CAPI
    fail("harness: no C call for " + c.name);
}

/// Light and object names in the stream are the library's own; bind them to the symbols used here.
static void renameHandles(const std::vector<Call>& want, std::vector<Call>& got, const std::string& ex) {
    std::map<std::string, std::string> sym; // stream name -> symbol, latest definition wins
    std::map<std::string, int> live; int depth = 0; std::vector<std::set<std::string>> sc(1);
    for (size_t i = 0; i < got.size() && i < want.size(); ++i) {
        Call &g = got[i]; const Call& w = want[i];
        if (g.name != w.name) return; // reported by the comparison
        if (g.name == "FrameBegin" || g.name == "WorldBegin") sc.push_back({});
        if ((g.name == "FrameEnd" || g.name == "WorldEnd") && sc.size() > 1) { for (auto& n : sc.back()) sym.erase(n); sc.pop_back(); }
        int at = g.name == "LightSource" || g.name == "AreaLightSource" ? 1 : g.name == "ObjectBegin" ? 0 : -1;
        if (at >= 0) { std::string n = g.a[at].s[0]; if (sym.count(n)) fail("two live handles share the name " + n + ex); sym[n] = w.a[at].s[0]; sc.back().insert(n); g.a[at].s[0] = w.a[at].s[0]; }
        if (g.name == "Illuminate" || g.name == "ObjectInstance") { std::string n = g.a[0].s[0]; g.a[0].s[0] = sym.count(n) ? sym[n] : "<undefined " + n + ">"; }
    }
    (void)depth;
}

struct Ctx {
    Model m; std::vector<Call> want; std::vector<std::vector<std::string>> lights, objects; std::map<std::string, TS> decl; RtContextHandle h; std::string file; std::map<std::string, RtPointer> handles; int comments;
    std::vector<bool> objOpen;
    Ctx() : m(false), lights(1), objects(1), h(0), comments(0) {
        auto d = [&](const char* n, TS s) { decl[n] = s; };
        d("P", TS(TS::Vertex, TS::Point)); d("N", TS(TS::Varying, TS::Normal)); d("Cs", TS(TS::Varying, TS::Color)); d("st", TS(TS::Varying, TS::Float, 2)); d("Ka", TS(TS::Uniform, TS::Float)); d("Pw", TS(TS::Vertex, TS::HPoint)); d("width", TS(TS::Varying, TS::Float));
        decl.erase("Ka");
    }
};
static void opt(const char* name, const char* tok, const char* v) { RtToken t = (RtToken)tok; char* s = (char*)v; RtPointer p = &s; RiOptionV((RtToken)name, 1, &t, &p); }

static int gSym = 0;
/// Fit parameter lengths to what the interface determines (the C API reads exactly that much).
static void fit(const Proc& p, Call& c, const Model& m) {
    if (c.a.empty() || c.a.back().k != 'L') return;
    auto& l = c.a.back().pl; long n[5]; if (!counts(p, c, m, n)) return;
    std::set<std::string> seen;
    for (size_t i = 0; i < l.size(); ) {
        PVal& q = l[i]; bool bad = false;
        long k = q.spec.iclass == TS::Constant ? 1 : q.spec.iclass == TS::Uniform ? n[0] : q.spec.iclass == TS::Varying ? n[1] : q.spec.iclass == TS::Vertex ? n[2] : q.spec.iclass == TS::FaceVarying ? n[3] : n[4];
        if (c.name == "Geometry") k = 1;
        if (k >= 0) { size_t len = (size_t)k*q.spec.storageCount(); if (q.size() < len) bad = true; else { if (!q.f.empty()) q.f.resize(len); if (!q.i.empty()) q.i.resize(len); if (!q.s.empty()) q.s.resize(len); } }
        if (q.size() == 0) bad = true;
        if (bad) l.erase(l.begin() + i); else ++i;
    }
}

static void oneStep(Src& src, Ctx& cx, GenOpts o, std::string& log) {
    Model& m = cx.m;
    static const char* begins[] = {"WorldBegin", "FrameBegin", "AttributeBegin", "TransformBegin", "SolidBegin", "ObjectBegin", "MotionBegin", "ArchiveBegin", "ResourceBegin"};
    static const char* geo[] = {"Basis", "PatchMesh", "Curves", "PatchMesh", "Patch", "NuPatch", "Polygon", "PointsPolygons", "PointsGeneralPolygons", "GeneralPolygon", "SubdivisionMesh", "Points", "TrimCurve", "Blobby"};
    static const char* hnd[] = {"LightSource", "AreaLightSource", "Illuminate", "Illuminate", "ObjectInstance", "ObjectInstance", "ObjectBegin"};
    const Proc* p = 0;
    for (int tries = 0; tries < 6; ++tries) {
        int how = src.draw(11);
        if (how <= 1) p = findProc(src.pick(begins));
        else if (how == 2) { std::string t = m.top() == "Archive" && !m.arch.back().empty() ? m.arch.back().back() : m.top(); if (m.res.back() > 0) t = "Resource"; p = findProc(t + "End"); }
        else if (how <= 5) p = findProc(src.pick(geo));
        else if (how <= 7) p = findProc(src.pick(hnd));
        else p = &procTable[src.draw(nProcs - 1)];
        if (p && usable(m, p->name) && (inList(p->scopes, m.top()) || !strcmp(p->scopes, "*"))) break;
        if (src.chance(1, 12)) break;
    }
    if (!p || !usable(m, p->name)) return;
    std::string n = p->name;
    if (n == "ErrorHandler") { /* allowed anywhere */ }
    if (src.chance(1, 25)) { // own declarations, used as bare tokens later
        std::string nm = "dv" + std::to_string(src.draw(3)); TS s = genSpec(src); cx.decl[nm] = s; Call c("Declare"); c.S1(nm); c.S1(typeStr(s)); log += str(c) + "\n"; src.note(str(c));
        Hold H; H.handles = &cx.handles; TokStyle t{&src, &cx.decl}; applyC(c, H, t, false); cx.want.push_back(c); return;
    }
    o.ustep = m.steps.back().first; o.vstep = m.steps.back().second;
    Call c = genCall(src, *p, o); tidy(p->name, c); fit(*p, c, m);
    if (n == "Declare") { for (auto& d : cx.decl) if (d.first == c.a[0].s[0]) return; }
    if (!c.a.empty() && c.a.back().k == 'L') for (auto& q : c.a.back().pl) if (q.name != "P" && q.name != "Pw" && !cx.decl.empty() && src.chance(1, 3)) {
        // give some parameters the name and type of a declaration, refilled at the right length
        for (auto& d : cx.decl) if (d.second == q.spec) { bool dup = false; for (auto& r : c.a.back().pl) if (r.name == d.first) dup = true; if (!dup && d.first != "P" && d.first != "Pw") q.name = d.first; }
    }
    if (n == "ColorSamples") { auto& a = c.a[0].f; auto& b = c.a[1].f; size_t k = std::min(a.size(), b.size())/3*3; if (!k) return; a.resize(k); b.resize(k); }
    auto flat = [](const std::vector<std::vector<std::string>>& v) { std::vector<std::string> o; for (auto& x : v) for (auto& y : x) o.push_back(y); return o; };
    if (n == "Illuminate") { auto l = flat(cx.lights); if (l.empty()) return; c.a[0].s[0] = src.pick(l); }
    if (n == "ObjectInstance") { auto l = flat(cx.objects); if (l.empty()) return; c.a[0].s[0] = src.pick(l); }
    std::string why = illegal(*p, c, m); bool block = (n.size() > 5 && n.compare(n.size() - 5, 5, "Begin") == 0) || (n.size() > 3 && n.compare(n.size() - 3, 3, "End") == 0);
    Hold H; H.handles = &cx.handles; H.newName = "H" + std::to_string(++gSym);
    if (n == "LightSource" || n == "AreaLightSource") c.a[1].s[0] = H.newName;
    if (n == "ObjectBegin") c.a[0].s[0] = H.newName;
    if (!why.empty()) { if (block || n == "Basis" || n == "LightSource" || n == "AreaLightSource" || n == "Declare") return; src.label("illegal call dropped"); }
    bool va = src.coin(); log += (why.empty() ? "" : "ILLEGAL ") + str(c) + (va ? " (varargs)\n" : "\n"); src.note((why.empty() ? "" : "ILLEGAL ") + str(c) + (va ? " (varargs)" : ""));
    TokStyle t{&src, &cx.decl}; applyC(c, H, t, va);
    if (!why.empty()) return;
    apply(m, c); cx.want.push_back(c); src.label(n == "Illuminate" || n == "ObjectInstance" ? "handle used" : va ? "varargs" : "vector form");
    if (n == "FrameBegin" || n == "WorldBegin") { cx.lights.push_back({}); cx.objects.push_back({}); }
    if ((n == "FrameEnd" || n == "WorldEnd") && cx.lights.size() > 1) { cx.lights.pop_back(); cx.objects.pop_back(); }
    if (n == "LightSource" || n == "AreaLightSource") cx.lights.back().push_back(H.newName);
    if (n == "ObjectBegin") cx.objects.back().push_back(H.newName);
}
static void compare(Src& src, Ctx& cx, const std::string& rib, bool binary, const std::string& log) {
    Svc svc; Recorder rec; rec.svc = &svc; std::istringstream in(rib); svc.parseRib(in, "t.rib", rec);
    std::vector<Call> got, gotC, want, wantC;
    for (auto& c : rec.calls) (c.name == "ArchiveRecord" ? gotC : got).push_back(c);
    for (auto& c : cx.want) (c.name == "ArchiveRecord" ? wantC : want).push_back(c);
    std::string ex = "\ncalls made:\n" + log + "parse errors: " + std::to_string(svc.err.errors) + " " + svc.err.last + (binary ? "" : "\nRIB:\n" + rib.substr(0, 1500));
    renameHandles(want, got, ex);
    expectSame(want, got, binary ? 0 : 5e-7f, "C API", ex); expectSame(wantC, gotC, 0, "comments", ex);
    if (svc.err.errors) fail("parser reports errors on the written RIB: " + svc.err.last + ex);
}
static bool setOptions(Src& src, std::string& log) {
    bool bin = src.coin(), gz = src.chance(1, 4); int ind = src.draw(3), step = src.range(0, 8);
    opt("RI2RIB_Output", "Type", bin ? "Binary" : "Ascii"); opt("RI2RIB_Output", "Compression", gz ? "Gzip" : "None");
    RtToken t = (RtToken)"Size"; RtPointer p = &step; RiOptionV((RtToken)"RI2RIB_Indentation", 1, &t, &p);
    if (ind == 0) opt("RI2RIB_Indentation", "Type", "None"); else opt("RI2RIB_Indentation", "Type", ind == 1 ? "Tab" : "Space");
    log += std::string(bin ? "binary" : "ascii") + (gz ? " gzip" : "") + "\n"; src.label(bin ? "binary" : "ascii"); return bin;
}
static void record(Src& src, Ctx& cx, std::string& log) {
    GenOpts co; co.longStrings = false; co.ascii = true; std::string t = genStr(src, co); if (src.chance(1, 4)) t += std::string(src.range(200, 600), 'x'); if (!t.empty() && t[0] == '#') t[0] = ' '; int k = src.range(0, 99);
    Call c("ArchiveRecord"); c.S1("comment"); c.S1(t + std::to_string(k)); RiArchiveRecord((RtToken)"comment", (char*)"%s%d", t.c_str(), k); cx.want.push_back(c); log += str(c) + "\n"; src.note(str(c));
}

PBT_SUITE(one_context, 60000, 500000) {
    gSym = 0; std::string log; bool bin = setOptions(src, log); GenOpts o; o.ascii = !bin; o.longStrings = false;
    std::ostringstream out; { RtToken t = (RtToken)"OStream"; RtPointer p = &out; static_cast<void>(p); std::ostream* os = &out; RtPointer q = os; RiOptionV((RtToken)"RI2RIB_Output", 1, &t, &q); }
    RiBegin((RtToken)(src.coin() ? "stdout" : "")); src.note(log);
    Ctx cx; int n = src.size(2, 40);
    for (int i = 0; i < n; ++i) { if (src.chance(1, 30)) record(src, cx, log); else oneStep(src, cx, o, log); }
    RiEnd();
    if (cx.want.size() >= 4) src.nontrivial(log);
    compare(src, cx, out.str(), bin, log);
}
PBT_SUITE(two_contexts, 12000, 100000) {
    gSym = 0; std::string log; bool bin = setOptions(src, log); GenOpts o; o.ascii = !bin; o.longStrings = false;
    char dir[] = "/tmp/pbtcaXXXXXX"; if (!mkdtemp(dir)) throw pbt::Discard();
    struct Clean { std::string d; ~Clean() { for (int i = 0; i < 3; ++i) unlink((d + "/c" + std::to_string(i)).c_str()); rmdir(d.c_str()); } } clean{dir};
    int nc = src.range(2, 3); std::vector<Ctx> cx(nc); std::vector<int> state(nc, 0); int cur = -1; src.note(log);
    int n = src.size(6, 60);
    for (int i = 0; i < n + 2*nc; ++i) {
        int k = i < n ? (int)src.draw(nc - 1) : (i - n)/2 % nc;
        if (i >= n) { for (k = 0; k < nc && state[k] == 2; ++k) {} if (k == nc) break; }
        if (state[k] == 2) continue;
        std::string tag = "ctx" + std::to_string(k) + ": ";
        if (state[k] == 0) { std::string f = std::string(dir) + "/c" + std::to_string(k); RiBegin((RtToken)f.c_str()); cx[k].h = RiGetContext(); cx[k].file = f; state[k] = 1; cur = k; log += tag + "Begin\n"; src.note(tag + "Begin"); continue; }
        if (cur != k) { RiContext(cx[k].h); cur = k; src.label("context switch"); }
        if (RiGetContext() != cx[k].h) fail("RiGetContext does not return the context selected");
        if (i >= n || src.chance(1, 40)) { RiEnd(); state[k] = 2; cur = -1; log += tag + "End\n"; src.note(tag + "End"); continue; }
        log += tag; src.note(tag); oneStep(src, cx[k], o, log); log += "\n";
    }
    src.nontrivial(log);
    for (int k = 0; k < nc; ++k) if (state[k] == 2) { std::ifstream f(cx[k].file.c_str(), std::ios::binary); std::string rib((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>()); compare(src, cx[k], rib, bin, log + "\n(context " + std::to_string(k) + ")"); }
}
int main(int argc, char** argv) {
    Aqsis::log();
    return pbt::mainLoop(argc, argv, "a case is a history of C interface calls in one to three contexts; non-trivial: four or more calls written; distinct by the text of the calls");
}
