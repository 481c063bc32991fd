// Value model of the RenderMan interface: calls as plain data, a recording renderer, a player
// and a generator of valid calls.  Used by the RIB checks as inputs and as the oracle's state.
#ifndef VERIF_RI_MODEL_H
#define VERIF_RI_MODEL_H
#include "pbt.h"
#include <cfloat>
#include <memory>
#include <deque>
#include <aqsis/riutil/ricxx.h>
#include <aqsis/riutil/ricxxutil.h>
#include <aqsis/riutil/ricxx_filter.h>
#include <aqsis/riutil/ribparser.h>
#include <aqsis/riutil/ribwriter.h>
#include <aqsis/riutil/errorhandler.h>
#include <aqsis/riutil/tokendictionary.h>
#include <aqsis/util/exception.h>
#include <aqsis/util/logging.h>

namespace rim {
using namespace Aqsis;
typedef Ri::TypeSpec TS;
using pbt::Src;
using pbt::fail;

struct PVal {
    TS spec; std::string name;
    std::vector<float> f; std::vector<int> i; std::vector<std::string> s;
    size_t size() const { return spec.storageType() == TS::Float ? f.size() : spec.storageType() == TS::Integer ? i.size() : s.size(); }
};
struct Val {
    char k;
    std::vector<int> i; std::vector<float> f; std::vector<std::string> s; std::vector<PVal> pl;
    Ri::IntArray ints() const { return Ri::IntArray(i.empty() ? 0 : &i[0], i.size()); }
    Ri::FloatArray floats() const { return Ri::FloatArray(f.empty() ? 0 : &f[0], f.size()); }
};
struct Call {
    std::string name; std::vector<Val> a;
    Call() {}
    Call(const char* n) : name(n) {}
    Val& nv(char k) { a.push_back(Val()); a.back().k = k; return a.back(); }
    Call& I1(int v) { nv('i').i.push_back(v); return *this; }
    Call& F1(float v) { nv('f').f.push_back(v); return *this; }
    Call& S1(const std::string& v) { nv('s').s.push_back(v); return *this; }
    Call& S1(const char* v) { nv('s').s.push_back(v ? v : "<null>"); return *this; }
    Call& FN(const float* v, int n) { nv('f').f.assign(v, v + n); return *this; }
    Call& IA(const Ri::IntArray& v) { nv('I').i.assign(v.begin(), v.end()); return *this; }
    Call& FA(const Ri::FloatArray& v) { nv('F').f.assign(v.begin(), v.end()); return *this; }
    Call& SA(const Ri::StringArray& v) { Val& x = nv('S'); for (size_t j = 0; j < v.size(); ++j) x.s.push_back(v[j]); return *this; }
    Call& PL(const Ri::ParamList& p) {
        Val& x = nv('L');
        for (size_t j = 0; j < p.size(); ++j) {
            PVal q; q.spec = p[j].spec(); q.name = p[j].name();
            switch (q.spec.storageType()) {
                case TS::Float: { Ri::FloatArray d = p[j].floatData(); q.f.assign(d.begin(), d.end()); break; }
                case TS::Integer: { Ri::IntArray d = p[j].intData(); q.i.assign(d.begin(), d.end()); break; }
                case TS::String: { Ri::StringArray d = p[j].stringData(); for (size_t k = 0; k < d.size(); ++k) q.s.push_back(d[k]); break; }
                default: break;
            }
            x.pl.push_back(q);
        }
        return *this;
    }
};

inline std::string typeStr(const TS& t) {
    static const char* c[] = {"constant","uniform","varying","vertex","facevarying","facevertex"};
    static const char* n[] = {"float","point","color","integer","string","vector","normal","hpoint","matrix","mpoint","pointer"};
    std::ostringstream o; o << ((int)t.iclass < 6 ? c[t.iclass] : "noclass") << ' ' << ((int)t.type < 11 ? n[t.type] : "unknown");
    if (t.arraySize != 1) o << '[' << t.arraySize << ']';
    return o.str();
}
inline std::string fstr(float f) { char b[32]; snprintf(b, 32, "%.9g", f); return b; }
inline std::string q(const std::string& s) {
    std::string o = "\""; for (unsigned char c : s) { if (c < 32 || c > 126 || c == '"' || c == '\\') { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; } else o += c; }
    if (o.size() > 120) { o = o.substr(0, 100) + "...(" + std::to_string(s.size()) + ")"; }
    return o + "\"";
}
template<class V, class F> std::string join(const V& v, F f) { std::string o; size_t n = 0; for (auto& x : v) { if (n++) o += ' '; if (n > 40) { o += "...(" + std::to_string(v.size()) + ")"; break; } o += f(x); } return o; }
inline std::string str(const PVal& p) {
    std::string o = q(typeStr(p.spec) + " " + p.name) + " [";
    if (p.spec.storageType() == TS::Float) o += join(p.f, fstr); else if (p.spec.storageType() == TS::Integer) o += join(p.i, [](int i) { return std::to_string(i); });
    else o += join(p.s, q);
    return o + "]";
}
inline std::string str(const Call& c) {
    std::string o = c.name;
    for (auto& v : c.a) {
        o += ' ';
        switch (v.k) {
            case 'i': o += std::to_string(v.i[0]); break;
            case 's': o += q(v.s[0]); break;
            case 'I': o += "[" + join(v.i, [](int i) { return std::to_string(i); }) + "]"; break;
            case 'S': o += "[" + join(v.s, q) + "]"; break;
            case 'L': o += join(v.pl, [](const PVal& p) { return str(p); }); break;
            case 'f': o += v.f.size() == 1 ? fstr(v.f[0]) : "[" + join(v.f, fstr) + "]"; break;
            default: o += "[" + join(v.f, fstr) + "]"; break;
        }
    }
    return o;
}
inline std::string str(const std::vector<Call>& cs) { std::string o; int ind = 0; for (auto& c : cs) { o += str(c) + "\n"; } return o; }

/// Comparison; tol is the allowed relative float error (0: bitwise equal, so NaNs compare too).
inline bool feq(float a, float b, float tol) {
    if (!memcmp(&a, &b, 4)) return true;
    if (tol == 0) return false;
    if (a == b) return true;
    return std::fabs(a - b) <= tol*std::max(std::fabs(a), std::fabs(b)) + 1e-37f;
}
inline bool feqv(const std::vector<float>& a, const std::vector<float>& b, float tol) {
    if (a.size() != b.size()) return false;
    for (size_t i = 0; i < a.size(); ++i) if (!feq(a[i], b[i], tol)) return false;
    return true;
}
inline bool eq(const PVal& a, const PVal& b, float tol) { return a.spec == b.spec && a.name == b.name && feqv(a.f, b.f, tol) && a.i == b.i && a.s == b.s; }
inline bool eq(const Call& a, const Call& b, float tol) {
    if (a.name != b.name || a.a.size() != b.a.size()) return false;
    for (size_t j = 0; j < a.a.size(); ++j) {
        const Val &x = a.a[j], &y = b.a[j];
        if (x.i != y.i || x.s != y.s || !feqv(x.f, y.f, tol) || x.pl.size() != y.pl.size()) return false;
        for (size_t k = 0; k < x.pl.size(); ++k) if (!eq(x.pl[k], y.pl[k], tol)) return false;
    }
    return true;
}
inline void expectSame(const std::vector<Call>& want, const std::vector<Call>& got, float tol, const std::string& what, const std::string& extra = "") {
    for (size_t i = 0; i < want.size() || i < got.size(); ++i) {
        if (i >= want.size()) fail(what + ": extra call delivered at " + std::to_string(i) + ": " + str(got[i]) + extra);
        if (i >= got.size()) fail(what + ": call " + std::to_string(i) + " missing: " + str(want[i]) + extra);
        if (!eq(want[i], got[i], tol)) fail(what + ": call " + std::to_string(i) + " differs\n  expected: " + str(want[i]) + "\n  received: " + str(got[i]) + extra);
    }
}

//---------------------------------------------------------------- environment
static const char* const filterNames[] = {"box","gaussian","triangle","mitchell","catmull-rom","sinc","bessel","disk"};
static const char* const errorNames[] = {"ignore","print","abort"};
static const char* const procNames[] = {"DelayedReadArchive","RunProgram","DynamicLoad"};

template<int N> float dummyFilter(float, float, float, float) { return N; }
template<int N> void dummyError(int, int, char*) {}
template<int N> void dummyProc(RtPointer, float) {}
static RtFilterFunc const filterFns[] = {dummyFilter<0>,dummyFilter<1>,dummyFilter<2>,dummyFilter<3>,dummyFilter<4>,dummyFilter<5>,dummyFilter<6>,dummyFilter<7>};
static RtErrorFunc const errorFns[] = {(RtErrorFunc)dummyError<0>,(RtErrorFunc)dummyError<1>,(RtErrorFunc)dummyError<2>};
static RtProcSubdivFunc const procFns[] = {dummyProc<0>,dummyProc<1>,dummyProc<2>};

inline const char* filterName(RtFilterFunc f) { for (int i = 0; i < 8; ++i) if (filterFns[i] == f) return filterNames[i]; return "<unknown filter>"; }
inline const char* errorName(RtErrorFunc f) { for (int i = 0; i < 3; ++i) if (errorFns[i] == f) return errorNames[i]; return "<unknown handler>"; }
static long procFreed = 0;
inline void countingFree(RtPointer p) { ++procFreed; free(p); }

struct Env {
    RtFilterFunc filter(const std::string& n) const { for (int i = 0; i < 8; ++i) if (n == filterNames[i]) return filterFns[i]; return 0; }
    RtErrorFunc error(const std::string& n) const { for (int i = 0; i < 3; ++i) if (n == errorNames[i]) return errorFns[i]; return 0; }
    RtProcSubdivFunc proc(const std::string& n) const { for (int i = 0; i < 3; ++i) if (n == procNames[i]) return procFns[i]; return 0; }
};

struct StrHold {
    std::vector<RtConstString> p;
    StrHold(const std::vector<std::string>& s) { for (auto& x : s) p.push_back(x.c_str()); }
    Ri::StringArray arr() const { return Ri::StringArray(p.empty() ? 0 : &p[0], p.size()); }
};
struct PListHold {
    std::deque<StrHold> sh; std::vector<Ri::Param> p;
    PListHold(const std::vector<PVal>& v) {
        for (auto& x : v) switch (x.spec.storageType()) {
            case TS::Float: p.push_back(Ri::Param(x.spec, x.name.c_str(), Ri::FloatArray(x.f.empty() ? 0 : &x.f[0], x.f.size()))); break;
            case TS::Integer: p.push_back(Ri::Param(x.spec, x.name.c_str(), Ri::IntArray(x.i.empty() ? 0 : &x.i[0], x.i.size()))); break;
            default: sh.push_back(StrHold(x.s)); p.push_back(Ri::Param(x.spec, x.name.c_str(), sh.back().arr())); break;
        }
    }
    Ri::ParamList list() const { return Ri::ParamList(p.empty() ? 0 : &p[0], p.size()); }
};

struct ErrRec : public Ri::ErrorHandler {
    int errors = 0, warnings = 0, infos = 0; std::string last; std::vector<std::string> all;
    ErrRec() : Ri::ErrorHandler(Debug) {}
protected:
    virtual void dispatch(int code, const std::string& message) {
        int sev = code & (0xff << 24);
        if (sev == Error || sev == Severe) ++errors; else if (sev == Warning) ++warnings; else ++infos;
        last = message; if (all.size() < 200) all.push_back(message);
    }
};

/// Renderer services with a real declaration dictionary, as every client has.
struct Svc : public StubRendererServices {
    mutable TokenDict dict; ErrRec err; Env env; Ri::Renderer* first = 0;
    RtBasis bases[5];
    std::shared_ptr<RibParser> parser;
    Svc() {
        static const float b[5][16] = {
            {-1,3,-3,1, 3,-6,3,0, -3,3,0,0, 1,0,0,0},
            {-1.0f/6,0.5f,-0.5f,1.0f/6, 0.5f,-1,0.5f,0, -0.5f,0,0.5f,0, 1.0f/6,2.0f/3,1.0f/6,0},
            {-0.5f,1.5f,-1.5f,0.5f, 1,-2.5f,2,-0.5f, -0.5f,0,0.5f,0, 0,1,0,0},
            {2,1,-2,1, -3,-2,3,-1, 0,1,0,0, 1,0,0,0},
            {1,0,0,0, 0,1,0,0, 0,0,1,0, 0,0,0,1}};
        for (int i = 0; i < 5; ++i) memcpy(bases[i], b[i], sizeof(RtBasis));
    }
    virtual Ri::ErrorHandler& errorHandler() { return err; }
    virtual RtFilterFunc getFilterFunc(RtConstToken n) const { RtFilterFunc f = env.filter(n); if (!f) AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "no filter"); return f; }
    virtual RtErrorFunc getErrorFunc(RtConstToken n) const { RtErrorFunc f = env.error(n); if (!f) AQSIS_THROW_XQERROR(XqValidation, EqE_BadToken, "no handler"); return f; }
    virtual RtProcSubdivFunc getProcSubdivFunc(RtConstToken n) const { return env.proc(n); }
    virtual RtConstBasis* getBasis(RtConstToken n) const {
        static const char* nm[] = {"bezier","b-spline","catmull-rom","hermite","power"};
        for (int i = 0; i < 5; ++i) if (!strcmp(n, nm[i])) return (RtConstBasis*)&bases[i];
        return 0;
    }
    virtual TS getDeclaration(RtConstToken t, const char** b = 0, const char** e = 0) const { return dict.lookup(t, b, e); }
    virtual Ri::Renderer& firstFilter() { return *first; }
    virtual void parseRib(std::istream& s, const char* name, Ri::Renderer& ctx) {
        if (!parser) parser.reset(RibParser::create(*this));
        parser->parseStream(s, name, ctx);
    }
    using Ri::RendererServices::parseRib;
};

/// Records every call received.
class Recorder : public Ri::Renderer {
public:
    std::vector<Call> calls; Svc* svc = 0; bool records = true; bool comments = true;
    void add(const Call& c) {
        if (svc && c.name == "Declare") try { svc->dict.declare(c.a[0].s[0].c_str(), c.a[1].s[0].c_str()); } catch (XqException&) {}
        if (records) calls.push_back(c);
    }
    void recProcedural(RtPointer data, RtConstBound bound, RtProcSubdivFunc f, RtProcFreeFunc fr) {
        Call c("Procedural"); const char* n = "<unknown>"; int na = 0;
        for (int i = 0; i < 3; ++i) if (procFns[i] == f) { n = procNames[i]; na = i == 0 ? 1 : 2; }
        c.S1(n); Val& v = c.nv('S'); for (int i = 0; i < na; ++i) v.s.push_back(((RtString*)data)[i]);
        c.FN(bound, 6); add(c); if (fr) fr(data);
    }
#define RI_GEN_RECORDER
#include "ri_gen.h"
#undef RI_GEN_RECORDER
    virtual RtVoid ArchiveRecord(RtConstToken type, const char* s) { if (comments) { Call c("ArchiveRecord"); c.S1(type); c.S1(s); add(c); } }
};

inline void applyProcedural(const Call& c, Ri::Renderer& r, const Env& env) {
    size_t n = c.a[1].s.size(), sz = 0; for (auto& s : c.a[1].s) sz += sizeof(char*) + s.size() + 1;
    char* d = (char*)malloc(std::max<size_t>(sz, 1)); char* p = d + n*sizeof(char*);
    for (size_t i = 0; i < n; ++i) { ((char**)d)[i] = p; strcpy(p, c.a[1].s[i].c_str()); p += c.a[1].s[i].size() + 1; }
    r.Procedural(d, &c.a[2].f[0], env.proc(c.a[0].s[0]), countingFree);
}
inline void applyCall(const Call& c, Ri::Renderer& r, const Env& env = Env()) {
    if (c.name == "ArchiveRecord") { r.ArchiveRecord(c.a[0].s[0].c_str(), c.a[1].s[0].c_str()); return; }
#define RI_GEN_APPLY
#include "ri_gen.h"
#undef RI_GEN_APPLY
    fail("harness: unknown call " + c.name);
}

//---------------------------------------------------------------- specification table
struct Arg { const char *name, *kind, *range, *length, *opt; };
struct Proc { const char *name, *scopes; std::vector<Arg> args; const char* iclass; };
#define RI_GEN_TABLE
#include "ri_gen.h"
#undef RI_GEN_TABLE
static const int nProcs = sizeof(procTable)/sizeof(procTable[0]);
inline const Proc* findProc(const std::string& n) { for (auto& p : procTable) if (n == p.name) return &p; return 0; }

struct Counts { int uni, var, vtx, fvar, fvtx; bool known; };
/// Number of values per class for a primitive, from the RenderMan rules.  `counts.known` false
/// means varying/uniform lengths cannot be determined.
struct GenOpts {
    bool ascii = true;         // restrict strings to what ASCII RIB can carry
    bool plainFloats = false;  // modest magnitudes
    int maxArr = 12;
    bool longStrings = true;
    int ustep = 3, vstep = 3;  // current basis steps
    bool dupPNames = true;
};

inline std::string genStr(Src& s, const GenOpts& o, int maxLen = 24) {
    int n = s.size(0, maxLen);
    if (o.longStrings && s.chance(1, 25)) { static const int L[] = {15, 16, 17, 31, 255, 256, 257, 1000, 5000}; n = s.pick(L); }
    std::string r; static const char* words[] = {"a", "P", "foo", "st", "Cs", "World", "-1", "3.5", "[", "]", "#", "##", "uniform float x", " ", "Sphere", "1e5", "$", "'", ";"};
    bool usew = s.coin();
    while ((int)r.size() < n) {
        if (usew && s.coin()) r += s.pick(words);
        else if (o.ascii) { char c = (char)s.range(32, 126); if (c == '"' || c == '\\') c = '_'; r += c; }
        else r += (char)s.range(1, 255);
    }
    if ((int)r.size() > n) r.resize(n);
    return r;
}
inline std::string genName(Src& s) {
    static const char* std_[] = {"P", "Cs", "Os", "N", "s", "t", "st", "Pw", "width", "Ka", "fov", "texturename", "intensity", "myvar", "foo", "a", "b_2", "Kd", "gridsize", "bucketsize", "lightcolor"};
    if (s.chance(2, 3)) return s.pick(std_);
    std::string r; int n = s.range(1, 10);
    for (int i = 0; i < n; ++i) { static const char al[] = "abcxyzABCZ_019:."; char c = al[s.draw(i ? 15 : 10)]; r += c; }
    static const char* kw[] = {"constant","uniform","varying","vertex","facevarying","facevertex","float","point","color","integer","int","string","vector","normal","hpoint","pointer","matrix","mpoint"};
    std::string l = r; for (auto& c : l) c = tolower(c);
    for (auto k : kw) if (l == k) return r + "_";
    return r;
}
inline float genFloat(Src& s, const GenOpts& o) {
    if (o.plainFloats) return s.chance(1, 2) ? s.smallInt(8) : s.uniform(-8, 8);
    if (s.chance(1, 12)) { float m = s.uniform(0.5f, 1); if (s.coin()) m = -m; return std::ldexp(m, s.range(-115, 120)); }
    return s.flt();
}
inline int genInt(Src& s) {
    switch (s.draw(6)) {
        case 0: case 1: return s.range(0, 9);
        case 2: return -s.range(0, 9);
        case 3: return s.range(100, 300);
        case 4: { static const int e[] = {127, 128, 255, 256, 32767, 32768, 65535, 65536, 8388607, 8388608, 16777215, 16777216, 2147483647}; int v = s.pick(e); return s.coin() ? v : -v; }
        case 5: return s.range(-100000, 100000);
        default: return s.range(-2147483647, 2147483647);
    }
}
inline TS genSpec(Src& s, bool mpoint = false) {
    TS t; t.iclass = (TS::IClass)s.draw(5);
    static const TS::Type ty[] = {TS::Float, TS::Integer, TS::String, TS::Point, TS::Color, TS::Vector, TS::Normal, TS::HPoint, TS::Matrix};
    t.type = s.pick(ty); t.arraySize = s.chance(1, 3) ? s.range(2, 5) : 1;
    return t;
}
inline void fillPVal(Src& s, PVal& p, size_t n, const GenOpts& o) {
    p.f.clear(); p.i.clear(); p.s.clear();
    switch (p.spec.storageType()) {
        case TS::Float: for (size_t i = 0; i < n; ++i) p.f.push_back(genFloat(s, o)); break;
        case TS::Integer: for (size_t i = 0; i < n; ++i) p.i.push_back(genInt(s)); break;
        default: for (size_t i = 0; i < n; ++i) p.s.push_back(genStr(s, o, 12)); break;
    }
}
inline int classCount(const Counts& c, TS::IClass k) {
    switch (k) { case TS::Constant: return 1; case TS::Uniform: return c.uni; case TS::Varying: return c.var; case TS::Vertex: return c.vtx;
        case TS::FaceVarying: return c.fvar; case TS::FaceVertex: return c.fvtx; default: return 0; }
}
inline std::vector<PVal> genPList(Src& s, const GenOpts& o, const Counts& c, int maxN = 4) {
    std::vector<PVal> r; int n = s.size(0, maxN);
    for (int i = 0; i < n; ++i) {
        PVal p; p.spec = genSpec(s); p.name = genName(s);
        if (p.name == "P" || p.name == "Pw" || p.name == "Pz") p.name += "_x";
        if (s.chance(1, 3)) {   // standard variables with their standard types
            static const struct { const char* n; TS::IClass c; TS::Type t; int a; } sv[] = {
                {"Cs", TS::Varying, TS::Color, 1}, {"s", TS::Varying, TS::Float, 1}, {"st", TS::Varying, TS::Float, 2}, {"N", TS::Varying, TS::Normal, 1},
                {"Ka", TS::Uniform, TS::Float, 1}, {"texturename", TS::Uniform, TS::String, 1}, {"constantwidth", TS::Constant, TS::Float, 1}, {"gridsize", TS::Uniform, TS::Integer, 1}, {"bucketsize", TS::Uniform, TS::Integer, 2}};
            auto& v = s.pick(sv); p.name = v.n; p.spec = TS(v.c, v.t, v.a);
        }
        if (!c.known && (p.spec.iclass == TS::Uniform || p.spec.iclass == TS::Varying)) p.spec.iclass = TS::Constant;
        int k = classCount(c, p.spec.iclass);
        if ((long)k*p.spec.storageCount() > 2000) { p.spec = TS(TS::Constant, TS::Float, 1); p.name = "foo"; k = 1; }
        fillPVal(s, p, (size_t)k*p.spec.storageCount(), o);
        r.push_back(p);
    }
    return r;
}
inline PVal genP(Src& s, const GenOpts& o, int nvert, bool allowPw = false) {
    PVal p; bool w = allowPw && s.coin();
    p.spec = TS(TS::Vertex, w ? TS::HPoint : TS::Point, 1); p.name = w ? "Pw" : "P";
    fillPVal(s, p, (size_t)nvert*(w ? 4 : 3), o);
    return p;
}
inline void insertP(Src& s, std::vector<PVal>& l, const PVal& p) { l.insert(l.begin() + s.draw(l.size()), p); }
inline Val& vInts(Call& c, const std::vector<int>& v) { Val& x = c.nv('I'); x.i = v; return x; }
inline Val& vFlts(Call& c, const std::vector<float>& v) { Val& x = c.nv('F'); x.f = v; return x; }
inline std::vector<float> genFloats(Src& s, const GenOpts& o, int n) { std::vector<float> r; for (int i = 0; i < n; ++i) r.push_back(genFloat(s, o)); return r; }

/// Generates a legal call of procedure p: argument ranges, array lengths and parameter counts
/// all satisfy the interface description.
inline Call genCall(Src& s, const Proc& p, GenOpts& o) {
    Call c(p.name); std::string n = p.name;
    Counts one = {1, 1, 1, 1, 1, true};
    auto PLadd = [&](const std::vector<PVal>& l) { c.nv('L').pl = l; };
    auto vec = [&](int k, int lo, int hi) { std::vector<int> v; for (int i = 0; i < k; ++i) v.push_back(s.range(lo, hi)); return v; };
    auto sumv = [](const std::vector<int>& v) { int t = 0; for (int x : v) t += x; return t; };
    auto maxv = [](const std::vector<int>& v) { int t = v.empty() ? 0 : v[0]; for (int x : v) t = std::max(t, x); return t; };
    if (n == "Procedural") {
        int k = s.range(0, 2); c.S1(procNames[k]); Val& v = c.nv('S'); for (int i = 0; i < (k ? 2 : 1); ++i) v.s.push_back(genStr(s, o)); c.nv('f').f = genFloats(s, o, 6); return c;
    }
    if (n == "Polygon" || n == "Points") { int k = s.size(n == "Polygon" ? 3 : 1, 12); Counts ct = {1, k, k, k, k, true}; auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, k, n == "Points")); PLadd(l); return c; }
    if (n == "GeneralPolygon") { auto nv = vec(s.size(1, 4), 3, 5); int k = sumv(nv); vInts(c, nv); Counts ct = {1, k, k, k, k, true}; auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, k)); PLadd(l); return c; }
    if (n == "PointsPolygons" || n == "SubdivisionMesh") {
        int nf = s.size(1, 5); auto nv = vec(nf, 3, 5); int k = sumv(nv); auto vs = vec(k, 0, s.range(2, 12)); int np = maxv(vs) + 1;
        if (n == "SubdivisionMesh") { c.S1(s.coin() ? "catmull-clark" : "loop"); }
        vInts(c, nv); vInts(c, vs);
        if (n == "SubdivisionMesh") {
            int nt = s.size(0, 3); Val& tags = c.nv('S'); std::vector<int> na; std::vector<int> ia; std::vector<float> fa;
            for (int i = 0; i < nt; ++i) { static const char* T[] = {"hole", "crease", "corner", "interpolateboundary"}; tags.s.push_back(s.pick(T)); int a = s.range(0, 3), b = s.range(0, 2); na.push_back(a); na.push_back(b); for (int j = 0; j < a; ++j) ia.push_back(s.range(0, 9)); for (int j = 0; j < b; ++j) fa.push_back(genFloat(s, o)); }
            vInts(c, na); vInts(c, ia); vFlts(c, fa);
        }
        Counts ct = {nf, np, np, k, k, true}; auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, np)); PLadd(l); return c;
    }
    if (n == "PointsGeneralPolygons") {
        auto nl = vec(s.size(1, 3), 1, 3); auto nv = vec(sumv(nl), 3, 4); int k = sumv(nv); auto vs = vec(k, 0, s.range(2, 12)); int np = maxv(vs) + 1;
        vInts(c, nl); vInts(c, nv); vInts(c, vs); Counts ct = {(int)nl.size(), np, np, k, k, true}; auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, np)); PLadd(l); return c;
    }
    if (n == "Basis") {
        static const char* unused = 0; (void)unused; static Svc sv;
        int us = s.range(1, 4), vs = s.range(1, 4);
        for (int d = 0; d < 2; ++d) { Val& v = c.nv('f'); if (s.chance(2, 3)) { float* b = &sv.bases[s.draw(4)][0][0]; v.f.assign(b, b + 16); } else v.f = genFloats(s, o, 16); c.I1(d ? vs : us); }
        o.ustep = us; o.vstep = vs; return c;
    }
    if (n == "Patch") { bool bl = s.coin(); c.S1(bl ? "bilinear" : "bicubic"); int nv = bl ? 4 : 16; Counts ct = {1, 4, nv, 4, 4, true}; auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, nv, true)); PLadd(l); return c; }
    if (n == "PatchMesh") {
        bool bl = s.coin(), up = s.coin(), vp = s.coin(); int nu, nv; Counts ct = {1, 1, 1, 1, 1, true};
        if (bl) { nu = s.range(2, 5); nv = s.range(2, 5); ct.uni = (up ? nu : nu - 1)*(vp ? nv : nv - 1); ct.var = nu*nv; }
        else {
            int pu = s.range(1, 3), pv = s.range(1, 3); nu = up ? std::max(1, pu*o.ustep) : (pu - 1)*o.ustep + 4; nv = vp ? std::max(1, pv*o.vstep) : (pv - 1)*o.vstep + 4;
            ct.uni = pu*pv; ct.var = (pu + (up ? 0 : 1))*(pv + (vp ? 0 : 1));
        }
        ct.vtx = nu*nv;
        c.S1(bl ? "bilinear" : "bicubic"); c.I1(nu); c.S1(up ? "periodic" : "nonperiodic"); c.I1(nv); c.S1(vp ? "periodic" : "nonperiodic");
        auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, nu*nv, true)); PLadd(l); return c;
    }
    if (n == "NuPatch") {
        int uo = s.range(2, 4), vo = s.range(2, 4), nu = uo + s.range(0, 3), nv = vo + s.range(0, 3);
        float u0 = genFloat(s, o), v0 = genFloat(s, o);
        auto above = [&](float x) { float y = x + std::fabs(x)*0.5f + 1 + (float)s.range(0, 5); return y; };
        c.I1(nu); c.I1(uo); vFlts(c, genFloats(s, o, nu + uo)); c.F1(u0); c.F1(above(u0));
        c.I1(nv); c.I1(vo); vFlts(c, genFloats(s, o, nv + vo)); c.F1(v0); c.F1(above(v0));
        int seg = (2 + nu - uo)*(2 + nv - vo); Counts ct = {seg, seg, nu*nv, seg, seg, true};
        auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, nu*nv, true)); PLadd(l); return c;
    }
    if (n == "TrimCurve") {
        auto nc = vec(s.size(1, 3), 1, 2); int k = sumv(nc); auto ord = vec(k, 2, 4); std::vector<int> nn; for (int x : ord) nn.push_back(x + s.range(0, 2));
        int t = sumv(nn); vInts(c, nc); vInts(c, ord); vFlts(c, genFloats(s, o, sumv(ord) + t)); vFlts(c, genFloats(s, o, k)); vFlts(c, genFloats(s, o, k)); vInts(c, nn);
        for (int d = 0; d < 3; ++d) vFlts(c, genFloats(s, o, t)); return c;
    }
    if (n == "Curves") {
        bool lin = s.coin(), per = s.coin(); int k = s.size(1, 4); std::vector<int> nv; int var = 0;
        for (int i = 0; i < k; ++i) {
            if (lin) { nv.push_back(s.range(2, 5)); var += nv.back(); }
            else { int sg = s.range(1, 3); int m = per ? sg*o.vstep : (sg - 1)*o.vstep + 4; nv.push_back(m); var += per ? sg : sg + 1; }
        }
        int tot = sumv(nv); Counts ct = {k, var, tot, 1, 1, true};
        c.S1(lin ? "linear" : "cubic"); vInts(c, nv); c.S1(per ? "periodic" : "nonperiodic");
        auto l = genPList(s, o, ct, 3); insertP(s, l, genP(s, o, tot, true)); PLadd(l); return c;
    }
    if (n == "Blobby") {
        int nl = s.range(1, 4); c.I1(nl); vInts(c, vec(s.size(1, 8), 0, 1004)); vFlts(c, genFloats(s, o, s.size(1, 20))); Val& v = c.nv('S'); int k = s.range(0, 2); for (int i = 0; i < k; ++i) v.s.push_back(genStr(s, o));
        Counts ct = {1, nl, nl, nl, nl, true}; PLadd(genPList(s, o, ct, 3)); return c;
    }
    if (n == "MakeOcclusion") { Val& v = c.nv('S'); int k = s.size(1, 4); for (int i = 0; i < k; ++i) v.s.push_back(genStr(s, o)); c.S1(genStr(s, o)); PLadd(genPList(s, o, one, 3)); return c; }
    if (n == "ColorSamples") { auto a = genFloats(s, o, 9); vFlts(c, a); vFlts(c, genFloats(s, o, 9)); return c; }
    if (n == "MotionBegin") { std::vector<float> t; float x = genFloat(s, o); int k = s.range(1, 4); for (int i = 0; i < k; ++i) { t.push_back(x); x += 1 + std::fabs(x); } vFlts(c, t); return c; }
    if (n == "Declare") {
        static const char* cl[] = {"", "constant ", "uniform ", "varying ", "vertex ", "facevarying ", "facevertex "}; static const char* ty[] = {"float", "integer", "int", "string", "point", "color", "vector", "normal", "hpoint", "matrix"};
        std::string d = s.pick(cl); d += s.pick(ty); if (s.chance(1, 3)) d += "[" + std::to_string(s.range(1, 5)) + "]";
        static const char* nm[] = {"myvar", "foo", "a", "b_2", "Ka", "bar"}; c.S1(s.pick(nm)); c.S1(d); return c;
    }
    // generic: scalars with ranges
    Counts ct = one;
    if (strstr(p.iclass, "Varying=4")) ct = Counts{1, 4, 4, 4, 4, true};
    std::map<std::string, size_t> idx;
    for (auto& a : p.args) {
        switch (a.kind[0]) {
            case 'i': idx[a.name] = c.a.size(); { std::string an = a.name; if (an == "onoff") c.I1(s.draw(1)); else if (an == "nsides") c.I1(1 + s.draw(1)); else c.I1(genInt(s)); } break;
            case 'f': idx[a.name] = c.a.size(); c.F1(genFloat(s, o)); break;
            case 's': {
                std::string an = a.name; static const char* W[] = {"periodic", "clamp", "black"};
                if (n == "Orientation") { static const char* O[] = {"outside", "inside", "lh", "rh"}; c.S1(s.pick(O)); }
                else if (n == "ShadingInterpolation") c.S1(s.coin() ? "smooth" : "constant");
                else if (n == "SolidBegin") { static const char* O[] = {"primitive", "union", "intersection", "difference"}; c.S1(s.pick(O)); }
                else if (an == "swrap" || an == "twrap") c.S1(s.pick(W));
                else c.S1(genStr(s, o)); break;
            }
            case 'c': case 'p': c.nv('f').f = genFloats(s, o, 3); break;
            case 'b': c.nv('f').f = genFloats(s, o, 6); break;
            case 'm': c.nv('f').f = genFloats(s, o, 16); break;
            case 'X': c.S1(s.pick(filterNames)); break;
            case 'E': c.S1(s.pick(errorNames)); break;
            case 'A': break;
            case 'L': PLadd(genPList(s, o, ct)); break;
            default: fail("harness: no generator for " + n);
        }
    }
    if (n == "CropWindow") { float a = s.uniform(0, 0.49f), b = s.uniform(0.5f, 1), d = s.uniform(0, 0.49f), e = s.uniform(0.5f, 1); c.a[0].f[0] = a; c.a[1].f[0] = b; c.a[2].f[0] = d; c.a[3].f[0] = e; return c; }
    if (n == "DetailRange") { std::vector<float> v; for (int i = 0; i < 4; ++i) v.push_back(c.a[i].f[0]); std::sort(v.begin(), v.end()); for (int i = 0; i < 4; ++i) c.a[i].f[0] = v[i]; return c; }
    if (n == "Clipping") { float a = std::fabs(c.a[0].f[0]); if (a < 1e-6f) a = 0.5f; c.a[0].f[0] = a; c.a[1].f[0] = a*2 + 1; return c; }
    // range repair
    for (auto& a : p.args) if (*a.range && idx.count(a.name)) {
        Val& v = c.a[idx[a.name]]; std::istringstream is(a.range); std::string item;
        while (std::getline(is, item, ';')) {
            std::string op = item.substr(0, 2), rhs = item.substr(3); double x = v.k == 'i' ? (double)v.i[0] : v.f[0], y;
            if (idx.count(rhs)) { Val& w = c.a[idx[rhs]]; y = w.k == 'i' ? (double)w.i[0] : w.f[0]; } else y = rhs == "RI_EPSILON" ? 1.0e-10 : atof(rhs.c_str());
            bool ok = op == "ne" ? x != y : op == "gt" ? x > y : op == "ge" ? x >= y : op == "lt" ? x < y : x <= y;
            if (!ok) {
                if (op == "ne" || op == "gt") x = y == 0 ? std::max(1.0, std::fabs(x)) : y + std::max(1.0, std::fabs(y)*0.5); else if (op == "ge") x = y == 0 ? std::fabs(x) : y + (float)s.range(0, 3); else x = y - std::max(1.0, std::fabs(y)*0.5);
                if (v.k == 'i') { if (x < -2147483647.0) { x = -2147483647.0; } v.i[0] = (int)x; } else v.f[0] = (float)x;
            }
        }
    }
    return c;
}

inline bool hasPList(const Proc& p) { return !p.args.empty() && p.args.back().kind[0] == 'L'; }
} // namespace rim
#endif
