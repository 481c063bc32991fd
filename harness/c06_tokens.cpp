// C06: parameter declarations and the token dictionary.
#include "ri_model.h"
#include <aqsis/riutil/primvartoken.h>
#include <aqsis/riutil/interpclasscounts.h>
using namespace rim;

static const struct { const char* n; TS::IClass c; } CL[] = {{"constant", TS::Constant}, {"uniform", TS::Uniform}, {"varying", TS::Varying}, {"vertex", TS::Vertex}, {"facevarying", TS::FaceVarying}, {"facevertex", TS::FaceVertex}};
static const struct { const char* n; TS::Type t; int cnt; } TY[] = {{"float", TS::Float, 1}, {"point", TS::Point, 3}, {"color", TS::Color, 3}, {"integer", TS::Integer, 1}, {"int", TS::Integer, 1}, {"string", TS::String, 1}, {"vector", TS::Vector, 3}, {"normal", TS::Normal, 3}, {"hpoint", TS::HPoint, 4}, {"matrix", TS::Matrix, 16}, {"pointer", TS::Pointer, 1}, {"mpoint", TS::MPoint, 16}};

static std::string randCase(Src& s, const std::string& w) { std::string r = w; if (s.chance(1, 5)) for (auto& c : r) if (s.coin()) c = toupper(c); return r; }
static std::string lower(std::string s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }
static bool findClass(const std::string& w, TS::IClass& c) { for (auto& x : CL) if (lower(w) == x.n) { c = x.c; return true; } return false; }
static bool findType(const std::string& w, TS::Type& t) { for (auto& x : TY) if (lower(w) == x.n) { t = x.t; return true; } return false; }

/// Joins tokens with random legal whitespace ('[' and ']' need none).
static std::string layout(Src& s, const std::vector<std::string>& t) {
    static const char* ws[] = {" ", "  ", "\t", "\n", " \t ", "   "};
    std::string o; if (s.chance(1, 6)) o += s.pick(ws);
    for (size_t i = 0; i < t.size(); ++i) {
        if (i) { bool opt = t[i] == "[" || t[i] == "]" || t[i-1] == "[" || t[i-1] == "]"; if (!opt || s.chance(1, 3)) o += s.pick(ws); }
        o += t[i];
    }
    if (s.chance(1, 6)) o += s.pick(ws);
    return o;
}

/// The grammar: [class] [type] ['[' n ']'] name, where class or size need a type.  Returns false when malformed.
static bool grammar(const std::vector<std::string>& t, bool wantName, TS& spec, std::string& name) {
    size_t i = 0; bool cl = false, ty = false, ar = false; spec = TS(); name.clear();
    if (i < t.size() && findClass(t[i], spec.iclass)) { cl = true; ++i; }
    if (i < t.size() && findType(t[i], spec.type)) { ty = true; ++i; }
    if (i < t.size() && t[i] == "[") {
        if (i + 2 >= t.size() || t[i+2] != "]") return false;
        const std::string& n = t[i+1]; if (n.empty() || n.size() > 9) return false; for (char c : n) if (c < '0' || c > '9') return false;
        spec.arraySize = atoi(n.c_str()); if (spec.arraySize < 1) return false; ar = true; i += 3;
    }
    if (!ty && (cl || ar)) return false;
    if (wantName) { if (i >= t.size() || t[i] == "[" || t[i] == "]") return false; name = t[i++]; }
    else if (!ty) return false;
    return i == t.size();
}

static std::vector<std::string> genTokens(Src& s) {
    std::vector<std::string> t; GenOpts o;
    if (s.chance(2, 3)) { // well-formed skeleton, maybe damaged afterwards
        bool ty = s.chance(3, 4); if (ty && s.chance(2, 3)) t.push_back(randCase(s, CL[s.draw(5)].n)); if (ty) t.push_back(randCase(s, TY[s.draw(11)].n));
        if (ty && s.chance(1, 3)) { t.push_back("["); t.push_back(std::to_string(s.chance(1, 8) ? s.range(0, 100000) : s.range(1, 9))); t.push_back("]"); }
        if (s.chance(9, 10)) { if (s.chance(1, 10)) t.push_back(TY[s.draw(11)].n); else t.push_back(genName(s)); }
        if (s.chance(1, 3) && !t.empty()) switch (s.draw(3)) {
            case 0: t.erase(t.begin() + s.draw(t.size() - 1)); break;
            case 1: { size_t i = s.draw(t.size() - 1); t.insert(t.begin() + i, t[s.draw(t.size() - 1)]); break; }
            case 2: { size_t i = s.draw(t.size() - 1), j = s.draw(t.size() - 1); std::swap(t[i], t[j]); break; }
            default: { static const char* bad[] = {"[", "]", "-1", "2x", "x2", "0", "-3", "1.5", "uniform", "4294967297", "float", "foo", "unifor", "floats"}; t[s.draw(t.size() - 1)] = s.pick(bad); break; }
        }
    } else {
        int n = s.range(0, 6); static const char* w[] = {"uniform", "varying", "vertex", "constant", "facevarying", "facevertex", "float", "int", "color", "matrix", "[", "]", "2", "3", "foo", "P", "-1", "st", "[", "]"};
        for (int i = 0; i < n; ++i) t.push_back(s.pick(w));
    }
    return t;
}

static std::string tstr(const std::vector<std::string>& t) { std::string o; for (auto& x : t) o += x + " "; return o; }

PBT_SUITE(inline_tokens, 400000, 2000000) {
    auto t = genTokens(src); std::string text = layout(src, t); TS want; std::string name; bool ok = grammar(t, true, want, name);
    src.note(q(text) + (ok ? " -> " + typeStr(want) + " " + name : " malformed")); src.label(ok ? "well-formed" : "malformed"); if (t.size() >= 2) src.nontrivial(text);
    std::vector<char> buf(text.begin(), text.end()); buf.push_back(0); // exact-size heap copy: overreads are caught
    const char *b = 0, *e = 0; bool threw = false; TS got; std::string why;
    try { got = parseDeclaration(&buf[0], &b, &e); } catch (XqException& x) { threw = true; why = x.what(); }
    if (ok && threw) fail("well-formed token " + q(text) + " rejected: " + why);
    if (!ok && !threw) fail("malformed token " + q(text) + " accepted as " + typeStr(got) + " '" + std::string(b, e) + "'");
    if (ok) {
        if (!(got == want) || std::string(b, e) != name) fail("token " + q(text) + " read as " + typeStr(got) + " '" + std::string(b, e) + "', expected " + typeStr(want) + " '" + name + "'");
        if (want.type != TS::Unknown && want.type != TS::Pointer && want.type != TS::MPoint) {
            CqPrimvarToken pt(&buf[0]); if (!(toTypeSpec(pt) == want) || pt.name() != name || !pt.hasType()) fail("CqPrimvarToken of " + q(text));
            // printing the token and reading it again is the identity
            Ri::Param p(want, name.c_str(), Ri::FloatArray()); std::string s2 = tokenString(p); CqPrimvarToken again(s2.c_str()); if (!(again == pt)) fail("token string " + q(s2) + " of " + q(text) + " reads back differently");
            // sizes
            SqInterpClassCounts cc(src.range(1, 9), src.range(1, 9), src.range(1, 9), src.range(1, 9), src.range(1, 9)); int per = 0; for (auto& x : TY) if (x.t == want.type) per = x.cnt;
            int k = want.iclass == TS::Constant ? 1 : want.iclass == TS::Uniform ? cc.uniform : want.iclass == TS::Varying ? cc.varying : want.iclass == TS::Vertex ? cc.vertex : want.iclass == TS::FaceVarying ? cc.facevarying : cc.facevertex;
            if (pt.storageCount() != per*want.arraySize || want.storageCount() != per*want.arraySize) fail("storage count of " + q(text));
            if (pt.storageCount(cc) != per*want.arraySize*k) fail("storage count per class of " + q(text));
            if (iclassCount(cc, want.iclass) != k) fail("class count of " + q(text));
            EqVariableType st = pt.storageType(); TS::Type s3 = want.storageType(); bool f = want.type != TS::Integer && want.type != TS::String;
            if ((st == type_float) != f || (s3 == TS::Float) != f || (st == type_string) != (want.type == TS::String)) fail("storage type of " + q(text));
        }
    }
}

static std::map<std::string, TS> standard() {
    std::map<std::string, TS> m; auto U = [&](const char* n, TS::Type t, int a = 1) { m[n] = TS(TS::Uniform, t, a); };
    for (auto n : {"Ka", "Kd", "Ks", "Kr", "Km", "roughness", "intensity", "coneangle", "conedeltaangle", "beamdistribution", "mindistance", "maxdistance", "fov", "sphere", "bias0", "bias1", "bias"}) U(n, TS::Float);
    for (auto n : {"specularcolor", "lightcolor", "background"}) U(n, TS::Color); U("from", TS::Point); U("to", TS::Point); for (auto n : {"texturename", "shader", "archive", "texture", "display", "procedural", "coordinatesystem", "name"}) U(n, TS::String);
    U("gridsize", TS::Integer); U("bucketsize", TS::Integer, 2); U("eyesplits", TS::Integer); U("endofframe", TS::Integer);
    m["P"] = TS(TS::Vertex, TS::Point); m["Pw"] = TS(TS::Vertex, TS::HPoint); m["N"] = TS(TS::Varying, TS::Normal); m["Np"] = TS(TS::Uniform, TS::Normal); m["Cs"] = TS(TS::Varying, TS::Color); m["Os"] = TS(TS::Varying, TS::Color);
    m["s"] = TS(TS::Varying, TS::Float); m["t"] = TS(TS::Varying, TS::Float); m["st"] = TS(TS::Varying, TS::Float, 2); m["width"] = TS(TS::Varying, TS::Float); m["constantwidth"] = TS(TS::Constant, TS::Float);
    return m;
}

PBT_SUITE(dictionary, 120000, 400000) {
    TokenDict d; std::map<std::string, TS> m = standard(), std0 = m; std::vector<std::string> names; for (auto& x : m) names.push_back(x.first); for (auto n : {"foo", "bar", "baz", "myvar", "_x1", "Foo"}) names.push_back(n);
    int n = src.size(1, 25), nd = 0; std::string log;
    for (int i = 0; i < n; ++i) {
        std::string nm = src.chance(1, 2) ? names[names.size() - 1 - src.draw(5)] : src.pick(names);
        switch (src.draw(3)) {
            case 0: { auto t = genTokens(src); TS sp; std::string dummy; bool ok = grammar(t, false, sp, dummy); std::string ty = layout(src, t); log += "declare " + nm + " " + q(ty) + "\n"; bool threw = false;
                try { d.declare(nm.c_str(), ty.c_str()); } catch (XqException&) { threw = true; } if (threw == ok) fail(log + (ok ? "rejected" : "accepted")); if (ok) { m[nm] = sp; ++nd; } break; }
            case 1: { TS sp = genSpec(src); std::vector<std::string> t; t.push_back(CL[sp.iclass].n); for (auto& x : TY) if (x.t == sp.type) { t.push_back(x.n); break; } if (sp.arraySize != 1) { t.push_back("["); t.push_back(std::to_string(sp.arraySize)); t.push_back("]"); } std::string ty = layout(src, t); log += "declare " + nm + " " + q(ty) + "\n"; d.declare(nm.c_str(), ty.c_str()); m[nm] = sp; ++nd; break; }
            case 2: { auto t = genTokens(src); std::string tok = layout(src, t); TS sp; std::string name; bool ok = grammar(t, true, sp, name); if (ok && sp.type == TS::Unknown) { auto it = m.find(name); if (it == m.end()) { bool isStd = false; { TokenDict fresh; try { fresh.lookup(name.c_str()); isStd = true; } catch (XqException&) {} } if (isStd) break; ok = false; } else sp = it->second; }
                log += "lookup " + q(tok) + "\n"; bool threw = false; TS got; std::string gn; try { got = d.lookup(tok.c_str(), &gn); } catch (XqException&) { threw = true; }
                if (threw == ok) fail(log + (ok ? "rejected" : "accepted")); if (ok && (!(got == sp) || gn != name)) fail(log + "got " + typeStr(got) + " " + gn + ", expected " + typeStr(sp) + " " + name); break; }
            default: { log += "lookup " + nm + "\n"; bool ok = m.count(nm), threw = false; TS got; const char *b, *e; try { got = d.lookup(nm.c_str(), &b, &e); } catch (XqException&) { threw = true; } if (threw == ok) fail(log + "declared name " + (ok ? "not found" : "found")); if (ok && !(got == m[nm])) fail(log + "got " + typeStr(got) + ", expected " + typeStr(m[nm])); }
        }
    }
    // everything else is as it was
    for (auto& x : m) { TS got = d.lookup(x.first.c_str()); if (!(got == x.second)) fail(log + "finally " + x.first + " is " + typeStr(got) + ", expected " + typeStr(x.second)); }
    src.note(log); if (nd >= 2) src.nontrivial(log);
}

// Through the RIB parser: declarations apply to later requests, inline types to one use only.
PBT_SUITE(rib_stream, 60000, 250000) {
    static const char* nms[] = {"foo", "bar", "Ka", "Cs", "myvar", "st"}; std::map<std::string, TS> m = standard(); std::string rib; std::vector<Call> want; int n = src.size(1, 12), uses = 0;
    auto spell = [&](const TS& sp) { std::vector<std::string> t; if (sp.iclass != TS::Uniform || src.coin()) t.push_back(CL[sp.iclass].n); for (auto& x : TY) if (x.t == sp.type) { t.push_back(x.n); break; } if (sp.arraySize != 1) { t.push_back("["); t.push_back(std::to_string(sp.arraySize)); t.push_back("]"); } return t; };
    for (int i = 0; i < n; ++i) {
        std::string nm = src.pick(nms);
        if (src.chance(1, 3)) { TS sp = genSpec(src); std::string ty = layout(src, spell(sp)); rib += "Declare \"" + nm + "\" \"" + ty + "\"\n"; m[nm] = sp; Call c("Declare"); c.S1(nm); c.S1(ty); want.push_back(c); continue; }
        Call c("Attribute"); c.S1("user"); c.nv('L'); rib += "Attribute \"user\" "; int k = src.range(1, 3); bool bad = false;
        for (int j = 0; j < k; ++j) {
            nm = src.pick(nms); PVal p; bool inl = src.chance(1, 3) || !m.count(nm); p.spec = inl ? genSpec(src) : m[nm]; p.name = nm; GenOpts o; o.plainFloats = true; o.longStrings = false;
            fillPVal(src, p, p.spec.storageCount(), o); for (auto& f : p.f) f = std::floor(f); for (auto& x : p.i) x %= 1000000;
            std::vector<std::string> t; if (inl) t = spell(p.spec); t.push_back(nm); rib += "\"" + layout(src, t) + "\" [";
            for (auto f : p.f) rib += fstr(f) + " "; for (auto v : p.i) rib += std::to_string(v) + " "; for (auto& s : p.s) rib += "\"" + s + "\" "; rib += "] "; c.a.back().pl.push_back(p); ++uses;
        }
        rib += "\n"; if (!bad) want.push_back(c);
    }
    src.note(rib); if (uses >= 2) src.nontrivial(rib);
    Svc svc; Recorder rec; rec.svc = &svc; std::istringstream in(rib); svc.parseRib(in, "t", rec);
    if (svc.err.errors) fail("parse error: " + svc.err.last); expectSame(want, rec.calls, 0, "declared stream");
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a case is a token text, a history of declarations and lookups, or a RIB stream of declarations and uses; non-trivial: two or more words / declarations / uses; distinct by text"); }
