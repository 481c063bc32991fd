// C10: shader parameters.  Random parameter lists are compiled by the real compiler; the shader
// is cloned into instances which get values (in named spaces, of right and wrong types), and
// every instance shades a history of grids, some of which carry primitive variables.  The body
// copies each parameter (element) into an output variable, so what the shader sees is judged.
// The same compiled shader is written to a file and queried through the SLX argument library.
#include "sl_vm.h"
#include <aqsis/core/iparameter.h>
#include <aqsis/ri/slx.h>
#include <fstream>
#include <unistd.h>
using namespace sl;

namespace {
enum T { F, P, V, N, C, M, S };
const char* TN[] = {"float", "point", "vector", "normal", "color", "matrix", "string"};
const EqVariableType TT[] = {type_float, type_point, type_vector, type_normal, type_color, type_matrix, type_string};
const SLX_TYPE XT[] = {SLX_TYPE_SCALAR, SLX_TYPE_POINT, SLX_TYPE_VECTOR, SLX_TYPE_NORMAL, SLX_TYPE_COLOR, SLX_TYPE_MATRIX, SLX_TYPE_STRING};
int comps(T t) { return t == F || t == S ? 1 : t == M ? 16 : 3; }
struct Val { std::vector<double> n; std::string s; };
struct Par { std::string name; T t; bool varying, out, spaced; int len; std::vector<Val> def; std::vector<std::string> defSpace; };

std::string num(double d) { char b[40]; snprintf(b, sizeof b, "%g", d); return b; }
std::string lit(const Par& p, const Val& v, const std::string& sp) {
    if (p.t == S) return "\"" + v.s + "\"";
    if (p.t == F) return num(v.n[0]);
    std::string r = std::string(TN[p.t]) + " " + (sp.empty() ? "" : "\"" + sp + "\" ") + "(";
    for (size_t i = 0; i < v.n.size(); ++i) r += (i ? ", " : "") + num(v.n[i]);
    return r + ")";
}
Val randVal(pbt::Src& src, T t) {
    static const char* STR[] = {"", "a", "shinymetal", "x y", "tex.tif"};
    Val v; if (t == S) { v.s = STR[src.range(0, 4)]; return v; }
    if (t == M) { M16 m = ident(); for (int i = 0; i < 3; ++i) { m[i*5] = src.range(1, 5); m[12+i] = src.range(-5, 5); } if (src.coin()) m[1] = src.range(-2, 2); v.n.assign(m.begin(), m.end()); return v; }
    for (int i = 0; i < comps(t); ++i) v.n.push_back(src.range(-20, 20)/4.0);
    return v;
}
const char* SPACES[] = {"current", "world", "object", "shader", "mine"};
Val toCurrent(const MockRenderer& r, T t, const Val& v, const std::string& space) {
    if (t == F || t == C || t == S || space.empty()) return v;
    M16 m; if (!r.spaces.find(space, m)) pbt::fail("harness: space");
    Val o;
    if (t == M) { M16 a; std::copy(v.n.begin(), v.n.end(), a.begin()); M16 x = mul(a, m); o.n.assign(x.begin(), x.end()); return o; }
    if (t != P) m = linear(m); if (t == N) m = transpose(inverse(m));
    for (int j = 0; j < 3; ++j) o.n.push_back(v.n[0]*m[j] + v.n[1]*m[4+j] + v.n[2]*m[8+j] + (t == P ? m[12+j] : 0));
    return o;
}
void setVar(IqShaderData* d, T t, const Val& v, int i) {
    switch (t) {
        case F: d->SetFloat(v.n[0], i); break;
        case P: d->SetPoint(CqVector3D(v.n[0], v.n[1], v.n[2]), i); break;
        case V: d->SetVector(CqVector3D(v.n[0], v.n[1], v.n[2]), i); break;
        case N: d->SetNormal(CqVector3D(v.n[0], v.n[1], v.n[2]), i); break;
        case C: d->SetColor(CqColor(v.n[0], v.n[1], v.n[2]), i); break;
        case M: { M16 m; std::copy(v.n.begin(), v.n.end(), m.begin()); d->SetMatrix(toCq(m), i); break; }
        case S: d->SetString(v.s.c_str(), i); break;
    }
}
// a primitive variable with one value per shading point (or one for all)
struct PrimVar : IqParameter {
    CqString name; T t; int len; std::vector<std::vector<Val>> v;      // [element][point]
    EqVariableClass Class() const override { return class_varying; }
    EqVariableType Type() const override { return TT[t]; }
    void SetSize(TqInt) override {}
    TqUint Size() const override { return v[0].size(); }
    TqInt ArrayLength() const override { return std::max(1, len); }
    void Clear() override {}
    void Dice(TqInt, TqInt, IqShaderData* d, IqSurface*) override {
        for (size_t e = 0; e < v.size(); ++e) { IqShaderData* x = d->isArray() ? d->ArrayEntry(e) : d; for (size_t i = 0; i < (x->Class() == class_uniform ? 1 : v[e].size()); ++i) setVar(x, t, v[e][i], i); }
    }
    void CopyToShaderVariable(IqShaderData*) const override {}
    void DiceOne(TqInt, TqInt, IqShaderData*, IqSurface*, TqInt) override {}
    const CqString& strName() const override { return name; }
};
bool close(double a, double b) { return std::fabs(a - b) <= 1e-4*(1 + std::fabs(b)); }
std::string show(const Val& v) { if (v.n.empty()) return "\"" + v.s + "\""; std::string r; for (double x : v.n) r += num(x) + " "; return r; }

struct Program { std::vector<Par> ps; std::string type, text; };

Program genProgram(pbt::Src& src) {
    Program g; static const char* TYPES[] = {"surface", "displacement", "volume", "light", "imager", "transformation"};
    static const char* NAMES[] = {"Ka", "roughness", "a", "b", "amp", "specularcolor", "x", "map", "fromX", "basis", "e1", "Kd"};
    g.type = src.chance(60) ? "surface" : TYPES[src.range(0, 5)];
    int n = src.range(1, 6); std::vector<std::string> names(NAMES, NAMES + 12);
    for (int i = 0; i < n; ++i) {
        Par p; int k = src.range(0, names.size() - 1); p.name = names[k]; names.erase(names.begin() + k);
        p.t = (T)src.range(F, S); p.varying = p.t != S && src.chance(40); p.out = src.chance(25); p.len = src.chance(35) ? src.range(1, 4) : 0;
        p.spaced = false;
        for (int e = 0; e < std::max(1, p.len); ++e) {
            Val v = randVal(src, p.t); std::string sp = (p.t == P || p.t == V || p.t == N) && src.chance(30) ? SPACES[src.range(0, 4)] : "";
            if (!sp.empty()) p.spaced = true; p.def.push_back(v); p.defSpace.push_back(sp);
        }
        if (p.len) src.label("array parameter"); if (p.varying) src.label("varying parameter"); if (p.spaced) src.label("default in a named space");
        g.ps.push_back(p);
    }
    std::ostringstream o; o << g.type << " t(";
    for (auto& p : g.ps) {
        o << (p.out ? "output " : "") << (p.varying ? "varying " : src.coin() ? "uniform " : p.t == S ? "" : "uniform ") << TN[p.t] << " " << p.name;
        if (p.len) { o << "[" << p.len << "] = {"; for (int e = 0; e < p.len; ++e) o << (e ? ", " : "") << lit(p, p.def[e], p.defSpace[e]); o << "}"; }
        else o << " = " << lit(p, p.def[0], p.defSpace[0]);
        o << "; ";
    }
    for (auto& p : g.ps) for (int e = 0; e < std::max(1, p.len); ++e) o << "output " << (p.t == S ? "uniform " : "varying ") << TN[p.t] << " o_" << p.name << "_" << e << " = " << (p.t == S ? "\"none\"" : "-77") << "; ";
    o << ")\n{\n";
    for (auto& p : g.ps) for (int e = 0; e < std::max(1, p.len); ++e) o << "  o_" << p.name << "_" << e << " = " << p.name << (p.len ? "[" + std::to_string(e) + "]" : "") << ";\n";
    // spoil the output parameters: the next grid must not see that
    for (auto& p : g.ps) if (p.out && p.t != S) { src.label("output parameter written"); for (int e = 0; e < std::max(1, p.len); ++e) o << "  " << p.name << (p.len ? "[" + std::to_string(e) + "]" : "") << " = " << (p.t == F ? "99" : p.t == M ? "matrix (9)" : std::string(TN[p.t]) + " (98, 97, 96)") << ";\n"; }
    o << "}\n"; g.text = o.str();
    return g;
}

void setup(pbt::Src& src, MockRenderer& rend) {
    for (const char* s : SPACES) if (std::string(s) != "current") {
        M16 m = ident(); int k = src.range(0, 3);
        for (int i = 0; i < 3; ++i) { m[12+i] = src.range(-3, 3); if (k & 1) m[i*5] = src.range(1, 3); }
        if (k & 2) { std::swap(m[0], m[4]); std::swap(m[1], m[5]); }
        rend.spaces.toCurrent[s] = m;
    }
}

void check(Vm& vm, const Program& g, const std::vector<std::vector<std::vector<Val>>>& want, const std::string& what) {
    for (size_t q = 0; q < g.ps.size(); ++q) for (int e = 0; e < std::max(1, g.ps[q].len); ++e) {
        const Par& p = g.ps[q]; std::string on = "o_" + p.name + "_" + std::to_string(e); IqShaderData* d = vm.arg(on);
        for (int i = 0; i < (p.t == S ? 1 : vm.g.n); ++i) {
            const Val& w = want[q][e][want[q][e].size() > 1 ? i : 0];
            auto bad = [&](const std::string& got) { pbt::fail(what + ": parameter " + p.name + (p.len ? "[" + std::to_string(e) + "]" : "") + " at point " + std::to_string(i) + " is " + got + ", expected " + show(w) + "\n" + g.text); };
            if (p.t == S) { CqString s; d->GetString(s, 0); if (s != w.s.c_str()) bad("\"" + s + "\""); continue; }
            std::vector<float> got; getFloats(d, i, TT[p.t], got);
            for (size_t k = 0; k < got.size(); ++k) if (!close(got[k], w.n[k])) { Val x; x.n.assign(got.begin(), got.end()); bad(show(x)); }
        }
    }
}

void paramCase(pbt::Src& src) {
    MockRenderer rend; setup(src, rend);
    Program g = genProgram(src); src.note(g.text);
    Compiled c = compile(g.text); if (!c.ok) pbt::fail("a valid shader is rejected: " + c.err + "\n" + g.text);
    Vm proto(rend); proto.load(c.slx);
    int ni = src.range(1, 3); std::vector<Vm> inst; std::vector<std::vector<std::vector<Val>>> base(ni);   // [instance][param][element]
    bool any = false; std::string hist;
    for (int k = 0; k < ni; ++k) {
        Vm vm(rend); vm.sh = proto.sh->Clone(); vm.sh->SetTransform(vm.trans);
        for (auto& p : g.ps) { std::vector<Val> v; for (size_t e = 0; e < p.def.size(); ++e) v.push_back(toCurrent(rend, p.t, p.def[e], p.defSpace[e])); base[k].push_back(v); }
        int na = src.range(0, 5);
        for (int a = 0; a < na; ++a) {
            if (g.ps.empty() || src.chance(8)) { float f = 3; vm.sh->SetArgument("nosuch", type_float, "", &f); src.label("unknown parameter set"); continue; }
            int q = src.range(0, g.ps.size() - 1); const Par& p = g.ps[q];
            bool wrong = src.chance(10); T t = p.t; if (wrong) { t = (T)src.range(F, S); if (t == p.t) wrong = false; }
            std::string sp = (p.t == F || p.t == C || p.t == S) ? "" : src.chance(40) ? SPACES[src.range(0, 4)] : "";
            std::vector<float> fl; std::vector<std::string> st; std::vector<char*> cs; std::vector<Val> vals;
            for (int e = 0; e < std::max(1, p.len); ++e) { Val v = randVal(src, t); vals.push_back(v); for (double x : v.n) fl.push_back(x); st.push_back(v.s); }
            for (auto& s : st) cs.push_back(const_cast<char*>(s.c_str()));
            vm.sh->SetArgument(p.name.c_str(), TT[t], sp.c_str(), t == S ? (void*)cs.data() : (void*)fl.data());
            hist += "instance " + std::to_string(k) + ": set " + p.name + " (as " + TN[t] + (sp.empty() ? "" : " in " + sp) + ") to"; for (auto& v : vals) hist += " " + show(v); hist += "\n";
            if (wrong) { src.label("instance value of the wrong type"); continue; }
            any = true; src.label(p.len ? "instance value for an array" : "instance value");
            for (size_t e = 0; e < vals.size(); ++e) base[k][q][e] = toCurrent(rend, p.t, vals[e], sp.empty() ? "shader" : sp);
        }
        int prep = src.range(1, 2); for (int j = 0; j < prep; ++j) vm.sh->PrepareShaderForUse();
        inst.push_back(vm);
    }
    src.note(hist);
    int ngr = src.range(1, 5);
    for (int r = 0; r < ngr; ++r) {
        int k = src.range(0, ni - 1); Vm& vm = inst[k]; Grid grid; grid.set(src.range(1, 3), src.range(1, 3)); vm.begin(grid);
        std::vector<std::vector<std::vector<Val>>> want;
        for (size_t q = 0; q < g.ps.size(); ++q) { want.emplace_back(); for (auto& v : base[k][q]) want.back().push_back({v}); }
        for (size_t q = 0; q < g.ps.size(); ++q) {
            const Par& p = g.ps[q]; if (!src.chance(25)) continue;
            PrimVar pv; pv.name = p.name; pv.t = src.chance(12) ? (T)src.range(F, S) : p.t; pv.len = p.len; if (pv.t == S || p.t == S) continue;
            for (int e = 0; e < std::max(1, p.len); ++e) { pv.v.emplace_back(); Val one = randVal(src, pv.t); for (int i = 0; i < grid.n; ++i) pv.v.back().push_back(p.varying ? randVal(src, pv.t) : one); }
            vm.sh->SetArgument(&pv, 0);
            if (pv.t == p.t) { want[q] = pv.v; any = true; src.label("primitive variable"); } else src.label("primitive variable of another type");
        }
        vm.run();
        check(vm, g, want, hist + "grid " + std::to_string(r) + " on instance " + std::to_string(k));
    }
    if (any && g.ps.size() > 1) src.nontrivial();
}

struct TempDir { std::string d; TempDir() { char b[] = "/tmp/c10.XXXXXX"; d = mkdtemp(b); } ~TempDir() { unlink((d + "/t.slx").c_str()); rmdir(d.c_str()); } };

void queryCase(pbt::Src& src) {
    Program g = genProgram(src); src.note(g.text);
    Compiled c = compile(g.text); if (!c.ok) pbt::fail("a valid shader is rejected: " + c.err + "\n" + g.text);
    TempDir td; { std::ofstream f(td.d + "/t.slx", std::ios::binary); f << c.slx; }
    std::string path = src.coin() ? td.d : "/nonexistent:" + td.d; SLX_SetPath(const_cast<char*>(path.c_str()));
    if (SLX_SetShader(const_cast<char*>("missing")) == 0) pbt::fail("querying a shader which doesn't exist succeeds");
    if (SLX_SetShader(const_cast<char*>(src.coin() ? "t" : "t.slx")) != 0) pbt::fail("a compiled shader can't be queried\n" + g.text);
    static const std::map<std::string, SLX_TYPE> ty = {{"surface", SLX_TYPE_SURFACE}, {"displacement", SLX_TYPE_DISPLACEMENT}, {"volume", SLX_TYPE_VOLUME}, {"light", SLX_TYPE_LIGHT}, {"imager", SLX_TYPE_IMAGER}, {"transformation", SLX_TYPE_TRANSFORMATION}};
    if (SLX_GetType() != ty.at(g.type)) pbt::fail("shader type reported as " + std::string(SLX_TypetoStr(SLX_GetType())) + "\n" + g.text);
    // declared parameters: those of the list and the outputs
    size_t total = g.ps.size(); for (auto& p : g.ps) total += std::max(1, p.len);
    if ((size_t)SLX_GetNArgs() != total) pbt::fail("reports " + std::to_string(SLX_GetNArgs()) + " parameters instead of " + std::to_string(total) + "\n" + g.text);
    std::set<std::string> seen;
    for (int i = 0; i < SLX_GetNArgs(); ++i) { SLX_VISSYMDEF* s = SLX_GetArgById(i); if (!s || !s->svd_name || !seen.insert(s->svd_name).second) pbt::fail("bad or repeated parameter " + std::to_string(i) + "\n" + g.text); if (i < (int)g.ps.size() && g.ps[i].name != s->svd_name) pbt::fail("parameter " + std::to_string(i) + " is reported as " + s->svd_name + "\n" + g.text); }
    for (auto& p : g.ps) {
        SLX_VISSYMDEF* s = SLX_GetArgByName(const_cast<char*>(p.name.c_str()));
        auto bad = [&](const std::string& w) { pbt::fail("parameter " + p.name + ": " + w + "\n" + g.text); };
        if (!s || p.name != s->svd_name) bad("not found by name");
        if (s->svd_type != XT[p.t]) bad(std::string("type reported as ") + SLX_TypetoStr(s->svd_type));
        if (s->svd_storage != (p.out ? SLX_STOR_OUTPUTPARAMETER : SLX_STOR_PARAMETER)) bad(std::string("storage reported as ") + SLX_StortoStr(s->svd_storage));
        if (s->svd_detail != (p.varying ? SLX_DETAIL_VARYING : SLX_DETAIL_UNIFORM)) bad(std::string("detail reported as ") + SLX_DetailtoStr(s->svd_detail));
        if (s->svd_arraylen != p.len) bad("array length reported as " + std::to_string(s->svd_arraylen));
        for (int e = 0; e < std::max(1, p.len); ++e) {
            if (!p.defSpace[e].empty() && p.defSpace[e] != "current") continue;      // the space is not known to the query
            if (p.t == S) { if (p.def[e].s != s->svd_default.stringval[e]) bad("default reported as \"" + std::string(s->svd_default.stringval[e]) + "\""); continue; }
            const float* f = p.t == M ? &s->svd_default.matrixval[e].val[0][0] : p.t == F ? &s->svd_default.scalarval[e] : &s->svd_default.pointval[e].xval;
            for (size_t k = 0; k < p.def[e].n.size(); ++k) if (!close(f[k], p.def[e].n[k])) bad("default of element " + std::to_string(e) + " component " + std::to_string(k) + " reported as " + num(f[k]));
        }
    }
    SLX_EndShader();
    if (g.ps.size() > 1) src.nontrivial();
}
}

PBT_SUITE(instances, 14000, 400000) { paramCase(src); }
PBT_SUITE(queries, 8000, 200000) { queryCase(src); }

int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "non-trivial: at least two parameters, and (for instances) at least one instance value or primitive variable overrides a default"); }
