// Random well-typed shading language programs as sequences of tokens.
#ifndef SL_TEXT_H
#define SL_TEXT_H
#include "rd_scene.h"
namespace rd {
struct Tok { string t; int line; bool local; };
struct Prog {
    vector<Tok> tok; int lines = 1; vector<string> locals; ///< one statement to a line
    void put(const string& t, bool local = false) { tok.push_back({t, lines, local}); }
    void nl() { ++lines; }
    string text() const { string s; int l = 1; for(auto& t : tok) { while(l < t.line) { s += "\n"; ++l; } s += t.t + " "; } return s + "\n"; }
};
struct SlGen {
    enum T { F, C, V }; struct Var { string n; T t; bool local, fixed; }; struct Fun { string n; T t; vector<T> a; };
    Src& s; Prog p; vector<Var> scope; vector<Fun> funs; int id = 0, budget = 0;
    explicit SlGen(Src& src) : s(src) {}
    static const char* tn(T t) { return t == F ? "float" : t == C ? "color" : "vector"; }
    T type() { return (T)s.pick(vector<int>{F, F, F, C, V}); }
    bool var(T t) { vector<int> c; for(size_t i = 0; i < scope.size(); ++i) { bool hid = false; for(size_t j = i + 1; j < scope.size(); ++j) hid = hid || scope[j].n == scope[i].n; if(!hid && scope[i].t == t) c.push_back(i); } if(c.empty()) return false; const Var& v = scope[s.pick(c)]; p.put(v.n, v.local); return true; }
    void args(const char* f, const vector<T>& a, int d) { p.put(f); p.put("("); for(size_t i = 0; i < a.size(); ++i) { if(i) p.put(","); expr(a[i], d); } p.put(")"); }
    void number() { p.put(s.pick(vector<string>{"0", "1", "2", "0.5", "3.25", ".75", "1e-2", "10", "PI"})); }
    void paren(T t, int d) { p.put("("); expr(t, d); p.put(")"); }
    void rel(int d) { if(d > 0 && s.chance(20)) { p.put("("); rel(d-1); p.put(")"); p.put(s.coin() ? "&&" : "||"); p.put("("); rel(d-1); p.put(")"); return; } paren(F, d-1); p.put(s.pick(vector<string>{"<", ">", "<=", ">=", "==", "!="})); paren(F, d-1); }
    void call(const Fun& f, int d) { args(f.n.c_str(), f.a, d); }
    void expr(T t, int d)
    {
        if(--budget < 0) d = 0;
        if(d <= 0) { if(s.chance(65) && var(t)) return; if(t == F) number(); else if(t == C) { p.put("Cs"); } else p.put("I"); return; }
        if(s.chance(15)) { vector<int> c; for(size_t i = 0; i < funs.size(); ++i) if(funs[i].t == t) c.push_back(i); if(!c.empty()) { call(funs[s.pick(c)], d-1); return; } }
        if(s.chance(8)) { p.put("("); p.put("("); rel(d-1); p.put(")"); p.put("?"); paren(t, d-1); p.put(":"); paren(t, d-1); p.put(")"); return; }
        int k = s.range(0, 9);
        if(t == F) switch(k)
        {
            case 0: case 1: case 2: { static const char* o[] = {"+", "-", "*", "/"}; paren(F, d-1); p.put(o[s.range(0, 3)]); paren(F, d-1); return; }
            case 3: p.put("-"); paren(F, d-1); return;
            case 4: { static const char* f[] = {"sin", "cos", "sqrt", "abs", "floor", "exp", "radians"}; args(f[s.range(0, 6)], {F}, d-1); return; }
            case 5: args(s.coin() ? "min" : "max", {F, F}, d-1); return;
            case 6: args(s.pick(vector<string>{"mix", "clamp", "smoothstep"}).c_str(), {F, F, F}, d-1); return;
            case 7: args(s.coin() ? "length" : "xcomp", {V}, d-1); return;
            case 8: paren(V, d-1); p.put("."); paren(V, d-1); return;
            default: p.put("comp"); p.put("("); expr(C, d-1); p.put(","); p.put("1"); p.put(")"); return;
        }
        if(t == C) switch(k)
        {
            case 0: case 1: case 2: { static const char* o[] = {"+", "-", "*"}; paren(C, d-1); p.put(o[s.range(0, 2)]); paren(C, d-1); return; }
            case 3: paren(C, d-1); p.put("*"); paren(F, d-1); return;
            case 4: args("mix", {C, C, F}, d-1); return;
            case 5: p.put("color"); p.put("\"hsv\""); p.put("("); expr(F, d-1); p.put(","); expr(F, d-1); p.put(","); expr(F, d-1); p.put(")"); return;
            default: args("color", {F, F, F}, d-1); return;
        }
        switch(k)
        {
            case 0: case 1: case 2: paren(V, d-1); p.put(s.pick(vector<string>{"+", "-", "^"})); paren(V, d-1); return;
            case 3: paren(V, d-1); p.put("*"); paren(F, d-1); return;
            case 4: args("normalize", {V}, d-1); return;
            default: args("vector", {F, F, F}, d-1); return;
        }
    }
    string fresh() { string n = "loc" + std::to_string(++id); p.locals.push_back(n); return n; }
    void decl() { T t = type(); if(s.chance(20)) p.put(s.coin() ? "uniform" : "varying"); bool uni = p.tok.back().t == "uniform"; string n = s.chance(12) && !p.locals.empty() ? "" : fresh(); if(n.empty()) n = fresh(); p.put(tn(t)); p.put(n, true); p.put("="); if(uni) { if(t == F) p.put("3"); else { p.put(tn(t)); p.put("("); p.put("1"); p.put(","); p.put("2"); p.put(","); p.put("3"); p.put(")"); } } else expr(t, s.range(0, 3)); p.put(";"); p.nl(); scope.push_back({n, t, true, uni}); }
    void assign() { vector<int> c; for(size_t i = 0; i < scope.size(); ++i) if(scope[i].local && !scope[i].fixed) c.push_back(i); if(c.empty()) { decl(); return; } Var v = scope[s.pick(c)]; p.put(v.n, true); p.put(s.chance(70) ? "=" : v.t == V ? "+=" : s.pick(vector<string>{"+=", "*=", "-="})); expr(v.t, s.range(0, 3)); p.put(";"); p.nl(); }
    void block(int d, int n) { size_t mark = scope.size(); p.put("{"); p.nl(); for(int i = 0; i < n; ++i) stmt(d); p.put("}"); p.nl(); scope.resize(mark); }
    void stmt(int d)
    {
        int k = s.range(0, 9);
        if(d <= 0 || k < 3) { if(s.coin()) decl(); else assign(); return; }
        if(k < 5) { assign(); return; }
        if(k < 8) { p.put("if"); p.put("("); rel(1); p.put(")"); block(d-1, s.range(0, 2)); if(s.coin()) { p.put("else"); block(d-1, s.range(1, 2)); } return; }
        if(k == 8) { string n = fresh(); p.put("float"); p.put(n, true); p.put("="); p.put("0"); p.put(";"); p.nl(); scope.push_back({n, F, true, true}); p.put("for"); p.put("("); p.put(n, true); p.put("="); p.put("0"); p.put(";"); p.put(n, true); p.put("<"); p.put("3"); p.put(";"); p.put(n, true); p.put("+="); p.put("1"); p.put(")"); block(d-1, s.range(1, 2)); return; }
        block(d-1, s.range(1, 2));
    }
    Prog make(const string& name)
    {
        budget = 60; int nf = s.range(0, 2);
        for(int i = 0; i < nf; ++i)
        {
            Fun f; f.t = type(); f.n = "fun" + std::to_string(i); scope.clear(); p.put(tn(f.t)); p.put(f.n); p.put("("); int na = s.range(1, 3);
            for(int k = 0; k < na; ++k) { T t = type(); string n = fresh(); f.a.push_back(t); if(k) p.put(";"); p.put(tn(t)); p.put(n, true); scope.push_back({n, t, true, true}); }
            p.put(")"); p.nl(); p.put("{"); p.nl(); int ns = s.range(0, 2); for(int k = 0; k < ns; ++k) stmt(1); p.put("return"); expr(f.t, 2); p.put(";"); p.nl(); p.put("}"); p.nl(); funs.push_back(f);
        }
        scope.clear(); p.put("surface"); p.put(name); p.put("("); int np = s.range(0, 3);
        for(int k = 0; k < np; ++k) { T t = type(); string n = "par" + std::to_string(k); p.put(tn(t)); p.put(n); p.put("="); if(t == F) number(); else { p.put(tn(t)); p.put("("); number(); p.put(","); number(); p.put(","); number(); p.put(")"); } p.put(";"); scope.push_back({n, t, false, true}); }
        p.put(")"); p.nl(); p.put("{"); p.nl(); int ns = s.range(1, 6); for(int k = 0; k < ns; ++k) stmt(2);
        budget = 30; p.put("Ci"); p.put("="); expr(C, 3); p.put(";"); p.nl(); p.put("Oi"); p.put("="); p.put("1"); p.put(";"); p.nl(); p.put("}"); p.nl();
        return p;
    }
};
}
#endif
