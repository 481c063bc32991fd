// C09: control flow, functions and scopes of the shading language act at every shading point as if
// the program were run on that point alone.
//
// Programs are generated as syntax trees over integer-valued floats and triples (so that every value
// is exact), printed, compiled and run on a grid by the real compiler and VM, and interpreted one
// point at a time by the reference below.
#include "sl_vm.h"
using namespace sl;

namespace {
enum Ty { FL, CO, VE };
const char* TYN[] = {"float", "color", "vector"};
typedef std::array<double, 3> Tri3;

struct Var { std::string name; Ty t; bool varying; int len; bool ro; int id; };   // len 0: scalar
typedef std::shared_ptr<Var> VP;

struct Fun;
struct Ex; typedef std::shared_ptr<Ex> EP;
struct Ex { std::string op; Ty t = FL; double k = 0; VP v; std::vector<EP> a; std::shared_ptr<Fun> f; std::vector<VP> outs; bool varying = false; };
struct St; typedef std::shared_ptr<St> SP;
struct St { std::string op; EP e; EP cond; EP idx; VP v; std::vector<EP> inits; SP init, step; std::vector<SP> body, els; int level = 1; std::string asg; bool hasElse = false, braces = true; std::shared_ptr<Fun> f; std::vector<std::shared_ptr<Fun>> funs; bool hasInit = false; };
struct Param { VP v; bool out; };
struct Fun { std::string name; bool isVoid; Ty t; std::vector<Param> ps; std::vector<SP> body; EP ret; std::vector<VP> externs, touch; };   // touch: outer variables which it or a function it may call uses
typedef std::shared_ptr<Fun> FP;

// ---- printing
std::string pr(const EP& e);
std::string args(const EP& e) {
    std::string s; size_t ia = 0, io = 0;
    for (size_t i = 0; i < e->f->ps.size(); ++i) { if (i) s += ", "; s += e->f->ps[i].out ? e->outs[io++]->name : pr(e->a[ia++]); }
    return e->f->name + "(" + s + ")";
}
std::string pr(const EP& e) {
    auto A = [&](int i) { return pr(e->a[i]); };
    if (e->op == "k") { char b[32]; snprintf(b, sizeof b, "%g", e->k); return e->k < 0 ? std::string("(") + b + ")" : b; }
    if (e->op == "v") return e->v->name;
    if (e->op == "idx") return e->v->name + "[" + A(0) + "]";
    if (e->op == "tri") return std::string(TYN[e->t]) + " (" + A(0) + ", " + A(1) + ", " + A(2) + ")";
    if (e->op == "mod") return "mod(" + A(0) + ", " + A(1) + ")";
    if (e->op == "min" || e->op == "max") return e->op + "(" + A(0) + ", " + A(1) + ")";
    if (e->op == "comp") return (e->a[0]->t == CO ? "comp(" : e->k == 0 ? "xcomp(" : e->k == 1 ? "ycomp(" : "zcomp(") + A(0) + (e->a[0]->t == CO ? ", " + std::to_string((int)e->k) + ")" : ")");
    if (e->op == "?:") return "((" + A(0) + ") ? " + A(1) + " : " + A(2) + ")";
    if (e->op == "neg") return "(-" + A(0) + ")";
    if (e->op == "!") return "!(" + A(0) + ")";
    if (e->op == "call") return args(e);
    return "(" + A(0) + " " + e->op + " " + A(1) + ")";
}
void ps(std::ostringstream& o, const SP& s, int ind);
std::string declOf(const VP& v) { return std::string(v->varying ? "varying " : "uniform ") + TYN[v->t] + " " + v->name + (v->len ? "[" + std::to_string(v->len) + "]" : ""); }
void block(std::ostringstream& o, const std::vector<SP>& b, int ind) { o << "{\n"; for (auto& s : b) ps(o, s, ind + 1); o << std::string(ind*2, ' ') << "}"; }
std::string simple(const SP& s) { return s->v->name + (s->idx ? "[" + pr(s->idx) + "]" : "") + " " + s->asg + " " + pr(s->e); }
void pfun(std::ostringstream& o, const FP& f, int ind) {
    std::string in(ind*2, ' ');
    o << in << (f->isVoid ? "void" : TYN[f->t]) << " " << f->name << "(";
    for (size_t i = 0; i < f->ps.size(); ++i) o << (i ? "; " : "") << (f->ps[i].out ? "output " : "") << declOf(f->ps[i].v);
    o << ")\n" << in << "{\n";
    for (auto& x : f->externs) o << in << "  extern " << declOf(x) << ";\n";
    for (auto& s : f->body) ps(o, s, ind + 1);
    if (!f->isVoid) o << in << "  return " << pr(f->ret) << ";\n";
    o << in << "}\n";
}
void ps(std::ostringstream& o, const SP& s, int ind) {
    std::string in(ind*2, ' ');
    auto body = [&](const std::vector<SP>& b) { if (!s->braces && b.size() == 1 && (b[0]->op == "=" || b[0]->op == "break" || b[0]->op == "continue")) { o << "\n"; ps(o, b[0], ind + 1); } else { block(o, b, ind); o << "\n"; } };
    if (s->op == "decl") {
        o << in << declOf(s->v);
        if (s->hasInit) { if (s->v->len) { o << " = {"; for (size_t i = 0; i < s->inits.size(); ++i) o << (i ? ", " : "") << pr(s->inits[i]); o << "}"; } else o << " = " << pr(s->e); }
        o << ";\n";
    } else if (s->op == "=") o << in << simple(s) << ";\n";
    else if (s->op == "block") { o << in; block(o, s->body, ind); o << "\n"; }
    else if (s->op == "if") { o << in << "if (" << pr(s->cond) << ") "; body(s->body); if (s->hasElse) { o << in << "else "; body(s->els); } }
    else if (s->op == "while") { o << in << "while (" << pr(s->cond) << ") "; body(s->body); }
    else if (s->op == "for") { o << in << "for (" << simple(s->init) << "; " << pr(s->cond) << "; " << simple(s->step) << ") "; body(s->body); }
    else if (s->op == "break" || s->op == "continue") { o << in << s->op; if (s->level > 1) o << " " << s->level; o << ";\n"; }
    else if (s->op == "call") o << in << pr(s->e) << ";\n";
    else if (s->op == "fun") pfun(o, s->f, ind);
}

// ---- reference: one point at a time
struct Interp {
    std::map<int, std::vector<Tri3>> mem; long steps = 0; std::string trace;
    void check(double x) { if (std::fabs(x) > (1 << 22) || x != std::floor(x)) throw pbt::Discard(); }
    Tri3 ev(const EP& e) {
        if (++steps > 60000) throw pbt::Discard();
        Tri3 r{};
        auto fill = [&](double x) { r = {x, x, x}; };
        if (e->op == "k") fill(e->k);
        else if (e->op == "v") { auto& m = mem[e->v->id]; if (m.empty()) throw pbt::Discard(); r = m[0]; }
        else if (e->op == "idx") { int i = (int)ev(e->a[0])[0]; if (i < 0 || i >= e->v->len) throw pbt::Discard(); auto& m = mem[e->v->id]; if (m.empty()) throw pbt::Discard(); r = m[i]; }
        else if (e->op == "tri") r = {ev(e->a[0])[0], ev(e->a[1])[0], ev(e->a[2])[0]};
        else if (e->op == "comp") fill(ev(e->a[0])[(int)e->k]);
        else if (e->op == "?:") { Tri3 c = ev(e->a[0]), x = ev(e->a[1]), y = ev(e->a[2]); r = c[0] ? x : y; }
        else if (e->op == "neg") { r = ev(e->a[0]); for (auto& x : r) x = -x; }
        else if (e->op == "!") fill(!ev(e->a[0])[0]);
        else if (e->op == "call") r = call(e);
        else {
            Tri3 a = ev(e->a[0]), b = ev(e->a[1]);
            if (e->op == "<") fill(a[0] < b[0]); else if (e->op == "<=") fill(a[0] <= b[0]); else if (e->op == ">") fill(a[0] > b[0]); else if (e->op == ">=") fill(a[0] >= b[0]);
            else if (e->op == "==" || e->op == "!=") { bool q = e->a[0]->t == FL ? a[0] == b[0] : a == b; fill(e->op == "==" ? q : !q); }
            else if (e->op == "&&") fill(a[0] && b[0]); else if (e->op == "||") fill(a[0] || b[0]);
            else for (int i = 0; i < 3; ++i) {
                double x = a[i], y = b[i];
                r[i] = e->op == "+" ? x + y : e->op == "-" ? x - y : e->op == "*" ? x*y : e->op == "min" ? std::min(x, y) : e->op == "max" ? std::max(x, y) : x - y*std::floor(x/y);
            }
        }
        for (double x : r) check(x);
        return r;
    }
    Tri3 call(const EP& e) {
        FP f = e->f; std::vector<Tri3> in; for (auto& x : e->a) in.push_back(ev(x));
        size_t ia = 0, io = 0;
        for (auto& p : f->ps) { if (p.out) mem[p.v->id] = mem[e->outs[io++]->id]; else mem[p.v->id] = {in[ia++]}; }
        run(f->body);
        Tri3 r{}; if (!f->isVoid) r = ev(f->ret);
        io = 0; for (auto& p : f->ps) if (p.out) mem[e->outs[io++]->id] = mem[p.v->id];
        return r;
    }
    struct Sig { char k; int n; };
    Sig run(const std::vector<SP>& b) { for (auto& s : b) { Sig g = ex(s); if (g.k) return g; } return {0, 0}; }
    Sig loop(const SP& s) {
        if (s->op == "for") ex(s->init);
        while (ev(s->cond)[0]) {
            trace += 'L';
            Sig g = run(s->body);
            if (g.k == 'b') { if (g.n > 1) return {'b', g.n - 1}; break; }
            if (g.k == 'c' && g.n > 1) return {'c', g.n - 1};
            if (s->op == "for") ex(s->step);
        }
        return {0, 0};
    }
    Sig ex(const SP& s) {
        if (++steps > 60000) throw pbt::Discard();
        if (s->op == "decl") {
            auto& m = mem[s->v->id]; m.assign(std::max(1, s->v->len), Tri3{});
            if (s->hasInit) { if (s->v->len) { std::vector<Tri3> t; for (auto& x : s->inits) t.push_back(ev(x)); std::copy(t.begin(), t.end(), mem[s->v->id].begin()); } else { Tri3 t = ev(s->e); mem[s->v->id][0] = t; } }
        } else if (s->op == "=") {
            Tri3 r = ev(s->e); int i = 0; if (s->idx) { i = (int)ev(s->idx)[0]; if (i < 0 || i >= s->v->len) throw pbt::Discard(); }
            if (mem[s->v->id].empty()) throw pbt::Discard();
            Tri3& d = mem[s->v->id][i];
            for (int k = 0; k < 3; ++k) { d[k] = s->asg == "=" ? r[k] : s->asg == "+=" ? d[k] + r[k] : s->asg == "-=" ? d[k] - r[k] : d[k]*r[k]; check(d[k]); }
        } else if (s->op == "block") return run(s->body);
        else if (s->op == "if") { bool c = ev(s->cond)[0]; trace += c ? 'T' : 'E'; if (c) return run(s->body); if (s->hasElse) return run(s->els); }
        else if (s->op == "while" || s->op == "for") return loop(s);
        else if (s->op == "break") return {'b', s->level};
        else if (s->op == "continue") return {'c', s->level};
        else if (s->op == "call") ev(s->e);
        return {0, 0};
    }
};

// ---- generation
struct Gen {
    pbt::Src& src; int ids = 0; int budget = 60;
    std::vector<VP> scope; std::vector<FP> funs; std::vector<std::string> names{"a", "b", "c", "d", "e", "x", "y"};
    int loops = 0; bool inFun = false; bool uniCtx = true; int funDepth = 0; int nestedCalls = 0;
    Gen(pbt::Src& s) : src(s) {}
    VP mkVar(const std::string& n, Ty t, bool varying, int len, bool ro) { return std::make_shared<Var>(Var{n, t, varying, len, ro, ids++}); }
    bool visible(const VP& v) { for (size_t i = scope.size(); i-- > 0;) if (scope[i]->name == v->name) return scope[i] == v; return false; }
    std::vector<VP> pick(const std::function<bool(const VP&)>& ok) { std::vector<VP> r; for (auto& v : scope) if (visible(v) && ok(v)) r.push_back(v); return r; }
    EP mk(const std::string& op, Ty t, std::vector<EP> a = {}) { auto e = std::make_shared<Ex>(); e->op = op; e->t = t; e->a = a; for (auto& x : a) e->varying |= x->varying; return e; }
    EP konst(double k) { auto e = mk("k", FL); e->k = k; return e; }
    EP ref(const VP& v) { auto e = mk("v", v->t); e->v = v; e->varying = v->varying; return e; }
    EP index(const VP& v, EP i) { auto e = mk("idx", v->t, {i}); e->v = v; e->varying |= v->varying; return e; }
    EP idxExpr(int len, bool uni, int depth) { if (src.chance(40)) return konst(src.range(0, len - 1)); return mk("mod", FL, {expr(FL, depth - 1, uni), konst(len)}); }
    EP leaf(Ty t, bool uni) {
        auto c = pick([&](const VP& v) { return v->t == t && !v->len && (!uni || !v->varying); });
        if (!c.empty() && src.chance(75)) return ref(src.pick(c));
        if (t == FL) return konst(src.range(0, 12) - (src.chance(30) ? 4 : 0));
        auto e = mk("tri", t); for (int i = 0; i < 3; ++i) e->a.push_back(konst(src.range(-3, 7))); return e;
    }
    EP callExpr(const FP& f, bool uni, int depth, const VP& dest) {
        auto e = mk("call", f->t); e->f = f; e->varying = true; std::vector<VP> used; if (dest) used.push_back(dest);
        // output arguments are distinct variables which no other argument mentions
        for (auto& p : f->ps) if (p.out) {
            auto c = pick([&](const VP& v) { return v->t == p.v->t && v->len == p.v->len && !v->ro && v->varying && std::find(used.begin(), used.end(), v) == used.end() && std::find(f->touch.begin(), f->touch.end(), v) == f->touch.end(); });
            if (c.empty()) return EP();
            VP v = src.pick(c); used.push_back(v); e->outs.push_back(v);
        }
        if (std::any_of(f->touch.begin(), f->touch.end(), [&](const VP& v) { return v == dest; })) return EP();
        std::vector<VP> hidden; if (!e->outs.empty() || !f->touch.empty()) { hidden = e->outs; hidden.insert(hidden.end(), f->touch.begin(), f->touch.end()); }
        banned.push_back(hidden);
        for (auto& p : f->ps) if (!p.out) e->a.push_back(expr(p.v->t, depth - 1, !p.v->varying));
        banned.pop_back();
        for (auto& x : e->a) if (uses(x, hidden)) return EP();
        return e;
    }
    std::vector<std::vector<VP>> banned;
    static bool uses(const EP& e, const std::vector<VP>& v) { if (e->v && std::find(v.begin(), v.end(), e->v) != v.end()) return true; for (auto& o : e->outs) if (std::find(v.begin(), v.end(), o) != v.end()) return true; for (auto& x : e->a) if (uses(x, v)) return true; return false; }
    EP expr(Ty t, int depth, bool uni) {
        if (depth <= 0 || !src.chance(75)) return leaf(t, uni);
        int k = src.range(0, 9);
        if (k == 9 && !uni) {           // call of a function without side effects
            std::vector<FP> c; for (auto& f : funs) if (!f->isVoid && f->t == t && f->touch.empty() && std::none_of(f->ps.begin(), f->ps.end(), [](const Param& p) { return p.out; })) c.push_back(f);
            if (!c.empty()) { EP e = callExpr(src.pick(c), uni, depth, VP()); if (e) { src.label("call in expression"); return e; } }
            k = 0;
        }
        if (k == 8) { auto c = pick([&](const VP& v) { return v->t == t && v->len > 0 && (!uni || !v->varying); }); if (!c.empty()) { VP v = src.pick(c); return index(v, idxExpr(v->len, uni, depth)); } k = 1; }
        if (k == 7) return mk("?:", t, {rel(depth - 1, uni), expr(t, depth - 1, uni), expr(t, depth - 1, uni)});
        if (t == FL) {
            if (k <= 2) return mk(src.coin() ? "+" : "-", FL, {expr(FL, depth - 1, uni), expr(FL, depth - 1, uni)});
            if (k == 3) return mk("mod", FL, {mk("*", FL, {expr(FL, depth - 1, uni), expr(FL, depth - 1, uni)}), konst(64)});
            if (k == 4) return mk("mod", FL, {expr(FL, depth - 1, uni), konst(1 << src.range(1, 4))});
            if (k == 5) { auto e = mk("comp", FL, {expr(src.coin() ? CO : VE, depth - 1, uni)}); e->k = src.range(0, 2); return e; }
            if (k == 6) return mk(src.coin() ? "min" : "max", FL, {expr(FL, depth - 1, uni), expr(FL, depth - 1, uni)});
            return leaf(t, uni);
        }
        if (k <= 3) return mk(src.coin() ? "+" : "-", t, {expr(t, depth - 1, uni), expr(t, depth - 1, uni)});
        return mk("tri", t, {expr(FL, depth - 1, uni), expr(FL, depth - 1, uni), expr(FL, depth - 1, uni)});
    }
    EP rel(int depth, bool uni) {
        if (depth > 0 && src.chance(20)) return mk(src.coin() ? "&&" : "||", FL, {rel(depth - 1, uni), rel(depth - 1, uni)});
        if (src.chance(8)) return mk("!", FL, {rel(depth - 1, uni)});
        if (src.chance(12)) { Ty t = src.coin() ? CO : VE; return mk(src.coin() ? "==" : "!=", FL, {expr(t, depth, uni), expr(t, depth - 1, uni)}); }
        static const char* R[] = {"<", "<=", ">", ">=", "==", "!="};
        return mk(R[src.range(0, 5)], FL, {mk("mod", FL, {expr(FL, depth, uni), konst(src.range(2, 8))}), konst(src.range(0, 6))});
    }
    SP st(const std::string& op) { auto s = std::make_shared<St>(); s->op = op; return s; }
    std::string newName() { return src.pick(names); }
    bool freeHere(const std::string& n, size_t base) { for (size_t i = base; i < scope.size(); ++i) if (scope[i]->name == n) return false; return true; }
    SP decl(size_t base) {
        std::string n; for (int i = 0; i < 8; ++i) { n = newName(); if (freeHere(n, base)) break; n.clear(); }
        if (n.empty()) return SP();
        auto s = st("decl"); Ty t = (Ty)src.range(0, 2); if (src.chance(40)) t = FL;
        bool vary = !src.chance(20); int len = src.chance(15) ? src.range(1, 4) : 0; if (len && src.chance(70)) t = FL;
        s->hasInit = true;
        // the initialiser must not mention the name being declared (whose scope starts there)
        VP v = mkVar(n, t, vary, len, !vary && !uniCtx);
        size_t keep = scope.size(); scope.push_back(mkVar(n, t, vary, -1, true));      // hides outer variables of that name
        hideName = n;
        if (len) for (int i = 0; i < len; ++i) s->inits.push_back(expr(t, 1, !vary)); else s->e = expr(t, 2, !vary);
        hideName.clear(); scope.resize(keep); scope.push_back(v); s->v = v;
        if (len) src.label("array");
        return s;
    }
    std::string hideName;
    EP wrapVal(Ty t, EP e, bool uni) {
        // keep the values small: what is assigned to a variable is reduced modulo 64
        if (t == FL) return mk("mod", FL, {e, konst(64)});
        return e;
    }
    SP assign() {
        bool varyOnly = !uniCtx;
        auto c = pick([&](const VP& v) { return !v->ro && v->len >= 0 && (v->varying || !varyOnly); });
        if (c.empty()) return SP();
        VP v = src.pick(c); auto s = st("="); s->v = v; bool uni = !v->varying;
        if (v->len) s->idx = idxExpr(v->len, uni, 2);
        if (src.chance(15) && v->varying && !v->len) {
            std::vector<FP> fs; for (auto& f : funs) if (!f->isVoid && f->t == v->t) fs.push_back(f);
            if (!fs.empty()) { EP e = callExpr(src.pick(fs), false, 2, v); if (e && !uses1(e, v)) { s->e = e; s->asg = "="; src.label("call assigned"); return s; } }
        }
        s->e = expr(v->t, 3, uni);
        s->asg = src.chance(25) ? (src.coin() ? "+=" : "-=") : "=";
        if (s->asg == "=") s->e = wrapVal(v->t, s->e, uni);
        return s;
    }
    static bool uses1(const EP& e, const VP& v) { return uses(e, {v}); }
    std::vector<SP> body(int depth, bool cond) {
        std::vector<SP> r; size_t base = scope.size();
        int n = src.range(1, 4);
        for (int i = 0; i < n && budget > 0; ++i) { auto v = stmt(depth, base, cond); r.insert(r.end(), v.begin(), v.end()); if (!r.empty() && (r.back()->op == "break" || r.back()->op == "continue")) break; }
        scope.resize(base);
        if (r.empty()) { auto a = assign(); if (a) r.push_back(a); }
        return r;
    }
    std::vector<SP> stmt(int depth, size_t base, bool cond) {
        --budget;
        int k = src.range(0, 19);
        if (depth <= 0 && k >= 8) k = src.range(0, 7);
        if (k < 6) { auto a = assign(); if (a) return {a}; return {}; }
        if (k == 6) { auto d = decl(base); if (d) return {d}; return {}; }
        if (k == 7 || k == 18) {
            if (loops > 0 && cond) { auto s = st(src.coin() ? "break" : "continue"); s->level = src.range(1, loops); src.label(s->op + (s->level > 1 ? " outer" : "")); return {s}; }
            auto a = assign(); if (a) return {a}; return {};
        }
        if (k <= 11) {
            auto s = st("if"); bool uni = src.chance(15); s->cond = rel(2, uni); s->braces = src.chance(70); s->hasElse = src.coin();
            bool keep = uniCtx; if (!uni) uniCtx = false;
            s->body = body(depth - 1, true); if (s->hasElse) s->els = body(depth - 1, true);
            // an unbraced branch must not contain an if (dangling else is covered by the printing rule)
            uniCtx = keep; return {s};
        }
        if (k == 12) { auto s = st("block"); s->body = body(depth - 1, cond); return {s}; }
        if (k == 13 || k == 19) {
            std::vector<FP> fs; for (auto& f : funs) if (f->isVoid) fs.push_back(f);
            if (!fs.empty()) { EP e = callExpr(src.pick(fs), false, 2, VP()); if (e) { auto s = st("call"); s->e = e; src.label("void call"); return {s}; } }
            auto a = assign(); if (a) return {a}; return {};
        }
        // loops: a counter that only the loop itself changes
        std::string n; for (int i = 0; i < 8; ++i) { n = src.coin() ? "i" : src.pick(std::vector<std::string>{"i", "j", "k", "a", "b"}); if (freeHere(n, base)) break; n.clear(); }
        if (n.empty()) return {};
        bool uni = src.chance(35);
        VP c = mkVar(n, FL, !uni, 0, true);
        auto d = st("decl"); d->v = c; d->hasInit = true; d->e = konst(0);
        scope.push_back(mkVar(n, FL, !uni, -1, true));
        EP start = src.chance(40) ? mk("mod", FL, {expr(FL, 2, uni), konst(4)}) : konst(src.range(0, 2));
        EP lim = src.chance(50) ? mk("mod", FL, {expr(FL, 2, uni), konst(6)}) : konst(src.range(1, 5));
        scope.pop_back();
        EP cnd = mk(src.coin() ? "<" : "<=", FL, {ref(c), lim});
        if (src.chance(25) && !uni) { scope.push_back(c); cnd = mk("&&", FL, {cnd, rel(1, false)}); scope.pop_back(); }
        bool keep = uniCtx; uniCtx = false;           // a varying break may come anywhere in the body
        std::vector<SP> r{d}; size_t mark = scope.size(); scope.push_back(c); ++loops;
        if (src.coin()) {
            auto s = st("for"); s->init = st("="); s->init->v = c; s->init->e = start; s->init->asg = "=";
            s->step = st("="); s->step->v = c; s->step->e = konst(1); s->step->asg = "+=";
            s->cond = cnd; s->braces = src.chance(80); s->body = body(depth - 1, false || src.chance(50)); r.push_back(s); src.label("for");
        } else {
            d->e = start; auto s = st("while"); s->cond = cnd; s->body = body(depth - 1, src.chance(50));
            auto inc = st("="); inc->v = c; inc->e = konst(1); inc->asg = "+="; s->body.insert(s->body.begin(), inc); r.push_back(s); src.label("while");
        }
        --loops; scope.resize(mark); scope.push_back(c); uniCtx = keep;
        // after the loop a varying counter may be read, a uniform one may not (points left it at different times)
        if (uni) scope.back() = mkVar(n, FL, false, -1, true);
        return r;
    }
    FP function(const std::string& name, const std::vector<VP>& outer) {
        auto f = std::make_shared<Fun>(); f->name = name; f->isVoid = src.chance(40); f->t = (Ty)src.range(0, 2); if (src.coin()) f->t = FL;
        std::vector<VP> keep = scope; scope.clear(); int kl = loops; loops = 0; bool ku = uniCtx; uniCtx = false; int kb = budget; budget = 8;
        int np = src.range(f->isVoid ? 1 : 0, 3); bool anyOut = false;
        for (int i = 0; i < np; ++i) {
            std::string n = newName(); if (!freeHere(n, 0)) continue;
            bool out = f->isVoid ? (src.chance(60) || !anyOut) : src.chance(15);
            Ty t = (Ty)src.range(0, 2); if (src.coin()) t = FL; bool vary = out || !src.chance(15);
            VP v = mkVar(n, t, vary, 0, !out); anyOut |= out; f->ps.push_back({v, out}); scope.push_back(v);
        }
        for (auto& x : outer) if (src.chance(35) && freeHere(x->name, 0)) { f->externs.push_back(x); scope.push_back(x); src.label("extern"); }
        f->touch = f->externs; for (auto& g : funs) f->touch.insert(f->touch.end(), g->touch.begin(), g->touch.end());
        f->body = bodyKeep(2);
        if (!f->isVoid) f->ret = expr(f->t, 2, false);
        scope = keep; loops = kl; uniCtx = ku; budget = kb;
        return f;
    }
    // like body, but the declared variables stay visible (for the return expression)
    std::vector<SP> bodyKeep(int depth) {
        std::vector<SP> r; int n = src.range(0, 4); size_t base = 0;
        for (int i = 0; i < n; ++i) { auto v = stmt(depth, base, false); r.insert(r.end(), v.begin(), v.end()); }
        if (r.empty()) { auto a = assign(); if (a) r.push_back(a); else { auto b = st("decl"); b->v = mkVar("w", FL, true, 0, false); b->hasInit = true; b->e = konst(1); r.push_back(b); } }
        return r;
    }
};

void flowCase(pbt::Src& src, int depth, int budget) {
    MockRenderer rend; Gen g(src); g.budget = budget;
    // inputs: standard variables holding integers
    struct In { const char* n; Ty t; int idx; };
    static const In INS[] = {{"u", FL, EnvVars_u}, {"v", FL, EnvVars_v}, {"s", FL, EnvVars_s}, {"Cs", CO, EnvVars_Cs}, {"dPdu", VE, EnvVars_dPdu}};
    std::vector<VP> ins; for (auto& i : INS) ins.push_back(g.mkVar(i.n, i.t, true, 0, true));
    std::vector<VP> outs; int no = src.range(2, 4);
    for (int i = 0; i < no; ++i) outs.push_back(g.mkVar("r" + std::to_string(i), i == 1 ? CO : i == 2 ? VE : FL, true, 0, false));
    VP up = g.mkVar("q", FL, false, 0, false);
    std::vector<FP> global; int ng = src.range(0, 3);
    for (int i = 0; i < ng; ++i) { FP f = g.function(std::string("f") + std::to_string(i), {}); global.push_back(f); g.funs.push_back(f); }
    g.scope = ins; g.scope.push_back(up); for (auto& v : outs) g.scope.push_back(v);
    std::vector<SP> prog; size_t base = g.scope.size();
    int nd = src.range(0, 4);
    for (int i = 0; i < nd; ++i) { auto d = g.decl(base); if (d) prog.push_back(d); }
    // functions local to the shader, which may use its variables through extern
    int nl = src.range(0, 2);
    std::vector<VP> ext; for (auto& v : g.scope) if (v->id >= up->id ? g.visible(v) && v->varying && !v->len && std::find(outs.begin(), outs.end(), v) == outs.end() && !v->ro : false) ext.push_back(v);
    for (int i = 0; i < nl; ++i) { FP f = g.function(std::string("g") + std::to_string(i), ext); auto s = g.st("fun"); s->f = f; prog.push_back(s); g.funs.push_back(f); }
    int n = src.range(2, 6);
    for (int i = 0; i < n; ++i) { auto v = g.stmt(depth, base, false); prog.insert(prog.end(), v.begin(), v.end()); }
    Grid grid; grid.set(src.range(1, 4), src.range(1, 4));
    std::vector<std::array<Tri3, 5>> in(grid.n);
    for (auto& p : in) for (int k = 0; k < 5; ++k) { double x = src.range(-3, 9); p[k] = {x, x, x}; if (INS[k].t != FL) { p[k][1] = src.range(0, 5); p[k][2] = src.range(-5, 5); } }
    std::set<std::string> traces; bool first = true;
    // runs the program on the grid and on each point alone; returns what differs
    auto judge = [&]() -> std::string {
        std::ostringstream o; for (auto& f : global) pfun(o, f, 0);
        o << "surface t("; for (auto& v : outs) o << "output varying " << TYN[v->t] << " " << v->name << " = 0; "; o << "output uniform float q = 3;)\n{\n";
        for (auto& s : prog) ps(o, s, 1); o << "}\n";
        if (first) src.note(o.str());
        // reference first: a program outside the exact range is not judged
        std::vector<Interp> ref(grid.n);
        for (int i = 0; i < grid.n; ++i) {
            for (int k = 0; k < 5; ++k) ref[i].mem[ins[k]->id] = {in[i][k]};
            for (auto& v : outs) ref[i].mem[v->id] = {Tri3{}};
            ref[i].mem[up->id] = {Tri3{3, 3, 3}};
            ref[i].run(prog);
            if (first) traces.insert(ref[i].trace);
        }
        Compiled c = compile(o.str());
        if (!c.ok) { if (!first) return ""; return "a valid shader is rejected: " + c.err + "\n" + o.str(); }
        Vm vm(rend);
        try { vm.load(c.slx); } catch (std::exception& e) { return std::string("the compiled shader can't be loaded: ") + e.what() + "\n" + o.str(); }
        vm.begin(grid);
        for (int k = 0; k < 5; ++k) if (IqShaderData* d = vm.var(INS[k].idx)) for (int i = 0; i < grid.n; ++i) {
            const Tri3& x = in[i][k];
            if (INS[k].t == FL) d->SetFloat(x[0], i); else if (INS[k].t == CO) d->SetColor(CqColor(x[0], x[1], x[2]), i); else d->SetVector(CqVector3D(x[0], x[1], x[2]), i);
        }
        vm.run();
        for (int i = 0; i < grid.n; ++i) {
            std::vector<VP> all = outs; all.push_back(up);
            for (auto& v : all) {
                std::vector<float> got; getFloats(vm.arg(v->name), i, v->t == FL ? type_float : v->t == CO ? type_color : type_vector, got);
                const Tri3& w = ref[i].mem[v->id][0];
                for (size_t k = 0; k < got.size(); ++k) if (got[k] != (float)w[k]) {
                    std::ostringstream m; m << v->name << " component " << k << " at point " << i << " of " << grid.n << " is " << got[k] << ", running the program on that point alone gives " << w[k] << "\n" << o.str();
                    for (int p = 0; p < grid.n; ++p) { for (int q = 0; q < 5; ++q) m << INS[q].n << "=" << in[p][q][0] << "," << in[p][q][1] << "," << in[p][q][2] << " "; m << "\n"; }
                    return m.str();
                }
            }
        }
        return "";
    };
    std::string why = judge(); first = false;
    if (!why.empty()) {
        // drop statements as long as the program still goes wrong, for a readable report
        std::set<std::vector<SP>*> seen; int tries = 0;
        std::function<void(std::vector<SP>&)> cut = [&](std::vector<SP>& b) {
            for (size_t i = b.size(); i-- > 0;) {
                if (tries > 600) return;
                SP s = b[i]; if (s->op == "fun") { cut(s->f->body); continue; }
                b.erase(b.begin() + i); ++tries; std::string w;
                try { w = judge(); } catch (pbt::Discard&) { w = ""; }
                if (!w.empty()) { why = w; continue; }
                b.insert(b.begin() + i, s);
                if (!s->body.empty()) cut(s->body);
                if (!s->els.empty()) cut(s->els);
            }
        };
        cut(prog); for (auto& f : global) cut(f->body);
        pbt::fail(why);
    }
    if (traces.size() > 1) src.nontrivial();
}
}

PBT_SUITE(small_programs, 5000, 200000) { flowCase(src, 2, 14); }
PBT_SUITE(deep_programs, 2500, 100000) { flowCase(src, 4, 40); }

int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a program is non-trivial when at least two points of the grid took different paths through it"); }
