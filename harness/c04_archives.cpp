// C04: archives, object instances and conditionals against a reference interpreter.
#include "ri_model.h"
using namespace rim;

typedef std::vector<Call> Calls;
static bool flips[8];
static bool cond(const std::string& c) { // "t", "f", or "v<k>" (state flipped by delivered Declare calls)
    if (c[0] == 'v') return flips[(c[1] - '0') & 7];
    return c[0] == 't';
}
static bool condCb(const char* c) { return cond(c); }
static void flipOn(const Call& c) { if (c.name == "Declare" && c.a[0].s[0].compare(0, 4, "flip") == 0) { int k = (c.a[0].s[0][4] - '0') & 7; flips[k] = !flips[k]; } }

struct Sink : public Recorder { bool apply = false; };
class FlipSink : public Sink { public: virtual RtVoid Declare(RtConstString n, RtConstString d) { Recorder::Declare(n, d); flipOn(calls.back()); } };

// ---- reference interpreter
struct Ref {
    std::map<std::string, Calls> ar, ob; Calls out; size_t errors = 0; long steps = 0; int depth = 0;
    // index of the matching end of the block opened at i
    static size_t matching(const Calls& p, size_t i, const char* b, const char* e) { int d = 0; for (size_t j = i; j < p.size(); ++j) { if (p[j].name == b) ++d; if (p[j].name == e && --d == 0) return j; } fail("harness: unbalanced program"); }
    struct Deep { int& d; Deep(int& x) : d(x) { if (++d > 40) throw pbt::Discard(); } ~Deep() { --d; } };
    void run(const Calls& p, size_t b, size_t e) {
        Deep guard(depth);
        for (size_t i = b; i < e; ++i) {
            if (++steps > 4000) throw pbt::Discard();
            const Call& c = p[i]; const std::string& n = c.name;
            if (n == "ArchiveBegin") { size_t j = matching(p, i, "ArchiveBegin", "ArchiveEnd"); ar[c.a[0].s[0]] = Calls(p.begin() + i + 1, p.begin() + j); i = j; }
            else if (n == "ObjectBegin") { size_t j = matching(p, i, "ObjectBegin", "ObjectEnd"); ob[c.a[0].s[0]] = Calls(p.begin() + i + 1, p.begin() + j); i = j; }
            else if (n == "ReadArchive") { auto it = ar.find(c.a[0].s[0]); if (it == ar.end()) out.push_back(c); else { Calls body = it->second; run(body, 0, body.size()); } }
            else if (n == "ObjectInstance") { auto it = ob.find(c.a[0].s[0]); if (it == ob.end()) ++errors; else { Calls body = it->second; run(body, 0, body.size()); } }
            else if (n == "IfBegin") {
                size_t j = matching(p, i, "IfBegin", "IfEnd"); int d = 0; bool done = false; size_t k = i;
                // clause boundaries at this level
                std::vector<size_t> cl; for (size_t q = i; q <= j; ++q) { if (p[q].name == "IfBegin") ++d; if (d == 1 && (q == i || p[q].name == "ElseIf" || p[q].name == "Else" || q == j)) cl.push_back(q); if (p[q].name == "IfEnd") --d; }
                for (size_t q = 0; q + 1 < cl.size() && !done; ++q) { const Call& h = p[cl[q]]; if (h.name == "Else" || cond(h.a[0].s[0])) { done = true; run(p, cl[q] + 1, cl[q + 1]); } }
                (void)k; i = j;
            }
            else { out.push_back(c); flipOn(c); }
        }
    }
};

struct Gen {
    Src& s; GenOpts o; int budget; bool conds = true;
    Gen(Src& s_) : s(s_), budget(0) { o.longStrings = false; }
    Call plain() {
        if (s.chance(1, 6)) { Call c("Declare"); c.S1("flip" + std::to_string(s.range(0, 3))); c.S1("uniform float"); return c; }
        for (;;) {
            const Proc& p = procTable[s.draw(nProcs - 1)]; std::string n = p.name;
            if (n.find("Archive") != std::string::npos || n.find("Object") == 0 || n == "IfBegin" || n == "ElseIf" || n == "Else" || n == "IfEnd") { Call c("Sides"); c.I1(1 + s.draw(1)); return c; }
            return genCall(s, p, o);
        }
    }
    std::string cnd() { static const char* c[] = {"t", "f", "v0", "v1", "v2", "v3", "f", "t"}; return s.pick(c); }
    void body(Calls& out, int limit, bool inObj, int depth) {
        int n = s.size(depth ? 0 : 1, depth ? 5 : 12);
        for (int i = 0; i < n && budget > 0; ++i) {
            --budget;
            switch (s.draw(9)) {
                default: out.push_back(plain()); break;
                case 5: if (limit > 0 && depth < 5) { int k = s.range(0, limit - 1); Call c("ArchiveBegin"); c.S1("a" + std::to_string(k)); c.nv('L'); out.push_back(c); body(out, s.chance(1, 8) ? std::min(k + 1, limit) : k, inObj, depth + 1); out.push_back(Call("ArchiveEnd")); s.label(inObj ? "archive def in object" : depth ? "nested archive def" : "archive def"); } break;
                case 6: { Call c("ReadArchive"); if (limit > 0 && !s.chance(1, 10)) c.S1("a" + std::to_string(s.range(0, limit - 1))); else { c.S1("ondisk.rib"); s.label("undefined archive"); } c.nv('L').pl = genPList(s, o, Counts{1,1,1,1,1,true}, 1); out.push_back(c); break; }
                case 7: if (limit > 0 && !inObj && depth < 5 && s.coin()) { int k = s.range(0, limit - 1); Call c("ObjectBegin"); c.S1("o" + std::to_string(k)); out.push_back(c); body(out, k, true, depth + 1); out.push_back(Call("ObjectEnd")); s.label(depth ? "nested object def" : "object def"); }
                        else { Call c("ObjectInstance"); c.S1(limit > 0 ? "o" + std::to_string(s.range(0, limit - 1)) : "nope"); out.push_back(c); } break;
                case 8: case 9: if (depth < 6 && conds) {
                    Call c("IfBegin"); c.S1(cnd()); out.push_back(c); body(out, limit, inObj, depth + 1);
                    int e = s.range(0, 2); for (int j = 0; j < e; ++j) { Call d("ElseIf"); d.S1(cnd()); out.push_back(d); body(out, limit, inObj, depth + 1); }
                    if (s.coin()) { out.push_back(Call("Else")); body(out, limit, inObj, depth + 1); }
                    out.push_back(Call("IfEnd")); s.label(depth ? "nested conditional" : "conditional"); } break;
            }
        }
    }
};

PBT_SUITE(programs, 100000, 900000) {
    Gen g(src); g.budget = src.range(5, 60); Calls prog; bool cb = !src.chance(1, 12);
    if (!cb) g.conds = false;
    g.body(prog, 6, false, 0);
    src.note((cb ? "" : "(no condition callback)\n") + str(prog));
    // reference.  An archive body may redefine its own name but never read itself: with late binding that
    // could still recurse through the redefinition, which the step limit discards.
    memset(flips, 0, sizeof(flips)); Ref ref; 
    { std::vector<std::string> dummy; ref.run(prog, 0, prog.size()); }
    Svc svc; FlipSink sink; std::unique_ptr<Ri::Filter> f(createRenderUtilFilter(cb ? IfElseTestCallback(condCb) : IfElseTestCallback()));
    f->setNextFilter(sink); f->setRendererServices(svc); svc.first = f.get();
    memset(flips, 0, sizeof(flips));
    for (auto& c : prog) { Call tmp = c; applyCall(tmp, *f); }   // arguments die after the call
    expectSame(ref.out, sink.calls, 0, "replay");
    if ((size_t)svc.err.errors != ref.errors) fail("expected " + std::to_string(ref.errors) + " undefined-object errors, got " + std::to_string(svc.err.errors));
    if (ref.errors) src.label("undefined object");
    size_t blocks = 0; for (auto& c : prog) if (c.name == "ReadArchive" || c.name == "ObjectInstance" || c.name == "IfBegin") ++blocks;
    if (blocks >= 2 && ref.out.size() >= 2) src.nontrivial(str(prog));
}

// Every request cached once with rich arguments, replayed several times.
PBT_SUITE(each_request, 40000, 300000) {
    GenOpts o; o.ascii = false; const Proc& p = procTable[src.draw(nProcs - 1)]; std::string n = p.name;
    if (n.find("Archive") != std::string::npos || n.find("Object") == 0 || n == "IfBegin" || n == "ElseIf" || n == "Else" || n == "IfEnd") throw pbt::Discard();
    bool obj = src.coin(); int reps = src.range(1, 3), k = src.range(1, 3);
    Calls body; for (int i = 0; i < k; ++i) body.push_back(genCall(src, p, o));
    src.note(str(body)); src.label(n); src.nontrivial(str(body));
    Svc svc; Sink sink; std::unique_ptr<Ri::Filter> f(createRenderUtilFilter(IfElseTestCallback(condCb)));
    f->setNextFilter(sink); f->setRendererServices(svc); svc.first = f.get();
    if (obj) f->ObjectBegin("x"); else f->ArchiveBegin("x", Ri::ParamList());
    for (auto& c : body) { std::unique_ptr<Call> t(new Call(c)); applyCall(*t, *f); }
    if (!sink.calls.empty()) fail("definition emitted " + str(sink.calls[0]));
    if (obj) f->ObjectEnd(); else f->ArchiveEnd();
    Calls want;
    for (int r = 0; r < reps; ++r) { if (obj) f->ObjectInstance("x"); else f->ReadArchive("x", 0, Ri::ParamList()); want.insert(want.end(), body.begin(), body.end()); }
    expectSame(want, sink.calls, 0, "replay");
    // and passed straight through when nothing is open
    sink.calls.clear(); for (auto& c : body) applyCall(c, *f); expectSame(body, sink.calls, 0, "pass-through");
}

// Unbalanced block ends and branches never crash, and ordinary calls outside any block still pass.
PBT_SUITE(unbalanced, 20000, 200000) {
    Svc svc; FlipSink sink; std::unique_ptr<Ri::Filter> f(createRenderUtilFilter(IfElseTestCallback(condCb)));
    f->setNextFilter(sink); f->setRendererServices(svc); svc.first = f.get(); memset(flips, 0, sizeof(flips));
    int n = src.size(1, 20); std::string log;
    static const char* ends[] = {"ArchiveEnd", "ObjectEnd", "IfEnd", "Else", "ElseIf", "ObjectInstance", "ReadArchive"};
    GenOpts o; o.longStrings = false;
    for (int i = 0; i < n; ++i) {
        Call c(src.pick(ends)); if (c.name == "ElseIf") c.S1("t"); if (c.name == "ObjectInstance") c.S1("nothere"); if (c.name == "ReadArchive") { c.S1("nothere"); c.nv('L'); }
        size_t e0 = svc.err.errors; log += str(c) + "\n"; applyCall(c, *f);
        if (c.name == "ObjectInstance" && svc.err.errors == (int)e0) fail("undefined object instance not reported\n" + log);
        if (c.name == "ReadArchive") { if (sink.calls.size() != 1 || !eq(sink.calls[0], c, 0)) fail("on-disk archive request not passed on after\n" + log); sink.calls.clear(); }
        // a stray end must not open, close or hide anything
        Call p("Translate"); p.F1(i); p.F1(2); p.F1(3); applyCall(p, *f); log += str(p) + "\n";
        if (sink.calls.size() != 1 || !eq(sink.calls[0], p, 0)) fail("call lost after unbalanced\n" + log);
        sink.calls.clear();
    }
    src.note(log); src.nontrivial(log);
}

int main(int argc, char** argv) {
    return pbt::mainLoop(argc, argv, "a case is a program of definitions, uses, conditionals and requests; non-trivial: at least two uses or conditionals and two delivered calls (each_request, unbalanced: every case); distinct by program text");
}
