// C05: frame selection, tee, on/off, pass-through and archive-ignoring filters.
#include "ri_model.h"
using namespace rim;
typedef std::vector<Call> Calls;

static Ri::ParamList frames(const std::string& s, std::vector<Ri::Param>& st, RtConstString& ptr) { ptr = s.c_str(); st.assign(1, Ri::Param(TS(TS::Uniform, TS::String), "frames", Ri::StringArray(&ptr, 1))); return Ri::ParamList(&st[0], 1); }

static Calls genProgram(Src& src, bool withFrames, int lo, int hi) {
    GenOpts o; o.longStrings = false; Calls c; int n = src.size(1, 14);
    auto plain = [&] {
        if (src.chance(1, 10)) { Call r("ArchiveRecord"); r.S1(src.coin() ? "comment" : "structure"); r.S1(genStr(src, o, 8)); return r; }
        const Proc& p = procTable[src.draw(nProcs - 1)]; std::string nm = p.name; if (nm.compare(0, 5, "Frame") == 0 && nm != "FrameAspectRatio") { Call x("Identity"); return x; } return genCall(src, p, o); };
    for (int i = 0; i < n; ++i) {
        if (withFrames && src.chance(1, 2)) { Call b("FrameBegin"); b.I1(src.range(lo, hi)); c.push_back(b); int k = src.range(0, 3); for (int j = 0; j < k; ++j) c.push_back(plain()); c.push_back(Call("FrameEnd")); }
        else c.push_back(plain());
    }
    return c;
}
static void play(const Calls& c, Ri::Renderer& r) { for (auto& x : c) { std::unique_ptr<Call> t(new Call(x)); applyCall(*t, r); } }
static Calls selectFrames(const Calls& c, const std::set<int>& want) {
    Calls o; bool on = true;
    for (auto& x : c) { if (x.name == "FrameBegin") on = want.count(x.a[0].i[0]); if (on) o.push_back(x); if (x.name == "FrameEnd") on = true; }
    return o;
}

PBT_SUITE(frame_lists, 60000, 600000) {
    std::set<int> want; std::string text; std::vector<int> ints; bool asInts = src.chance(1, 4);
    static const int L[] = {0, 1, -5, 100, -120}; int lo = src.pick(L), hi = lo + (src.chance(1, 8) ? src.range(50, 4000) : src.range(1, 14));
    int items = src.size(1, 8);
    for (int i = 0; i < items; ++i) {
        if (asInts) { int v = src.range(lo, hi); ints.push_back(v); want.insert(v); continue; }
        if (i) text += ","; if (src.chance(1, 12)) text += ",";
        int a = src.range(lo, hi); text += std::to_string(a);
        if (src.chance(1, 3)) { int b = src.range(lo, hi); text += "-" + std::to_string(b); for (int k = std::min(a, b); k <= std::max(a, b); ++k) want.insert(k); src.label(a > b ? "reversed range" : "range"); }
        else want.insert(a);
    }
    if (!asInts && src.chance(1, 12)) text += ",";
    Calls prog = genProgram(src, true, lo - 2, hi + 2), exp = selectFrames(prog, want);
    src.note("frames \"" + text + "\"" + (asInts ? " " + join(ints, [](int i) { return std::to_string(i); }) : "") + "\n" + str(prog)); src.label(asInts ? "integer array" : "text list");
    std::vector<Ri::Param> st; RtConstString ptr; Ri::ParamList pl;
    if (asInts) { st.assign(1, Ri::Param(TS(TS::Uniform, TS::Integer, (int)ints.size()), "frames", Ri::IntArray(&ints[0], ints.size()))); if (ints.size() == 1 || src.coin()) st[0] = Ri::Param(TS(TS::Uniform, TS::Integer), "frames", Ri::IntArray(&ints[0], ints.size())); else throw pbt::Discard(); pl = Ri::ParamList(&st[0], 1); }
    else pl = frames(text, st, ptr);
    Svc svc; Recorder sink; std::unique_ptr<Ri::Filter> f(createFilter("framedrop", pl));
    f->setNextFilter(sink); f->setRendererServices(svc); play(prog, *f);
    expectSame(exp, sink.calls, 0, "frame selection");
    int nf = 0, kept = 0; for (auto& c : prog) if (c.name == "FrameBegin") ++nf; for (auto& c : exp) if (c.name == "FrameBegin") ++kept;
    if (nf >= 2 && kept >= 1 && kept < nf) src.nontrivial(text + str(prog));
}

PBT_SUITE(bad_frame_lists, 5000, 50000) {
    static const char* good[] = {"1", "3,4", "1-5", "7-2,9", ""}; static const char* bad[] = {"x", "1-", "1-x", ";", "5:6", "two", "1-,3", ".", "+", "1--", "*"};
    std::string t = src.pick(good); if (!t.empty()) t += ","; t += src.pick(bad); if (src.coin()) t += std::string(",") + src.pick(good);
    src.note(t); src.nontrivial(t); std::vector<Ri::Param> st; RtConstString ptr;
    try { std::unique_ptr<Ri::Filter> f(createFilter("framedrop", frames(t, st, ptr))); fail("malformed frame list accepted: " + t); } catch (XqException&) {}
}

PBT_SUITE(tee, 40000, 300000) {
    Calls prog = genProgram(src, true, 0, 5); src.note(str(prog)); if (prog.size() >= 2) src.nontrivial(str(prog));
    Svc svc; Recorder main_;
    // procedural data belongs to the main chain: the branch must leave it alone
    struct NoFree : public Recorder { virtual RtVoid Procedural(RtPointer d, RtConstBound b, RtProcSubdivFunc f, RtProcFreeFunc) { recProcedural(d, b, f, 0); } } nf;
    std::unique_ptr<Ri::Filter> f(createTeeFilter(nf)); f->setNextFilter(main_); f->setRendererServices(svc);
    for (auto& c : prog) { size_t b = nf.calls.size(), m = main_.calls.size(); std::unique_ptr<Call> t(new Call(c)); applyCall(*t, *f); if (nf.calls.size() != b + 1 || main_.calls.size() != m + 1) fail("tee delivered " + std::to_string(nf.calls.size() - b) + "/" + std::to_string(main_.calls.size() - m) + " calls for " + str(c)); }
    expectSame(prog, nf.calls, 0, "tee branch"); expectSame(prog, main_.calls, 0, "tee main");
}

// Order within one call: the branch first, except for block ends.
static std::vector<int> g_order;
class Notify : public Ri::Renderer { public: int id; Notify(int i) : id(i) {}
    void add(const Call&) { g_order.push_back(id); }
    void recProcedural(RtPointer d, RtConstBound, RtProcSubdivFunc, RtProcFreeFunc fr) { g_order.push_back(id); if (id == 1) fr(d); }
#define RI_GEN_RECORDER
#include "ri_gen.h"
#undef RI_GEN_RECORDER
    virtual RtVoid ArchiveRecord(RtConstToken, const char*) { g_order.push_back(id); }
};
PBT_SUITE(tee_order, 20000, 100000) {
    GenOpts o; o.longStrings = false; const Proc& p = procTable[src.draw(nProcs - 1)]; Call c = genCall(src, p, o); src.note(str(c)); src.nontrivial(p.name);
    std::string n = p.name; bool end = n.size() > 3 && n.compare(n.size() - 3, 3, "End") == 0;
    if (n == "Procedural") throw pbt::Discard();
    Svc svc; Notify br(0), mn(1); g_order.clear(); std::unique_ptr<Ri::Filter> f(createTeeFilter(br)); f->setNextFilter(mn); f->setRendererServices(svc); applyCall(c, *f);
    if (g_order.size() != 2 || g_order[0] != (end ? 1 : 0) || g_order[1] != (end ? 0 : 1)) fail("tee order wrong for " + str(c));
}

PBT_SUITE(pass_through, 40000, 300000) {
    Calls prog = genProgram(src, true, 0, 5), exp; src.note(str(prog)); if (prog.size() >= 2) src.nontrivial(str(prog));
    Svc svc; Recorder a, b, c;
    PassthroughFilter pf; pf.setNextFilter(a); pf.setRendererServices(svc); play(prog, pf); expectSame(prog, a.calls, 0, "pass-through filter");
    std::unique_ptr<Ri::Filter> ig(createFilter("ignorearchives", Ri::ParamList())); ig->setNextFilter(b); ig->setRendererServices(svc); play(prog, *ig);
    for (auto& x : prog) if (x.name != "ReadArchive") exp.push_back(x);
    expectSame(exp, b.calls, 0, "archive-ignoring filter");
    bool on = src.coin(); OnOffFilter of(on); of.setNextFilter(c); of.setRendererServices(svc); Calls oe;
    for (auto& x : prog) { if (src.chance(1, 4)) { on = !on; of.setActive(on); } if (of.isActive() != on) fail("on/off state"); Call t = x; if (!on && x.name == "Procedural") continue; applyCall(t, of); if (on) oe.push_back(x); }
    expectSame(oe, c.calls, 0, "on/off filter");
}

int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a case is a frame list or filter plus a call sequence; non-trivial: two or more frames of which some but not all are selected (frame_lists), two or more calls (others); distinct by content"); }
