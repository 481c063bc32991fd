// C03: the validation filter forwards exactly the legal calls, unchanged.
// The oracle is an independent evaluator of the interface description (scopes, ranges, array
// lengths, parameter counts) over the generated call.
#include "ri_scope.h"
using namespace rim;

struct Fwd : public Recorder {};

static float nearBound(Src& s, double y) {
    switch (s.draw(5)) { case 0: return (float)y; case 1: return std::nextafter((float)y, 1e30f); case 2: return std::nextafter((float)y, -1e30f); case 3: return (float)(y - 1); case 4: return (float)(-std::fabs(y) - 2); default: return NAN; }
}

/// Damages arguments; the oracle then decides whether the result is still legal.
static void mutate(Src& s, const Proc& p, Call& c) {
    std::vector<int> opts; // 0 range, 1 array length, 2 param length, 3 drop P, 4 lengthen
    std::vector<size_t> rng, arr; size_t j = 0;
    for (auto& a : p.args) { if (a.kind[0] == 'A') continue; if (j >= c.a.size()) break; if (*a.range) rng.push_back(j); if (*a.length) arr.push_back(j); ++j; }
    bool pl = !c.a.empty() && c.a.back().k == 'L' && !c.a.back().pl.empty();
    if (!rng.empty()) { opts.push_back(0); opts.push_back(0); } if (!arr.empty()) { opts.push_back(1); opts.push_back(4); } if (pl) { opts.push_back(2); opts.push_back(2); opts.push_back(5); if (needsP(p.name)) opts.push_back(3); }
    if (opts.empty()) return;
    switch (s.pick(opts)) {
        case 0: {
            std::string n = p.name; Val& v = c.a[s.pick(rng)];
            if (v.k == 'i') { if (n == "PatchMesh" || n == "NuPatch") v.i[0] = s.range(-1, 0); else v.i[0] = s.range(-2, 2); }
            else { double y = 0; if (s.chance(1, 2)) y = 0; else if (s.coin()) y = 1; else { std::vector<double> o; for (auto& w : c.a) if (w.k == 'f' && w.f.size() == 1) o.push_back(w.f[0]); if (n == "Clipping") o.push_back(FLT_EPSILON); if (!o.empty()) y = s.pick(o); } v.f[0] = nearBound(s, y); }
            s.label("mutate range"); break; }
        case 1: { Val& v = c.a[s.pick(arr)]; int k = s.range(1, 3); for (int i = 0; i < k; ++i) { if (v.k == 'I' && !v.i.empty()) v.i.pop_back(); if (v.k == 'F' && !v.f.empty()) v.f.pop_back(); } s.label("mutate array short"); break; }
        case 4: { Val& v = c.a[s.pick(arr)]; if (v.k == 'I') v.i.push_back(1); if (v.k == 'F') v.f.push_back(1); s.label("mutate array long"); break; }
        case 2: { auto& l = c.a.back().pl; PVal& q = l[s.draw(l.size() - 1)]; int k = s.range(1, 4); for (int i = 0; i < k; ++i) { if (!q.f.empty()) q.f.pop_back(); else if (!q.i.empty()) q.i.pop_back(); else if (!q.s.empty()) q.s.pop_back(); } s.label("mutate param short"); break; }
        case 5: { auto& l = c.a.back().pl; PVal& q = l[s.draw(l.size() - 1)]; if (q.spec.storageType() == TS::Float) q.f.push_back(2); else if (q.spec.storageType() == TS::Integer) q.i.push_back(2); else q.s.push_back("x"); s.label("mutate param long"); break; }
        default: { auto& l = c.a.back().pl; for (size_t i = 0; i < l.size(); ++i) if (l[i].name == "P" || l[i].name == "Pw") { l[i].name = "Q"; break; } s.label("mutate drop P"); break; }
    }
}

PBT_SUITE(sequences, 120000, 1500000) {
    bool relaxed = src.chance(1, 5);
    Model m(relaxed); GenOpts o; o.plainFloats = true; o.longStrings = false;
    Svc svc; Fwd sink; Ri::IntArray one; int onev = 1;
    std::vector<Ri::Param> pp; if (relaxed) pp.push_back(Ri::Param(TS(TS::Uniform, TS::Integer), "relaxed_outer_scope", Ri::IntArray(&onev, 1)));
    std::unique_ptr<Ri::Filter> f(createFilter("validate", Ri::ParamList(pp.empty() ? 0 : &pp[0], pp.size())));
    f->setNextFilter(sink); f->setRendererServices(svc);
    svc.first = f.get();
    int n = src.size(1, 40); int nIll = 0, nLeg = 0, depth = 0; size_t seen = 0; std::string log;
    static const char* begins[] = {"WorldBegin", "FrameBegin", "AttributeBegin", "TransformBegin", "SolidBegin", "ObjectBegin", "MotionBegin", "ArchiveBegin", "ResourceBegin"};
    for (int i = 0; i < n; ++i) {
        const Proc* p = 0; int how = src.draw(9); bool mut = false;
        if (how <= 1) p = findProc(src.pick(begins));
        else if (how == 2) { std::string t = m.top() == "Archive" && !m.arch.back().empty() ? m.arch.back().back() : m.top(); if (m.res.back() > 0) t = "Resource"; p = findProc(t + "End"); }
        else if (how <= 6) { static const char* geo[] = {"Basis", "PatchMesh", "Curves", "Basis", "Patch", "NuPatch", "Polygon", "PointsPolygons", "SubdivisionMesh"}; p = src.chance(1, 4) ? findProc(src.pick(geo)) : &procTable[src.draw(nProcs - 1)]; mut = how >= 5; }
        else { p = &procTable[src.draw(nProcs - 1)]; mut = src.chance(1, 4); }
        if (!p || !usable(m, p->name)) continue;
        o.ustep = m.steps.back().first; o.vstep = m.steps.back().second;
        Call c = genCall(src, *p, o); tidy(p->name, c);
        if (mut) mutate(src, *p, c);
        std::string why = illegal(*p, c, m);
        log += (why.empty() ? "  ok  " : "  BAD ") + str(c) + (why.empty() ? "" : "   (" + why + ")") + "\n"; src.note((why.empty() ? "  ok  " : "  BAD ") + str(c) + (why.empty() ? "" : "   (" + why + ")"));
        std::string thrown;
        try { applyCall(c, *f); } catch (XqException& e) { thrown = e.what(); if (thrown.empty()) thrown = "?"; }
        size_t got = sink.calls.size() - seen;
        if (why.empty()) {
            if (!thrown.empty()) fail("legal call rejected: " + str(c) + "\n  with: " + thrown);
            if (got != 1) fail("legal call forwarded " + std::to_string(got) + " times: " + str(c));
            if (!eq(c, sink.calls.back(), 0)) fail("legal call changed\n  sent:     " + str(c) + "\n  received: " + str(sink.calls.back()));
            apply(m, c); ++nLeg; src.label("legal at " + m.top());
        } else {
            if (got) fail("illegal call forwarded (" + why + "): " + str(c));
            if (thrown.empty()) fail("illegal call dropped without an error (" + why + "): " + str(c));
            ++nIll; src.label("illegal: " + why.substr(0, why.find(' ')));
        }
        seen = sink.calls.size(); depth = std::max<int>(depth, m.scopes.size());
    }
    if (depth >= 4) src.label("depth>=4");
    if (nLeg >= 3 && nIll >= 1) src.nontrivial(log);
}

// One call at one randomly reached scope: complete coverage of the table x scope matrix.
PBT_SUITE(matrix, 100000, 600000) {
    Model m(false); GenOpts o; o.plainFloats = true; o.longStrings = false;
    Svc svc; Fwd sink;
    std::unique_ptr<Ri::Filter> f(createFilter("validate", Ri::ParamList()));
    f->setNextFilter(sink); f->setRendererServices(svc); svc.first = f.get();
    static const std::vector<const char*> routes[] = {{}, {"FrameBegin"}, {"WorldBegin"}, {"FrameBegin", "WorldBegin"}, {"WorldBegin", "AttributeBegin"}, {"WorldBegin", "TransformBegin"}, {"TransformBegin"}, {"WorldBegin", "SolidBegin"}, {"ObjectBegin"}, {"WorldBegin", "ObjectBegin"}, {"WorldBegin", "MotionBegin"}, {"MotionBegin"}, {"ArchiveBegin"}, {"WorldBegin", "ArchiveBegin"}, {"ArchiveBegin", "ArchiveBegin"}, {"WorldBegin", "SolidBegin", "SolidBegin", "AttributeBegin"}};
    const auto& r = routes[src.draw(15)]; std::string path;
    for (auto b : r) { Call c = genCall(src, *findProc(b), o); applyCall(c, *f); apply(m, c); path += std::string(b) + " "; }
    if (sink.calls.size() != r.size()) fail("legal block opening not forwarded: " + path);
    const Proc& p = procTable[src.draw(nProcs - 1)];
    if (!usable(m, p.name)) throw pbt::Discard();
    Call c = genCall(src, p, o); tidy(p.name, c); if (src.chance(1, 3)) mutate(src, p, c);
    std::string why = illegal(p, c, m); src.note(path + "\n" + str(c) + "  " + why); src.label(m.top());
    bool threw = false; std::string msg; try { applyCall(c, *f); } catch (XqException& e) { threw = true; msg = e.what(); }
    size_t got = sink.calls.size() - r.size();
    if (why.empty()) { if (threw) fail("legal call rejected at " + m.top() + ": " + str(c) + " with " + msg); if (got != 1 || !eq(c, sink.calls.back(), 0)) fail("legal call not forwarded exactly at " + m.top() + ": " + str(c)); }
    else { if (got) fail("illegal call forwarded (" + why + "): " + str(c)); if (!threw) fail("illegal call dropped silently (" + why + "): " + str(c)); }
    src.nontrivial(m.top() + str(c));
}

int main(int argc, char** argv) {
    return pbt::mainLoop(argc, argv, "a case is a sequence of interface calls, legal or damaged (scope, range, array length, parameter length, missing P), through the validation filter; non-trivial: at least 3 forwarded and 1 rejected call (matrix: every case); distinct by the calls");
}
