// C01: RIB writer -> RIB parser round trip.
#include "ri_model.h"
#include <boost/iostreams/filtering_stream.hpp>
#include <fstream>
using namespace rim;

static const float ASCII_TOL = 5e-7f;

static std::string writeRib(const std::vector<Call>& calls, const RibWriterOptions& wo) {
    std::ostringstream out;
    {
        std::unique_ptr<RibWriterServices> w(createRibWriter(out, wo));
        for (int i = 0; i < 8; ++i) w->registerFilterFunc(filterNames[i], filterFns[i]);
        for (int i = 0; i < 3; ++i) w->registerErrorFunc(errorNames[i], errorFns[i]);
        for (int i = 0; i < 3; ++i) w->registerProcSubdivFunc(procNames[i], procFns[i]);
        for (auto& c : calls) applyCall(c, w->firstFilter());
    }
    return out.str();
}
static std::string preview(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 1500)) { if (c == '\n') o += '\n'; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; } else o += c; } return o; }

static void readRib(const std::string& rib, Recorder& rec, Svc& svc) {
    std::istringstream in(rib); rec.svc = &svc;
    svc.parseRib(in, "test.rib", rec);
}

static RibWriterOptions genOptions(Src& src) {
    RibWriterOptions wo;
    wo.useBinary = src.coin(); wo.useGzip = src.chance(1, 3);
    wo.indentStep = src.range(0, 9); wo.indentChar = src.chance(1, 4) ? '\t' : ' ';
    return wo;
}
static std::string optStr(const RibWriterOptions& wo) { return std::string(wo.useBinary ? "binary" : "ascii") + (wo.useGzip ? "+gzip" : "") + " indent=" + std::to_string(wo.indentStep); }

static void check(Src& src, std::vector<Call>& calls, const RibWriterOptions& wo, const std::string& rib) {
    Svc svc; Recorder rec;
    readRib(rib, rec, svc);
    std::vector<Call> want, wantC, got, gotC;
    for (auto& c : calls) (c.name == "ArchiveRecord" ? wantC : want).push_back(c);
    for (auto& c : rec.calls) (c.name == "ArchiveRecord" ? gotC : got).push_back(c);
    std::string ex = "\n(" + optStr(wo) + ", parse errors: " + std::to_string(svc.err.errors) + " " + svc.err.last + ")\nRIB:\n" + preview(wo.useGzip ? "" : rib);
    expectSame(want, got, wo.useBinary ? 0 : ASCII_TOL, "round trip", ex);
    expectSame(wantC, gotC, 0, "comments", ex);
    if (svc.err.errors) fail("parser reported errors on written RIB: " + svc.err.last + ex);
}

PBT_SUITE(sequences, 70000, 400000) {
    RibWriterOptions wo = genOptions(src);
    GenOpts o; o.ascii = !wo.useBinary;
    int n = src.size(1, 14);
    std::vector<Call> calls; bool nest = false;
    for (int i = 0; i < n; ++i) {
        if (src.chance(1, 20)) {
            Call c("ArchiveRecord"); bool st = src.coin(); c.S1(st ? "structure" : "comment");
            GenOpts co; co.longStrings = false; std::string t = genStr(src, co); if (!st && !t.empty() && t[0] == '#') t[0] = ' '; c.S1(t); calls.push_back(c); continue;
        }
        const Proc& p = procTable[src.draw(nProcs - 1)];
        if (!strcmp(p.name, "Procedural") && 0) continue;
        Call c = genCall(src, p, o);
        if (c.name == "ColorSamples") src.label("ColorSamples");
        for (auto& a : c.a) if (a.k == 'L') { if (!a.pl.empty()) nest = true; for (auto& pv : a.pl) src.label("param " + typeStr(TS(TS::Uniform, pv.spec.type, 1))); }
        calls.push_back(c);
    }
    src.label(optStr(wo).substr(0, optStr(wo).find(' ')));
    src.note(optStr(wo) + "\n" + str(calls));
    if (n >= 2 || nest) src.nontrivial(str(calls));
    std::string rib = writeRib(calls, wo);
    check(src, calls, wo, rib);
}

// Every request on its own, many argument shapes: shallow but complete coverage of the table.
PBT_SUITE(each_request, 40000, 200000) {
    RibWriterOptions wo = genOptions(src);
    GenOpts o; o.ascii = !wo.useBinary;
    const Proc& p = procTable[src.draw(nProcs - 1)];
    std::vector<Call> calls; int k = src.range(1, 3);
    for (int i = 0; i < k; ++i) calls.push_back(genCall(src, p, o));
    src.note(optStr(wo) + "\n" + str(calls)); src.label(p.name); src.nontrivial(str(calls));
    check(src, calls, wo, writeRib(calls, wo));
}

// Scalars and arrays of every magnitude through every encoding.
PBT_SUITE(values, 20000, 100000) {
    RibWriterOptions wo = genOptions(src);
    GenOpts o; o.ascii = !wo.useBinary;
    std::vector<Call> calls; int n = src.range(1, 4);
    for (int i = 0; i < n; ++i) switch (src.draw(4)) {
        case 0: { Call c("Format"); c.I1(genInt(src)); c.I1(genInt(src)); c.F1(genFloat(src, o)); calls.push_back(c); break; }
        case 1: { Call c("Translate"); for (int k = 0; k < 3; ++k) { float f; if (wo.useBinary && src.chance(1, 4)) { uint32_t u = src.draw(0xffffffffu); if ((u & 0x7f800000u) == 0x7f800000u) u &= ~0x00800000u; memcpy(&f, &u, 4); } else f = genFloat(src, o); c.F1(f); } calls.push_back(c); break; }
        case 2: { Call c("Option"); c.S1(genStr(src, o, 40)); PVal p; p.spec = TS(TS::Uniform, src.coin() ? TS::Float : TS::Integer, 1); p.name = "myvar"; static const int L[] = {1, 2, 3, 255, 256, 257, 1000, 70000}; int m = src.chance(1, 6) ? src.pick(L) : src.range(1, 20); p.spec.arraySize = m;
            if (m > 1000) { float f = genFloat(src, o); int iv = genInt(src); for (int k = 0; k < m; ++k) { if (p.spec.type == TS::Float) p.f.push_back(f + (k % 100)*f*0.01f); else p.i.push_back(iv/2 + k); } } else fillPVal(src, p, m, o);
            c.nv('L').pl.push_back(p); calls.push_back(c); src.label(m > 255 ? "long array" : "array"); break; }
        case 3: { Call c("Surface"); std::string s = genStr(src, o, 40); if (src.chance(1, 10)) { static const int L[] = {65535, 65536, 65537, 70000}; s.assign(src.pick(L), 'x'); s[src.draw(100)] = 'y'; src.label("64k string"); } c.S1(s); c.nv('L'); calls.push_back(c); break; }
        default: { Call c("LightSource"); c.S1(genStr(src, o)); c.S1(src.coin() ? std::to_string(std::abs(genInt(src))) : genStr(src, o)); c.nv('L').pl = genPList(src, o, Counts{1,1,1,1,1,true}); calls.push_back(c); break; }
    }
    src.note(optStr(wo) + "\n" + str(calls)); src.nontrivial(str(calls) + optStr(wo));
    check(src, calls, wo, writeRib(calls, wo));
}

// ReadArchive with interpolation on writes the archive's contents in place.
PBT_SUITE(interpolated_archives, 6000, 20000) {
    RibWriterOptions wo = genOptions(src); wo.interpolateArchives = true;
    GenOpts o; o.ascii = true; o.longStrings = false;
    char dir[] = "/tmp/pbtarXXXXXX"; if (!mkdtemp(dir)) throw pbt::Discard();
    wo.archivePath = dir;
    std::vector<std::string> files; std::vector<std::vector<Call>> cont; std::vector<Call> want; std::string desc;
    int na = src.range(1, 3);
    auto some = [&](int k) { std::vector<Call> v; for (int i = 0; i < k; ++i) { const Proc& p = procTable[src.draw(nProcs - 1)]; if (!strcmp(p.name, "ReadArchive") || !strcmp(p.name, "Declare") || !strcmp(p.name, "Option")) continue; v.push_back(genCall(src, p, o)); } return v; };
    // archive k may include archives < k
    for (int k = 0; k < na; ++k) {
        std::vector<Call> body, flat; int parts = src.range(1, 3);
        for (int j = 0; j < parts; ++j) {
            auto v = some(src.range(0, 3)); body.insert(body.end(), v.begin(), v.end()); flat.insert(flat.end(), v.begin(), v.end());
            if (k > 0 && src.coin()) { int t = src.range(0, k - 1); Call c("ReadArchive"); c.S1(files[t]); c.nv('L'); body.push_back(c); flat.insert(flat.end(), cont[t].begin(), cont[t].end()); src.label("nested"); }
        }
        std::string fn = "ar" + std::to_string(k) + ".rib"; files.push_back(fn);
        RibWriterOptions fo = genOptions(src); GenOpts dummy;
        std::string rib = writeRib(body, fo); std::ofstream f((std::string(dir) + "/" + fn).c_str(), std::ios::binary); f << rib; f.close();
        // the archive itself goes through one encoding, so expect its values after that trip
        Svc s1; Recorder r1; r1.comments = false; readRib(rib, r1, s1); std::vector<Call> fl2;
        for (auto& c : r1.calls) { if (c.name == "ReadArchive") { int t = atoi(c.a[0].s[0].c_str() + 2); fl2.insert(fl2.end(), cont[t].begin(), cont[t].end()); } else fl2.push_back(c); }
        cont.push_back(fl2); desc += fn + " (" + optStr(fo) + "):\n" + str(body);
    }
    std::vector<Call> main_; int parts = src.range(1, 3);
    for (int j = 0; j < parts; ++j) { auto v = some(src.range(0, 2)); main_.insert(main_.end(), v.begin(), v.end()); want.insert(want.end(), v.begin(), v.end());
        int t = src.range(0, na - 1); Call c("ReadArchive"); c.S1(files[t]); c.nv('L'); main_.push_back(c); want.insert(want.end(), cont[t].begin(), cont[t].end()); }
    src.note(desc + "main (" + optStr(wo) + "):\n" + str(main_)); src.nontrivial(str(main_) + desc);
    std::string rib; std::string err;
    try { rib = writeRib(main_, wo); } catch (std::exception& e) { err = e.what(); }
    for (auto& f : files) unlink((std::string(dir) + "/" + f).c_str());
    rmdir(dir);
    if (!err.empty()) fail("exception: " + err);
    check(src, want, wo, rib);
}

int main(int argc, char** argv) {
    Aqsis::log(); 
    return pbt::mainLoop(argc, argv, "a case is a sequence of legal interface calls plus writer options; non-trivial: two or more calls, or a parameter list, or a value/array case; distinct by the text of the calls");
}
