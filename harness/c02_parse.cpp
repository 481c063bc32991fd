// C02: layout independence, error recovery and robustness of RIB parsing.
#include "rib_encode.h"
#include <boost/iostreams/filtering_stream.hpp>
#include <boost/iostreams/filter/gzip.hpp>
#include <boost/iostreams/device/back_inserter.hpp>
using namespace rim;
static const float TOL = 3e-6f;

static std::string preview(const std::string& s) { std::string o; for (unsigned char c : s.substr(0, 1200)) { if (c == '\n') o += '\n'; else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\%03o", c); o += b; } else o += c; } return o; }
static std::string gz(const std::string& in) { std::string o; { boost::iostreams::filtering_ostream f; f.push(boost::iostreams::gzip_compressor()); f.push(boost::iostreams::back_inserter(o)); f << in; } return o; }

static void parse(Src& s, const std::string& bytes, Recorder& rec, Svc& svc) {
    rec.svc = &svc; rec.comments = false;
    std::vector<int> sizes; int m = (int)s.draw(3);
    if (m == 0) { std::istringstream in(bytes); svc.parseRib(in, "t.rib", rec); return; }
    static const int B[] = {1, 2, 3, 7, 255, 256, 257, 254, 253, 1000};
    if (m == 1) sizes.push_back(s.pick(B)); else { int n = s.range(2, 6); for (int i = 0; i < n; ++i) sizes.push_back(s.pick(B)); }
    ChunkBuf cb(bytes, sizes); std::istream in(&cb); s.label("chunked");
    svc.parseRib(in, "t.rib", rec);
}

static std::vector<Call> genCalls(Src& s, int n, GenOpts& o) {
    std::vector<Call> v;
    for (int i = 0; i < n; ++i) {
        const Proc& p = procTable[s.draw(nProcs - 1)]; if (!strcmp(p.name, "Declare")) { continue; }
        v.push_back(genCall(s, p, o));
    }
    return v;
}

// one malformed request; nothing of it may be delivered
static std::string malformed(Src& s, std::string& what) {
    static const char* args[] = {"1", "-2.5", "\"str\"", "[1 2 3]", "[\"a\" \"b\"]", "[]", "1e3", "\"uniform float x\" 3"};
    auto someArgs = [&] { std::string r; int n = s.range(0, 4); for (int i = 0; i < n; ++i) { r += " "; r += s.pick(args); } return r; };
    static const char* wrong[] = {
        "Sphere \"r\" 1 1 360", "Sphere 1 2", "Sphere 1 -1 1 360 \"undeclared_token\" 3", "Sphere 1 -1 1 360 \"uniform float\" 3", "Sphere [1 2 3]", "Sphere 1 -1 1 360 5",
        "Color [1 2]", "Color [1 2 3 4]", "Color \"red\"", "Color 1", "Transform [1 2 3]", "Transform 1 0 0 0", "Transform", "Format 1.5 2 1", "Format 1 2", "FrameBegin \"x\"", "FrameBegin 1.5", "FrameBegin",
        "Declare \"x\"", "Declare", "Surface 12", "Surface", "Surface \"a\" \"Ka\" \"s\"", "Surface \"a\" \"Ka\"", "Surface \"a\" \"uniform string q\" 5", "Surface \"a\" \"integer x\" 1.5", "Surface \"a\" \"float x\" [1 \"b\"]",
        "Polygon \"P\" [1 2", "Polygon \"P\" [1 2 [3] 4]", "Polygon \"P\" ]", "PointsPolygons [3] [0 1 2.5] \"P\" [1 2 3]", "PointsPolygons 3 [0 1 2]", "Option 5", "Attribute \"a\" \"bad type name\" 5", "Attribute \"x\" \"uniform float[ a\" 5", "Attribute \"x\" \"pointer p\" 5",
        "PixelFilter \"nosuchfilter\" 2 2", "PixelFilter box 2 2", "Basis \"nosuch\" 3 \"bezier\" 3", "Basis [1 2] 3 \"bezier\" 3", "Procedural \"nosuch\" [\"a\"] [1 2 3 4 5 6]", "Procedural \"RunProgram\" [\"a\" \"b\"] [1 2 3 4 5]", "ErrorHandler \"nosuch\"",
        "LightSource \"a\" 1.5", "LightSource \"a\"", "Illuminate 1", "MotionBegin 0 1", "MotionBegin [0 1", "Translate 1 2", "Translate 1 2 \"z\"", "Translate [1 2 3]", "Rotate 1 2 3 +", "Rotate 1 2 3 1e", "Rotate 1 2 3 .", "Rotate -+1 2 3 4", "Hyperboloid 1 2 3 4 5 6", "SubdivisionMesh \"catmull-clark\" [4] 5", "SubdivisionMesh \"catmull-clark\" [4] [0 1 2 3] [\"hole\"] \"P\" [1 2 3]",
        "Clipping 1", "CropWindow 0 1 0", "CropWindow [0 1 0]", "ReadArchive", "ReadArchive 5", "version \"x\"", "Patch 4", "NuPatch 1 2 3", "Blobby 1 2 3 4", "ColorSamples 1 2", "ObjectBegin [1]", "ObjectInstance", "ClippingPlane 1 2 3 4 5"};
    switch (s.draw(6)) {
        case 0: case 1: { static const char* un[] = {"Foo", "Spher", "Spheree", "sphere", "RiSphere", "World", "Sphere_", "Bogus1", "A.b", "@", "%x", "WorldBegin2", "Begin", "\x01", "versionx"}; what = "unknown request"; return s.pick(un) + someArgs(); }
        case 2: { what = "reserved byte"; std::string r = "Translate 1"; static const int b[] = {0247, 0250, 0277, 0307, 0321, 0340, 0376}; r += (char)s.pick(b); return r; }
        case 3: { what = "undefined code"; std::string r; if (s.coin()) { r += (char)0246; r += (char)0xfe; r += " 1 2 3"; } else { r = "Surface "; r += (char)0320; r += (char)0x7f; r += (char)0x7e; } return r; }
        case 4: { what = "stray values"; static const char* v[] = {"FrameBegin ]", "1 2 3", "\"text\"", "]", "[ 1 2 ]", "+", "1e+", "[[", "Format 1 2 1 5"}; int k = (int)s.draw(7); return v[k]; }
        default: what = "wrong arguments"; return s.pick(wrong);
    }
}
static uint64_t s_mode(Src& s) { return s.draw(2); }

PBT_SUITE(layout, 50000, 250000) {
    int mode = (int)s_mode(src); GenOpts o; o.ascii = mode != 1;
    auto calls = genCalls(src, src.size(1, 10), o);
    RibEnc e(src, mode);
    if (src.chance(1, 4)) e.out += "##RenderMan RIB-Structure 1.0\nversion 3.03\n";
    for (auto& c : calls) e.call(c);
    e.ws(false);
    src.note("mode " + std::to_string(mode) + "\n" + str(calls)); src.label("mode " + std::to_string(mode));
    if (calls.size() >= 1) src.nontrivial(e.out);
    std::string bytes = e.out; bool zip = src.chance(1, 6); if (zip) { bytes = gz(bytes); src.label("gzip"); }
    if (e.out.size() > 300) src.label("larger than input buffer");
    Svc svc; Recorder rec; parse(src, bytes, rec, svc);
    std::string ex = "\nerrors: " + std::to_string(svc.err.errors) + " " + svc.err.last + "\nRIB:\n" + preview(e.out);
    expectSame(calls, rec.calls, mode == 1 ? 0 : TOL, "layout", ex);
    if (svc.err.errors) fail("error reported for a well-formed stream" + ex);
}

PBT_SUITE(resync, 50000, 250000) {
    int mode = (int)s_mode(src); GenOpts o; o.ascii = mode != 1;
    auto calls = genCalls(src, src.size(1, 8), o); int nbad = 0; std::string d;
    RibEnc e(src, mode);
    size_t i = 0;
    for (;;) {
        if (src.chance(2, 5)) {
            std::string w, m = malformed(src, w); if (w == "stray values" && i > 0 && !calls[i-1].a.empty() && calls[i-1].a.back().k == 'L') { m = "Bogus"; w = "unknown request"; } e.ws(true); e.out += m; e.out += src.coin() ? "\n" : " "; e.lastAscii = false; ++nbad; src.label(w); d += "<<" + preview(m) + ">>\n";
        }
        if (i >= calls.size()) break;
        e.call(calls[i]); d += str(calls[i]) + "\n"; ++i;
    }
    src.note("mode " + std::to_string(mode) + "\n" + d);
    if (nbad && calls.size()) src.nontrivial(e.out);
    Svc svc; Recorder rec; parse(src, e.out, rec, svc);
    std::string ex = "\nerrors: " + std::to_string(svc.err.errors) + " " + svc.err.last + "\nRIB:\n" + preview(e.out);
    expectSame(calls, rec.calls, mode == 1 ? 0 : TOL, "resync", ex);
    if (nbad && !svc.err.errors) fail("malformed request not reported" + ex);
    if (!nbad && svc.err.errors) fail("error reported for a well-formed stream" + ex);
}

// Damage at one place: everything complete before the damage is still delivered.
PBT_SUITE(damage, 30000, 200000) {
    int mode = (int)s_mode(src); GenOpts o; o.ascii = mode != 1; o.longStrings = false;
    auto calls = genCalls(src, src.size(2, 8), o);
    RibEnc e(src, mode); e.comments = false; for (auto& c : calls) e.call(c);
    std::string b = e.out; if (b.empty()) throw pbt::Discard();
    size_t p = src.draw(b.size() - 1); size_t first = p; int nm = src.range(1, 3); std::string d;
    for (int k = 0; k < nm && !b.empty(); ++k) {
        size_t q = k ? p + src.draw(b.size() - std::min(p, b.size() - 1)) : p; q = std::min(q, b.size() - 1);
        switch (src.draw(4)) {
            case 0: b[q] = (char)src.draw(255); d += "set "; break;
            case 1: b.erase(q, 1 + src.draw(8)); d += "erase "; break;
            case 2: { std::string ins; int n = src.range(1, 6); for (int i = 0; i < n; ++i) ins += (char)src.draw(255); b.insert(q, ins); d += "insert "; break; }
            case 3: b.resize(q); d += "truncate "; break;
            default: { size_t n = std::min<size_t>(b.size() - q, 1 + src.draw(30)); b.insert(q, b.substr(q, n)); d += "dup "; break; }
        }
    }
    src.note("mode " + std::to_string(mode) + " damage (" + d + ") at " + std::to_string(first) + "\n" + str(calls)); src.nontrivial(b);
    size_t keep = 0; while (keep < e.ends.size() && e.ends[keep] <= first) ++keep; if (keep) --keep;
    Svc svc; Recorder rec; parse(src, b, rec, svc);
    if (rec.calls.size() > keep) rec.calls.resize(keep); calls.resize(std::min(keep, calls.size()));
    expectSame(calls, rec.calls, mode == 1 ? 0 : TOL, "before damage", "\nRIB:\n" + preview(b));
}

// Token soup and raw bytes: only termination and memory safety are judged.
PBT_SUITE(soup, 40000, 300000) {
    std::string b; int n = src.size(1, 120); bool anyReq = false;
    for (int i = 0; i < n; ++i) switch (src.draw(8)) {
        case 0: case 1: { const Proc& p = procTable[src.draw(nProcs - 1)]; b += p.name; b += ' '; anyReq = true; break; }
        case 2: b += std::to_string(src.smallInt(1000)); b += ' '; break;
        case 3: b += "\"" + genName(src) + "\" "; break;
        case 4: b += src.coin() ? "[ " : "] "; break;
        case 5: { int k = src.range(1, 12); for (int j = 0; j < k; ++j) b += (char)src.draw(255); break; }
        case 6: b += (char)(0200 + src.draw(0177)); break;
        case 7: { static const char* t[] = {"\"uniform float x\" ", "\"P\" ", "[1 2 3] ", "[\"a\"] ", "-1.5e3 ", "\"RunProgram\" ", "[0 0 0 1 1 1] ", "\"bezier\" ", "#c\n", "[3 4] ", "[]", "\"unif", "ColorSamples [1] [1] ", "ColorSamples [] [] Color [] ", "Color [0.5] ", "\x1f\x8b"}; b += src.pick(t); break; }
        default: { b += (char)(0220 + src.draw(15)); b += genName(src); break; }
    }
    if (src.chance(1, 10)) b = std::string("\x1f\x8b") + b;
    else if (src.chance(1, 20)) { b = gz(b); if (b.size() > 12 && src.coin()) b[10 + src.draw(b.size() - 11)] ^= 0x55; else if (src.coin()) b.resize(src.draw(b.size())); src.label("damaged gzip"); }
    src.note(preview(b)); if (anyReq) src.nontrivial(b);
    Svc svc; Recorder rec; parse(src, b, rec, svc);
    // and the same bytes parse the same way twice with the same parser state
    Svc svc2; Recorder rec2; rec2.svc = &svc2; rec2.comments = false; std::istringstream in(b); svc2.parseRib(in, "t.rib", rec2);
    expectSame(rec.calls, rec2.calls, 0, "chunking", "");
}

int main(int argc, char** argv) {
    Aqsis::log();
    return pbt::mainLoop(argc, argv, "a case is a RIB byte stream made from a known list of legal calls (any legal layout/encoding), optionally with malformed requests or byte damage, or token soup, delivered through a chunked stream; non-trivial: at least one legal request in it; distinct by the bytes");
}
