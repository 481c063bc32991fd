// Independent RIB encoder: renders call lists as RIB bytes in any of the forms the RISpec
// allows (ASCII layout freedom, Appendix C.2 binary encodings, mixtures of both).
#ifndef VERIF_RIB_ENCODE_H
#define VERIF_RIB_ENCODE_H
#include "ri_model.h"
namespace rim {
struct RibEnc {
    Src& s; int mode;             // 0 ascii, 1 binary where possible, 2 mixture per token
    std::string out; bool exact = true; bool lastAscii = false; bool comments = true;
    std::map<std::string, int> reqCode; std::map<std::string, int> strCode; int nextReq = 0, nextStr = 0;
    std::vector<size_t> ends;     // end offset of each request
    long nbin = 0, nasc = 0;
    RibEnc(Src& s_, int m) : s(s_), mode(m) {}
    bool bin() { bool b = mode == 1 || (mode == 2 && s.coin()); if (b) ++nbin; else ++nasc; return b; }
    void ws(bool need) {
        int k = (int)s.draw(11);
        if (k == 0 && !need) return;
        switch (k) {
            case 7: out += "\n"; break; case 8: out += "\r\n"; break; case 9: out += "\t \t"; break; case 10: out += "\r"; break;
            case 11: if (comments) { out += need ? " " : ""; out += "# comment \"[ 1 2 Sphere ]"; out += s.coin() ? "\n" : "\r"; } else out += " "; break;
            default: if (need || s.coin()) out += s.chance(1, 60) ? std::string(300, ' ') : std::string(" "); break;
        }
    }
    void sepWord() { ws(lastAscii); }          // before a number or request written in ASCII
    void be(uint32_t v, int n) { for (int i = n - 1; i >= 0; --i) out += (char)(v >> (8*i)); }
    void req(const std::string& n) {
        if (bin()) {
            ws(false);
            auto it = reqCode.find(n); int code;
            if (it == reqCode.end() || s.chance(1, 20)) { code = nextReq++ & 0xff; for (auto i = reqCode.begin(); i != reqCode.end();) if (i->second == code) i = reqCode.erase(i); else ++i;
                reqCode[n] = code; out += (char)0314; out += (char)code; strBytes(n, false); }
            else code = it->second;
            out += (char)0246; out += (char)code; lastAscii = false;
        } else { sepWord(); out += n; lastAscii = true; }
    }
    void strBytes(const std::string& v, bool allowDef) {
        if (v.size() < 16 && !s.chance(1, 8)) { out += (char)(0220 + v.size()); out += v; return; }
        int n = v.size() < 256 ? 1 : v.size() < 65536 ? 2 : 3; n = std::max(n, s.chance(1, 4) ? s.range(1, 4) : 1);
        out += (char)(0240 + n - 1); be((uint32_t)v.size(), n); out += v;
    }
    void str(const std::string& v) {
        if (bin()) {
            ws(false);
            if (s.chance(1, 3)) {
                auto it = strCode.find(v); int code;
                if (it == strCode.end() || s.chance(1, 8)) { code = s.chance(1, 3) ? 300 + nextStr++ : (nextStr++ & 0xff);
                    for (auto i = strCode.begin(); i != strCode.end();) if (i->second == code) i = strCode.erase(i); else ++i;
                    strCode[v] = code; bool w = code > 255 || s.chance(1, 4); out += (char)(w ? 0316 : 0315); be(code, w ? 2 : 1);
                    if (mode != 1 && s.coin() && plain(v)) out += "\"" + v + "\""; else strBytes(v, false); }
                else code = it->second;
                bool w = code > 255 || s.chance(1, 4); out += (char)(w ? 0320 : 0317); be(code, w ? 2 : 1);
            } else strBytes(v, true);
        } else { ws(false); out += "\"" + v + "\""; }
        lastAscii = false;
    }
    static bool plain(const std::string& v) { for (unsigned char c : v) if (c < 32 || c > 126 || c == '"' || c == '\\') return false; return true; }
    void integer(int v) {
        if (bin()) {
            ws(false); int n = 4; if (v >= 0) { n = v < 256 ? 1 : v < 65536 ? 2 : v < (1 << 24) ? 3 : 4; if (s.chance(1, 4)) n = s.range(n, 4); }
            out += (char)(0200 + n - 1); be((uint32_t)v, n); lastAscii = false;
        } else { sepWord(); char b[32]; snprintf(b, 32, s.chance(1, 8) ? "%+d" : s.chance(1, 8) && v >= 0 ? "%04d" : "%d", v); out += b; lastAscii = true; }
    }
    void flt(float v) {
        bool integral = std::fabs(v) < 1e6f && v == std::floor(v) && !(v == 0 && std::signbit(v));
        if (bin()) {
            ws(false); lastAscii = false;
            switch (s.draw(4)) {
                case 1: { double d = v; uint64_t u; memcpy(&u, &d, 8); out += (char)0245; be((uint32_t)(u >> 32), 4); be((uint32_t)u, 4); return; }
                case 2: if (integral) { int iv = (int)v; int n = 4; if (iv >= 0) n = iv < 256 ? 1 : iv < 65536 ? 2 : 3; out += (char)(0200 + n - 1); be((uint32_t)iv, n); return; } break;
                case 3: { int rad = s.range(1, 3); double sc = std::ldexp((double)v, 8*rad); if (v >= 0 && !std::signbit(v) && sc == std::floor(sc) && sc < 16777216.0) {
                    uint32_t u = (uint32_t)sc; int n = u < 256 ? 1 : u < 65536 ? 2 : 3; if (s.coin()) n = s.range(n, 4); n = std::max(n, 1);
                    out += (char)(0200 + 4*rad + n - 1); be(u, n); return; } break; }
                default: break;
            }
            uint32_t u; memcpy(&u, &v, 4); out += (char)0244; be(u, 4); return;
        }
        sepWord(); char b[64]; lastAscii = true; exact = false;
        switch (s.draw(5)) {
            case 1: if (integral) { snprintf(b, 64, "%d", (int)v); out += b; return; } snprintf(b, 64, "%.8g", v); break;
            case 2: snprintf(b, 64, "%.8e", v); break;
            case 3: snprintf(b, 64, "%+.7E", v); break;
            case 4: if (std::fabs(v) < 1e5f && std::fabs(v) > 1e-2f) { snprintf(b, 64, "%.9f", v); std::string t = b; if (s.coin() && t[0] == '0') t = t.substr(1); out += t; return; } snprintf(b, 64, "%.8g", v); break;
            case 5: if (integral) { snprintf(b, 64, "%d.", (int)v); out += b; return; } snprintf(b, 64, "%.8g", v); break;
            default: snprintf(b, 64, "%.8g", v); break;
        }
        out += b;
    }
    void open() { ws(false); out += '['; lastAscii = false; }
    void close() { ws(false); out += ']'; lastAscii = false; }
    void floats(const std::vector<float>& v) {
        if (mode && s.chance(1, 2) && bin()) { ws(false); int n = v.size() < 256 ? 1 : v.size() < 65536 ? 2 : 3; if (s.chance(1, 4)) n = s.range(n, 4);
            out += (char)(0310 + n - 1); be((uint32_t)v.size(), n); for (float x : v) { uint32_t u; memcpy(&u, &x, 4); be(u, 4); } lastAscii = false; return; }
        open(); for (float x : v) flt(x); close();
    }
    void token(const PVal& p) {
        static const struct { const char* n; TS::IClass c; TS::Type t; int a; } sv[] = {
            {"P", TS::Vertex, TS::Point, 1}, {"Pw", TS::Vertex, TS::HPoint, 1}, {"Cs", TS::Varying, TS::Color, 1}, {"s", TS::Varying, TS::Float, 1}, {"st", TS::Varying, TS::Float, 2}, {"N", TS::Varying, TS::Normal, 1}};
        for (auto& v : sv) if (p.name == v.n && p.spec == TS(v.c, v.t, v.a) && s.coin()) { str(p.name); return; }
        std::string t; auto sp = [&](bool need) { int k = s.range(need ? 1 : 0, s.chance(1, 8) ? 3 : 1); t.append(k, s.chance(1, 16) ? '\t' : ' '); };
        if (mode == 0 || mode == 2) { auto sp2 = [&](bool need) { int k = s.range(need ? 1 : 0, s.chance(1, 8) ? 3 : 1); t.append(k, ' '); };
            if (s.chance(1, 10)) sp2(true);
            static const char* c[] = {"constant","uniform","varying","vertex","facevarying","facevertex"}; static const char* n[] = {"float","point","color","integer","string","vector","normal","hpoint","matrix","mpoint","pointer"};
            if (p.spec.iclass != TS::Uniform || s.coin()) { t += c[p.spec.iclass]; sp2(true); }
            t += p.spec.type == TS::Integer && s.coin() ? "int" : n[p.spec.type]; if (p.spec.arraySize != 1) { if (s.chance(1, 6)) sp2(true); t += "[" + std::to_string(p.spec.arraySize) + "]"; } sp2(true); t += p.name; if (s.chance(1, 10)) sp2(true); str(t); return; }
        str(typeStr(p.spec) + " " + p.name); (void)sp;
    }
    void plist(const std::vector<PVal>& l) {
        for (auto& p : l) {
            token(p);
            switch (p.spec.storageType()) {
                case TS::Float: if (p.f.size() == 1 && s.coin()) flt(p.f[0]); else floats(p.f); break;
                case TS::Integer: if (p.i.size() == 1 && s.coin()) integer(p.i[0]); else { open(); for (int x : p.i) integer(x); close(); } break;
                default: if (p.s.size() == 1 && s.coin()) str(p.s[0]); else { open(); for (auto& x : p.s) str(x); close(); } break;
            }
        }
    }
    void call(const Call& c) {
        static const char* arr[] = {"ScreenWindow","CropWindow","TextureCoordinates","DetailRange","Skew","Sphere","Cone","Cylinder","Hyperboloid","Paraboloid","Disk","Torus"};
        static const char* alt[] = {"LightSource","AreaLightSource","Illuminate","ObjectBegin","ObjectInstance"};
        const Proc& p = *findProc(c.name); bool isArr = false, isAlt = false;
        for (auto a : arr) if (c.name == a) isArr = true;
        for (auto a : alt) if (c.name == a) isAlt = true;
        req(c.name);
        if (isArr) {
            std::vector<float> all; for (auto& v : c.a) if (v.k == 'f') all.insert(all.end(), v.f.begin(), v.f.end());
            if (s.coin()) floats(all); else for (float x : all) flt(x);
            if (c.a.size() && c.a.back().k == 'L') plist(c.a.back().pl);
            ends.push_back(out.size()); return;
        }
        size_t ai = 0; int strNo = 0;
        bool omitTags = c.name == "SubdivisionMesh" && c.a[3].s.empty() && c.a[4].i.empty() && c.a[5].i.empty() && c.a[6].f.empty() && s.coin();
        static Svc bsv;
        for (auto& v : c.a) {
            size_t me = ai++;
            if (omitTags && me >= 3 && me <= 6) continue;
            switch (v.k) {
                case 'i': integer(v.i[0]); break;
                case 's': {
                    bool idArg = isAlt && me == (c.name == "LightSource" || c.name == "AreaLightSource" ? 1u : 0u);
                    bool digits = !v.s[0].empty() && v.s[0].size() < 9 && (v.s[0] == "0" || v.s[0][0] != '0'); for (char ch : v.s[0]) if (!isdigit((unsigned char)ch)) digits = false;
                    if (idArg && digits && s.chance(3, 4)) integer(atoi(v.s[0].c_str())); else str(v.s[0]);
                    ++strNo; break;
                }
                case 'I': open(); for (int x : v.i) integer(x); close(); break;
                case 'S': open(); for (auto& x : v.s) str(x); close(); break;
                case 'F': floats(v.f); break;
                case 'f':
                    if (v.f.size() == 1) flt(v.f[0]);
                    else if (v.f.size() == 16) {
                        static const char* bn[] = {"bezier","b-spline","catmull-rom","hermite","power"}; bool named = false;
                        if (c.name == "Basis") for (int b = 0; b < 5; ++b) if (!memcmp(&v.f[0], bsv.bases[b], 64) && s.coin()) { str(bn[b]); named = true; break; }
                        if (!named) floats(v.f);
                    }
                    else if (c.name == "Procedural" || !s.coin()) floats(v.f);
                    else for (float x : v.f) flt(x);
                    break;
                case 'L': plist(v.pl); break;
            }
        }
        (void)p; ends.push_back(out.size());
    }
};
/// Stream whose underlying buffer hands out the bytes in pieces of chosen sizes.
struct ChunkBuf : public std::streambuf {
    std::string d; std::vector<int> sizes; size_t pos = 0, k = 0; std::vector<char> cur;
    ChunkBuf(const std::string& s, const std::vector<int>& z) : d(s), sizes(z) {}
    int_type underflow() override {
        if (gptr() < egptr()) return traits_type::to_int_type(*gptr());
        if (pos >= d.size()) return traits_type::eof();
        size_t n = std::min<size_t>(sizes[k++ % sizes.size()], d.size() - pos);
        char last = 0; bool have = gptr() && gptr() > eback(); if (have) last = gptr()[-1];
        cur.assign(1, last); cur.insert(cur.end(), d.begin() + pos, d.begin() + pos + n); pos += n;
        setg(&cur[have ? 0 : 1], &cur[1], &cur[0] + 1 + n); return traits_type::to_int_type(*gptr());
    }
};
} // namespace rim
#endif
