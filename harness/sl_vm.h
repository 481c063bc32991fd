// Runs shading language programs in-process: the real compiler (slcomp) and the real shader VM,
// with a stand-in renderer that only supplies coordinate systems and options.
#ifndef VERIF_SL_VM_H
#define VERIF_SL_VM_H
#include "pbt.h"
#include <aqsis/aqsis.h>
#include <aqsis/util/logging.h>
#include <aqsis/core/irenderer.h>
#include <aqsis/core/itransform.h>

#include <aqsis/shadervm/ishader.h>
#include <aqsis/core/iparameter.h>
#include <aqsis/core/iattributes.h>
#include <aqsis/shadervm/ishaderdata.h>
#include <aqsis/shadervm/ishaderexecenv.h>
#include <aqsis/slcomp/libslparse.h>
#include <aqsis/slcomp/icodegen.h>
#include <array>
#include <sys/stat.h>

// the compiler and the VM, normally in different programs, both define one harmless constant
extern "C" const char* __asan_default_options() { return "detect_odr_violation=0"; }

namespace sl {
using namespace Aqsis;

typedef std::array<double, 16> M16;
inline M16 ident() { M16 m{}; for (int i = 0; i < 4; ++i) m[i*4+i] = 1; return m; }
// row vectors: p' = p m, as in the interface
inline M16 mul(const M16& a, const M16& b) { M16 r{}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r[i*4+j] += a[i*4+k]*b[k*4+j]; return r; }
inline double det3(double a, double b, double c, double d, double e, double f, double g, double h, double i) { return a*(e*i - f*h) - b*(d*i - f*g) + c*(d*h - e*g); }
inline double cof(const M16& m, int r, int c) {
    double s[9]; int n = 0;
    for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (i != r && j != c) s[n++] = m[i*4+j];
    double d = det3(s[0], s[1], s[2], s[3], s[4], s[5], s[6], s[7], s[8]);
    return (r + c) & 1 ? -d : d;
}
inline double det(const M16& m) { double d = 0; for (int j = 0; j < 4; ++j) d += m[j]*cof(m, 0, j); return d; }
inline M16 inverse(const M16& m) { double d = det(m); M16 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[j*4+i] = cof(m, i, j)/d; return r; }
inline M16 transpose(const M16& m) { M16 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r[j*4+i] = m[i*4+j]; return r; }
inline M16 linear(const M16& m) { M16 r = m; r[3] = r[7] = r[11] = r[12] = r[13] = r[14] = 0; r[15] = 1; return r; }
inline CqMatrix toCq(const M16& m) { float f[4][4]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) f[i][j] = m[i*4+j]; return CqMatrix(f); }

// named spaces -> matrix from that space to "current"
struct Spaces {
    std::map<std::string, M16> toCurrent;
    Spaces() { toCurrent["current"] = ident(); toCurrent["camera"] = ident(); }
    bool find(const std::string& n, M16& m) const { auto i = toCurrent.find(n); if (i == toCurrent.end()) return false; m = i->second; return true; }
    bool between(const std::string& a, const std::string& b, M16& r) const {
        M16 x, y; if (!find(a, x) || !find(b, y)) return false;
        r = mul(x, inverse(y)); return true;
    }
};

struct MockRenderer : IqRenderer {
    Spaces spaces;
    float shutter[2] = {0, 0}, clipping[2] = {1, 11};
    float format[3] = {640, 480, 1};
    std::string printed;
    std::map<std::string, CqMatrix> bases;
    bool matSpaceToSpace(const char* f, const char* t, const IqTransform*, const IqTransform*, TqFloat, CqMatrix& r) override
    { M16 m; if (!spaces.between(f, t, m)) return false; r = toCq(m); return true; }
    bool matVSpaceToSpace(const char* f, const char* t, const IqTransform*, const IqTransform*, TqFloat, CqMatrix& r) override
    { M16 m; if (!spaces.between(f, t, m)) return false; r = toCq(linear(m)); return true; }
    bool matNSpaceToSpace(const char* f, const char* t, const IqTransform*, const IqTransform*, TqFloat, CqMatrix& r) override
    { M16 m; if (!spaces.between(f, t, m)) return false; r = toCq(transpose(inverse(linear(m)))); return true; }
    const TqFloat* GetFloatOption(const char* n, const char* p) const override {
        std::string s = std::string(n) + ":" + p;
        if (s == "System:Clipping") return clipping;
        if (s == "System:Shutter") return shutter;
        return 0;
    }
    const TqInt* GetIntegerOption(const char*, const char*) const override { return 0; }
    const CqString* GetStringOption(const char*, const char*) const override { return 0; }
    const CqVector3D* GetPointOption(const char*, const char*) const override { return 0; }
    const CqColor* GetColorOption(const char*, const char*) const override { return 0; }
    TqFloat* GetFloatOptionWrite(const char*, const char*) override { return 0; }
    TqInt* GetIntegerOptionWrite(const char*, const char*) override { return 0; }
    CqString* GetStringOptionWrite(const char*, const char*) override { return 0; }
    CqVector3D* GetPointOptionWrite(const char*, const char*) override { return 0; }
    CqColor* GetColorOptionWrite(const char*, const char*) override { return 0; }
    void PrintString(const char* s) override { printed += s; }
    IqTextureCache& textureCache() override { abort(); }
    IqTextureMapOld* GetEnvironmentMap(const CqString&) override { return 0; }
    IqTextureMapOld* GetOcclusionMap(const CqString&) override { return 0; }
    IqTextureMapOld* GetLatLongMap(const CqString&) override { return 0; }
    bool GetBasisMatrix(CqMatrix& m, const CqString& name) override {
        auto i = bases.find(name); if (i == bases.end()) return false; m = i->second; return true;
    }
    TqInt RegisterOutputData(const char*) override { return -1; }
    TqInt OutputDataIndex(const char*) override { return -1; }
    TqInt OutputDataSamples(const char*) override { return 0; }
    void SetCurrentFrame(TqInt) override {}
    TqInt CurrentFrame() const override { return 1; }
    TqFloat Time() const override { return 0; }
    bool IsWorldBegin() const override { return true; }
};

struct MockTransform : IqTransform {
    CqMatrix m;
    const CqMatrix& matObjectToWorld(TqFloat) const override { return m; }
    TqFloat Time(TqInt) const override { return 0; }
    TqInt cTimes() const override { return 1; }
    bool GetHandedness(TqFloat) const override { return false; }
};

inline void quietLog() { static std::stringbuf* b = new std::stringbuf; Aqsis::log().rdbuf(b); b->str(""); }

struct Compiled { bool ok = false; std::string err, slx; };
// The same steps as aqsl after preprocessing.
inline Compiled compile(const std::string& src) {
    Compiled r; quietLog();
    // the compiler writes to a named file: give it an anonymous one
    int fd = memfd_create("slx", 0); if (fd < 0) throw pbt::Discard();
    std::string out = "/proc/self/fd/" + std::to_string(fd);
    std::istringstream in(src); std::ostringstream err;
    ResetParser();
    r.ok = Parse(in, "case.sl", err);
    if (r.ok) { CqCodeGenVM gen; gen.OutputTree(GetParseTree(), out); }
    r.err = err.str();
    char buf[65536]; ssize_t k; lseek(fd, 0, SEEK_SET);
    while ((k = read(fd, buf, sizeof buf)) > 0) r.slx.append(buf, k);
    close(fd);
    return r;
}

typedef std::array<float, 3> F3;
struct Grid {
    int nu = 1, nv = 1; bool deriv = true; int n = 4;      // nu,nv: micropolygons
    void set(int u, int v) { nu = u; nv = v; n = (u + 1)*(v + 1); deriv = true; }
};

struct Vm {
    MockRenderer& rend;
    boost::shared_ptr<IqShader> sh;
    boost::shared_ptr<IqShaderExecEnv> env;
    boost::shared_ptr<MockTransform> trans;
    Grid g;
    Vm(MockRenderer& r) : rend(r), trans(new MockTransform) {}
    void load(const std::string& slx, const std::string& name = "t") {
        std::istringstream s(slx);
        sh = createShaderVM(&rend, s, "");
        sh->SetstrName(name.c_str());
        sh->SetTransform(trans);
        sh->PrepareDefArgs();
    }
    void begin(const Grid& grid, IqConstAttributesPtr attr = IqConstAttributesPtr()) {
        g = grid;
        env = IqShaderExecEnv::create(&rend);
        env->Initialise(g.nu, g.nv, g.nu*g.nv, g.n, g.deriv, attr, trans, sh.get(), sh->Uses() | gDefUses);
        sh->Initialise(g.nu, g.nv, g.n, env.get());
    }
    IqShaderData* var(int v) { return env->pVar(v); }
    void run() { sh->Evaluate(env.get()); }
    IqShaderData* arg(const std::string& n) { IqShaderData* d = sh->FindArgument(n.c_str()); if (!d) pbt::fail("compiled shader has no parameter " + n); return d; }
};

inline void getFloats(IqShaderData* d, int i, int type, std::vector<float>& out) {
    if (d->Class() == class_uniform) i = 0;
    switch (type) {
        case type_float: { float f; d->GetFloat(f, i); out = {f}; break; }
        case type_point: { CqVector3D v; d->GetPoint(v, i); out = {v.x(), v.y(), v.z()}; break; }
        case type_vector: { CqVector3D v; d->GetVector(v, i); out = {v.x(), v.y(), v.z()}; break; }
        case type_normal: { CqVector3D v; d->GetNormal(v, i); out = {v.x(), v.y(), v.z()}; break; }
        case type_color: { CqColor v; d->GetColor(v, i); out = {v.r(), v.g(), v.b()}; break; }
        case type_matrix: { CqMatrix m; d->GetMatrix(m, i); out.clear(); if (m.fIdentity()) m = CqMatrix(m); for (int a = 0; a < 4; ++a) for (int b = 0; b < 4; ++b) out.push_back(m[a][b]); break; }
        default: pbt::fail("bad type");
    }
}
}
#endif
