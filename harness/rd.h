// Rendering support: runs the aqsis renderer on a scene and reads back, through a display
// driver of ours (dump_dspy.cpp), every value it sent to each display.
#pragma once
#include "pbt.h"
#include <sys/wait.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <dirent.h>
#include <signal.h>
#include <cstdarg>
#include <cmath>
#include <cfloat>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
namespace rd {
using std::string; using std::vector;

inline string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
inline string fmt(const char* f, ...)
{
    char b[4096]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b;
}
/// shortest exact decimal of a float
inline string num(double v)
{
    char b[64]; snprintf(b, sizeof b, "%.9g", (double)(float)v); return b;
}
template<class V> string nums(const V& v) { string s = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) s += " "; s += num(v[i]); } return s + "]"; }
inline string ints(const vector<int>& v) { string s = "["; for(size_t i = 0; i < v.size(); ++i) { if(i) s += " "; s += std::to_string(v[i]); } return s + "]"; }

inline void wipe(const string& d)
{
    if(d.find("/aqrd.") == string::npos) return;
    if(DIR* D = opendir(d.c_str()))
    {
        while(dirent* e = readdir(D))
        {
            string n = e->d_name; if(n == "." || n == "..") continue;
            string p = d + "/" + n; struct stat st;
            if(lstat(p.c_str(), &st) == 0 && S_ISDIR(st.st_mode)) wipe(p); else unlink(p.c_str());
        }
        closedir(D);
    }
    rmdir(d.c_str());
}
struct TempDir {
    string p;
    TempDir()
    {
        string t = string(access("/dev/shm", W_OK) == 0 ? "/dev/shm" : "/tmp") + "/aqrd.XXXXXX"; vector<char> b(t.begin(), t.end()); b.push_back(0);
        if(!mkdtemp(b.data())) { perror("mkdtemp"); exit(3); }
        p = b.data();
    }
    ~TempDir() { wipe(p); }
    TempDir(const TempDir&) = delete;
};

struct Param { int type = 0, count = 0; string bytes;
    vector<int> ints() const { vector<int> v(bytes.size()/4); memcpy(v.data(), bytes.data(), v.size()*4); return v; }
    vector<float> floats() const { vector<float> v(bytes.size()/4); memcpy(v.data(), bytes.data(), v.size()*4); return v; } };
struct Block { int x0, x1, y0, y1, es; string data; };
struct Image {
    int w = 0, h = 0, ox = 0, oy = 0, nc = 0; bool opened = false, closed = false;
    std::map<string, Param> params; vector<std::pair<string,int>> formats;
    vector<Block> blocks;
    vector<double> data;      // w*h*nc
    vector<int> seen;         // times each pixel of the window was delivered
    double at(int x, int y, int c) const { return data[((size_t)y*w + x)*nc + c]; }
    int chan(const string& n) const { for(size_t i = 0; i < formats.size(); ++i) if(formats[i].first == n) return i; return -1; }
};
inline int typeSize(int t) { switch(t & 8191) { case 1: case 2: case 3: return 4; case 4: case 5: return 2; case 6: case 7: return 1; } return 0; }
inline double typeRead(int t, const char* p)
{
    switch(t & 8191) {
        case 1: { float v; memcpy(&v, p, 4); return v; }
        case 2: { uint32_t v; memcpy(&v, p, 4); return v; }
        case 3: { int32_t v; memcpy(&v, p, 4); return v; }
        case 4: { uint16_t v; memcpy(&v, p, 2); return v; }
        case 5: { int16_t v; memcpy(&v, p, 2); return v; }
        case 6: return (unsigned char)*p;
        case 7: return (signed char)*p;
    }
    return 0;
}
inline Image load(const string& path)
{
    Image im; std::ifstream f(path, std::ios::binary); string s((std::istreambuf_iterator<char>(f)), {}); size_t p = 4;
    if(s.compare(0, 4, "DSP1")) return im;
    auto u = [&]() -> uint32_t { uint32_t v = 0; if(p + 4 <= s.size()) memcpy(&v, &s[p], 4); p += 4; return v; };
    auto str = [&](uint32_t n) { string r = p + n <= s.size() ? s.substr(p, n) : string(); p += n; return r; };
    while(p + 4 <= s.size())
    {
        uint32_t k = u();
        if(k == 1)
        {
            im.opened = true; im.w = u(); im.h = u(); uint32_t np = u();
            for(uint32_t i = 0; i < np; ++i) { string n = str(u()); Param q; q.type = u(); q.count = u(); q.bytes = str(u()); im.params[n] = q; }
            uint32_t nf = u(); for(uint32_t i = 0; i < nf; ++i) { string n = str(u()); int t = u(); im.formats.push_back({n, t}); }
        }
        else if(k == 2)
        {
            Block b; b.x0 = u(); b.x1 = u(); b.y0 = u(); b.y1 = u(); b.es = u();
            size_t n = b.x1 > b.x0 && b.y1 > b.y0 ? (size_t)b.es*(b.x1-b.x0)*(b.y1-b.y0) : 0; b.data = str(n); im.blocks.push_back(b);
        }
        else if(k == 3) im.closed = true;
        else break;
    }
    if(im.params.count("origin")) { auto o = im.params["origin"].ints(); if(o.size() == 2) { im.ox = o[0]; im.oy = o[1]; } }
    im.nc = im.formats.size();
    im.data.assign((size_t)im.w*im.h*im.nc, 0); im.seen.assign((size_t)im.w*im.h, 0);
    for(auto& b : im.blocks)
    {
        int es = 0; for(auto& q : im.formats) es += typeSize(q.second);
        if(es != b.es || b.data.size() != (size_t)es*(b.x1-b.x0)*(b.y1-b.y0)) pbt::fail("display received a block whose element size is not the sum of its channels");
        size_t q = 0;
        for(int y = b.y0; y < b.y1; ++y) for(int x = b.x0; x < b.x1; ++x)
        {
            int X = x - im.ox, Y = y - im.oy; bool in = X >= 0 && Y >= 0 && X < im.w && Y < im.h;
            if(in) ++im.seen[(size_t)Y*im.w + X];
            for(int c = 0; c < im.nc; ++c) { if(in) im.data[((size_t)Y*im.w + X)*im.nc + c] = typeRead(im.formats[c].second, &b.data[q]); q += typeSize(im.formats[c].second); }
        }
    }
    return im;
}
struct Result { int status = 0; bool timeout = false; string out; };
/// Runs a program with its output captured.
inline Result run(const vector<string>& cmd, const string& cwd, double limit = 60)
{
    Result r; string log = cwd + "/.out";
    pid_t p = fork();
    if(p == 0)
    {
        setpgid(0, 0);
        if(chdir(cwd.c_str())) _exit(97);
        int fd = open(log.c_str(), O_CREAT|O_TRUNC|O_WRONLY, 0600), nul = open("/dev/null", O_RDONLY);
        dup2(nul, 0); dup2(fd, 1); dup2(fd, 2);
        for(int i = 3; i < 64; ++i) close(i);
        setenv("ASAN_OPTIONS", "detect_leaks=0:detect_odr_violation=0:allocator_may_return_null=1:exitcode=66:abort_on_error=0", 1);
        setenv("HOME", cwd.c_str(), 1);
        vector<char*> a; for(auto& s : cmd) a.push_back(const_cast<char*>(s.c_str())); a.push_back(0);
        execv(a[0], a.data()); _exit(98);
    }
    double t0 = pbt::now(); useconds_t nap = 500;
    for(;;)
    {
        int st; pid_t q = waitpid(p, &st, WNOHANG);
        if(q == p) { r.status = st; break; }
        if(pbt::now() - t0 > limit) { kill(-p, SIGKILL); waitpid(p, &st, 0); r.timeout = true; break; }
        usleep(nap); if(nap < 4000) nap += 500;
    }
    kill(-p, SIGKILL);
    std::ifstream f(log); std::stringstream ss; ss << f.rdbuf(); r.out = ss.str();
    return r;
}
inline string reldir() { const char* e = getenv("VERIF_RELDIR"); return e ? e : "/verif/build/asan"; }
inline string tool(const string& n) { return reldir() + "/tools/" + n + "/" + n; }
inline string driver() { const char* e = getenv("VERIF_DUMP_DSPY"); return e ? e : reldir() + "/../harness-asan/dump_dspy.so"; }
inline void write(const string& p, const string& s) { std::ofstream f(p, std::ios::binary); f << s; }
inline string read(const string& p) { std::ifstream f(p, std::ios::binary); std::stringstream ss; ss << f.rdbuf(); return ss.str(); }
inline string firstBad(const string& out)
{
    size_t p = out.find("ERROR: AddressSanitizer"); if(p == string::npos) p = out.find("Assertion"); if(p == string::npos) p = 0;
    return out.substr(p, 900);
}
/// Fails the case if the program crashed or hung.
inline void sound(const Result& r, const string& what)
{
    if(r.timeout) pbt::fail(what + " did not finish\n" + r.out.substr(0, 600));
    if(WIFSIGNALED(r.status)) pbt::fail(what + " was ended by signal " + std::to_string(WTERMSIG(r.status)) + "\n" + firstBad(r.out));
    int c = WEXITSTATUS(r.status);
    if(c >= 97 && c <= 98) { fprintf(stderr, "cannot start %s\n", what.c_str()); exit(3); }
    if(c == 66) pbt::fail(what + " made a memory error\n" + firstBad(r.out));
}
inline string preamble()
{
    return "Option \"searchpath\" \"string display\" [\".\"] \"string shader\" [\".\"] \"string archive\" [\".\"] \"string texture\" [\".\"] \"string resource\" [\".\"] \"string procedural\" [\".\"]\n"
           "Option \"display\" \"string dump\" [\"" + driver() + "\"]\n"
           "Option \"statistics\" \"integer endofframe\" [0]\n";
}
/// Strips the log of what is expected in this sandbox.
inline string errors(const string& out)
{
    std::istringstream is(out); string l, r;
    while(std::getline(is, l)) if(l.find("system config") == string::npos && l.find("ERROR") != string::npos) r += l + "\n";
    return r;
}
/// Runs the renderer on `rib` in directory d; Display names are relative to d.
inline Result renderIn(const string& d, const string& rib, const vector<string>& args = {})
{
    write(d + "/scene.rib", preamble() + rib);
    vector<string> c{tool("aqsis"), "-nocolor"}; for(auto& a : args) c.push_back(a); c.push_back("scene.rib");
    Result r = run(c, d); sound(r, "aqsis"); return r;
}
/// One image from one scene whose Display is "o.dsp".
inline Image render(const string& rib, string* log = 0, const std::map<string,string>& files = {})
{
    TempDir t; for(auto& f : files) write(t.p + "/" + f.first, f.second);
    Result r = renderIn(t.p, rib); if(log) *log = r.out;
    string e = errors(r.out); if(!e.empty() && !log) pbt::fail("the renderer reported an error on a legal scene:\n" + e.substr(0, 500));
    Image im = load(t.p + "/o.dsp");
    if(!im.opened || !im.closed) pbt::fail("the renderer did not open and close its display\n" + r.out.substr(0, 800));
    return im;
}
/// Every pixel of the window must have been delivered once.
inline void complete(const Image& im)
{
    for(int y = 0; y < im.h; ++y) for(int x = 0; x < im.w; ++x)
        if(im.seen[(size_t)y*im.w + x] != 1) pbt::fail(fmt("pixel %d,%d of the %dx%d window was delivered %d times", x, y, im.w, im.h, im.seen[(size_t)y*im.w + x]));
}
inline bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
}
