// Property-based testing engine for the in-process harnesses.
//
// A case is a pure function of a sequence of bounded choices (minithesis style): in search
// mode the choices come from a generator seeded by (VERIF_SEED, suite, case number); a replay
// or a shrink attempt supplies them explicitly.  Cases run in forked workers, so a crash, a
// sanitizer report, a hang or an uncaught exception is a failure of that case and never of
// the check.  Failing cases are shrunk on the choice sequence and confirmed three times in
// fresh processes before anything is reported.
#ifndef VERIF_PBT_H
#define VERIF_PBT_H
#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <cerrno>
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace pbt {

inline double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + 1e-9*t.tv_nsec; }
inline uint64_t mix(uint64_t x) { x += 0x9e3779b97f4a7c15ull; x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull; x = (x ^ (x >> 27)) * 0x94d049bb133111ebull; return x ^ (x >> 31); }
inline uint64_t hashStr(const std::string& s, uint64_t h = 1469598103934665603ull) { for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

struct Failure { std::string msg; };
struct Discard {};
[[noreturn]] inline void fail(const std::string& m) { throw Failure{m}; }

static const size_t MAXCH = 1 << 18;
static const size_t MAXMSG = 1 << 16;
static const int MAXLAB = 96;

struct Shared {                      // one per worker, MAP_SHARED
    volatile uint64_t caseNo;
    volatile double caseStart;
    volatile uint32_t running;       // 1 while a case runs
    volatile uint32_t nch;
    volatile uint32_t failed;
    volatile uint64_t evals, nontriv, discards;
    uint64_t ch[MAXCH];
    uint32_t mx_unused;
    char msg[MAXMSG];
    char desc[MAXMSG];
    char sample[4][4096];
    uint32_t nsample;
    char label[MAXLAB][64];
    volatile uint64_t labelCount[MAXLAB];
    uint32_t nlabel;
};

class Src {
    uint64_t m_state;
    const std::vector<uint64_t>* m_replay;
    Shared* m_sh;
    size_t m_n;
public:
    bool nontriv = false;
    uint64_t caseHash = 14695981039346656037ull, chHash = 0; bool hashChoices = false;
    std::string descr;
    bool verbose = false;
    std::set<std::string> labels;

    Src(uint64_t seed, const std::vector<uint64_t>* replay, Shared* sh)
        : m_state(seed), m_replay(replay), m_sh(sh), m_n(0) { m_sh->nch = 0; }

    uint64_t rnd() { m_state += 0x9e3779b97f4a7c15ull; return mix(m_state); }
    /// A choice in [0, max].  Smaller is simpler.
    uint64_t draw(uint64_t max) {
        uint64_t v;
        if (m_replay) { v = m_n < m_replay->size() ? (*m_replay)[m_n] : 0; if (v > max) v = max; }
        else v = max == UINT64_MAX ? rnd() : rnd() % (max + 1);
        if (m_n >= MAXCH) throw Discard();
        m_sh->ch[m_n++] = v; m_sh->nch = m_n; chHash = mix(chHash ^ v);
        return v;
    }
    int range(int lo, int hi) { if (hi <= lo) return lo; return lo + (int)draw((uint64_t)((int64_t)hi - lo)); }
    bool coin() { return draw(1); }
    /// True with probability about num/den; shrinks to false.
    bool chance(int pct) { return chance(pct, 100); }
    bool chance(int num, int den) { return (int)draw(den - 1) >= den - num; }
    template<class T> const T& pick(const std::vector<T>& v) { return v[draw(v.size() - 1)]; }
    template<class T, size_t N> const T& pick(const T (&v)[N]) { return v[draw(N - 1)]; }
    /// Size with a geometric-ish tail: usually small, sometimes near hi.
    int size(int lo, int hi) {
        int span = hi - lo; if (span <= 0) return lo;
        switch (draw(5)) {
            case 0: return lo + (int)draw(std::min(span, 2));
            case 1: case 2: return lo + (int)draw(std::min(span, 5));
            case 3: return lo + (int)draw(std::min(span, 12));
            default: return lo + (int)draw(span);
        }
    }
    double unit() { return draw((1u << 24) - 1) / (double)(1u << 24); }        // [0,1)
    float uniform(float lo, float hi) { return (float)(lo + (hi - (double)lo)*(draw(1u << 20) / (double)(1u << 20))); }
    float smallInt(int n = 4) { int k = (int)draw(2*n); return (float)((k & 1) ? -(k + 1)/2 : k/2); }
    /// Finite float from a mixture: small ints, simple decimals, uniform, wide exponents.
    float flt() {
        switch (draw(6)) {
            case 0: case 1: return smallInt(6);
            case 2: return smallInt(40)*0.25f;
            case 3: return (float)(smallInt(3000)*0.001);
            case 4: return uniform(-10, 10);
            case 5: { float m = uniform(-1, 1); return std::ldexp(m, range(-20, 20)); }
            default: { float m = uniform(-1, 1); return std::ldexp(m, range(-60, 60)); }
        }
    }
    void note(const std::string& s) { descr += s; if (descr.empty() || descr.back() != '\n') descr += '\n';
        strncpy(m_sh->desc, descr.c_str(), MAXMSG - 1); m_sh->desc[MAXMSG - 1] = 0; }
    void label(const std::string& s) { labels.insert(s); }
    void nontrivial(uint64_t h) { nontriv = true; caseHash = mix(caseHash ^ h); }
    void nontrivial() { nontriv = true; hashChoices = true; }   // distinctness by the choices drawn
    void nontrivial(const std::string& h) { nontrivial(hashStr(h)); }
    size_t pos() const { return m_n; }
};

struct Suite { std::string name; std::function<void(Src&)> fn; long quick, thorough; double hang; };

inline std::vector<Suite>& suites() { static std::vector<Suite> s; return s; }
struct Reg { Reg(const char* n, void (*f)(Src&), long q, long t, double hang = 60) { suites().push_back(Suite{n, f, q, t, hang}); } };
#define PBT_SUITE(NAME, QUICK, THOROUGH) \
    static void NAME(pbt::Src& src); static pbt::Reg NAME##_reg(#NAME, NAME, QUICK, THOROUGH); static void NAME(pbt::Src& src)

inline Shared* mapShared() {
    void* p = mmap(0, sizeof(Shared), PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    return (Shared*)p;
}

inline void copyStr(char* d, const std::string& s, size_t n) { size_t l = std::min(s.size(), n - 1); memcpy(d, s.data(), l); d[l] = 0; }

/// Runs one case in this process; returns 0 ok, 1 failure, 2 discard.
inline int runCase(const Suite& su, Src& src, Shared* sh) {
    try { su.fn(src); return 0; }
    catch (const Failure& f) { copyStr(sh->msg, f.msg, MAXMSG); return 1; }
    catch (const Discard&) { return 2; }
    catch (const std::exception& e) { copyStr(sh->msg, std::string("uncaught exception: ") + e.what(), MAXMSG); return 1; }
    catch (...) { copyStr(sh->msg, "uncaught exception of unknown type", MAXMSG); return 1; }
}

struct Outcome { int kind; std::string msg, desc; std::vector<uint64_t> used; };  // kind 0 ok 1 fail 2 discard

/// Runs explicit choices in a fresh child.
inline Outcome runChild(const Suite& su, const std::vector<uint64_t>& ch, Shared* sh, double limit) {
    sh->msg[0] = 0; sh->desc[0] = 0; sh->nch = 0;
    fflush(0);
    pid_t pid = fork();
    if (pid == 0) {
        int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("PBT_VERBOSE")) dup2(dn, 2);
        Src s(0, &ch, sh);
        int k = runCase(su, s, sh);
        _exit(k == 0 ? 0 : k == 1 ? 11 : 12);
    }
    Outcome o; o.kind = 0;
    double t0 = now(); int st = 0;
    for (;;) {
        pid_t r = waitpid(pid, &st, WNOHANG);
        if (r == pid) break;
        if (now() - t0 > limit) { kill(pid, SIGKILL); waitpid(pid, &st, 0); o.kind = 1; o.msg = "hang: case did not finish within its time limit"; break; }
        usleep(now() - t0 < 0.05 ? 200 : 5000);
    }
    if (o.kind == 0) {
        if (WIFEXITED(st)) {
            int c = WEXITSTATUS(st);
            if (c == 11) { o.kind = 1; o.msg = sh->msg; }
            else if (c == 12) o.kind = 2;
            else if (c != 0) { o.kind = 1; o.msg = "process exited with status " + std::to_string(c) + " (sanitizer report or exit call)"; }
        } else if (WIFSIGNALED(st)) { o.kind = 1; o.msg = std::string("crash: signal ") + strsignal(WTERMSIG(st)); }
    }
    o.desc = sh->desc;
    o.used.assign(sh->ch, sh->ch + sh->nch);
    return o;
}

inline bool smaller(const std::vector<uint64_t>& a, const std::vector<uint64_t>& b) {
    if (a.size() != b.size()) return a.size() < b.size();
    return a < b;
}

inline std::vector<uint64_t> shrink(const Suite& su, std::vector<uint64_t> best, Shared* sh, double budget, std::string& msg, std::string& desc, long& tries) {
    double t0 = now();
    auto attempt = [&](const std::vector<uint64_t>& c) {
        if (now() - t0 > budget) return false;
        ++tries;
        Outcome o = runChild(su, c, sh, 20);
        if (o.kind != 1 || o.msg.compare(0, 4, "hang") == 0) return false;
        std::vector<uint64_t> u = o.used.size() < c.size() ? o.used : c;
        if (!smaller(u, best)) return false;
        best = u; msg = o.msg; desc = o.desc; return true;
    };
    bool any = true;
    while (any && now() - t0 < budget) {
        any = false;
        for (size_t n = best.size()/2; n >= 1; n /= 2) {      // drop a tail (missing choices read as 0)
            while (best.size() > n) { std::vector<uint64_t> c(best.begin(), best.end() - n); if (!attempt(c)) break; any = true; }
            if (now() - t0 > budget) break;
        }
        for (size_t k : {128, 32, 8})                          // zero a stretch
            for (size_t i = 0; i < best.size() && now() - t0 < budget; i += k) {
                std::vector<uint64_t> c(best); bool ch = false;
                for (size_t q = i; q < std::min(c.size(), i + k); ++q) { ch |= c[q] != 0; c[q] = 0; }
                if (ch && attempt(c)) any = true;
            }
        for (size_t k : {256, 64, 16, 8, 4, 2, 1})
            for (long i = (long)best.size() - (long)k; i >= 0; ) {
                std::vector<uint64_t> c(best); if ((size_t)i + k > c.size()) { i -= k; continue; }
                c.erase(c.begin() + i, c.begin() + i + k);
                if (attempt(c)) any = true; else {
                    if (i > 0 && c.size() && (size_t)i - 1 < c.size() && c[i-1] > 0) { c[i-1]--; if (attempt(c)) { any = true; } }
                    i -= (k > 4 ? (long)k : 1);
                }
                if (i > (long)best.size()) i = best.size();
                if (now() - t0 > budget) break;
            }
        for (size_t i = 0; i < best.size() && now() - t0 < budget; ++i) {
            if (!best[i]) continue;
            std::vector<uint64_t> c(best); c[i] = 0;
            if (attempt(c)) { any = true; continue; }
            uint64_t lo = 0, hi = best[i];
            while (i < best.size() && hi - lo > 1 && now() - t0 < budget) {
                uint64_t mid = lo + (hi - lo)/2; c = best; c[i] = mid;
                if (attempt(c)) { hi = mid; any = true; } else lo = mid;
            }
        }
    }
    return best;
}

inline std::string jesc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

inline int mainLoop(int argc, char** argv, const std::string& rule) {
    uint64_t seed = getenv("VERIF_SEED") ? strtoull(getenv("VERIF_SEED"), 0, 10) : 1;
    bool thorough = getenv("VERIF_TIER") && !strcmp(getenv("VERIF_TIER"), "thorough");
    double cap = thorough ? 1500 : 70, shrinkBudget = getenv("PBT_SHRINK") ? atof(getenv("PBT_SHRINK")) : 25; int nw = 8;
    double scale = 1;
    std::string outPath, replayOut, replayIn, only;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i]; auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--out") outPath = nx(); else if (a == "--replay-out") replayOut = nx();
        else if (a == "--replay") replayIn = nx(); else if (a == "--cap") cap = atof(nx().c_str());
        else if (a == "--only") only = nx(); else if (a == "--scale") scale = atof(nx().c_str());
        else if (a == "--workers") nw = atoi(nx().c_str()); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10);
    }
    signal(SIGPIPE, SIG_IGN);
    if (!replayIn.empty()) {
        std::ifstream f(replayIn); std::string line, sn; std::vector<uint64_t> ch;
        while (std::getline(f, line)) {
            if (line.compare(0, 7, "suite: ") == 0) sn = line.substr(7);
            if (line.compare(0, 9, "choices: ") == 0) { std::istringstream is(line.substr(9)); uint64_t v; while (is >> v) ch.push_back(v); }
        }
        for (auto& su : suites()) if (su.name == sn) {
            Shared* sh = mapShared(); Outcome o = runChild(su, ch, sh, 120);
            printf("%s\n%s\n%s\n", o.kind == 1 ? "FAIL" : "PASS", o.msg.c_str(), o.desc.c_str()); return o.kind == 1;
        }
        printf("no such suite\n"); return 3;
    }
    std::vector<Shared*> sh; for (int i = 0; i < nw + 1; ++i) sh.push_back(mapShared());
    Shared* shx = sh[nw];
    uint64_t totalE = 0, totalD = 0; std::set<uint64_t> distinct;
    std::map<std::string, uint64_t> labels; std::vector<std::string> samples; std::string perSuite;
    double tStart = now(); int rc = 0; std::string vioMsg; long unrepro = 0; bool capped = false;
    int nsel = 0; for (auto& su : suites()) if (only.empty() || only == su.name) ++nsel;
    int done = 0;
    for (auto& su : suites()) {
        if (!only.empty() && only != su.name) continue;
        double t0 = now(); double budget = (cap - (t0 - tStart)) / std::max(1, nsel - done); ++done;
        long N = std::max(1L, (long)((thorough ? su.thorough : su.quick) * scale));
        uint64_t sseed = mix(hashStr(su.name) ^ mix(seed));
        std::atomic<long>* next = (std::atomic<long>*)mmap(0, 4096, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
        new (next) std::atomic<long>(0);
        std::atomic<int>* stop = (std::atomic<int>*)(next + 8); new (stop) std::atomic<int>(0);
        std::string tmpdir = "/tmp"; std::vector<std::string> hf(nw);
        std::vector<pid_t> pid(nw, 0);
        uint64_t E = 0, NT = 0;
        auto spawn = [&](int w) {
            Shared* s = sh[w]; s->running = 0; s->failed = 0;
            fflush(0);
            pid_t p = fork();
            if (p == 0) {
                int dn = open("/dev/null", O_WRONLY); dup2(dn, 1); if (!getenv("PBT_VERBOSE")) dup2(dn, 2);
                FILE* hfp = fopen(hf[w].c_str(), "ab");
                while (!stop->load()) {
                    long i = next->fetch_add(1); if (i >= N) break;
                    s->caseNo = i; s->caseStart = now(); s->running = 1; s->desc[0] = 0; s->msg[0] = 0;
                    Src src(mix(sseed + 0x1000003ull * (uint64_t)i), 0, s);
                    int k = runCase(su, src, s);
                    s->running = 0;
                    if (k == 1) { s->failed = 1; if (hfp) fclose(hfp); _exit(11); }
                    s->evals++;
                    if (k == 2) { s->discards++; continue; }
                    if (src.nontriv) { s->nontriv++; uint64_t h = src.hashChoices ? mix(src.caseHash ^ src.chHash) : src.caseHash; if (hfp) fwrite(&h, 8, 1, hfp);
                        if (s->nsample < 1 + (s->nontriv > 50) && !src.descr.empty()) copyStr(s->sample[s->nsample++], src.descr, 4096); }
                    for (auto& l : src.labels) {
                        uint32_t j = 0; for (; j < s->nlabel; ++j) if (!strcmp(s->label[j], l.c_str())) break;
                        if (j == s->nlabel) { if (j == MAXLAB) continue; copyStr(s->label[j], l, 64); s->labelCount[j] = 0; s->nlabel++; }
                        s->labelCount[j]++;
                    }
                }
                if (hfp) fclose(hfp);
                _exit(0);
            }
            pid[w] = p;
        };
        for (int w = 0; w < nw; ++w) {
            char t[] = "/tmp/pbtXXXXXX"; int fd = mkstemp(t); close(fd); hf[w] = t;
            memset((void*)sh[w], 0, offsetof(Shared, ch)); sh[w]->nsample = 0; sh[w]->nlabel = 0; sh[w]->nch = 0;
            spawn(w);
        }
        std::vector<std::pair<std::vector<uint64_t>, std::string>> fails;
        int alive = nw;
        while (alive) {
            bool prog = false;
            for (int w = 0; w < nw; ++w) if (pid[w]) {
                int st; pid_t r = waitpid(pid[w], &st, WNOHANG);
                std::string m; bool bad = false;
                if (r == pid[w]) {
                    prog = true; pid[w] = 0; --alive;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    bad = true;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 11) m = sh[w]->msg;
                    else m = "crash or sanitizer report";
                } else if (sh[w]->running && now() - sh[w]->caseStart > su.hang) {
                    kill(pid[w], SIGKILL); waitpid(pid[w], &st, 0); pid[w] = 0; --alive; bad = true; m = "hang"; prog = true;
                }
                if (bad) {
                    fails.push_back({std::vector<uint64_t>(sh[w]->ch, sh[w]->ch + sh[w]->nch), m});
                    if (fails.size() >= 3) stop->store(1);
                    else if (!stop->load()) { spawn(w); ++alive; }
                }
            }
            if (now() - t0 > budget && !stop->load()) { stop->store(1); capped = true; }
            if (!prog) usleep(2000);
        }
        for (int w = 0; w < nw; ++w) {
            E += sh[w]->evals; NT += sh[w]->nontriv; totalD += sh[w]->discards;
            std::ifstream f(hf[w], std::ios::binary); uint64_t h; while (f.read((char*)&h, 8)) distinct.insert(h ^ sseed);
            unlink(hf[w].c_str());
            for (uint32_t j = 0; j < sh[w]->nlabel; ++j) labels[su.name + "/" + sh[w]->label[j]] += sh[w]->labelCount[j];
            for (uint32_t j = 0; j < sh[w]->nsample; ++j) if (w < 2) samples.push_back("[" + su.name + "] " + sh[w]->sample[j]);
        }
        totalE += E;
        perSuite += (perSuite.empty() ? "" : ",") + std::string("\"") + su.name + "\":{\"evaluations\":" + std::to_string(E) + ",\"nontrivial\":" + std::to_string(NT) + ",\"seconds\":" + std::to_string(now() - t0) + "}";
        munmap(next, 4096);
        for (auto& f : fails) {
            Outcome o = runChild(su, f.first, shx, 120);
            if (o.kind != 1) { ++unrepro; continue; }
            std::string msg = o.msg, desc = o.desc; long tries = 0;
            std::vector<uint64_t> best = shrink(su, o.used.empty() ? f.first : o.used, shx, shrinkBudget, msg, desc, tries);
            bool ok = true;
            for (int k = 0; k < 3; ++k) { Outcome c = runChild(su, best, shx, 120); if (c.kind != 1) ok = false; else { msg = c.msg; desc = c.desc; } }
            if (!ok) { ok = true; best = f.first; for (int k = 0; k < 3; ++k) { Outcome c = runChild(su, best, shx, 120); if (c.kind != 1) ok = false; else { msg = c.msg; desc = c.desc; } } }
            if (!ok) { ++unrepro; continue; }
            rc = 1; vioMsg = msg;
            if (!replayOut.empty()) {
                std::ofstream r(replayOut);
                r << "suite: " << su.name << "\nseed: " << seed << "\nmessage: " << msg << "\nchoices:";
                for (auto v : best) r << " " << v;
                r << "\nshrink attempts: " << tries << "\n--- case ---\n" << desc << "\n--- message ---\n" << msg << "\n";
            }
            fprintf(stderr, "FAIL suite=%s\n%s\n%s\n", su.name.c_str(), msg.c_str(), desc.substr(0, 6000).c_str());
            break;
        }
        if (rc) break;
    }
    if (!outPath.empty()) {
        std::ofstream o(outPath);
        o << "{\"evaluations\":" << totalE << ",\"distinct_nontrivial\":" << distinct.size() << ",\"discarded\":" << totalD
          << ",\"unreproduced\":" << unrepro << ",\"time_capped\":" << (capped ? "true" : "false")
          << ",\"rule\":\"" << jesc(rule) << "\",\"suites\":{" << perSuite << "},\"labels\":{";
        bool first = true; for (auto& l : labels) { o << (first ? "" : ",") << "\"" << jesc(l.first) << "\":" << l.second; first = false; }
        o << "},\"samples\":[";
        for (size_t i = 0; i < samples.size() && i < 12; ++i) o << (i ? "," : "") << "\"" << jesc(samples[i].substr(0, 1500)) << "\"";
        o << "],\"violation\":\"" << jesc(vioMsg.substr(0, 3000)) << "\"}";
    }
    fprintf(stderr, "cases=%llu distinct_nontrivial=%zu discards=%llu unreproduced=%ld %.1fs%s\n", (unsigned long long)totalE, distinct.size(), (unsigned long long)totalD, unrepro, now() - tStart, capped ? " (time cap)" : "");
    return rc;
}
} // namespace pbt
#endif
