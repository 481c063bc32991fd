// C27: search paths, wildcard expansion and child processes.
//
// Each lookup case creates a random little directory tree in a scratch directory and asks for
// names along a random path; the oracle is a direct walk with stat().  Wildcards are judged by an
// independent matcher.  Child processes echo their arguments and their input.
#include "pbt.h"
#include <aqsis/util/file.h>
#include <aqsis/util/popen.h>
#include <aqsis/util/exception.h>
#include <sys/stat.h>
#include <signal.h>
#include <unistd.h>
#include <ftw.h>
#include <sys/wait.h>
using namespace Aqsis; using pbt::fail;

static std::string scratchRoot() { char t[] = "/tmp/c27.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); exit(3); } return t; }
static int rmOne(const char* p, const struct stat*, int, struct FTW*) { return remove(p); }
static void wipe(const std::string& d) { if (d.compare(0, 9, "/tmp/c27.") == 0) nftw(d.c_str(), rmOne, 16, FTW_DEPTH | FTW_PHYS); }
struct Scratch { std::string r, d; std::string cwd; Scratch() : r(scratchRoot()), d(r + "/t") { mkdir(d.c_str(), 0755); char b[4096]; cwd = getcwd(b, sizeof b) ? b : "/"; } ~Scratch() { if (chdir(cwd.c_str())) {} wipe(r); } };
static void touch(const std::string& p) { FILE* f = fopen(p.c_str(), "w"); if (f) { fputs("x", f); fclose(f); } }
static bool regular(const std::string& p) { struct stat s; return stat(p.c_str(), &s) == 0 && S_ISREG(s.st_mode); }

PBT_SUITE(lookup, 24000, 450000) {
    Scratch sc; const std::string& root = sc.d; static const char* dirs[] = {"a", "b", "a/c", "d.x", "sp ace", "e/f/g", "~h"}; static const char* files[] = {"x", "y.sl", "y.slx", "a", "c", "x.tif", ".hid", "..z", "q%r", "s&t"};
    for (auto d : dirs) if (src.chance(80)) { std::string p = root; std::string s(d); size_t b = 0; while (b != std::string::npos) { size_t e = s.find('/', b); mkdir((root + "/" + s.substr(0, e)).c_str(), 0755); b = e == std::string::npos ? e : e + 1; } }
    int nf = src.size(0, 12); for (int k = 0; k < nf; ++k) { std::string p = root + (src.chance(15) ? "" : "/" + std::string(src.pick(dirs))) + "/" + src.pick(files); struct stat st; if (stat(p.c_str(), &st)) { if (src.chance(12)) mkdir(p.c_str(), 0755); else if (src.chance(12)) { if (symlink(src.coin() ? "x" : "../b/x", p.c_str())) {} } else touch(p); } }
    bool loop = src.chance(15); if (loop && symlink("loop", (root + "/loop").c_str())) {}
    if (chdir(root.c_str())) throw pbt::Discard();
    // the search path
    std::string path; std::vector<std::string> parts; int np = src.size(0, 6);
    for (int k = 0; k < np; ++k) { std::string d = src.chance(10) ? std::string(".") : loop && src.chance(40) ? std::string("loop") : src.chance(12) ? std::string("missing") : std::string(src.pick(dirs)); if (src.chance(25)) d = root + "/" + d; else if (src.chance(10)) d = "./" + d; if (src.chance(15)) d += "/"; parts.push_back(d); if (k || src.chance(10)) path += src.coin() ? ":" : ";"; while (src.chance(10)) path += src.coin() ? ":" : ";"; path += d; }
    while (src.chance(10)) path += ";";
    // the name
    std::string name = src.pick(files); int how = src.range(0, 9); bool direct = false;
    if (how == 0) { name = root + "/" + std::string(src.pick(dirs)) + "/" + name; direct = true; src.label("absolute"); }
    else if (how == 1) { name = "./" + (src.coin() ? std::string(src.pick(dirs)) + "/" : "") + name; direct = true; src.label("dot"); }
    else if (how == 2) { name = "../t/" + name; direct = true; src.label("dotdot"); }
    else if (how == 3) { name = std::string(src.pick(dirs)) + "/" + name; src.label("sub-path"); }
    else if (how == 4 && src.chance(20)) { name = ""; direct = true; src.label("empty name"); }
    else if (how == 4 && src.chance(30)) { name = std::string(300, 'n'); src.label("over-long name"); }
    std::string want; int hits = 0; if (direct) { if (!name.empty() && regular(name)) { want = name; ++hits; } } else for (auto& d : parts) { std::string c = d + (d.back() == '/' ? "" : "/") + name; if (regular(c)) { ++hits; if (want.empty()) want = c; } }
    src.note("name " + name + " path " + path + " expected " + want); src.label(hits > 1 ? "several candidates" : hits ? "found" : "not found"); if (np > 1 || direct) src.nontrivial(); if (loop) src.label("unreadable directory");
    std::string got; try { got = native(findFileNothrow(name, path)); } catch (std::exception& e) { fail(std::string("findFileNothrow threw ") + e.what()); }
    if (got != want) fail("looking up '" + name + "' along '" + path + "' gave '" + got + "' instead of '" + want + "'");
    bool threw = false; std::string got2; try { got2 = native(findFile(name, path)); } catch (XqInvalidFile&) { threw = true; } catch (std::exception& e) { fail(std::string("findFile threw the wrong exception: ") + e.what()); }
    if (threw != want.empty()) fail(threw ? "findFile did not find an existing file" : "findFile did not report a missing file"); if (!threw && got2 != want) fail("findFile differs from findFileNothrow");
    // the tokenizer yields the listed directories, in order
    std::vector<std::string> toks; TqPathsTokenizer t(path); for (TqPathsTokenizer::iterator i = t.begin(); i != t.end(); ++i) toks.push_back(native(*i)); if (toks != parts) fail("the path '" + path + "' was split wrongly");
    if (!want.empty()) { size_t s = want.rfind('/'); if (filename(boostfs::path(want)) != want.substr(s == std::string::npos ? 0 : s + 1)) fail("filename()"); }
}

PBT_SUITE(expansion, 480000, 12000000) {
    // pieces whose meaning is known are concatenated
    setenv("C27_ONE", "/env/one", 1); setenv("C27_TWO", "", 1); setenv("C27_AMP", "p&q@%r", 1); unsetenv("C27_NONE");
    static const char* paths[] = {"", "old", "/a:/b", "x&y", "%C27_ONE%", "@", "/usr/share/aqsis/shaders"}; std::string old = src.pick(paths), def = src.pick(paths);
    int n = src.size(0, 9); std::string in, want; bool tail = false; int special = 0;
    for (int k = 0; k < n; ++k) switch (src.range(0, 8)) { case 0: in += "&"; want += old; ++special; break; case 1: in += "@"; want += def; ++special; break; case 2: in += "%C27_ONE%"; want += "/env/one"; ++special; break; case 3: in += "%C27_NONE%"; ++special; break; case 4: in += "%C27_TWO%"; ++special; break; case 5: in += "%C27_AMP%"; want += "p&q@%r"; ++special; break; default: { static const char* lit[] = {"/a/b", ":", ";", "../x", "$HOME", "~", "#", "c.d", " "}; std::string l = src.pick(lit); in += l; want += l; } }
    if (src.chance(12)) { // an unmatched percent sign begins nothing; nothing in particular is promised except an answer
        static const char* t[] = {"%", "100%/x", "%C27_ONE", "a%b"}; in += src.pick(t); tail = true; src.label("unmatched %"); }
    src.note("'" + in + "' old '" + old + "' default '" + def + "'"); if (special >= 2) src.nontrivial();
    std::string got = expandSearchPath(in, old, def);
    if (!tail && got != want) fail("'" + in + "' expanded to '" + got + "' instead of '" + want + "'"); if (tail && got.compare(0, want.size(), want) != 0) fail("'" + in + "' expanded to '" + got + "', which does not begin with '" + want + "'");
}

// ---- wildcards -------------------------------------------------------------------------------
static bool match(const char* p, const char* s) {
    if (!*p) return !*s; if (*p == '*') { for (;; ++s) { if (match(p + 1, s)) return true; if (!*s) return false; } }
    if (!*s) return false; if (*p == '?') return match(p + 1, s + 1);
    if (*p == '[') { const char* e = strchr(p + 2, ']'); bool neg = p[1] == '!'; bool in = false; for (const char* c = p + 1 + neg; c < e; ++c) { if (c[1] == '-' && c + 2 < e) { in = in || (*s >= c[0] && *s <= c[2]); c += 2; } else in = in || *c == *s; } return in != neg && match(e + 1, s + 1); }
    return *p == *s && match(p + 1, s + 1);
}
PBT_SUITE(wildcards, 12000, 180000) {
    Scratch sc; const std::string& root = sc.d; std::vector<std::string> names; int nf = src.size(0, 10);
    for (int k = 0; k < nf; ++k) { std::string n; int len = src.range(1, 5); for (int i = 0; i < len; ++i) n += "abcd.x1_-"[src.range(0, 8)]; if (n == "." || n == "..") continue; if (std::find(names.begin(), names.end(), n) == names.end()) { names.push_back(n); if (src.chance(10)) mkdir((root + "/" + n).c_str(), 0755); else touch(root + "/" + n); } }
    std::string pat; int len = src.range(1, 5); bool wild = false; for (int i = 0; i < len; ++i) switch (src.range(0, 6)) { case 0: pat += "*"; wild = true; break; case 1: pat += "?"; wild = true; break; case 2: pat += src.pick(std::vector<std::string>{"[ab]", "[!a]", "[a-c]", "[!x-z1]", "[.a]"}); wild = true; break; default: pat += "abcd.x1"[src.range(0, 6)]; }
    // glibc takes a dot consumed after "*?" for a leading one: the C library's affair
    if (pat.find("*?") != std::string::npos) throw pbt::Discard();
    std::set<std::string> want; for (auto& n : names) { if (n[0] == '.' && pat[0] != '.') continue; if (match(pat.c_str(), n.c_str())) want.insert(root + "/" + n); } if (pat[0] == '.') { if (match(pat.c_str(), ".")) want.insert(root + "/."); if (match(pat.c_str(), "..")) want.insert(root + "/.."); }
    src.note("pattern " + pat); if (wild && want.size() >= 1) src.nontrivial(); src.label(want.empty() ? "no match" : want.size() > 1 ? "several" : "one");
    std::vector<std::string> got = Glob(root + "/" + pat); std::set<std::string> g(got.begin(), got.end()); if (pat[0] == '.') { g.erase(root + "/."); g.erase(root + "/.."); want.erase(root + "/."); want.erase(root + "/.."); }
    if (g != want) { std::string m = "pattern " + pat + " gave"; for (auto& x : g) m += " " + x.substr(root.size() + 1); m += "; expected"; for (auto& x : want) m += " " + x.substr(root.size() + 1); fail(m); }
    if (std::set<std::string>(got.begin(), got.end()).size() != got.size()) fail("a file is listed twice");
    std::string lit = src.coin() ? pat : root + "/" + pat; std::vector<std::string> c = cliGlob(lit); if (c.size() != 1 || c[0] != lit) fail("cliGlob changed an argument the shell has already expanded");
}

// ---- child processes -------------------------------------------------------------------------
static std::string bytes(pbt::Src& src, int n, bool nul) { std::string s; int mode = src.range(0, 2); for (int i = 0; i < n; ++i) { char c = mode == 0 ? (char)src.range(0, 255) : mode == 1 ? " \"'\\$`*?\n\t;&|<>(){}~#!%"[src.range(0, 23)] : (char)('a' + i % 26); if (!nul && !c) c = 'Z'; s += c; } return s; }
PBT_SUITE(processes, 4800, 60000) {
    alarm(60); while (waitpid(-1, 0, WNOHANG) > 0) {}
    if (src.coin()) {   // the arguments arrive unchanged
        std::vector<std::string> args = {src.chance(50) ? "printf" : "other name", "%s\\0"}; int n = src.size(1, 5); std::string want; for (int k = 0; k < n; ++k) { std::string a = bytes(src, src.size(0, 20), false); args.push_back(a); want += a + '\0'; }
        src.note("arguments " + std::to_string(n)); src.label("arguments"); if (n > 1) src.nontrivial();
        TqPopenStream p(src.coin() ? "printf" : "/usr/bin/printf", args); std::string got((std::istreambuf_iterator<char>(p)), std::istreambuf_iterator<char>()); if (got != want) fail("the child received different arguments");
    } else if (src.chance(85)) {    // what is written comes back
        int rounds = src.range(1, 4); src.label("echo"); src.note("rounds " + std::to_string(rounds)); TqPopenStream p(src.coin() ? "cat" : "/bin/cat", std::vector<std::string>(1, "cat")); int total = 0;
        for (int r = 0; r < rounds; ++r) { std::string s = bytes(src, src.chance(10) ? 0 : src.size(1, 300), true); int rep = src.chance(20) ? 60 : 1; std::string w; for (int k = 0; k < rep; ++k) w += s; total += w.size(); p.write(w.data(), w.size()); p.flush(); if (!p) fail("writing to the child failed"); std::string got(w.size(), 0); if (!w.empty()) p.read(&got[0], got.size()); if (!p || got != w) fail("the child echoed different bytes"); }
        if (total > 20) src.nontrivial();
    } else { bool threw = false; src.label("missing program"); src.note("missing program"); src.nontrivial(); try { TqPopenStream p("/nonexistent/prog-" + bytes(src, 3, false), std::vector<std::string>(1, "x")); } catch (XqEnvironment&) { threw = true; } if (!threw) fail("a program that does not exist was not reported"); }
    alarm(0);
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a lookup counts with at least two path entries or a direct name, an expansion with at least two substitutions, a wildcard when it matches something, a child process when it carries more than one argument or more than 20 bytes"); }
