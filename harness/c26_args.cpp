// C26: command-line parsing.
//
// A random option table is declared; a command line is generated item by item from the accepted
// spellings, building the expected result at the same time.  Error lines put one documented
// mistake into an otherwise good line.
#include "pbt.h"
#include <aqsis/util/argparse.h>
#include <memory>
using pbt::fail;

enum Kind { Flag, NegFlag, Int, Float, Str, Ints, Floats, Strs };
struct Opt {
    std::string name; std::vector<std::string> aliases; std::string negAlias; Kind kind; int sep = ArgParse::SEP_NONE; int count = -1; bool used = false;
    ArgParse::apflag flag = false; ArgParse::apint i = -77; ArgParse::apfloat f = -7.5; ArgParse::apstring s = "dflt"; ArgParse::apintvec iv; ArgParse::apfloatvec fv; ArgParse::apstringvec sv;
    bool eflag = false; int ei = -77; double ef = -7.5; std::string es = "dflt"; std::vector<int> eiv; std::vector<double> efv; std::vector<std::string> esv;
};
static std::string show(const std::vector<std::string>& a) { std::string r; for (auto& x : a) r += "[" + x + "] "; return r; }

PBT_SUITE(command_lines, 1000000, 24000000) {
    // ---- the table
    bool combine = src.chance(30), unrec = src.chance(25);
    ArgParse ap; if (combine) ap.allowOneCharOptionsToBeCombined(); if (unrec) ap.allowUnrecognizedOptions();
    static const char* longNames[] = {"alpha", "beta", "gamma", "output", "frames", "verbose", "shaders", "type", "list", "help"};
    static const char* shortNames[] = {"o", "i", "v", "x", "D", "q", "r", "z"};
    static const char* aliasNames[] = {"altone", "alttwo", "altthree", "altfour", "A", "B", "C", "E"};
    int no = src.size(1, 7); std::vector<std::unique_ptr<Opt>> opts; int al = 0; std::set<std::string> taken;
    for (int k = 0; k < no; ++k) {
        std::unique_ptr<Opt> o(new Opt); o->name = src.chance(45) ? src.pick(shortNames) : src.pick(longNames); if (!taken.insert(o->name).second) continue;
        o->kind = (Kind)src.range(0, 7); if (o->kind >= Ints) { o->sep = src.pick(std::vector<int>{ArgParse::SEP_NONE, ArgParse::SEP_ARGV, ','}); if (o->sep == ArgParse::SEP_ARGV && src.coin()) o->count = src.range(1, 3); }
        if (o->kind == Flag || o->kind == NegFlag) { o->flag = o->eflag = src.chance(30); }
        switch (o->kind) { case Flag: ap.argFlag(o->name, "", &o->flag, false); break; case NegFlag: ap.argFlag(o->name, "", &o->flag, true); break; case Int: ap.argInt(o->name, "=integer\aint %default", &o->i); break; case Float: ap.argFloat(o->name, "", &o->f); break; case Str: ap.argString(o->name, "", &o->s); break; case Ints: ap.argInts(o->name, "", &o->iv, o->sep, o->count); break; case Floats: ap.argFloats(o->name, "", &o->fv, o->sep, o->count); break; default: ap.argStrings(o->name, "", &o->sv, o->sep, o->count); }
        if (al < 8 && src.chance(40)) { o->aliases.push_back(aliasNames[al]); ap.alias(o->name, aliasNames[al++]); }
        if (o->kind == NegFlag && al < 8 && src.chance(30)) { o->negAlias = aliasNames[al]; ap.alias("no" + o->name, aliasNames[al++]); }
        opts.push_back(std::move(o));
    }
    if (opts.empty()) throw pbt::Discard();
    auto takes = [&](char c) { std::string n(1, c); for (auto& o : opts) { bool m = o->name == n; for (auto& a : o->aliases) m = m || a == n; if (m && o->kind >= Int) return true; } return false; };
    // ---- the line
    std::vector<std::string> argv, left; bool error = false; bool eating = false; /* an unlimited SEP_ARGV option swallows what follows */
    auto word = [&](bool plain) { static const char* w[] = {"file.rib", "out", "x.tif", "v", "ovo.rib", "a b", "1", "-", "", "no", "k=v", "p:q"}; std::string s = w[src.range(0, 11)]; if (plain && (s == "" || s == "-")) s = "plain"; return s; };
    auto spell = [&](const std::string& n) { bool dbl = combine ? n.size() > 1 : src.coin(); return std::string(dbl || (combine && src.chance(20)) ? "--" : "-") + n; };
    int items = src.size(0, 8); int mistake = src.chance(25) ? src.range(1, 6) : 0; int at = mistake ? src.range(0, items) : -1; std::string descr; int used = 0;
    for (int it = 0; it <= items && !error; ++it) {
        if (it == at) {
            std::string sp; Opt& o = *opts[src.range(0, opts.size()-1)]; std::string n = o.name;
            if (mistake == 1) { if (unrec) continue; if (takes('w')) continue; argv.push_back(src.coin() ? "--wrong" : combine ? "-w" : "-wrong"); error = true; src.label("unknown option"); }
            else if (mistake == 2 && (o.kind == Int || o.kind == Ints || o.kind == Float || o.kind == Floats)) { if (o.used && o.kind <= Str) continue; argv.push_back(spell(n) + "=" + src.pick(std::vector<std::string>{"abc", "1x", "5.5.5", "-"})); error = true; src.label("malformed value"); }
            else if (mistake == 3 && o.kind <= NegFlag) { argv.push_back(spell(n) + src.pick(std::vector<std::string>{"=1", ":x", "="})); error = true; src.label("value for a flag"); }
            else if (mistake == 4 && o.kind >= Int && o.sep != ArgParse::SEP_ARGV) { if (o.used && o.kind <= Str) continue; argv.push_back(spell(n)); error = true; src.label("missing value"); goto done; }
            else if (mistake == 5 && o.used && (o.kind == Int || o.kind == Float || o.kind == Str)) { argv.push_back(spell(n)); argv.push_back("4"); error = true; src.label("single option twice"); }
            else if (mistake == 6 && o.used && o.kind == NegFlag) { argv.push_back(spell(o.eflag ? "no" + n : n)); error = true; src.label("flag and its negation"); }
            if (error) { int extra = src.range(0, 2); for (int e = 0; e < extra; ++e) argv.push_back(word(true)); }
            continue;
        }
        if (it == items) break;
        if (!eating && src.chance(25)) { std::string w = word(false); argv.push_back(w); left.push_back(w); src.label("positional"); continue; }
        if (unrec && src.chance(10) && !takes('w')) { std::string u = combine ? "--wrong" : src.coin() ? "-wrong" : "--wrong=3"; argv.push_back(u); left.push_back(u); eating = false; src.label("unrecognized kept"); continue; }
        Opt& o = *opts[src.range(0, opts.size()-1)]; std::string n = o.name; bool neg = false;
        if (!o.aliases.empty() && src.coin()) { n = o.aliases[0]; src.label("alias"); }
        if (o.kind <= NegFlag) {
            if (o.kind == NegFlag) { neg = o.used ? !o.eflag : src.chance(40); if (neg) { if (!o.negAlias.empty() && src.coin()) { n = o.negAlias; src.label("alias of a negation"); } else n = "no" + n; } }
            if (combine && !neg && n.size() == 1 && src.coin()) { // bundle flags
                std::string b = "-"; std::vector<Opt*> fl; for (auto& q : opts) if (q->kind <= NegFlag && q->name.size() == 1 && (!q->used || q->eflag) && src.coin()) { b += q->name; fl.push_back(q.get()); } if (fl.empty()) continue; if (fl.size() > 1) src.label("bundled flags"); argv.push_back(b); for (Opt* q : fl) { q->used = true; q->eflag = true; } }
            else { argv.push_back(spell(n)); o.used = true; o.eflag = !neg; }
            eating = false; ++used; continue;
        }
        if (o.kind <= Str && o.used) continue;
        if (o.count >= 0 && o.used) continue;        // a second use of a counted list is not defined
        bool multi = o.sep == ArgParse::SEP_ARGV || o.sep == ','; int nv = o.kind <= Str || !multi ? 1 : o.count > 0 ? o.count : src.range(1, 3);
        std::vector<std::string> vals; bool sepv = false;
        auto value = [&](bool sepArg) { std::ostringstream v; switch (o.kind) { case Int: case Ints: { int x = src.range(sepArg && o.sep == ArgParse::SEP_ARGV ? 0 : -50, 50); if (src.chance(20) && x >= 0) v << "0x" << std::hex << x; else v << x; if (o.kind == Int) o.ei = x; else o.eiv.push_back(x); break; } case Float: case Floats: { double x = src.range(sepArg && o.sep == ArgParse::SEP_ARGV ? 0 : -64, 64)/8.0; v << x; if (o.kind == Float) o.ef = x; else o.efv.push_back(x); break; } default: { std::string w; do w = word(o.sep == ',' || o.sep == ArgParse::SEP_ARGV || sepArg); while (0); if (o.sep == ArgParse::SEP_NONE && o.kind == Str && sepArg && src.chance(20)) w = "-dash"; v << w; if (o.kind == Str) o.es = w; else o.esv.push_back(w); } } return v.str(); };
        int form = src.range(0, 3);       // 0: separate, 1: =, 2: :, 3: joined to a one character name
        if (form == 3 && !(n.size() == 1)) form = 1; 
        if (combine && form == 3) form = 0;
        std::string name = spell(n); if (form == 3) name = "-" + n;
        eating = false;
        if (o.sep == ',') { std::string j; for (int k = 0; k < nv; ++k) j += (k ? "," : "") + value(form == 0); vals.push_back(j); }
        else for (int k = 0; k < nv; ++k) vals.push_back(value(form == 0 || k > 0));
        if (form == 3) { // the joined word must not be another option or begin with a separator
            std::string j = n + vals[0]; std::string stem = j.substr(0, j.find_first_of(":=")); bool clash = vals[0].empty() || vals[0][0] == ':' || vals[0][0] == '='; for (auto& q : opts) { if (q->name == stem || "no" + q->name == stem) clash = true; for (auto& a : q->aliases) if (a == stem || "no" + a == stem) clash = true; if (q->negAlias == stem) clash = true; } if (clash) form = 1; else src.label("joined value"); }
        if (form == 0) { if (o.sep != ArgParse::SEP_ARGV && vals[0].empty()) src.label("empty value"); argv.push_back(name); argv.push_back(vals[0]); } else if (form == 3) argv.push_back(name + vals[0]); else argv.push_back(name + (form == 1 ? "=" : ":") + vals[0]);
        for (size_t k = 1; k < vals.size(); ++k) argv.push_back(vals[k]);
        o.used = true; ++used; if (o.sep == ArgParse::SEP_ARGV) { if (o.count < 0) eating = true; src.label(o.count < 0 ? "argv list" : "counted list"); }
    }
    if (!error && src.chance(15)) { argv.push_back("--"); int k = src.range(0, 3); for (int i = 0; i < k; ++i) { std::string w = src.pick(std::vector<std::string>{"-o", "--alpha=3", "file", "--", "-"}); argv.push_back(w); left.push_back(w); } src.label("end of options"); }
done:
    src.note(show(argv)); for (auto& o : opts) src.note("option " + o->name + " kind " + std::to_string(o->kind) + " sep " + std::to_string(o->sep) + " count " + std::to_string(o->count)); if (used >= 2 || error) src.nontrivial();
    std::vector<const char*> av; for (auto& a : argv) av.push_back(a.c_str()); av.push_back(0);
    bool ok = ap.parse(argv.size(), av.data());
    if (ok == error) fail(error ? "a bad command line was accepted: " + show(argv) : "a good command line was rejected (" + ap.errmsg() + "): " + show(argv));
    if (error && ap.errmsg().empty()) fail("no error message"); if (!error && !ap.errmsg().empty()) fail("error message after success");
    if (!error && ap.leftovers() != left) fail("leftover arguments " + show(ap.leftovers()) + "expected " + show(left));
    if (error) { auto& l = ap.leftovers(); if (l.size() < left.size() || !std::equal(left.begin(), left.end(), l.begin())) fail("leftovers before the error " + show(l) + "expected " + show(left)); }
    for (auto& q : opts) { Opt& o = *q; bool good = true; switch (o.kind) { case Flag: case NegFlag: good = o.flag == o.eflag; break; case Int: good = o.i == o.ei; break; case Float: good = o.f == o.ef; break; case Str: good = o.s == o.es; break; case Ints: good = std::vector<int>(o.iv.begin(), o.iv.end()) == o.eiv; break; case Floats: good = std::vector<double>(o.fv.begin(), o.fv.end()) == o.efv; break; default: good = std::vector<std::string>(o.sv.begin(), o.sv.end()) == o.esv; } if (!good) fail("option " + o.name + " did not receive its value from " + show(argv)); }
    std::string u = ap.usagemsg(); for (auto& o : opts) { if (u.find("-" + o->name) == std::string::npos) fail("usage does not mention " + o->name); for (auto& a : o->aliases) if (u.find("-" + a) == std::string::npos) fail("usage does not mention " + a); }
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a command line counts when it uses at least two options or contains exactly one of the documented mistakes"); }
