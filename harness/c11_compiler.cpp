// C11: the shader compiler run as users run it, upon programs, rewritten programs, wrong programs and noise.
#include "sl_text.h"
using namespace rd;

static void wellBehaved(const Result& r) { if(r.timeout) pbt::fail("aqsl does not end"); if(WIFSIGNALED(r.status)) pbt::fail(fmt("aqsl was ended by signal %d\n", WTERMSIG(r.status)) + r.out.substr(0, 1500)); if(WEXITSTATUS(r.status) > 1) pbt::fail(fmt("aqsl exits with %d\n", WEXITSTATUS(r.status)) + r.out.substr(0, 1500)); }
static bool there(const string& f) { return access(f.c_str(), F_OK) == 0; }
static string slurp(const string& f) { std::ifstream i(f, std::ios::binary); std::stringstream b; b << i.rdbuf(); return b.str(); }
static const char* OTHER = "surface other(float k = 1; string m = \"x\";) { float loc1 = k; if(k > 0) { loc1 = 2; } Ci = loc1; Oi = 1; }\n";
static string badProgram(Src& s) { return s.pick(vector<string>{"surface bad() { float loc1 = (1 + 2; Ci = loc1; }\n", "float fun0(float loc1) { return loc1 }\nsurface bad() { Ci = fun0(1); }\n", "surface bad() { float loc1 = \"text\"; Ci = loc1; }\n", "surface bad(\n", "surface bad() { if(1 > 0) { Ci = nothing; } }\n", "surface bad() { string s = \"open; }\n"}); }
/// Between two tokens
static string gap(Src& s, bool lines)
{
    string g; int n = s.chance(70) ? 1 : s.range(1, 3);
    for(int i = 0; i < n; ++i)
    {
        int k = s.range(0, 19);
        if(k < 12 || (!lines && k >= 18)) g += " "; else if(k < 14) g += "\t"; else if(k < 16) g += lines ? "\n" : "  ";
        else if(k == 16) g += s.pick(vector<string>{" /**/ ", " /* float x = ; */ ", " /* \"text */ ", " /* // */ ", " /* ' { */ ", " /***/ "});
        else if(k == 17) g += lines ? s.pick(vector<string>{" // a comment\n", " // \"open\n", " // /* \n", "\n\n", " //\n"}) : " ";
        else g += s.pick(vector<string>{" /* two\nlines */ ", " /*\n\n*/ ", "\r\n"});
    }
    return g;
}
static string describe(const string& a, const string& b) { size_t i = 0; while(i < a.size() && i < b.size() && a[i] == b[i]) ++i; size_t f = i > 60 ? i - 60 : 0; return "plain:\n..." + a.substr(f, 200) + "\nrewritten:\n..." + b.substr(f, 200); }

/// Inlined functions' variables are declared in the order of their names, which means nothing: sorts each run of them
static string ordered(const string& x) { std::istringstream i(x); vector<string> l; for(string q; std::getline(i, q);) l.push_back(q); auto decl = [](const string& q) { return !q.empty() && q[0] != '\t' && q.find('$') != string::npos; }; for(size_t a = 0; a < l.size(); ++a) if(decl(l[a])) { size_t b = a; while(b < l.size() && decl(l[b])) ++b; std::sort(l.begin() + a, l.begin() + b); a = b; } string o; for(auto& q : l) o += q + "\n"; return o; }

PBT_SUITE(rewritten, 700, 12000)
{
    TempDir d; Prog p = SlGen(src).make("t"); vector<Tok> tok = p.tok; src.note(p.text());
    write(d.p + "/base.sl", p.text()); Result r = run({tool("aqsl"), "-o", "base.slx", "base.sl"}, d.p); wellBehaved(r);
    if(WEXITSTATUS(r.status) || !there(d.p + "/base.slx")) pbt::fail("a correct program is rejected:\n" + r.out.substr(0, 1000));
    string base = slurp(d.p + "/base.slx"); if(base.size() < 40) pbt::fail("the compiled shader is empty");
    // rewrite it
    std::map<string,string> back; int what = src.range(1, 31);
    if(what & 1 && !p.locals.empty())
    {
        std::map<string,string> to; int i = 0; for(auto& l : p.locals) { string n = src.pick(vector<string>{"q", "a_long_name_for_a_variable_", "X", "_u", "loc", "colour"}) + std::to_string(500 + i++); to[l] = n; back[n] = l; }
        for(auto& t : tok) if(t.local) t.t = to.at(t.t); src.label("renamed locals");
    }
    string head, body, inc; vector<string> cmd{tool("aqsl"), "-o", "var.slx"}; bool lines = true; int depth = 0; (void)depth;
    if(what & 2)
    {
        src.label("macros"); int n = src.range(1, 4);
        for(int i = 0; i < n; ++i)
        {
            size_t a = src.range(0, tok.size() - 1), len = src.range(1, 6); string v; size_t b = std::min(tok.size(), a + len); for(size_t k = a; k < b; ++k) v += (k > a ? " " : "") + tok[k].t;
            string m = fmt("MACRO_%d", i);
            if(src.chance(30)) { head += "#define " + m + "(x) x\n"; if(v.find(',') != string::npos || std::count(v.begin(), v.end(), '(') || std::count(v.begin(), v.end(), ')')) continue; tok[a].t = m + "(" + v + ")"; }
            else if(isalnum((unsigned char)v[0]) && src.chance(25)) { cmd.push_back("-D" + m + "=" + v); tok[a].t = m; src.label("macro on the command line"); }
            else { head += "#define " + m + " " + v + "\n"; tok[a].t = m; }
            tok.erase(tok.begin() + a + 1, tok.begin() + b);
        }
    }
    size_t cut = what & 4 ? src.range(0, tok.size()) : 0; if(cut) src.label("included file");
    bool spaced = what & 8; if(spaced) src.label("spacing and comments"); bool cond = what & 16; if(cond) src.label("conditional text");
    int line = 1;
    for(size_t i = 0; i < tok.size(); ++i)
    {
        string t; if(spaced) t = gap(src, lines); else { t = " "; if(tok[i].line != line) { t = "\n"; line = tok[i].line; } }
        if(cond && src.chance(4)) t += src.pick(vector<string>{"\n#if 0\n ) } garbage = \n#endif\n", "\n#ifdef NOT_DEFINED\nfloat x = ;\n#else\n\n#endif\n", "\n#ifndef AQSIS\n } } \n#endif\n", "\n#define UNUSED_THING 12\n#undef UNUSED_THING\n"});
        (i < cut ? inc : body) += t + tok[i].t;
    }
    string v = head + (src.coin() ? "\n" : "") + (cut ? src.pick(vector<string>{"#include \"part.h\"\n", "#include <part.h>\n"}) : string()) + body + "\n";
    if(cut) { write(d.p + "/part.h", inc + "\n"); cmd.push_back("-I."); }
    write(d.p + "/var.sl", v); cmd.push_back("var.sl"); src.note("--- rewritten:\n" + v + (cut ? "--- part.h:\n" + inc : string()));
    r = run(cmd, d.p); wellBehaved(r);
    if(WEXITSTATUS(r.status) || !there(d.p + "/var.slx")) pbt::fail("the rewritten program is rejected:\n" + r.out.substr(0, 1000));
    string var = slurp(d.p + "/var.slx");
    if(!back.empty()) { string o; for(size_t i = 0; i < var.size();) { if(isalpha((unsigned char)var[i]) || var[i] == '_') { size_t j = i; while(j < var.size() && (isalnum((unsigned char)var[j]) || var[j] == '_')) ++j; string w = var.substr(i, j - i); auto q = back.find(w); o += q == back.end() ? w : q->second; i = j; } else if(isdigit((unsigned char)var[i])) { size_t j = i; while(j < var.size() && (isalnum((unsigned char)var[j]) || var[j] == '.')) ++j; o += var.substr(i, j - i); i = j; } else o += var[i++]; } var = o; }
    base = ordered(base); var = ordered(var);
    if(var != base) pbt::fail("the rewritten program compiles to something else\n" + describe(base, var));
    if(p.tok.size() > 40) src.nontrivial(base + fmt("%d", what));
}
PBT_SUITE(batches, 250, 4000)
{ // several files at once compile as each of them alone
    TempDir d; int n = src.range(2, 4); vector<string> cmd{tool("aqsl")}; vector<int> bad(n); vector<string> alone(n); int good = 0;
    for(int i = 0; i < n; ++i)
    {
        string name = fmt("t%d", i); bad[i] = src.chance(30); string text = bad[i] ? badProgram(src) : src.chance(20) ? string(OTHER) : SlGen(src).make(name).text();
        if(!bad[i] && text == OTHER) text.replace(text.find("other"), 5, name);
        if(bad[i]) { text.replace(text.find("bad"), 3, name); src.label("wrong file in a batch"); } src.note(text); write(d.p + "/" + name + ".sl", text); cmd.push_back(name + ".sl");
        if(!bad[i]) { ++good; Result r = run({tool("aqsl"), "-o", "alone.slx", name + ".sl"}, d.p); wellBehaved(r); alone[i] = slurp(d.p + "/alone.slx"); unlink((d.p + "/alone.slx").c_str()); }
    }
    Result r = run(cmd, d.p); wellBehaved(r); bool any = false; for(int b : bad) any = any || b;
    if(any != (WEXITSTATUS(r.status) != 0)) pbt::fail(fmt("the exit status is %d\n", WEXITSTATUS(r.status)) + r.out.substr(0, 1000));
    for(int i = 0; i < n; ++i)
    {
        string f = d.p + fmt("/t%d.slx", i);
        if(bad[i]) { if(there(f)) pbt::fail(fmt("output for the wrong file %d", i)); if(r.out.find(fmt("t%d.sl", i)) == string::npos) pbt::fail(fmt("no message for the wrong file %d:\n", i) + r.out.substr(0, 1000)); }
        else if(slurp(f) != alone[i]) pbt::fail(fmt("file %d compiles otherwise in the batch than alone\n", i) + (there(f) ? describe(alone[i], slurp(f)) : "no output\n" + r.out.substr(0, 1000)));
    }
    src.nontrivial(cmd.back() + alone[0] + alone[n-1] + fmt("%d%d", (int)any, good));
}
PBT_SUITE(wrong, 700, 12000)
{ // one mistake
    TempDir d; Prog p = SlGen(src).make("t"); vector<Tok>& t = p.tok; int line = 0; bool exact = true; string kind;
    size_t first = 0; while(t[first].t != "surface") ++first; while(t[first].t != "{") ++first; ++first; // the body
    vector<int> uses; for(size_t i = first; i < t.size(); ++i) if(t[i].local && i && t[i-1].t != "float" && t[i-1].t != "color" && t[i-1].t != "vector") uses.push_back(i);
    vector<int> ends; for(size_t i = first; i < t.size(); ++i) if(t[i].t == ";" && (i + 1 == t.size() || t[i+1].line > t[i].line)) ends.push_back(i);
    switch(src.range(0, 8))
    {
        case 0: if(uses.empty()) throw pbt::Discard(); { int i = src.pick(uses); t[i].t = "undeclared_name"; line = t[i].line; kind = "undeclared variable"; } break;
        case 1: { int i = src.pick(ends); line = t[i].line; t.erase(t.begin() + i); exact = false; kind = "missing semicolon"; } break;
        case 2: case 3: { vector<int> c; for(size_t i = first; i < t.size(); ++i) if(strchr("(){}", t[i].t[0]) && t[i].t.size() == 1) c.push_back(i); int i = src.pick(c); line = t[i].line; kind = "unbalanced " + t[i].t; if(src.coin()) t.erase(t.begin() + i); else t.insert(t.begin() + i, t[i]); exact = false; } break;
        default:
        {
            string st = src.pick(vector<string>{"float wrong = \"text\";", "color wrong = \"text\";", "float wrong = sin(\"text\");", "float wrong = sqrt();", "float wrong = Cs;", "matrix wrong = Cs;", "float wrong = length(\"a\", 2);", "Ci = \"text\";", "Ci += \"text\";", "if(\"a\" > 1) { Ci = 1; }", "while(\"a\") { Ci = 1; }", "string wrong = 1;", "string wrong = Cs;", "float wrong = \"a\" + 1;", "float wrong = Cs < 1;", "return 1;", "float wrong = 1; wrong = Cs;", "float wrong = 1; wrong = N;", "float wrong = N;", "float wrong = (1,2,3);", "float wrong = sin(Cs);", "float wrong = sin(1,2);", "float wrong = length();", "color wrong = mix(\"a\",\"b\",1);", "float wrong = noise(\"a\");", "float wrong[3] = {1,2};", "float wrong[2] = {1,2}; wrong[\"a\"] = 1;", "float wrong = 1; wrong[1] = 2;", "matrix wrong = N;", "float wrong = (1 > 2) ? \"a\" : 2;", "float wrong = -\"a\";", "string wrong = \"a\"; wrong = 1;", "string wrong = \"a\"; wrong += 1;", "float wrong = Cs * \"a\";", "float wrong; for(wrong = 0; wrong < 3) { Ci = 1; }", "else { Ci = 1; }", "float = 2;", "2 = s;", "s + 1 = 2;", "Ci = 1 +;", "Ci = * 2;", "sin = 2;", "Ci = sin;", "float wrong = sin + 1;", "normalize += 1;", "Ci = mix(sin, Cs, 1);", "vector wrong = reflect(N);", "float wrong = 3 wrong2 = 4;", "Ci = undeclared_name + 1;", "undeclared_name *= 2;", "if(undeclared_name > 2) { }", "float wrong = length(undeclared_name);"});
            int at = src.pick(ends); line = t[at].line; t.insert(t.begin() + at + 1, {st, line, false}); kind = st;
        }
    }
    // comments before shift the line
    string pre; int np = src.range(0, 3); for(int i = 0; i < np; ++i) pre += src.pick(vector<string>{"// a comment\n", "/* three\nlines\n*/\n", "\n", "#define UNUSED 1\n", "#if 0\nabc\n#endif\n"}); line += std::count(pre.begin(), pre.end(), '\n');
    string text = pre + p.text(); src.label(kind.substr(0, 30)); src.note(kind + fmt(", line %d\n", line) + text); write(d.p + "/w.sl", text); Result r = run({tool("aqsl"), "w.sl"}, d.p); wellBehaved(r);
    if(there(d.p + "/t.slx") || there(d.p + "/w.slx")) pbt::fail("the wrong program is compiled: " + kind);
    if(!WEXITSTATUS(r.status)) pbt::fail("the exit status claims success: " + kind + "\n" + r.out.substr(0, 500));
    size_t q = r.out.find("w.sl : "); int said = q == string::npos ? -1 : atoi(r.out.c_str() + q + 7); int last = 1 + std::count(text.begin(), text.end(), '\n');
    if(said < line || said > (exact ? line : last)) pbt::fail(fmt("the mistake (%s) is on line %d, the message:\n", kind.c_str(), line) + r.out.substr(0, 500));
    src.nontrivial(kind + fmt("%d", line) + text.substr(0, 200));
}
PBT_SUITE(unreadable, 60, 1000)
{ // what cannot be read or preprocessed
    TempDir d; Prog p = SlGen(src).make("t"); string text = p.text(), kind; int k = src.range(0, 4); vector<string> cmd{tool("aqsl")};
    switch(k) { case 0: kind = "missing file"; break; case 1: kind = "missing include"; text = "#include \"nowhere.h\"\n" + text; break; case 2: kind = "#error"; text = "#error not this one\n" + text; break; case 3: kind = "open comment"; text += "/* open"; break; default: kind = "unknown directive"; text = "#bogus 1\n" + text; }
    if(k) write(d.p + "/w.sl", text); bool more = src.coin(), before = src.coin(); write(d.p + "/o.sl", OTHER); if(more && before) cmd.push_back("o.sl"); cmd.push_back("w.sl"); if(more && !before) cmd.push_back("o.sl");
    src.label(kind); src.note(kind + (more ? ", with another file\n" : "\n") + text); Result r = run(cmd, d.p); wellBehaved(r);
    if(!WEXITSTATUS(r.status)) pbt::fail("the exit status claims success: " + kind + "\n" + r.out.substr(0, 500)); if(there(d.p + "/t.slx")) pbt::fail("the wrong program is compiled: " + kind); if(r.out.find("w.sl") == string::npos) pbt::fail("the message does not name the file:\n" + r.out.substr(0, 500));
    if(more && !there(d.p + "/other.slx")) pbt::fail("the other file is not compiled: " + kind + "\n" + r.out.substr(0, 500));
    src.nontrivial(kind + text);
}
PBT_SUITE(noise, 900, 20000)
{ // anything at all
    TempDir d; Prog p = SlGen(src).make("t"); vector<Tok>& t = p.tok; int n = src.range(1, 6); string text;
    static const vector<string> pool{"(", ")", "{", "}", "[", "]", ";", ",", "=", "+=", "+", "-", "*", "/", "^", ".", "?", ":", "!", "&&", "||", "<", "==", "float", "color", "point", "vector", "normal", "matrix", "string", "void", "uniform", "varying", "output", "extern", "if", "else", "while", "for", "break", "continue", "return", "surface", "light", "volume", "displacement", "imager", "illuminance", "illuminate", "solar", "texture", "environment", "shadow", "bump", "occlusion", "gather", "attribute", "option", "rendererinfo", "incident", "opposite", "lightsource", "textureinfo", "rayinfo", "setcomp", "comp", "setxcomp", "spline", "noise", "pnoise", "printf", "format", "concat", "mix", "sin", "\"text\"", "\"\"", "1", "0", "1e40", "-1", "0x7", "PI", "Ci", "Oi", "P", "N", "Cl", "L", "Ps", "undeclared", "[3]", "[0]", "[-1]", "[1000000]", "(1, 2, 3)", "{1, 2}", "\"hsv\"", "\"world\"", "mtransform", "#", "#define X", "\\", "'", "@", "\"", "//", "/*", "*/", "\n"};
    for(int i = 0; i < n && !t.empty(); ++i)
    {
        size_t a = src.range(0, t.size() - 1);
        switch(src.range(0, 5)) { case 0: t.erase(t.begin() + a); break; case 1: t.insert(t.begin() + a, t[a]); break; case 2: t[a].t = src.pick(pool); break; case 3: t.insert(t.begin() + a, {src.pick(pool), t[a].line, false}); break; case 4: std::swap(t[a].t, t[src.range(0, t.size() - 1)].t); break; default: t.insert(t.begin() + a, {src.pick(pool) + " " + src.pick(pool) + " " + src.pick(pool), t[a].line, false}); }
    }
    text = p.text(); if(src.chance(10)) { int k = src.range(1, 8); for(int i = 0; i < k; ++i) text[src.range(0, text.size() - 1)] = (char)src.range(1, 255); src.label("bytes"); }
    if(src.chance(5)) text = text.substr(0, src.range(0, text.size()));
    if(src.chance(3)) { string deep; int k = src.range(10, 300); for(int i = 0; i < k; ++i) deep += "("; text.insert(text.find('{') + 1, "float deep = " + deep + "1" + string(k, ')') + ";"); src.label("deep nesting"); }
    src.note(text); write(d.p + "/n.sl", text); Result r = run({tool("aqsl"), "-o", "n.slx", "n.sl"}, d.p, 30); wellBehaved(r); bool ok = WEXITSTATUS(r.status) == 0, out = there(d.p + "/n.slx");
    src.label(ok ? "accepted" : "rejected"); if(!ok && out) pbt::fail("output of a rejected program"); if(!ok && r.out.empty()) pbt::fail("rejected without a message");
    src.nontrivial(text);
}
int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a program of more than 40 tokens compared with its rewriting, a batch, a wrong program or a mutated text; distinct by text"); }
