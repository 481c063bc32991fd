// C08: shading language expressions evaluate as the language defines, whether their operands are
// constants, uniform or varying.
#include "sl_gen.h"
using namespace sl;

static M16 randSpace(pbt::Src& src) {
    M16 m = ident();
    int n = src.range(1, 3);
    for (int i = 0; i < n; ++i) {
        M16 x = ident();
        switch (src.range(0, 2)) {
            case 0: for (int k = 0; k < 3; ++k) x[12+k] = src.range(-4, 4); break;
            case 1: for (int k = 0; k < 3; ++k) x[k*5] = (src.coin() ? 1 : -1)*std::pow(2., src.range(-1, 2)); break;
            default: { int a = src.range(0, 2), b = (a + 1) % 3; double th = src.range(0, 11)*M_PI/6, c = std::cos(th), s = std::sin(th); x[a*5] = c; x[b*5] = c; x[a*4+b] = s; x[b*4+a] = -s; }
        }
        m = mul(m, x);
    }
    return m;
}

static float randF(pbt::Src& src) { return src.chance(70) ? (float)src.range(-16, 16)/4 : (float)((double)src.range(-40000, 40000)/10000); }

static void setVar(IqShaderData* d, T t, const Val& v, int i) {
    switch (t) {
        case F: d->SetFloat((float)v.n[0].v, i); break;
        case C: d->SetColor(CqColor(v.n[0].v, v.n[1].v, v.n[2].v), i); break;
        case P: d->SetPoint(CqVector3D(v.n[0].v, v.n[1].v, v.n[2].v), i); break;
        case V: d->SetVector(CqVector3D(v.n[0].v, v.n[1].v, v.n[2].v), i); break;
        case N: d->SetNormal(CqVector3D(v.n[0].v, v.n[1].v, v.n[2].v), i); break;
        default: break;
    }
}
struct Std { const char* name; T t; int idx; };
static const Std STD[] = {{"u", F, EnvVars_u}, {"v", F, EnvVars_v}, {"s", F, EnvVars_s}, {"t", F, EnvVars_t}, {"Cs", C, EnvVars_Cs}, {"Os", C, EnvVars_Os}, {"P", P, EnvVars_P}, {"I", V, EnvVars_I}, {"dPdu", V, EnvVars_dPdu}, {"N", N, EnvVars_N}, {"Ng", N, EnvVars_Ng}};

static std::string show(const Val& v) { std::ostringstream o; if (v.t == S) return "\"" + v.s + "\""; for (int k = 0; k < comps(v.t); ++k) o << (k ? "," : "") << v.n[k].v << "~" << v.n[k].e; return o.str(); }

static void exprCase(pbt::Src& src, int maxDepth) {
    MockRenderer rend; Ctx cx{&rend.spaces};
    rend.spaces.toCurrent["world"] = randSpace(src); rend.spaces.toCurrent["shader"] = randSpace(src); rend.spaces.toCurrent["object"] = randSpace(src); rend.spaces.toCurrent["mine"] = randSpace(src);
    Gen g(src); for (auto& s : rend.spaces.toCurrent) g.spaces.push_back(s.first);
    g.exactOnly = src.chance(40);

    struct Decl { Var v; E init; }; std::vector<Decl> locals;
    for (auto& s : STD) g.vars.push_back({s.name, s.t, true});
    int nl = src.range(0, 6), cnt = 0;
    for (int i = 0; i < nl; ++i) {
        T t = (T)src.range(F, S); bool vary = t != S && src.coin();
        g.uniformOnly = !vary; E e = g.gen(t, src.range(0, 2)); g.uniformOnly = false;
        Var v{std::string(vary ? "vv" : "uu") + std::to_string(cnt++), t, vary};
        locals.push_back({v, e}); g.vars.push_back(v);
    }
    struct Out { T t; E e; bool varying; std::string name; }; std::vector<Out> outs;
    int no = src.range(1, 4);
    for (int i = 0; i < no; ++i) {
        T t = (T)src.range(F, S); bool vary = t != S ? !src.chance(15) : false;
        g.uniformOnly = !vary; E e = g.gen(t, src.range(1, maxDepth)); g.uniformOnly = false;
        outs.push_back({t, e, vary, "r" + std::to_string(i)});
    }
    std::ostringstream o; o << "surface t(";
    for (auto& r : outs) o << "output " << (r.varying ? "varying " : "uniform ") << TN[r.t] << " " << r.name << " = " << (r.t == S ? "\"\"" : "0") << "; ";
    o << ")\n{\n";
    for (auto& l : locals) o << "  " << (l.v.varying ? "varying " : "uniform ") << TN[l.v.t] << " " << l.v.name << " = " << print(l.init) << ";\n";
    for (auto& r : outs) o << "  " << r.name << " = " << print(r.e) << ";\n";
    o << "}\n";
    src.note(o.str());
    Grid grid; grid.set(src.range(1, 4), src.range(1, 4));
    std::vector<Env> env(grid.n);
    for (auto& s : STD) for (int i = 0; i < grid.n; ++i) { Val v; v.t = s.t; for (int k = 0; k < comps(s.t); ++k) v.n[k] = Num(randF(src)); env[i][s.name] = v; }

    // the reference first: it leaves out what has no defined value
    std::vector<std::vector<Val>> wants(grid.n);
    for (int i = 0; i < grid.n; ++i) {
        Env e = env[i];
        for (auto& l : locals) e[l.v.name] = conv(eval(l.init, e, cx), l.v.t);
        for (auto& r : outs) wants[i].push_back(conv(eval(r.e, e, cx), r.t));
        for (auto& l : locals) env[i][l.v.name] = e[l.v.name];
    }
    Compiled c = compile(o.str());
    if (!c.ok) pbt::fail("a valid shader is rejected: " + c.err + "\n" + o.str());
    Vm vm(rend); vm.load(c.slx); vm.begin(grid);
    for (auto& s : STD) if (vm.var(s.idx)) for (int i = 0; i < grid.n; ++i) setVar(vm.var(s.idx), s.t, env[i][s.name], i);
    vm.run();
    int decided = 0;
    for (int i = 0; i < grid.n; ++i) {
        for (size_t q = 0; q < outs.size(); ++q) {
            auto& r = outs[q]; const Val& want = wants[i][q]; IqShaderData* d = vm.arg(r.name);
            if (r.t == S) {
                if (!want.sok) continue;
                CqString s; d->GetString(s, 0); ++decided;
                if (!sameText(s, want.s)) pbt::fail("string " + r.name + " is \"" + s + "\", expected \"" + want.s + "\"\n" + o.str());
                continue;
            }
            std::vector<float> got; getFloats(d, i, aqType(r.t), got);
            for (size_t k = 0; k < got.size(); ++k) {
                if (want.n[k].bad()) continue;
                ++decided;
                double tol = want.n[k].e*1.5 + 1e-6*std::fabs(want.n[k].v) + 1e-9;
                if (!(std::fabs(got[k] - want.n[k].v) <= tol)) {
                    std::ostringstream m; m.precision(9); m << r.name << " component " << k << " at point " << i << " is " << got[k] << ", expected " << want.n[k].v << " +- " << tol << "\n" << o.str();
                    for (auto& s : STD) m << s.name << "=" << show(env[i][s.name]) << " "; for (auto& l : locals) m << l.v.name << "=" << show(env[i][l.v.name]) << " ";
                    pbt::fail(m.str());
                }
            }
        }
    }
    if (decided > 0) src.nontrivial();
}

PBT_SUITE(small_expressions, 14000, 1500000) { exprCase(src, 2); }
PBT_SUITE(deep_expressions, 7000, 800000) { exprCase(src, 5); }

int main(int argc, char** argv) { return pbt::mainLoop(argc, argv, "a case is non-trivial when at least one component of one output was decided (its error bound is small enough to judge)"); }
