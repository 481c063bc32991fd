// C23: scenes of tilted squares under random lights, each pixel compared with the light it should gather.
#include "rd_ref.h"
using namespace rd;
static double random1(Src& s, double a, double b) { return real(s, a, b); }
static V randV(Src& s, double r) { return {random1(s, -r, r), random1(s, -r, r), random1(s, -r, r)}; }
static V randDir(Src& s) { V v = randV(s, 1); if(len(v) < 0.2) v.z += 0.7; return unit(v); }
static string vs(V v) { return "[" + num(v.x) + " " + num(v.y) + " " + num(v.z) + "]"; }
static V rnd(V v) { return {(float)v.x, (float)v.y, (float)v.z}; }
static M4 mul(const M4& a, const M4& b) { M4 r; for(int i = 0; i < 4; ++i) for(int j = 0; j < 4; ++j) { r.m[i][j] = 0; for(int k = 0; k < 4; ++k) r.m[i][j] += a.m[i][k]*b.m[k][j]; } return r; }
/// rotation, scale (also uneven or mirrored), displacement
static M4 randM(Src& s, double spread)
{
    M4 r; V a = randDir(s), b = unit(cross(a, std::fabs(a.x) < 0.8 ? V{1, 0, 0} : V{0, 1, 0})), c = cross(a, b); double k[3] = {1, 1, 1};
    if(s.chance(40)) { double q = real(s, 0.6, 1.6); for(double& e : k) e = q; } if(s.chance(20)) for(double& e : k) e *= real(s, 0.7, 1.4); if(s.chance(15)) k[0] = -k[0];
    V rows[3] = {k[0]*a, k[1]*b, k[2]*c}; for(int i = 0; i < 3; ++i) { r.m[i][0] = (float)rows[i].x; r.m[i][1] = (float)rows[i].y; r.m[i][2] = (float)rows[i].z; }
    V t = randV(s, spread); r.m[3][0] = (float)t.x; r.m[3][1] = (float)t.y; r.m[3][2] = (float)t.z; return r;
}
struct Col { double c[3] = {0, 0, 0}; };
static Col col(Src& s, double lo = 0) { Col c; for(double& x : c.c) x = (float)real(s, lo, 1); return c; }
static string cs(const Col& c) { return "[" + num(c.c[0]) + " " + num(c.c[1]) + " " + num(c.c[2]) + "]"; }

struct Light {
    string kind, category; V from{0,0,0}, to{0,0,1}, axis{0,0,1}; double intensity = 1, angle = 0.5, delta = 0.1, beam = 2; Col c; bool nondiffuse = false, nonspecular = false; // all in camera space
    bool ambient() const { return kind == "ambientlight" || kind == "k_amb"; }
    /// The light at p: l towards the light, false if it gives none
    bool at(V p, V& l, Col& cl) const
    {
        cl = c; double k = intensity; l = from - p; double d2 = dot(l, l);
        if(kind == "pointlight") k /= d2;
        else if(kind == "distantlight") l = from - to;
        else if(kind == "spotlight")
        {
            V a = unit(to - from); double cosa = -dot(unit(l), a); if(acos(std::max(-1.0, std::min(1.0, cosa))) > angle) return false;
            double e0 = cos(angle), e1 = cos(angle - delta), t = (cosa - e0)/(e1 - e0); t = t < 0 ? 0 : t > 1 ? 1 : t; k *= pow(std::max(cosa, 1e-9), beam)/d2*t*t*(3 - 2*t);
        }
        else if(kind == "k_cone") { double cosa = -dot(unit(l), unit(axis)); if(acos(std::max(-1.0, std::min(1.0, cosa))) > angle) return false; }
        else if(kind == "k_solar") l = -1.0*axis;
        else if(kind == "k_stripe") { if(p.x - 0.3*p.y - std::floor(p.x - 0.3*p.y) > 0.5) return false; }
        for(double& x : cl.c) x *= k; return true;
    }
};
static const char* SL_LIGHTS[][2] = {
    {"k_point", "light k_point(float intensity = 1; color lightcolor = 1; point from = point \"shader\" (0,0,0); string __category = \"\"; float __nondiffuse = 0, __nonspecular = 0;) { illuminate(from) Cl = intensity*lightcolor; }\n"},
    {"k_cone", "light k_cone(float intensity = 1; color lightcolor = 1; point from = point \"shader\" (0,0,0); vector axis = vector \"shader\" (0,0,1); float angle = 0.5; string __category = \"\"; float __nondiffuse = 0, __nonspecular = 0;) { illuminate(from, axis, angle) { Cl = intensity*lightcolor; } }\n"},
    {"k_solar", "light k_solar(float intensity = 1; color lightcolor = 1; vector axis = vector \"shader\" (0,0,1); string __category = \"\"; float __nondiffuse = 0, __nonspecular = 0;) { solar(axis, 0) { Cl = intensity*lightcolor; } }\n"},
    {"k_stripe", "light k_stripe(float intensity = 1; color lightcolor = 1; point from = point \"shader\" (0,0,0); string __category = \"\"; float __nondiffuse = 0, __nonspecular = 0;) { illuminate(from) { float q = xcomp(Ps) - 0.3*ycomp(Ps); if(q - floor(q) > 0.5) Cl = 0; else Cl = intensity*lightcolor; } }\n"},
    {"k_amb", "light k_amb(float intensity = 1; color lightcolor = 1; string __category = \"\"; float __nondiffuse = 0, __nonspecular = 0;) { Cl = intensity*lightcolor; }\n"}};
static const char* SL_SURF[][2] = {
    {"s_all", "surface s_all() { Ci = 0; illuminance(P) { Ci += Cl*(1 + 0.5*(normalize(L).normalize(I))); } Oi = 1; }\n"},
    {"s_cone", "surface s_cone(vector axis = vector \"shader\" (0,0,1); float angle = 1;) { Ci = 0; illuminance(P, axis, angle) { Ci += Cl; } Oi = 1; }\n"},
    {"s_cat", "surface s_cat(string cat = \"\"; vector axis = vector \"shader\" (0,0,1); float angle = 1;) { Ci = 0; illuminance(cat, P, axis, angle) { Ci += Cl; } Oi = 1; }\n"},
    {"s_std", "surface s_std(float ka = 1, kd = 1, ks = 1, kp = 1, rough = 0.5, size = 5;) { normal n = faceforward(normalize(N), I); vector v = -normalize(I); Ci = ka*ambient() + kd*diffuse(n) + ks*specular(n, v, rough) + kp*phong(n, v, size); Oi = 1; }\n"},
    {"s_brdf", "surface s_brdf(float rough = 0.5;) { normal n = faceforward(normalize(N), I); vector v = -normalize(I); Ci = 0; illuminance(P, n, PI/2) { Ci += specularbrdf(normalize(L), n, v, rough); } Oi = 1; }\n"},
    {"s_parts", "surface s_parts(float cut = 0, kd = 1, ka = 1;) { normal n = faceforward(normalize(N), I); Ci = 0; if(xcomp(P)/zcomp(P) > cut) { Ci = kd*diffuse(n); } else { illuminance(P, n, PI/2) { Ci += kd*Cl*(normalize(L).n); } } Ci += ka*ambient(); Oi = 1; }\n"}};

struct Surf {
    string name = "s_all", cat; V axis{0,0,1}; double angle = 1, ka = 1, kd = 1, ks = 1, kp = 1, rough = 0.5, size = 5; Col spec;
    Col shade(const vector<const Light*>& on, V p, V n, const Col& Cs) const
    {
        Col r; V v = unit(-1.0*p); n = unit(n); if(dot(n, p) > 0) n = -1.0*n; Col amb, dif, spc, pho;
        for(auto* q : on)
        {
            V l; Col c; if(q->ambient()) { for(int k = 0; k < 3; ++k) amb.c[k] += q->intensity*q->c.c[k]; continue; }
            if(!q->at(p, l, c)) continue; V u = unit(l); auto in = [&](V a, double ang) { return acos(std::max(-1.0, std::min(1.0, dot(unit(a), u)))) <= ang; };
            if(name == "s_all") for(int k = 0; k < 3; ++k) r.c[k] += c.c[k]*(1 - 0.5*dot(u, v));
            if(name == "s_cone" && in(axis, angle)) for(int k = 0; k < 3; ++k) r.c[k] += c.c[k];
            if(name == "s_cat" && in(axis, angle))
            {
                string want = cat; bool no = !want.empty() && want[0] == '-'; if(no) want = want.substr(1); bool has = false; std::istringstream is(q->category); for(string t; std::getline(is, t, ',');) has = has || t == want;
                if(cat.empty() || has != no) for(int k = 0; k < 3; ++k) r.c[k] += c.c[k];
            }
            double nl = dot(n, u), s = pow(std::max(0.0, dot(n, unit(u + v))), 8/rough); V refl = -1.0*v + 2*dot(v, n)*n; double ph = pow(std::max(0.0, dot(refl, u)), size);
            if(nl >= 0) for(int k = 0; k < 3; ++k) { if(!q->nondiffuse) dif.c[k] += c.c[k]*nl; if(!q->nonspecular) spc.c[k] += c.c[k]*s; pho.c[k] += c.c[k]*ph; if(name == "s_brdf") r.c[k] += c.c[k]*s; if(name == "s_parts" && false) r.c[k] += 0; }
        }
        for(int k = 0; k < 3; ++k)
        {
            if(name == "s_std") r.c[k] = ka*amb.c[k] + kd*dif.c[k] + ks*spc.c[k] + kp*pho.c[k];
            if(name == "s_parts") r.c[k] = ka*amb.c[k] + kd*dif.c[k];
            if(name == "matte") r.c[k] = Cs.c[k]*(ka*amb.c[k] + kd*dif.c[k]);
            if(name == "plastic") r.c[k] = Cs.c[k]*(ka*amb.c[k] + kd*dif.c[k]) + spec.c[k]*ks*spc.c[k];
            if(name == "metal") r.c[k] = Cs.c[k]*(ka*amb.c[k] + ks*spc.c[k]);
        }
        return r;
    }
};
static const int W = 26, H = 20, TX = 13, TY = 10; static const double FOV = 70;
struct Quad { int tx, ty; V n, p0; Surf s; vector<int> on; Col cs; };
static V ray(double x, double y) { double k = tan(FOV*M_PI/360), sc = 2*k/H; return {(x - W*0.5)*sc, (H*0.5 - y)*sc, 1}; } // the smaller side spans the field of view
static V hit(const Quad& q, double x, double y) { V r = ray(x, y); return (dot(q.p0, q.n)/dot(r, q.n))*r; }

struct Gen {
    Src& s; string out; vector<Light> lights; vector<string> handles; vector<Quad> quads; struct St { M4 m; std::vector<int> on; Surf surf; Col cs; }; St st; vector<std::pair<char, St>> stack; bool cats = false, marks = false;
    explicit Gen(Src& s): s(s) {}
    void emit(const string& t) { out += string(stack.size(), ' ') + t + "\n"; }
    V toCam(V p) { return st.m.point(p); }
    void light()
    {
        Light l; l.kind = s.pick(vector<string>{"pointlight", "distantlight", "spotlight", "ambientlight", "k_point", "k_cone", "k_solar", "k_stripe", "k_amb", "k_cone", "spotlight"}); if(cats || marks) { if(l.kind[0] != 'k') l.kind = "k_cone"; }
        bool own = s.chance(30); if(own) { emit("TransformBegin"); } M4 keep = st.m; if(own) { M4 m = randM(s, 2); emit("ConcatTransform " + m.text()); st.m = mul(m, st.m); }
        string p; bool custom = l.kind[0] == 'k'; l.intensity = (float)real(s, 0.2, 2); l.c = col(s); p += " \"float intensity\" [" + num(l.intensity) + "] \"color lightcolor\" " + cs(l.c);
        M4 inv = st.m.inverse(); bool amb = l.ambient(); bool given = s.chance(70);
        // positions: mostly between the camera and the squares
        V from = given ? rnd(inv.point({real(s, -3, 3), real(s, -3, 3), real(s, -1, 4)})) : V{0, 0, 0}; bool hasFrom = !amb && l.kind != "k_solar", hasTo = l.kind == "distantlight" || l.kind == "spotlight", hasAxis = l.kind == "k_cone" || l.kind == "k_solar";
        if(given && hasFrom) p += " \"point from\" " + vs(from); l.from = st.m.point(from);
        V to = given ? rnd(inv.point({real(s, -2, 2), real(s, -2, 2), real(s, 4.5, 7)})) : V{0, 0, 1}; if(hasTo) { if(given) p += " \"point to\" " + vs(to); l.to = st.m.point(to); if(len(l.to - l.from) < 0.1) throw pbt::Discard(); }
        V axis = given ? rnd(real(s, 0.3, 2)*inv.vec(unit(V{real(s, -1, 1), real(s, -1, 1), real(s, 0.1, 1)}))) : V{0, 0, 1}; if(hasAxis) { if(given) p += " \"vector axis\" " + vs(axis); l.axis = st.m.vec(axis); }
        if(l.kind == "k_cone") { l.angle = (float)real(s, 0.1, s.chance(20) ? 3.2 : 1.4); p += " \"float angle\" [" + num(l.angle) + "]"; }
        if(l.kind == "spotlight") { l.angle = (float)real(s, 0.2, 1.4); l.delta = (float)(l.angle*real(s, 0.1, 0.9)); l.beam = s.range(0, 4); p += " \"float coneangle\" [" + num(l.angle) + "] \"float conedeltaangle\" [" + num(l.delta) + "] \"float beamdistribution\" [" + num(l.beam) + "]"; }
        if(custom && cats) { l.category = s.pick(vector<string>{"a", "b", "a,b", "b,c", "a,b,c", "c,a", "ab,c", "key", "a,key,b"}); p += " \"string __category\" [\"" + l.category + "\"]"; }
        if(custom && marks) { l.nondiffuse = s.chance(40); l.nonspecular = s.chance(40); if(l.nondiffuse) p += " \"float __nondiffuse\" [1]"; if(l.nonspecular) p += " \"float __nonspecular\" [1]"; }
        int i = lights.size(); bool name = s.chance(20); string h = name ? fmt("\"light_%d\"", i) : fmt("%d", i + 1 + 10*(i % 3)); handles.push_back(h); lights.push_back(l); s.label("light:" + l.kind);
        emit("LightSource \"" + l.kind + "\" " + h + p); if(own) { emit("TransformEnd"); st.m = keep; } st.on.push_back(i);
    }
    void surface()
    {
        Surf f; f.name = cats ? "s_cat" : marks ? s.pick(vector<string>{"s_std", "plastic"}) : s.pick(vector<string>{"s_all", "s_cone", "s_std", "s_std", "s_brdf", "s_parts", "matte", "plastic", "metal"}); string p;
        auto fl = [&](const char* n, double& v, double a, double b) { v = (float)real(s, a, b); p += fmt(" \"float %s\" [%s]", n, num(v).c_str()); };
        if(f.name == "s_cone" || f.name == "s_cat") { fl("angle", f.angle, 0.3, s.chance(40) ? 3.2 : 1.6); V a = {0, 0, 1}; if(s.chance(70)) { a = rnd(real(s, 0.5, 1.8)*st.m.inverse().vec(unit(V{real(s, -1, 1), real(s, -1, 1), real(s, -1, 0.1)}))); p += " \"vector axis\" " + vs(a); } f.axis = st.m.vec(a); }
        if(f.name == "s_cat") { f.cat = s.pick(vector<string>{"", "a", "b", "c", "ab", "key", "-a", "-b", "-key", "none", "-none"}); p += " \"string cat\" [\"" + f.cat + "\"]"; }
        if(f.name == "s_std") { fl("ka", f.ka, 0, 1); fl("kd", f.kd, 0, 1); fl("ks", f.ks, 0, 1); fl("kp", f.kp, 0, 1); fl("rough", f.rough, 0.2, 4); fl("size", f.size, 1, 12); }
        if(f.name == "s_brdf") fl("rough", f.rough, 0.2, 4);
        if(f.name == "s_parts") { double c; fl("cut", c, -0.5, 0.5); fl("ka", f.ka, 0, 1); fl("kd", f.kd, 0, 1); }
        if(f.name == "matte" || f.name == "plastic" || f.name == "metal") { fl("Ka", f.ka, 0, 1); if(f.name != "metal") fl("Kd", f.kd, 0, 1); if(f.name != "matte") { fl("Ks", f.ks, 0, 1); fl("roughness", f.rough, 0.3, 4); } if(f.name == "plastic") { f.spec = col(s); p += " \"color specularcolor\" " + cs(f.spec); } }
        st.surf = f; s.label("surface:" + f.name); emit("Surface \"" + f.name + "\"" + p);
    }
    void quad(int k)
    {
        Quad q; q.tx = k % 2; q.ty = k/2; q.n = unit(V{real(s, -0.8, 0.8), real(s, -0.8, 0.8), -1}); q.p0 = {0, 0, real(s, 4.5, 7)}; q.p0 = (q.p0.z/1.0)*ray(TX*(q.tx + 0.5), TY*(q.ty + 0.5)); q.s = st.surf; q.on = st.on; q.cs = st.cs; vector<double> v; M4 inv = st.m.inverse();
        int x0 = TX*q.tx, y0 = TY*q.ty, cx[4] = {x0, x0 + TX, x0 + TX, x0}, cy[4] = {y0, y0, y0 + TY, y0 + TY};
        for(int i = 0; i < 4; ++i) { V p = hit(q, cx[i], cy[i]); if(p.z < 1.5 || p.z > 40) throw pbt::Discard(); p = inv.point(p); v.insert(v.end(), {p.x, p.y, p.z}); }
        emit("Polygon \"P\" " + nums(v)); quads.push_back(q);
    }
    void world()
    {
        st.cs.c[0] = st.cs.c[1] = st.cs.c[2] = 1; cats = s.chance(25); marks = !cats && s.chance(20); if(cats) s.label("categories"); if(marks) s.label("nondiffuse, nonspecular");
        M4 w = randM(s, 1.5); emit("ConcatTransform " + w.text()); emit("WorldBegin"); st.m = w; surface(); int left = 4, next = 0;
        for(int step = s.range(6, 24); step > 0 && next < left; --step)
        {
            switch(s.range(0, 11))
            {
                case 0: case 1: case 2: light(); break;
                case 3: if(lights.empty()) break; { int i = s.range(0, lights.size() - 1); bool on = s.coin(); emit("Illuminate " + handles[i] + (on ? " 1" : " 0")); auto p = std::find(st.on.begin(), st.on.end(), i); if(on && p == st.on.end()) st.on.push_back(i); if(!on && p != st.on.end()) st.on.erase(p); } break;
                case 4: emit("AttributeBegin"); stack.push_back({'A', st}); break;
                case 5: emit("TransformBegin"); stack.push_back({'T', st}); break;
                case 6: if(stack.empty()) break; { auto b = stack.back(); stack.pop_back(); emit(b.first == 'A' ? "AttributeEnd" : "TransformEnd"); if(b.first == 'A') st = b.second; else st.m = b.second.m; } break;
                case 7: { M4 m = randM(s, 1.5); M4 r = mul(m, st.m); if(std::fabs(r.det()) < 0.05 || std::fabs(r.det()) > 20) break; emit("ConcatTransform " + m.text()); st.m = r; } break;
                case 8: surface(); break;
                case 9: st.cs = col(s); emit("Color " + cs(st.cs)); break;
                default: quad(next++);
            }
        }
        if(lights.empty()) light(); while(next < left) { if(s.chance(30)) surface(); quad(next++); }
        while(!stack.empty()) { bool a = stack.back().first == 'A'; stack.pop_back(); emit(a ? "AttributeEnd" : "TransformEnd"); } emit("WorldEnd");
    }
};
PBT_SUITE(lights, 1600, 24000)
{
    Gen g(src); g.world(); string rib = shaderOption() + fmt("Format %d %d 1\nProjection \"perspective\" \"fov\" [%s]\nPixelSamples 1 1\nPixelFilter \"box\" 1 1\nHider \"hidden\" \"integer jitter\" [0]\nShadingRate 0.25\nShadingInterpolation \"smooth\"\nExposure 1 1\nQuantize \"rgba\" 0 0 0 0\nDisplay \"o.dsp\" \"dump\" \"rgb\"\n", W, H, num(FOV).c_str()) + g.out;
    src.note(rib); Image im = render(rib); if(im.w != W || im.h != H || im.nc != 3) pbt::fail("unexpected image"); bool lit = false; int judged = 0;
    for(auto& q : g.quads)
    {
        vector<const Light*> on; for(int i : q.on) on.push_back(&g.lights[i]);
        for(int y = TY*q.ty + 2; y < TY*(q.ty + 1) - 2; ++y) for(int x = TX*q.tx + 2; x < TX*(q.tx + 1) - 2; ++x)
        {
            double lo[3] = {1e30, 1e30, 1e30}, hi[3] = {-1e30, -1e30, -1e30}; bool wild = false;
            for(int a = -3; a <= 3; ++a) for(int b = -3; b <= 3; ++b)
            {
                V p = hit(q, x + 0.5 + a*0.4, y + 0.5 + b*0.4); for(auto* l : on) if(!l->ambient() && len(l->from - p) < 0.25) wild = true;
                Col c = q.s.shade(on, p, q.n, q.cs); for(int k = 0; k < 3; ++k) { lo[k] = std::min(lo[k], c.c[k]); hi[k] = std::max(hi[k], c.c[k]); }
            }
            if(wild) continue; ++judged;
            for(int k = 0; k < 3; ++k)
            {
                double got = im.at(x, y, k), tol = 2e-3*(1 + std::fabs(hi[k])) + 0.15*(hi[k] - lo[k]); if(hi[k] > 0.02) lit = true;
                if(!(got >= lo[k] - tol && got <= hi[k] + tol)) { string which; for(int i : q.on) which += " " + g.handles[i]; pbt::fail(fmt("pixel %d,%d channel %d is %g, expected between %g and %g; surface %s, lights on:%s", x, y, k, got, lo[k], hi[k], q.s.name.c_str(), which.c_str())); }
            }
        }
    }
    if(lit && judged > 60) src.nontrivial(g.out);
}
int main(int argc, char** argv)
{
    std::map<string,string> sh; for(auto& q : SL_LIGHTS) sh[q[0]] = q[1]; for(auto& q : SL_SURF) sh[q[0]] = q[1];
    for(auto* n : {"pointlight", "distantlight", "spotlight", "ambientlight"}) sh[n] = read(string("/repo/shaders/light/") + n + ".sl"); for(auto* n : {"matte", "plastic", "metal"}) sh[n] = read(string("/repo/shaders/surface/") + n + ".sl");
    Shaders S(sh); return pbt::mainLoop(argc, argv, "a scene in which some square receives light and more than 60 pixels are judged; distinct by scene");
}
