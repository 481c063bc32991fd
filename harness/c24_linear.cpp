// C24: matrix and vector arithmetic obeys linear algebra.
//
// Oracle: double precision linear algebra written here from the definitions.  The history suite
// keeps a few matrix registers; after every operation the result must match the model computed
// from the operands' elements *and* from how the operands act on vectors (so an element change
// that an "identity" shortcut hides is a mismatch too).
#include "pbt.h"
#include <aqsis/math/matrix.h>
#include <aqsis/math/matrix2d.h>
#include <aqsis/math/vector2d.h>
#include <aqsis/math/vector3d.h>
#include <aqsis/math/vector4d.h>
#include <aqsis/math/color.h>
#include <aqsis/math/vectorcast.h>
#include <aqsis/math/math.h>
using namespace Aqsis;
using pbt::fail;
typedef std::array<double,3> D3; typedef std::array<double,4> D4;
struct M4 { double m[4][4]; };
static M4 ident() { M4 r; for (int i=0;i<4;i++) for (int j=0;j<4;j++) r.m[i][j] = i==j; return r; }
static M4 mul(const M4& a, const M4& b) { M4 r; for (int i=0;i<4;i++) for (int j=0;j<4;j++) { double s=0; for (int k=0;k<4;k++) s+=a.m[i][k]*b.m[k][j]; r.m[i][j]=s; } return r; }
static M4 elems(const CqMatrix& m) { M4 r; for (int i=0;i<4;i++) for (int j=0;j<4;j++) r.m[i][j]=m.Element(i,j); return r; }
static double nrm(const M4& a) { double s=0; for (auto& r:a.m) for (double x:r) s=std::max(s,fabs(x)); return s; }
static double det3(double a,double b,double c,double d,double e,double f,double g,double h,double i) { return a*(e*i-f*h)-b*(d*i-f*g)+c*(d*h-e*g); }
static double minorDet(const M4& a, int r, int c) { double v[9]; int n=0; for (int i=0;i<4;i++) for (int j=0;j<4;j++) if (i!=r&&j!=c) v[n++]=a.m[i][j]; return det3(v[0],v[1],v[2],v[3],v[4],v[5],v[6],v[7],v[8]); }
static double det(const M4& a) { double s=0; for (int j=0;j<4;j++) s += (j&1?-1:1)*a.m[0][j]*minorDet(a,0,j); return s; }
static M4 inverse(const M4& a) { double d=det(a); M4 r; for (int i=0;i<4;i++) for (int j=0;j<4;j++) r.m[j][i]=((i+j)&1?-1:1)*minorDet(a,i,j)/d; return r; }
static std::string show(const M4& a) { std::ostringstream o; o.precision(8); for (auto& r:a.m) { o << "["; for (double x:r) o<<x<<" "; o<<"]"; } return o.str(); }
// compare with an absolute tolerance relative to `scale`
static void closeM(const M4& got, const M4& exp, double scale, const char* what) {
    for (int i=0;i<4;i++) for (int j=0;j<4;j++) if (!(fabs(got.m[i][j]-exp.m[i][j]) <= 2e-6*scale + 1e-30))
        fail(std::string(what)+": element "+std::to_string(i)+","+std::to_string(j)+" got "+show(got)+" expected "+show(exp));
}
static void closeN(double got, double exp, double tol, const char* what) { if (!(fabs(got-exp) <= tol)) { std::ostringstream o; o.precision(9); o<<what<<": got "<<got<<" expected "<<exp<<" tolerance "<<tol; fail(o.str()); } }

static float comp(pbt::Src& s) {
    static const float nice[] = {0,1,-1,2,-2,0.5f,-0.5f,3,-3,0.25f,10,-7};
    if (s.chance(50)) return nice[s.range(0,11)];
    return (float)s.range(-4000,4000)/512.0f;
}
static CqVector3D vec3(pbt::Src& s) { float x=comp(s),y=comp(s),z=comp(s); return CqVector3D(x,y,z); }

// The action of a matrix on vectors must be that of its elements: row vector times matrix.
static void checkAction(const CqMatrix& m, pbt::Src& s, const char* where) {
    M4 e = elems(m); double n = nrm(e);
    float x=comp(s),y=comp(s),z=comp(s),h=comp(s);
    double v[4]={x,y,z,h}, vm=std::max({fabs(v[0]),fabs(v[1]),fabs(v[2]),fabs(v[3])});
    CqVector4D r = m * CqVector4D(x,y,z,h);
    double got[4]={r.x(),r.y(),r.z(),r.h()};
    for (int j=0;j<4;j++) { double q=0; for (int i=0;i<4;i++) q+=v[i]*e.m[i][j]; closeN(got[j], q, 4e-6*n*vm+1e-30, (std::string(where)+": M*vec4").c_str()); }
    CqVector4D pr = CqVector4D(x,y,z,h) * m;
    double got2[4]={pr.x(),pr.y(),pr.z(),pr.h()};
    for (int i=0;i<4;i++) { double q=0; for (int j=0;j<4;j++) q+=v[j]*e.m[i][j]; closeN(got2[i], q, 4e-6*n*vm+1e-30, (std::string(where)+": vec4*M").c_str()); }
    double w = x*e.m[0][3]+y*e.m[1][3]+z*e.m[2][3]+e.m[3][3];
    double vm3=std::max({fabs(v[0]),fabs(v[1]),fabs(v[2]),1.0});
    if (fabs(w) > 1e-3*n*vm3) {
        CqVector3D q = m * CqVector3D(x,y,z);
        double g[3]={q.x(),q.y(),q.z()};
        for (int j=0;j<3;j++) { double t=e.m[3][j]; for (int i=0;i<3;i++) t+=v[i]*e.m[i][j]; closeN(g[j], t/w, 1e-5*(n*vm3/fabs(w))*(1+fabs(t/w)) , (std::string(where)+": M*point").c_str()); }
    }
}
static M4 rotM(double ang, CqVector3D a) {
    double x=a.x(),y=a.y(),z=a.z(),l=sqrt(x*x+y*y+z*z); x/=l;y/=l;z/=l; double c=cos(ang),s=sin(ang),t=1-c;
    M4 r=ident();  // column convention R, transposed for row vectors
    double R[3][3]={{t*x*x+c,t*x*y-s*z,t*x*z+s*y},{t*x*y+s*z,t*y*y+c,t*y*z-s*x},{t*x*z-s*y,t*y*z+s*x,t*z*z+c}};
    for (int i=0;i<3;i++) for (int j=0;j<3;j++) r.m[j][i]=R[i][j];
    return r;
}
static M4 scaleM(double a,double b,double c){M4 r=ident();r.m[0][0]=a;r.m[1][1]=b;r.m[2][2]=c;return r;}
static M4 transM(double a,double b,double c){M4 r=ident();r.m[3][0]=a;r.m[3][1]=b;r.m[3][2]=c;return r;}

PBT_SUITE(matrix_history, 700000, 15000000) {
    const int NR=3; CqMatrix reg[NR];
    int n = src.size(1,14); int informative=0;
    for (int step=0; step<n; ++step) {
        int a=src.range(0,NR-1), b=src.range(0,NR-1), c=src.range(0,NR-1);
        M4 A=elems(reg[a]), B=elems(reg[b]); M4 exp=A; double scale=1; const char* name="";
        int op=src.range(0,26);
        auto post=[&](const M4& X){ exp=mul(A,X); scale=4*nrm(X)*nrm(A); };
        switch(op){
        case 0: { name="from elements"; float e[16]; for(float&f:e)f=comp(src); int k=src.range(0,4);
            if(k==4){ float q[4][4]; memcpy(q,e,sizeof q); reg[a]=q; } else if(k==0){ reg[a]=CqMatrix(e);} else if(k==1){ float q[4][4]; memcpy(q,e,sizeof q); reg[a]=CqMatrix(q);} else if(k==2){ reg[a]=e; } else reg[a]=CqMatrix(e[0],e[1],e[2],e[3],e[4],e[5],e[6],e[7],e[8],e[9],e[10],e[11],e[12],e[13],e[14],e[15]);
            for(int i=0;i<16;i++) exp.m[i/4][i%4]=e[i]; scale=0; break; }
        case 1: name="Identity"; reg[a].Identity(); exp=ident(); scale=0; if(!reg[a].fIdentity()) fail("Identity() not marked identity"); break;
        case 2: { name="Translate"; CqVector3D t=vec3(src); if(src.coin()) reg[a].Translate(t); else reg[a].Translate(t.x(),t.y(),t.z()); post(transM(t.x(),t.y(),t.z())); break; }
        case 3: { name="Scale3"; CqVector3D t=vec3(src); reg[a].Scale(t.x(),t.y(),t.z()); post(scaleM(t.x(),t.y(),t.z())); break; }
        case 4: { name="Scale1"; float t=comp(src); reg[a].Scale(t); post(scaleM(t,t,t)); break; }
        case 5: { name="Rotate"; CqVector3D t=vec3(src); if(t.Magnitude()<0.1) throw pbt::Discard(); float g=src.range(-628,628)/100.0f; reg[a].Rotate(g,t); post(rotM(g,t)); scale*=2; break; }
        case 6: { name="ShearX"; float y=comp(src),z=comp(src); reg[a].ShearX(y,z); M4 S=ident(); S.m[0][1]=y;S.m[0][2]=z; post(S); break; }
        case 7: { name="ShearY"; float y=comp(src),z=comp(src); reg[a].ShearY(y,z); M4 S=ident(); S.m[1][0]=y;S.m[1][2]=z; post(S); break; }
        case 8: { name="ShearZ"; float y=comp(src),z=comp(src); reg[a].ShearZ(y,z); M4 S=ident(); S.m[2][0]=y;S.m[2][1]=z; post(S); break; }
        case 9: { name="operator*="; reg[a]*=reg[b]; exp=mul(B,A); scale=4*nrm(A)*nrm(B); break; }
        case 10: { name="operator*"; CqMatrix r=reg[a]*reg[b]; exp=mul(B,A); scale=4*nrm(A)*nrm(B); reg[c]=r; a=c; break; }
        case 11: { name="PreMultiply"; reg[a].PreMultiply(reg[b]); exp=mul(A,B); scale=4*nrm(A)*nrm(B); break; }
        case 12: { name="operator+"; CqMatrix r=reg[a]+reg[b]; for(int i=0;i<16;i++) exp.m[i/4][i%4]=A.m[i/4][i%4]+B.m[i/4][i%4]; scale=nrm(A)+nrm(B); reg[c]=r; a=c; break; }
        case 13: { name="operator-"; CqMatrix r=reg[a]-reg[b]; for(int i=0;i<16;i++) exp.m[i/4][i%4]=A.m[i/4][i%4]-B.m[i/4][i%4]; scale=nrm(A)+nrm(B); reg[c]=r; a=c; break; }
        case 14: { name="operator+="; reg[a]+=reg[b]; for(int i=0;i<16;i++) exp.m[i/4][i%4]=A.m[i/4][i%4]+B.m[i/4][i%4]; scale=nrm(A)+nrm(B); break; }
        case 15: { name="operator-="; reg[a]-=reg[b]; for(int i=0;i<16;i++) exp.m[i/4][i%4]=A.m[i/4][i%4]-B.m[i/4][i%4]; scale=nrm(A)+nrm(B); break; }
        case 16: { name="S*M"; float s=comp(src); CqMatrix r=s*reg[a]; for(auto& q:exp.m) for(double& x:q) x*=s; scale=nrm(A)*fabs(s); reg[c]=r; a=c; break; }
        case 17: { name="Transpose"; CqMatrix r=reg[a].Transpose(); for(int i=0;i<4;i++)for(int j=0;j<4;j++)exp.m[i][j]=A.m[j][i]; scale=0; reg[c]=r; a=c; break; }
        case 18: { name="Inverse"; double d=det(A), n=nrm(A); M4 I = inverse(A); double cond = fabs(d)>0 ? n*nrm(I) : 1e30;
            if(!(cond<200)) { src.label("ill-conditioned skipped"); continue; }
            CqMatrix r=reg[a].Inverse(); exp=I; scale=30*cond*nrm(I); reg[c]=r; a=c; src.label("inverse"); break; }
        case 19: { name="copy"; CqMatrix r(reg[a]); reg[c]=r; exp=A; scale=0; a=c; break; }
        case 20: { name="SetElement"; int i=src.range(0,3),j=src.range(0,3); float v=comp(src); int k=src.range(0,2); if(k==0) reg[a].SetElement(i,j,v); else if(k==1) reg[a][i][j]=v; else reg[a].pElements()[4*i+j]=v; reg[a].SetfIdentity(false); exp.m[i][j]=v; scale=0; break; }
        case 21: { name="vectorTransform"; CqMatrix r=vectorTransform(reg[a]); for(int i=0;i<3;i++){exp.m[3][i]=0;exp.m[i][3]=0;} exp.m[3][3]=1; scale=0; reg[c]=r; a=c; break; }
        case 22: { name="diag"; float f=comp(src); reg[a]=CqMatrix(f); exp=ident(); for(auto& q:exp.m) for(double& x:q) x*=f; scale=0; break; }
        case 23: { name="ctor scale/translate"; CqVector3D t=vec3(src); if(src.coin()){ reg[a]=CqMatrix(t.x(),t.y(),t.z()); exp=scaleM(t.x(),t.y(),t.z()); } else { reg[a]=CqMatrix(t); exp=transM(t.x(),t.y(),t.z()); } scale=0; break; }
        case 24: { name="ctor rotate"; CqVector3D t=vec3(src); if(t.Magnitude()<0.1) throw pbt::Discard(); float g=src.range(-628,628)/100.0f; reg[a]=CqMatrix(g,t); exp=rotM(g,t); scale=1; break; }
        case 25: { name="M*S"; float s=comp(src); CqMatrix r=reg[a]*s; post(scaleM(s,s,s)); reg[c]=r; a=c; break; }
        case 26: { name="skew ctor"; // orthogonal axes: d1 is sheared towards d2
            int k=src.range(0,2); int l=(k+1+src.range(0,1))%3; float g=src.range(-120,120)/100.0f; float d[2][3]={{0}}; float q1=src.range(1,40)/10.0f,q2=src.range(1,40)/10.0f; d[0][k]=q1; d[1][l]=q2;
            reg[a].Skew(g,d[0][0],d[0][1],d[0][2],d[1][0],d[1][1],d[1][2]);
            M4 R=elems(reg[a]); double dA=det(A), dR=det(R); closeN(dR,dA,1e-4*(1+pow(nrm(A),3)*nrm(R)+pow(nrm(R),4)),"Skew changes the determinant");
            exp=R; scale=0; break; }
        }
        src.note(name);
        M4 got=elems(reg[a]);
        closeM(got,exp,scale,name);
        if(nrm(got)>1e6){ reg[a].Identity(); continue; }
        checkAction(reg[a],src,name);
        if(reg[a].fIdentity()){ closeM(got,ident(),0,"marked as identity but is not"); } else ++informative;
        double d=det(got); double nn=nrm(got); closeN(reg[a].Determinant(), d, 1e-5*(nn*nn*nn*nn)+1e-30, "Determinant");
    }
    if(informative) src.nontrivial();
    // order of application: (A*B)*v == A*(B*v)
    { M4 A=elems(reg[0]),B=elems(reg[1]); if(nrm(A)<1e3&&nrm(B)<1e3){ float x=comp(src),y=comp(src),z=comp(src),h=comp(src); CqVector4D v(x,y,z,h); CqVector4D p=(reg[0]*reg[1])*v, q=reg[0]*(reg[1]*v); double sc=nrm(A)*nrm(B)*std::max({fabs(x),fabs(y),fabs(z),fabs(h)}); closeN(p.x(),q.x(),3e-5*sc,"(A*B)*v vs A*(B*v)"); closeN(p.y(),q.y(),3e-5*sc,"(A*B)*v"); closeN(p.z(),q.z(),3e-5*sc,"(A*B)*v"); closeN(p.h(),q.h(),3e-5*sc,"(A*B)*v"); } }
    // equality and isClose
    for(int i=0;i<NR;i++) for(int j=0;j<NR;j++){
        M4 A=elems(reg[i]),B=elems(reg[j]); bool eq=true; double df=0,n1=0,n2=0; for(int k=0;k<16;k++){ double x=A.m[k/4][k%4],y=B.m[k/4][k%4]; if(x!=y)eq=false; df+=(x-y)*(x-y); n1+=x*x;n2+=y*y; }
        if((reg[i]==reg[j])!=eq) fail("operator== disagrees with the elements");
        if((reg[i]!=reg[j])==eq) fail("operator!= disagrees with the elements");
        double rel = sqrt(df/std::max(n1,n2));
        static const float tols[]={1e-6f,1e-3f,0.1f,0.5f,1.0f,3.0f}; float tol=src.pick(tols);
        if(std::max(n1,n2)>0){ if(rel<tol*0.999 && !isClose(reg[i],reg[j],tol)) fail("isClose rejects matrices within tolerance"); if(rel>tol*1.001+1e-12 && isClose(reg[i],reg[j],tol)) fail("isClose accepts matrices outside tolerance"); }
    }
}

PBT_SUITE(transforms, 400000, 8000000) {
    // normals stay perpendicular; isometries; skew in its own plane
    CqMatrix m; int n=src.size(1,6);
    for(int i=0;i<n;i++) switch(src.range(0,4)){ case 0: m.Translate(vec3(src)); break; case 1:{ float a=src.range(1,40)/10.0f,b=src.range(1,40)/10.0f,c=-src.range(1,40)/10.0f; m.Scale(a,b,c); break;} case 2:{ CqVector3D t=vec3(src); if(t.Magnitude()<0.1) throw pbt::Discard(); m.Rotate(src.range(-314,314)/100.0f,t); break;} case 3: m.ShearX(src.range(-20,20)/10.0f,src.range(-20,20)/10.0f); break; case 4: m.ShearZ(src.range(-20,20)/10.0f,src.range(-20,20)/10.0f); break; }
    CqVector3D nn=vec3(src), t=vec3(src);
    CqMatrix vt=vectorTransform(m), nt=normalTransform(m);
    M4 V=elems(vt); double cond=nrm(V)*nrm(inverse(V)); if(!(cond<300)) throw pbt::Discard();
    src.nontrivial();
    CqVector3D n2=nt*nn,t2=vt*t; double mag=nrm(V)*nrm(inverse(V))*(nn.Magnitude()+1)*(t.Magnitude()+1)*8;
    closeN(n2*t2, (double)nn.x()*t.x()+(double)nn.y()*t.y()+(double)nn.z()*t.z(), 2e-6*cond*mag, "normal transform changes n.t");
    // inverse round trip of points
    M4 A=elems(m); double c2=nrm(A)*nrm(inverse(A)); if(c2<300){ src.label("inverse round trip"); CqVector3D p=vec3(src); CqVector3D q=m.Inverse()*(m*p); double tol=4e-6*c2*c2*(1+p.Magnitude()); closeN(q.x(),p.x(),tol,"M^-1*(M*p)"); closeN(q.y(),p.y(),tol,"M^-1*(M*p)"); closeN(q.z(),p.z(),tol,"M^-1*(M*p)"); }
    // points versus vectors: M*(p+v) = M*p + vt*v
    { CqVector3D p=vec3(src),v=vec3(src); CqVector3D l=m*(p+v),r=m*p+vt*v; double tol=1e-5*nrm(A)*(1+p.Magnitude()+v.Magnitude()); closeN(l.x(),r.x(),tol,"affine"); closeN(l.y(),r.y(),tol,"affine"); closeN(l.z(),r.z(),tol,"affine"); }
    // skew: moves d1 by the angle towards d2 (d1 perpendicular to d2)
    { CqVector3D d1=vec3(src),h=vec3(src); if(d1.Magnitude()>0.2&&h.Magnitude()>0.2&&(d1%h).Magnitude()>0.1*d1.Magnitude()*h.Magnitude()){ d1.Unit(); h.Unit(); double ax=acos(std::max(-1.0,std::min(1.0,(double)(d1*h)))); float g=src.range(-310,310)/100.0f; if(g>ax+0.02||g<ax-M_PI-0.02){ // past the axes: the identity
        CqMatrix k(g,d1.x(),d1.y(),d1.z(),h.x(),h.y(),h.z()); M4 K=elems(k); for(int i=0;i<4;++i) for(int j=0;j<4;++j) closeN(K.m[i][j],i==j,1e-6,"a skew past the axes is not the identity"); src.label("skew past the axes"); } } }
    { CqVector3D d1=vec3(src),h=vec3(src); CqVector3D d2=d1%h; if(d1.Magnitude()>0.2&&d2.Magnitude()>0.2){ d1.Unit(); d2.Unit(); float g=src.range(-120,120)/100.0f; CqMatrix k(g,d1.x(),d1.y(),d1.z(),d2.x(),d2.y(),d2.z()); M4 K=elems(k); closeN(det(K),1,1e-4*(1+nrm(K)),"skew determinant"); src.label("skew");
        CqVector3D f=k*d2-d2; CqVector3D gq=k*d1-d1; CqVector3D f2=k*(d1%d2)-(d1%d2); double a=f.Magnitude(),b=gq.Magnitude(),cc=f2.Magnitude(); double t=fabs(tan(g));
        closeN(cc,0,2e-5*(1+t),"skew moves the axis perpendicular to both directions"); closeN(a,0,2e-5*(1+t),"skew moves the second direction"); closeN(b,t,4e-5*(1+t),"skew amount"); closeN(fabs(gq*d2),t,4e-5*(1+t),"skew direction"); } }
}

PBT_SUITE(matrix2d, 400000, 8000000) {
    float a=comp(src),b=comp(src),c=comp(src),d=comp(src); SqMatrix2D A(a,b,c,d); float e=comp(src),f=comp(src),g=comp(src),h=comp(src); SqMatrix2D B(e,f,g,h);
    if(a*d!=b*c && b!=0) src.nontrivial();
    auto eq=[&](const SqMatrix2D& r,double p,double q,double s,double t,double tol,const char*w){ closeN(r.a,p,tol,w);closeN(r.b,q,tol,w);closeN(r.c,s,tol,w);closeN(r.d,t,tol,w); };
    double n=std::max({fabs(a),fabs(b),fabs(c),fabs(d)}),nb=std::max({fabs(e),fabs(f),fabs(g),fabs(h)});
    eq(A+B,(double)a+e,(double)b+f,(double)c+g,(double)d+h,1e-6*(n+nb),"2d +");
    SqMatrix2D S=A; S+=B; eq(S,(double)a+e,(double)b+f,(double)c+g,(double)d+h,1e-6*(n+nb),"2d +=");
    eq(A*B,(double)a*e+(double)b*g,(double)a*f+(double)b*h,(double)c*e+(double)d*g,(double)c*f+(double)d*h,1e-6*n*nb*2,"2d *");
    eq(A*e,(double)a*e,(double)b*e,(double)c*e,(double)d*e,1e-6*n*nb,"2d *f"); eq(e*A,(double)a*e,(double)b*e,(double)c*e,(double)d*e,1e-6*n*nb,"2d f*");
    eq(A+e,(double)a+e,b,c,(double)d+e,1e-6*(n+nb),"2d + f"); eq(e+A,(double)a+e,b,c,(double)d+e,1e-6*(n+nb),"2d f +");
    eq(A.transpose(),a,c,b,d,0,"2d transpose"); double D=(double)a*d-(double)b*c; closeN(A.det(),D,1e-6*n*n*2,"2d det");
    if(fabs(D)>1e-2*n*n&&n>0){ eq(A.inv(),d/D,-b/D,-c/D,a/D,1e-5*n/fabs(D)*(n*n/fabs(D)),"2d inverse"); src.label("2d inverse"); }
    { // symmetric: eigen decomposition
        SqMatrix2D Y(a,b,b,d); float l1,l2; Y.eigenvalues(l1,l2); if(!(l1>=l2)) fail("eigenvalues not ordered");
        closeN((double)l1+l2,(double)a+d,4e-6*n+1e-30,"eigenvalue sum"); closeN((double)l1*l2,(double)a*d-(double)b*b,1e-5*n*n+1e-30,"eigenvalue product");
        SqMatrix2D R=Y.orthogDiagonalize(l1,l2); SqMatrix2D Dg(l1,l2); SqMatrix2D rec=R*Dg*R.transpose(); eq(rec,a,b,b,d,5e-3*n+1e-30,"R D R^T"); eq(R*R.transpose(),1,0,0,1,1e-5,"R orthogonal");
        if(fabs(l1-l2)>0.05*n) { eq(rec,a,b,b,d,4e-5*n+1e-30,"R D R^T"); src.label("distinct eigenvalues"); }
    }
}

template<class V> static void comp3(const V& v, double x,double y,double z,double tol,const char*w){ closeN(v[0],x,tol,w);closeN(v[1],y,tol,w);closeN(v[2],z,tol,w); }
PBT_SUITE(vectors, 600000, 12000000) {
    float a[3],b[3]; for(float&f:a)f=comp(src); for(float&f:b)f=comp(src); float s=comp(src); if(src.chance(20)) { int k=src.range(0,2); b[k]=a[k]; }
    CqVector3D u(a[0],a[1],a[2]),v(b[0],b[1],b[2]); double n=std::max({(double)fabs(a[0]),(double)fabs(a[1]),(double)fabs(a[2]),(double)fabs(b[0]),(double)fabs(b[1]),(double)fabs(b[2]),(double)fabs(s),1e-10}); double t1=5e-7*n,t2=5e-7*n*n*3;
    if(a[0]!=a[1]&&a[1]!=a[2]) src.nontrivial();
    auto A=[&](int i){return (double)a[i];}; auto B=[&](int i){return (double)b[i];};
    comp3(u+v,A(0)+B(0),A(1)+B(1),A(2)+B(2),t1,"u+v"); comp3(u-v,A(0)-B(0),A(1)-B(1),A(2)-B(2),t1,"u-v"); comp3(-u,-A(0),-A(1),-A(2),0,"-u");
    comp3(u*s,A(0)*s,A(1)*s,A(2)*s,t2,"u*s"); comp3(s*u,A(0)*s,A(1)*s,A(2)*s,t2,"s*u"); comp3(u+s,A(0)+s,A(1)+s,A(2)+s,t1,"u+s"); comp3(s-u,s-A(0),s-A(1),s-A(2),t1,"s-u"); comp3(u-s,A(0)-s,A(1)-s,A(2)-s,t1,"u-s");comp3(s+u,A(0)+s,A(1)+s,A(2)+s,t1,"s+u");
    if(s!=0) comp3(u/s,A(0)/s,A(1)/s,A(2)/s,5e-7*n/fabs(s),"u/s");
    if(b[0]!=0&&b[1]!=0&&b[2]!=0) { comp3(u/v,A(0)/B(0),A(1)/B(1),A(2)/B(2),5e-7*n*600,"u/v"); comp3(s/v,s/B(0),s/B(1),s/B(2),5e-7*n*600,"s/v"); }
    closeN(u*v,A(0)*B(0)+A(1)*B(1)+A(2)*B(2),t2,"dot"); comp3(u%v,A(1)*B(2)-A(2)*B(1),A(2)*B(0)-A(0)*B(2),A(0)*B(1)-A(1)*B(0),t2,"cross");
    { CqVector3D w(u); w%=v; comp3(w,A(1)*B(2)-A(2)*B(1),A(2)*B(0)-A(0)*B(2),A(0)*B(1)-A(1)*B(0),t2,"cross="); CqVector3D x(u); x%=x; comp3(x,0,0,0,t2,"u%=u"); x=u; x+=x; comp3(x,2*A(0),2*A(1),2*A(2),t1,"u+=u"); x=u; x*=x; comp3(x,A(0)*A(0),A(1)*A(1),A(2)*A(2),t2,"u*=u"); x=u; x*=v; comp3(x,A(0)*B(0),A(1)*B(1),A(2)*B(2),t2,"u*=v"); x=u; x-=v; comp3(x,A(0)-B(0),A(1)-B(1),A(2)-B(2),t1,"u-=v"); x=u; x*=s; comp3(x,A(0)*s,A(1)*s,A(2)*s,t2,"u*=s"); x=u;x+=s;comp3(x,A(0)+s,A(1)+s,A(2)+s,t1,"u+=s"); x=u;x-=s;comp3(x,A(0)-s,A(1)-s,A(2)-s,t1,"u-=s"); }
    double m2=A(0)*A(0)+A(1)*A(1)+A(2)*A(2); closeN(u.Magnitude2(),m2,t2,"Magnitude2"); closeN(u.Magnitude(),sqrt(m2),2e-6*n,"Magnitude");
    if(m2>0){ CqVector3D w(u); w.Unit(); double l=sqrt(m2); comp3(w,A(0)/l,A(1)/l,A(2)/l,2e-6,"Unit"); }
    bool all[6]={true,true,true,true,true,true}; for(int i=0;i<3;i++){ all[0]&=a[i]==b[i]; all[1]&=a[i]>b[i]; all[2]&=a[i]<b[i]; all[3]&=a[i]>=b[i]; all[4]&=a[i]<=b[i]; }
    if((u==v)!=all[0]||(u!=v)==all[0]||(u>v)!=all[1]||(u<v)!=all[2]||(u>=v)!=all[3]||(u<=v)!=all[4]) fail("vector comparison");
    comp3(min(u,v),std::min(a[0],b[0]),std::min(a[1],b[1]),std::min(a[2],b[2]),0,"min"); comp3(max(u,v),std::max(a[0],b[0]),std::max(a[1],b[1]),std::max(a[2],b[2]),0,"max");
    { CqVector3D lo=min(u,v),hi=max(u,v); CqVector3D x=vec3(src); comp3(clamp(x,lo,hi),std::min(std::max(x[0],lo[0]),hi[0]),std::min(std::max(x[1],lo[1]),hi[1]),std::min(std::max(x[2],lo[2]),hi[2]),0,"clamp"); }
    float t=src.range(0,64)/64.0f; comp3(lerp(t,u,v),A(0)*(1-t)+B(0)*t,A(1)*(1-t)+B(1)*t,A(2)*(1-t)+B(2)*t,t1*2,"lerp");
    { double d=0,q=0; for(int i=0;i<3;i++){ d+=(A(i)-B(i))*(A(i)-B(i)); q+=B(i)*B(i);} double rel=sqrt(d/std::max(m2,q)); float tol=src.range(1,300)/200.0f; if(std::max(m2,q)>0){ if(rel<tol*0.999&&!isClose(u,v,tol)) fail("isClose vec3 rejects"); if(rel>tol*1.001&&isClose(u,v,tol)) fail("isClose vec3 accepts"); } }
    // colours
    CqColor cu(a[0],a[1],a[2]),cv(b[0],b[1],b[2]);
    comp3(cu+cv,A(0)+B(0),A(1)+B(1),A(2)+B(2),t1,"colour +"); comp3(cu-cv,A(0)-B(0),A(1)-B(1),A(2)-B(2),t1,"colour -"); comp3(cu*cv,A(0)*B(0),A(1)*B(1),A(2)*B(2),t2,"colour *"); comp3(cu*s,A(0)*s,A(1)*s,A(2)*s,t2,"colour *s"); comp3(s*cu,A(0)*s,A(1)*s,A(2)*s,t2,"s*colour"); comp3(s-cu,s-A(0),s-A(1),s-A(2),t1,"s-colour"); comp3(cu-s,A(0)-s,A(1)-s,A(2)-s,t1,"colour-s"); comp3(cu+s,A(0)+s,A(1)+s,A(2)+s,t1,"colour+s"); comp3(-cu,-A(0),-A(1),-A(2),0,"-colour");
    if(b[0]!=0&&b[1]!=0&&b[2]!=0) comp3(cu/cv,A(0)/B(0),A(1)/B(1),A(2)/B(2),5e-7*n*600,"colour/"); if(s!=0) comp3(cu/s,A(0)/s,A(1)/s,A(2)/s,5e-7*n/fabs(s),"colour/s");
    if((cu==cv)!=all[0]||(cu!=cv)==all[0]||(cu>cv)!=all[1]||(cu<cv)!=all[2]||(cu>=cv)!=all[3]||(cu<=cv)!=all[4]) fail("colour comparison");
    comp3(min(cu,cv),std::min(a[0],b[0]),std::min(a[1],b[1]),std::min(a[2],b[2]),0,"colour min"); comp3(max(cu,cv),std::max(a[0],b[0]),std::max(a[1],b[1]),std::max(a[2],b[2]),0,"colour max"); comp3(lerp(t,cu,cv),A(0)*(1-t)+B(0)*t,A(1)*(1-t)+B(1)*t,A(2)*(1-t)+B(2)*t,t1*2,"colour lerp");
    { CqColor x(cu); x+=cv; x-=cv; comp3(x,A(0),A(1),A(2),2*t1,"colour += -="); x=cu; x*=cv; comp3(x,A(0)*B(0),A(1)*B(1),A(2)*B(2),t2,"colour *="); }
    // 4D homogeneous arithmetic is arithmetic of the points they stand for
    float h1=src.range(1,40)/8.0f*(src.coin()?1:-1),h2=src.range(1,40)/8.0f; CqVector4D p(a[0],a[1],a[2],h1),q(b[0],b[1],b[2],h2); double k=n*8*6;
    auto hom=[&](const CqVector4D& w,double x,double y,double z,const char*nm){ double kt=std::max(1.0,k); kt*=kt; closeN(w.x()/(double)w.h(),x,2e-7*kt,nm);closeN(w.y()/(double)w.h(),y,2e-7*kt,nm);closeN(w.z()/(double)w.h(),z,2e-7*kt,nm); };
    hom(p+q,A(0)/h1+B(0)/h2,A(1)/h1+B(1)/h2,A(2)/h1+B(2)/h2,"vec4 +"); hom(p-q,A(0)/h1-B(0)/h2,A(1)/h1-B(1)/h2,A(2)/h1-B(2)/h2,"vec4 -"); hom(-p,-A(0)/h1,-A(1)/h1,-A(2)/h1,"vec4 neg"); closeN(p*q,(A(0)*B(0)+A(1)*B(1)+A(2)*B(2))/(h1*h2),2e-6*k*k,"vec4 dot");
    hom(p%q,(A(1)*B(2)-A(2)*B(1))/(h1*h2),(A(2)*B(0)-A(0)*B(2))/(h1*h2),(A(0)*B(1)-A(1)*B(0))/(h1*h2),"vec4 cross");
    { CqVector4D w(p); w+=w; hom(w,2*A(0)/h1,2*A(1)/h1,2*A(2)/h1,"vec4 w+=w"); }
    { CqVector4D w(p); w.Homogenize(); if(w.h()!=1) fail("Homogenize leaves h"); hom(w,A(0)/h1,A(1)/h1,A(2)/h1,"Homogenize"); }
    CqVector3D pc=vectorCast<CqVector3D>(p); comp3(pc,A(0)/h1,A(1)/h1,A(2)/h1,2e-6*k,"vectorCast 4->3"); comp3(vectorCast<CqColor>(u),a[0],a[1],a[2],0,"vectorCast colour"); comp3(vectorCast<CqVector3D>(cu),a[0],a[1],a[2],0,"vectorCast vector");
    CqVector4D back=vectorCast<CqVector4D>(u); if(back.x()!=a[0]||back.y()!=a[1]||back.z()!=a[2]||back.h()!=1) fail("vectorCast 3->4");
    // 2D
    CqVector2D x2(a[0],a[1]),y2(b[0],b[1]); CqVector2D r2=x2+y2; closeN(r2.x(),A(0)+B(0),t1,"vec2 +"); closeN(r2.y(),A(1)+B(1),t1,"vec2 +"); r2=x2-y2; closeN(r2.x(),A(0)-B(0),t1,"vec2 -"); closeN(r2.y(),A(1)-B(1),t1,"vec2 -"); closeN(x2*y2,A(0)*B(0)+A(1)*B(1),t2,"vec2 dot"); closeN(x2.Magnitude2(),A(0)*A(0)+A(1)*A(1),t2,"vec2 mag2"); r2=s-x2; closeN(r2.x(),s-A(0),t1,"s-vec2"); closeN(r2.y(),s-A(1),t1,"s-vec2"); r2=x2*s; closeN(r2.x(),A(0)*s,t2,"vec2*s"); closeN(r2.y(),A(1)*s,t2,"vec2*s"); closeN(cross(x2,y2),A(0)*B(1)-A(1)*B(0),t2,"vec2 cross");
    // scalar helpers
    double z=A(0)*src.range(-30,30); float zf=z; if(lfloor(zf)!=(long)floor((double)zf)) fail("lfloor"); if(lceil(zf)!=(long)ceil((double)zf)) fail("lceil"); { long r=Aqsis::lround(zf); if(fabs(r-(double)zf)>0.5) fail("lround not nearest"); double rr=Aqsis::round(zf); if(rr!=(double)r) fail("round vs lround"); }
    closeN(degToRad(zf),zf*M_PI/180,1e-6*fabs(zf)+1e-30,"degToRad"); closeN(radToDeg(zf),zf*180/M_PI,1e-6*fabs(zf)*60+1e-30,"radToDeg");
    unsigned i=src.range(1,1<<(int)src.range(0,30)); unsigned cp=ceilPow2(i); if((cp&(cp-1))||cp<i||(cp>>1)>=i) fail("ceilPow2");
    if(clamp(a[0],std::min(b[0],b[1]),std::max(b[0],b[1]))!=std::min(std::max(a[0],std::min(b[0],b[1])),std::max(b[0],b[1]))) fail("scalar clamp"); closeN(lerp(t,a[0],b[0]),A(0)*(1-t)+B(0)*t,2*t1,"scalar lerp");
}
int main(int argc,char**argv){ return pbt::mainLoop(argc,argv,"a matrix history counts as non-trivial when at least one register ended an operation as a non-identity matrix; transform cases when the matrix is well conditioned (cond<300) and so judged; 2x2 and vector cases when the entries are pairwise distinct / the matrix is invertible with an off-diagonal entry"); }
