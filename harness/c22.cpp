// C22: image charges - Shift and Mirror act on the whole particle
#include "ref.h"
#include "bunch.h"
using namespace vf;
struct Pt { double t; Vector x,u,a; };
static Pt at(ChargedParticle& p,int i) { Pt r; r.t=p.TrajTime(i); r.x=p.TrajPoint(i); r.u=p.TrajMomentum(i); r.a=p.TrajAccel(i); return r; }
static Pt cur(ChargedParticle& p) { Pt r; r.t=p.getTime(); r.x=p.getPosition(); r.u=p.getMomentum(); r.a=p.getAccel(); return r; }
static double mx(const Vector&v) { return fmax(fabs(v.x),fmax(fabs(v.y),fabs(v.z))); }

struct Map { bool mirror; V3 o,n,d; LD f;
    V3 pos(const Vector&x) const { V3 v(x); if (!mirror) return v+d; return v+n*(2*(o-v).dot(n)); }
    V3 dir(const Vector&x) const { V3 v(x); if (!mirror) return v; return v-n*(2*v.dot(n)); }
    Vector inv(const Vector&x) const { V3 v(x); if (!mirror) return (v-d).d(); return pos(x).d(); } };
static Map rmap(Rng& r,bool mirror,Vector& o,Vector& n,Vector& d) { Map m; m.mirror=mirror; o=r.vec(r.logu(0.01,3)); Vector e=r.dir(); n=e*r.logu(0.05,20); d=r.vec(r.logu(1e-6,3)); m.o=V3(o); m.n=V3(n).unit(); m.d=V3(d); return m; }
// image of an analytic field, scaled so that the image charge follows the image orbit
struct ImageField : public GeneralField { TestField* src; Map m; bool is_external() override { return true; }
    ElMagField Field(double t,Vector X) override { Vector E,B; src->eval(t,m.inv(X),E,B); V3 e=m.dir(E)/m.f, b=m.dir(B)*((m.mirror?-1:1)/m.f); return ElMagField(e.d(),b.d()); } };
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*fabs(dt)); f.E0=r.vec(0.03*m*3e8); f.B0=r.vec(0.15*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
static void cmp(Case& c,const Pt& p,const Pt& o,const Map& m,double sx,const char* k,const char* w) {
    std::string K(k); c.check(p.t==o.t,(K+"-time").c_str(),"%s: time %.17g, was %.17g",w,p.t,o.t);
    c.nearv(p.x,m.pos(o.x).d(),2e-14*sx,(K+"-position").c_str(),w); c.nearv(p.u,m.dir(o.u).d(),2e-14*vnorm(o.u),(K+"-momentum").c_str(),w); c.nearv(p.a,m.dir(o.a).d(),2e-14*vnorm(o.a),(K+"-acceleration").c_str(),w); c.count("points_checked"); }

static void mirror_or_shift(Case& c,bool mirror) {
    Rng& r=c.rng; const char* key=mirror?"C22:mirror":"C22:shift";
    double dt=r.logu(1e-14,1e-12), g=r.logu(1,50); TestField f; genf(r,f,dt,g); double q=r.coin()?-1:r.logu(1,1e6),ms=r.logu(1,1e6);
    ChargedParticle p(q,ms); double t0=r.coin()?0:r.uni(-1e-9,1e-9); p.initTrajectory(t0,r.vec(1),r.dir()*sqrt(g*g-1+1e-4),r.vec(1e8));
    int n=c.idx%40==12?r.ri(1200,4000):r.ri(0,30); bool trk=n>0||r.coin(); if (trk) p.InitVay(dt,&f); for (int i=0;i<n;i++) p.StepVay(&f);
    if (r.coin(0.15)) { Vector X=r.vec(1); p.setCurrentPoint(t0+1e-9,X,r.vec(3),r.vec(1e9)); trk=false; }   // follower particle: current state ahead of the record
    std::vector<Pt> T; for (int i=0;i<p.getNP();i++) T.push_back(at(p,i)); Pt C=cur(p);
    Vector o,nn,d; Map m=rmap(r,mirror,o,nn,d); double fc=r.coin(0.5)?-1:r.sgn()*r.logu(0.1,10); m.f=fc;
    double sx=mx(o)+mx(d)+mx(C.x); for (auto&t:T) sx=fmax(sx,mx(t.x)+mx(o)+mx(d)); sx*=4;
    ChargedParticle s(&p); if (mirror) s.Mirror(o,nn,fc); else s.Shift(d,fc);
    c.check(s.getNP()==(int)T.size(),key,"number of points changed from %zu to %d",T.size(),s.getNP());
    cmp(c,cur(s),C,m,sx,key,"current state"); for (int i=0;i<(int)T.size()&&i<s.getNP();i++) cmp(c,at(s,i),T[i],m,sx,key,i+1==(int)T.size()?"last trajectory point":"trajectory point");
    c.near(s.getCharge(),p.getCharge()*fc,1e-14*fabs(p.getCharge()*fc),"C22:charge","charge of the image");
    // the original is untouched
    bool un=true; for (int i=0;i<(int)T.size();i++) { Pt a=at(p,i); un=un&&a.x.x==T[i].x.x&&a.x.y==T[i].x.y&&a.u.z==T[i].u.z; } c.check(un,"C22:copy","transforming a copy changed its origin");
    // inverse transformation restores
    ChargedParticle b(&s); if (mirror) b.Mirror(o+ (r.coin()?VectorZero:cross(nn,r.vec(1))),nn*-0.3,1/fc); else b.Shift(d*-1,1/fc);
    for (int i=0;i<(int)T.size();i++) { Pt a=at(b,i); c.nearv(a.x,T[i].x,1e-13*(sx+10*vnorm(nn)),"C22:involution","position after forward and back transformation"); c.nearv(a.u,T[i].u,1e-14*vnorm(T[i].u),"C22:involution","momentum after forward and back transformation"); }
    c.near(b.getCharge(),p.getCharge(),1e-14*fabs(p.getCharge()),"C22:involution","charge after forward and back transformation");
    // tracking continues as the image
    if (trk) { ImageField g2; g2.src=&f; g2.m=m; int k=r.ri(1,10); double as=0; ChargedParticle p2(&p); bool re=r.coin(0.3); if (re) { p2.InitVay(dt,&f); s.InitVay(dt,&g2); }
        for (int i=0;i<k;i++) { p2.StepVay(&f); s.StepVay(&g2); Pt a=at(s,s.getNP()-1), e=at(p2,p2.getNP()-1); double st=vnorm(e.x-T.back().x)+3e8*dt;
            c.nearv(a.x,m.pos(e.x).d(),1e-13*sx+1e-9*st,(std::string(key)+"-continue").c_str(),"position of the image tracked on"); c.nearv(a.u,m.dir(e.u).d(),1e-9*vnorm(e.u)+1e-10,(std::string(key)+"-continue").c_str(),"momentum of the image tracked on"); as=fmax(as,vnorm(e.a)); c.nearv(a.a,m.dir(e.a).d(),1e-7*as,(std::string(key)+"-continue").c_str(),"acceleration of the image tracked on"); c.count("continued_steps"); } }
    if (n>0) c.nontrivial(r.s); c.sample("%s of a particle with %zu points, charge factor %g",mirror?"mirror":"shift",T.size(),fc);
}
VF_GROUP(mirror,150,1500) { mirror_or_shift(c,true); }
VF_GROUP(shift,150,1500) { mirror_or_shift(c,false); }

VF_GROUP(fields,120,1500) {      // field of the image is the image of the field; opposite image shorts the plane
    Rng& r=c.rng; double dt=r.logu(1e-13,1e-12), g=r.logu(1.05,10); TestField f; genf(r,f,dt,g);
    ChargedParticle p(r.coin()?-1:r.logu(1,1e6),1); p.initTrajectory(r.coin()?0:r.uni(-1e-9,1e-9),r.vec(0.2),r.dir()*sqrt(g*g-1),VectorZero); int n=r.coin(0.2)?0:c.idx%40==12?r.ri(1100,2000):r.ri(1,40); if (n) { f.E0=f.E0*0.3; p.InitVay(dt,&f); for (int i=0;i<n;i++) p.StepVay(&f); }
    bool mirror=r.coin(0.6); Vector o,nn,d; Map m=rmap(r,mirror,o,nn,d); double fc=r.coin()?-1:r.uni(-2,2); m.f=fc; ChargedParticle s(&p); if (mirror) s.Mirror(o,nn,fc); else s.Shift(d,fc);
    ChargedParticle im(&p); im.Mirror(o,nn,-1);
    for (int k=0;k<15;k++) { Vector obs=r.dir()*r.logu(0.5,5); int i=r.ri(0,p.getNP()-1); auto arr=[&](int j,const Vector&O){ return p.TrajTime(j)+vnorm(O-p.TrajPoint(j))/(double)cc; };
        auto tm=[&](const Vector&O) { int w=r.ri(0,4); double a=arr(0,O),b=arr(p.getNP()-1,O); return w==0?a-r.logu(1e-12,1e-9):w==1?b+1e-10:w==2?arr(i,O)-0.3*dt:r.uni(a,b); };
        double t=tm(obs); double del=2e-14*(fabs(t)+3e-8);
        auto tol=[&](ChargedParticle& P,double tt,Vector O,double& tE,double& tB,bool& skip) { ElMagField F=P.RetardedField(tt,O),F1=P.RetardedField(tt+del,O),F2=P.RetardedField(tt-del,O); tE=(F1.E()-F.E()).norm()+(F2.E()-F.E()).norm()+1e-7*F.E().norm(); tB=(F1.B()-F.B()).norm()+(F2.B()-F.B()).norm()+1e-7*F.E().norm()/2.99792458e8; skip=(F.isNull()!=F1.isNull())||(F.isNull()!=F2.isNull())||tE>0.02*F.E().norm(); if (F.isNull()) skip=!(F1.isNull()&&F2.isNull()); };
        // the nearest trajectory point must be resolved
        bool nearp=false; for (int j=0;j<p.getNP();j++) { if (vnorm(obs-p.TrajPoint(j))<0.05 || vnorm(m.pos(obs).d()-s.TrajPoint(j))<0.05) nearp=true; } if (nearp) { c.count("skipped"); continue; }
        double tE,tB; bool skip; tol(p,t,obs,tE,tB,skip); if (skip) { c.count("skipped"); continue; }
        ElMagField F=p.RetardedField(t,obs), G=s.RetardedField(t,m.pos(obs).d()); V3 E=m.dir(F.E())*fc, B=m.dir(F.B())*(fc*(mirror?-1:1));
        c.nearv(G.E(),E.d(),fabs(fc)*tE+1e-300,"C22:image-E","E of the image"); c.nearv(G.B(),B.d(),fabs(fc)*tB+1e-300,"C22:image-B","B of the image"); c.count("image_fields");
        // on the mirror plane
        Vector e=r.dir(); V3 pl=m.o+m.n.cross(V3(e))*r.uni(0.1,4); Vector PO=pl.d(); nearp=false; for (int j=0;j<p.getNP();j++) if (vnorm(PO-p.TrajPoint(j))<0.05) nearp=true; if (nearp) { c.count("skipped"); continue; }
        t=tm(PO); tol(p,t,PO,tE,tB,skip); if (skip) { c.count("skipped"); continue; }
        ElMagField a=p.RetardedField(t,PO), b=im.RetardedField(t,PO); V3 ES=V3(a.E())+V3(b.E()), BS=V3(a.B())+V3(b.B()); V3 Et=ES-m.n*ES.dot(m.n);
        c.nearv(Et.d(),Vector(0,0,0),tE+1e-300,"C22:plane-tangential-E","tangential E of charge and image on the plane"); c.near((double)BS.dot(m.n),0,tB+1e-300,"C22:plane-normal-B","normal B of charge and image on the plane"); if (!a.isNull()) c.count("plane_points");
    }
    c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
