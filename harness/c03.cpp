// C03: fields of a particle at (observation time, position) are the Lienard-Wiechert fields
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;

struct Tr { double q; std::vector<double> t; std::vector<Vector> x,u,a; };
static Tr rec(ChargedParticle& p) { Tr T; T.q=p.getCharge(); for (int i=0;i<p.getNP();i++) { T.t.push_back(p.TrajTime(i)); T.x.push_back(p.TrajPoint(i)); T.u.push_back(p.TrajMomentum(i)); T.a.push_back(p.TrajAccel(i)); } return T; }

// reference with an error bar.  mode: 0 none (signal has not arrived / ended), 1 back extrapolated, 2 inside
static EB3 ref_field(const Tr& T,double tobs,const Vector& obs,int& mode,double& tol,bool& skip) {
    EB3 f; tol=0; skip=false; int n=T.t.size(); V3 O(obs);
    auto arr=[&](int i)->LD { return (LD)T.t[i]+(O-V3(T.x[i])).n()/cc; };
    LD eps=4e-16L*(fabsl(tobs)+fabsl((LD)T.t[0])+fabsl((LD)T.t[n-1])+(O-V3(T.x[0])).n()/cc+V3(T.x[0]).n()/cc+O.n()/cc);   // rounding of arrival times in double
    if (fabsl(arr(0)-tobs)<20*eps || fabsl(arr(n-1)-tobs)<20*eps) { if (!(n==1)) { skip=true; return f; } if (fabsl(arr(0)-tobs)<20*eps) {skip=true; return f;} }
    if (arr(n-1)<tobs) { mode=0; return f; }
    if (tobs<=arr(0)) { mode=1;
        V3 u(T.u[0]); LD g2=1+u.n2(), g=sqrtl(g2); V3 b=u/g;
        auto F=[&](LD s) { V3 X=V3(T.x[0])+b*(cc*s); return lienard(T.q,X,b,V3(),g2,O); };
        // emission at T0+s, s<=0: s + |O-X0-b c s|/c = tobs-T0
        LD w=(LD)tobs-(LD)T.t[0]; auto h=[&](LD s) { return s+(O-V3(T.x[0])-b*(cc*s)).n()/cc-w; };
        LD hi=0,lo=-1e-12L; while (h(lo)>0) lo*=2; for (int i=0;i<300;i++) { LD m=0.5L*(lo+hi); if (m==lo||m==hi) break; if (h(m)>0) hi=m; else lo=m; }
        LD s=0.5L*(lo+hi); f=F(s);
        // the closed form in double looses digits: d s ~ eps * gamma^2
        LD ds=eps*8*g2*2; if (ds>fabsl(s)*1e-3L && fabsl(s)>0) { LD R=(O-V3(T.x[0])-b*(cc*s)).n()/cc; if (ds>1e-4L*R) { skip=true; return f; } }
        EB3 f1=F(s+ds), f2=F(s-ds); tol=(double)((f1.E-f.E).n()+(f2.E-f.E).n()+ (LD)1e-10*f.E.n()*(1+g2*1e-4));
        return f; }
    mode=2; int i=0; int lo=0,hi=n-1; while (hi-lo>1) { int m=(lo+hi)/2; if (arr(m)<(LD)tobs) lo=m; else hi=m; } i=lo;
    // emission inside segment i (polyline), linear interpolation of momentum and acceleration
    auto X=[&](LD fr) { return V3(T.x[i])*(1-fr)+V3(T.x[i+1])*fr; };
    auto F=[&](LD fr) { V3 u=V3(T.u[i])*(1-fr)+V3(T.u[i+1])*fr, a=V3(T.a[i])*(1-fr)+V3(T.a[i+1])*fr; return lienard_u(T.q,X(fr),u,a,O); };
    auto h=[&](LD fr) { return (LD)T.t[i]*(1-fr)+(LD)T.t[i+1]*fr+(O-X(fr)).n()/cc-(LD)tobs; };
    LD a0=0,a1=1; for (int k=0;k<200;k++) { LD m=0.5L*(a0+a1); if (h(m)>0) a1=m; else a0=m; } LD fr=0.5L*(a0+a1);
    f=F(fr); LD span=arr(i+1)-arr(i); LD df=eps*4/span; if (df>1e-3L) { skip=true; return f; }
    // closer than 3 trajectory steps the library documents reduced accuracy
    LD step=(V3(T.x[i+1])-V3(T.x[i])).n(); LD R=(O-X(fr)).n();
    if (R<3*step) { skip=true; return f; }
    df+=2e-5L*(step/R)+1e-9L; EB3 f1=F(fr+df), f2=F(fr-df);
    tol=(double)((f1.E-f.E).n()+(f2.E-f.E).n()+1e-10L*f.E.n());
    // (1-beta n) cancels for small angles: relative error eps*gamma^2
    V3 u=V3(T.u[i]); tol+=(double)(f.E.n()*1e-14L*(1+u.n2()));
    // cancellation between the terms
    return f;
}
static void compare(Case& c,ElMagField got,const EB3& f,double tol,int mode,const char* what) {
    const char* kE = mode==1?"C03:E-before-start":"C03:E"; const char* kB= mode==1?"C03:B-before-start":"C03:B";
    if (mode==0) { c.check(got.E().norm()==0 && got.B().norm()==0,"C03:causality","field %g V/m after the last signal of the trajectory",got.E().norm()); return; }
    c.nearv(got.E(),f.E.d(),tol,kE,what); c.nearv(got.B(),f.B.d(),tol/2.99792458e8*1.000001,kB,what);
}

static void make(Rng& r,ChargedParticle& p,int n,double dt,bool longitudinal) {
    TestField f; f.kind=r.ri(0,1); double g=vnorm(p.TrajMomentum(0))+1; double m=g/(1.758820025e11*dt);
    if (!longitudinal) f.B0=r.vec(0.1*m); if (longitudinal||r.coin(0.4)) f.E0=r.vec(0.05*m*3e8*(r.coin(0.3)?1:0.05));
    f.wE=r.uni(-1,1)/dt*0.1; f.wB=r.uni(-1,1)/dt*0.1;
    p.InitVay(dt,&f); for (int i=0;i<n;i++) p.StepVay(&f);
}
static double pick_time(Rng& r,ChargedParticle& p,Vector obs) {
    int n=p.getNP(); auto arr=[&](int i){ return p.TrajTime(i)+vnorm(obs-p.TrajPoint(i))/(double)cc; };
    int w=r.ri(0,9); double a=arr(0), b=arr(n-1);
    if (w==0) return a-r.logu(1e-13,1e-8); if (w==1) return b+r.logu(1e-13,1e-8);
    if (w==2&&n>2) { int i=r.ri(0,n-2); return arr(i)+(arr(i+1)-arr(i))*r.uni(1e-3,1e-2); }
    if (w==3&&n>1) { return arr(n-2)+(b-arr(n-2))*r.u(); } if (w==4&&n>1) return a+(arr(1)-a)*r.u();
    return r.uni(a,b);
}
VF_GROUP(tracked,200,3000) {
    Rng& r=c.rng; double k=r.logu(1,1e6); ChargedParticle p(r.coin(0.7)?-k:k,k); double dt=r.logu(1e-14,1e-12);
    double ubg=r.coin(0.3)?r.logu(1e-3,0.5):r.logu(0.5,60); double t0=r.coin(0.4)?0:r.uni(-1,1)*r.logu(1e-12,1e-8);
    p.initTrajectory(t0,r.vec(r.coin()?0.0:0.5),r.dir()*ubg,VectorZero); int n=r.coin(0.1)?0:(r.coin(0.2)?1:r.ri(2,120)); if (c.idx%40==17) { n=r.ri(1100,5000); c.count("long_trajectories"); } bool lng=r.coin(0.35);
    make(r,p,n,dt,lng); Tr T=rec(p);
    for (int j=0;j<8;j++) { Vector obs=p.TrajPoint(r.ri(0,n))+r.dir()*(r.logu(1e-2,10)); 
        if (r.coin(0.2)) { Vector d=p.TrajMomentum(n); d.normalize(); obs=p.TrajPoint(n)+d*r.logu(0.1,5)+r.vec(1e-2); }
        double t=pick_time(r,p,obs); int mode; double tol; bool skip; EB3 f=ref_field(T,t,obs,mode,tol,skip); if (skip) { c.count("skipped_illconditioned"); continue; }
        ElMagField got=p.RetardedField(t,obs); compare(c,got,f,tol,mode,"Lienard-Wiechert field of a tracked particle");
        c.count(mode==0?"after_end":mode==1?"before_start":"inside"); if (mode==2 && lng) c.count("inside_with_longitudinal_acceleration");
        if (mode==2) c.nontrivial(mix(r.s,j));
        if (mode==2) c.sample("q=%g C steps=%d dt=%g t_obs=%g R=%g |E| got %.10g ref %.10g",p.getCharge(),n,dt,t,vnorm(obs-p.TrajPoint(0)),got.E().norm(),(double)f.E.n()); }
}
// uniform motion: compare with Heaviside's closed form - independent of retardation bookkeeping, across the start of the trajectory
VF_GROUP(uniform,120,2000) {
    Rng& r=c.rng; double beta=r.coin(0.15)?0.0:r.uni(0.0,0.995); double g=1/sqrt(1-beta*beta); Vector d=r.dir(); double k=r.logu(1,1e8)*r.sgn();
    double t0=r.coin(0.3)?0:r.uni(-1e-8,1e-8), dt=r.logu(1e-12,1e-10); int n=r.ri(0,50); Vector x0=r.vec(0.3);
    ChargedParticle p(k,fabs(k)); Vector u=d*(beta*g); p.initTrajectory(t0,x0,u,VectorZero); HomogeneousField none; p.InitVay(dt,&none); for (int i=0;i<n;i++) p.StepVay(&none);
    if (r.coin(0.3)) { ChargedParticle e(k,fabs(k)); for (int i=0;i<=n;i++) { if (i==0) e.initTrajectory(t0,x0,u,VectorZero); else e.storeTrajectoryPoint(t0+i*dt,x0+u*(2.99792458e8/g*i*dt),u,VectorZero); } p=e; }
    for (int j=0;j<6;j++) { Vector obs=x0+r.dir()*r.logu(0.05,3); double t=pick_time(r,p,obs); Tr T=rec(p); int mode; double tol; bool skip; ref_field(T,t,obs,mode,tol,skip); if (skip) continue;
        ElMagField got=p.RetardedField(t,obs);
        if (mode==0) { compare(c,got,EB3(),0,0,""); c.count("after_end"); continue; }
        V3 D(d); V3 R=V3(obs)-(V3(x0)+D*(cc*beta*((LD)t-t0))); LD pl=R.dot(D); LD s2=R.n2()-pl*pl; LD q=(LD)k*ec;
        LD den=powl((LD)g*g*pl*pl+s2,1.5L); EB3 f; f.E=R*(q*g/(4*pi*eps0*den)); f.B=(D*beta).cross(f.E)/cc;
        double tl=(double)f.E.n()*(1e-9*g*g+1e-9)+tol; compare(c,got,f,tl,mode,"field of a uniformly moving charge (Heaviside)"); c.count(mode==1?"before_start":"inside"); c.nontrivial(mix(r.s,j)); }
}
// translation / rotation / charge scaling: same physics
VF_GROUP(covariance,40,500) {
    Rng& r=c.rng; double dt=1e-13; int n=r.ri(2,40); ChargedParticle p(-1,1); p.initTrajectory(0,r.vec(0.1),r.dir()*r.logu(0.1,20),VectorZero); make(r,p,n,dt,r.coin()); 
    Vector obs=p.TrajPoint(0)+r.dir()*r.uni(0.1,2); double t=pick_time(r,p,obs); { Tr T=rec(p); int mode; double tol; bool skip; ref_field(T,t,obs,mode,tol,skip); if (skip) return; }
    ElMagField a=p.RetardedField(t,obs);
    Vector sx=r.vec(1); double st=r.uni(-1e-9,1e-9), k=r.logu(0.1,1e5); ChargedParticle q(-k,k);
    for (int i=0;i<=n;i++) if (i==0) q.initTrajectory(p.TrajTime(0)+st,p.TrajPoint(0)+sx,p.TrajMomentum(0),p.TrajAccel(0)); else q.storeTrajectoryPoint(p.TrajTime(i)+st,p.TrajPoint(i)+sx,p.TrajMomentum(i),p.TrajAccel(i));
    { Tr T=rec(q); int mode; double tol; bool skip; EB3 f=ref_field(T,t+st,obs+sx,mode,tol,skip); if (skip) return; 
    ElMagField b=q.RetardedField(t+st,obs+sx); double s=a.E().norm()*k; c.nearv(b.E(),a.E()*k,2*tol+1e-7*s,"C03:translation-E","field after shifting particle and observer in space and time");
    c.nearv(b.B(),a.B()*k,(2*tol+1e-7*s)/3e8,"C03:translation-B","field after shifting particle and observer in space and time"); c.count("covariance"); }
    c.nontrivial(r.s);
}
VF_GROUP(empty,10,20) { Rng& r=c.rng; ChargedParticle p(-1,1); bool th=false; try { p.RetardedField(r.u(),r.vec(1)); } catch (std::exception&) { th=true; } c.check(th,"C03:uninitialised","field of a particle without trajectory was not rejected"); }
int main(int a,char**b) { return vf::main(a,b); }
