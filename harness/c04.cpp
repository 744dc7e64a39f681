// C04: time-integrated observation: every bin holds the bin average of the field, nothing lost or counted twice
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;
struct Tr { double q; std::vector<double> t; std::vector<Vector> x,u,a; };
static Tr rec(ChargedParticle& p) { Tr T; T.q=p.getCharge(); for (int i=0;i<p.getNP();i++) { T.t.push_back(p.TrajTime(i)); T.x.push_back(p.TrajPoint(i)); T.u.push_back(p.TrajMomentum(i)); T.a.push_back(p.TrajAccel(i)); } return T; }

struct RefTrace { std::vector<EB3> v; std::vector<double> tolE; bool skip=false; LD total_overlap=0; long segs=0,partial=0,full=0; double peak=0; };
static LD arrival(const Tr& T,int i,const Vector& obs) { return (LD)T.t[i]+(V3(obs)-V3(T.x[i])).n()/cc; }

static void ref_trace(const Tr& T,const Vector& obs,double t0,double dt,int N,RefTrace& R) {
    R.v.resize(N); R.tolE.resize(N,0.0); int n=T.t.size(); if (n<2) return;
    LD tmin=(LD)t0-0.5L*dt, tmax=(LD)t0+((LD)N-0.5L)*dt;
    for (int i=0;i+1<n;i++) {
        LD a=arrival(T,i,obs), b=arrival(T,i+1,obs); LD eps=6e-16L*(fabsl(a)+fabsl(b)+fabsl((LD)T.t[i])+fabsl((LD)t0)+fabsl(tmax)+(V3(obs).n()+V3(T.x[i]).n())/cc);
        if (b<=tmin-4*eps||a>=tmax+4*eps) continue;
        LD d=b-a; if (d<=0 || eps/d>1e-5L) { R.skip=true; return; }
        EB3 f1=lienard_u(T.q,V3(T.x[i]),V3(T.u[i]),V3(T.a[i]),V3(obs)), f2=lienard_u(T.q,V3(T.x[i+1]),V3(T.u[i+1]),V3(T.a[i+1]),V3(obs));
        LD g2=1+V3(T.u[i]).n2(); LD fm=f1.E.n()+f2.E.n();
        R.segs++; if (a<tmin||b>tmax) R.partial++;
        LD lo=a>tmin?a:tmin, hi=b<tmax?b:tmax;
        int k0=(int)floorl((lo-tmin)/dt)-1, k1=(int)floorl((hi-tmin)/dt)+1; if (k0<0) k0=0; if (k1>N-1) k1=N-1;
        for (int k=k0;k<=k1;k++) { LD s=tmin+(LD)k*dt, e=s+dt; LD x=lo>s?lo:s, y=hi<e?hi:e; if (y<=x) { R.tolE[k]+=(double)(fm*4*eps/dt); continue; }
            LD m=0.5L*(x+y); EB3 f=f1*((b-m)/d)+f2*((m-a)/d); R.v[k]=R.v[k]+f*((y-x)/dt); R.total_overlap+=(y-x);
            R.tolE[k]+=(double)(fm*((y-x)/dt*(1e-12L+1e-14L*g2+4*eps/d)+8*eps/dt)); if (y-x>0.999999L*dt) R.full++; }
    }
    for (int k=0;k<N;k++) R.peak=fmax(R.peak,(double)R.v[k].E.n());
}
static void compare(Case& c,FieldTrace& tr,const RefTrace& R,const char* what) {
    int N=tr.get_N(); 
    for (int k=0;k<N;k++) { ElMagField f=tr.get_field((std::size_t)k);
        c.nearv(f.E(),R.v[k].E.d(),R.tolE[k],"C04:E",what); c.nearv(f.B(),R.v[k].B.d(),R.tolE[k]/2.9979e8*1.01,"C04:B",what); c.count("bins_checked"); if (R.v[k].E.n()>0) c.count("bins_nonzero"); }
}
static void make(Rng& r,ChargedParticle& p,int n,double dt) {
    TestField f; f.kind=r.ri(0,1); double g=vnorm(p.TrajMomentum(0))+1; double m=g/(1.758820025e11*dt);
    if (r.coin(0.8)) f.B0=r.vec(0.1*m); if (r.coin(0.4)) f.E0=r.vec(0.02*m*3e8); f.wE=r.uni(-1,1)/dt*0.1; f.wB=r.uni(-1,1)/dt*0.1;
    p.InitVay(dt,&f); for (int i=0;i<n;i++) p.StepVay(&f);
}
VF_GROUP(window,200,3000) {       // windows before, inside, around, after; bins finer and coarser than the steps
    Rng& r=c.rng; double k=r.logu(1,1e6); ChargedParticle p(r.coin(0.7)?-k:k,k); double dtt=r.logu(1e-14,1e-12); int n=r.coin(0.1)?1:r.ri(2,80);
    p.initTrajectory(r.coin(0.5)?0:r.uni(-1e-9,1e-9),r.vec(0.1),r.dir()*r.logu(1e-2,r.coin()?2.0:60),VectorZero); make(r,p,n,dtt); Tr T=rec(p);
    Vector obs=p.TrajPoint(r.ri(0,n))+r.dir()*r.logu(0.05,5); if (r.coin(0.2)) { Vector d=p.TrajMomentum(n); d.normalize(); obs=p.TrajPoint(n)+d*r.logu(0.1,5)+r.vec(2e-2); }
    double a=(double)arrival(T,0,obs), b=(double)arrival(T,n,obs); double span=b-a; double t0,dt; int N=r.ri(2,200);
    switch (r.ri(0,6)) {
        case 0: dt=span/N*1.3; t0=a-0.15*span; break;               // covers everything
        case 1: dt=span/n*r.logu(0.01,0.3); t0=r.uni(a,b); break;   // many bins per step
        case 2: dt=span*r.uni(0.2,3); N=r.ri(2,6); t0=a-dt*r.uni(0,2); break;  // several steps per bin
        case 3: dt=span/n/N*r.uni(0.1,0.9); t0=r.uni(a,b); break;   // whole trace within one step
        case 4: dt=span/N; t0=b-span*0.2; break;                   // leaves the window
        case 5: dt=span/N; t0=a-span*0.8; break;                   // enters the window
        default: dt=span/N; t0=r.coin()?b+span:a-3*span; break;     // misses entirely
    }
    RefTrace R; ref_trace(T,obs,t0,dt,N,R); if (R.skip) { c.count("skipped_illconditioned"); return; }
    FieldTrace tr(t0,dt,N); p.integrateFieldTrace(obs,&tr); compare(c,tr,R,"bin average of the observed field");
    if (R.segs) c.nontrivial(r.s); c.count("segments",R.segs); c.count("clipped_segments",R.partial);
    if (R.segs) c.sample("steps=%d N=%d dt=%g t0-a=%g span=%g segments=%ld clipped=%ld full bins=%ld peak=%g",n,N,dt,t0-a,span,R.segs,R.partial,R.full,R.peak);
    // existing content of the trace is kept: adding twice doubles
    if (r.coin(0.3)) { p.integrateFieldTrace(obs,&tr); for (int i=0;i<N;i++) { ElMagField f=tr.get_field((std::size_t)i); c.nearv(f.E(),(R.v[i].E*2).d(),2*R.tolE[i],"C04:accumulate","second pass adds to the trace"); } }
}
// conservation: the same signal seen through different sampling carries the same time integral; window sums are additive
VF_GROUP(conservation,80,1000) {
    Rng& r=c.rng; ChargedParticle p(-1,1); double dtt=r.logu(1e-14,1e-12); int n=r.ri(2,60); p.initTrajectory(0,r.vec(0.1),r.dir()*r.logu(1e-2,30),VectorZero); make(r,p,n,dtt); Tr T=rec(p);
    Vector obs=p.TrajPoint(0)+r.dir()*r.logu(0.1,5); double a=(double)arrival(T,0,obs), b=(double)arrival(T,n,obs), span=b-a;
    EB3 I; double fs=0; for (int i=0;i<n;i++) { EB3 f1=lienard_u(T.q,V3(T.x[i]),V3(T.u[i]),V3(T.a[i]),V3(obs)), f2=lienard_u(T.q,V3(T.x[i+1]),V3(T.u[i+1]),V3(T.a[i+1]),V3(obs)); LD d=arrival(T,i+1,obs)-arrival(T,i,obs); I=I+(f1+f2)*(0.5L*d); fs+=(double)((f1.E.n()+f2.E.n())*d); if (2e-24L*1e4>d) { c.count("skipped_illconditioned"); return; } }
    double eps=1e-13*(fabs(a)+fabs(b)+vnorm(obs)/3e8)/span*n;
    double parts=0; 
    for (int j=0;j<3;j++) { int N=r.ri(2,300); double dt=span*r.uni(1.05,3)/(N-1.0); double t0=a-dt*0.5*r.u()+0.5*dt*0; if (t0+dt*(N-0.5)<b) t0=a; 
        FieldTrace tr(t0,dt,N); p.integrateFieldTrace(obs,&tr); Vector s=VectorZero; for (int k=0;k<N;k++) s+=tr.get_field((std::size_t)k).E()*dt;
        c.nearv(s,I.E.d(),fs*(1e-10+eps),"C04:integral","time integral of the observed field"); c.count("integrals"); }
    // split a window in two adjacent traces
    int N1=r.ri(2,50),N2=r.ri(2,50); double dt=span/(N1+N2)*r.uni(0.3,2), t0=a+span*r.uni(-0.5,0.5);
    FieldTrace A(t0,dt,N1+N2), B1(t0,dt,N1), B2(t0+N1*dt,dt,N2); p.integrateFieldTrace(obs,&A); p.integrateFieldTrace(obs,&B1); p.integrateFieldTrace(obs,&B2);
    RefTrace R; ref_trace(T,obs,t0,dt,N1+N2,R); if (R.skip) return;
    for (int k=0;k<N1+N2;k++) { Vector g=k<N1?B1.get_field((std::size_t)k).E():B2.get_field((std::size_t)(k-N1)).E(); c.nearv(g,A.get_field((std::size_t)k).E(),2*R.tolE[k]+1e-13*R.peak,"C04:split","adjacent windows reproduce the long window"); c.count("bins_checked"); }
    c.nontrivial(r.s);
}
// exact alignment of arrival times with bin edges must neither fail nor lose the contribution
VF_GROUP(aligned,300,4000) {
    Rng& r=c.rng; ChargedParticle p(-1,1); double dt=ldexp(1.0,-r.ri(36,46)); int n=r.ri(1,12); double t0=dt*r.ri(-40,40)*0.5; 
    double off=r.coin(0.7)?0.0:dt*0.5; if (r.coin(0.3)) { dt=r.ri(1,9)*1e-13; t0=r.ri(-20,20)*dt*0.5; off=r.coin()?0:dt*0.5; }
    int N=r.ri(2,20); double R=(double)cc*dt*r.ri(200,5000); 
    for (int i=0;i<=n;i++) { double t=off+i*dt*r.pick(std::vector<double>{0.5,1.0,1.0,2.0}); if (i>0 && t<=p.TrajTime(i-1)) t=p.TrajTime(i-1)+dt; if (i==0) p.initTrajectory(t,VectorZero,VectorZero,VectorZero); else p.storeTrajectoryPoint(t,VectorZero,VectorZero,VectorZero); }
    Vector obs(R,0,0); if (r.coin()) obs=Vector(0,R*0.6,R*0.8);
    Tr T=rec(p); double arr=R/(double)cc; double start=arr+(t0-(double)0); 
    switch (r.ri(0,3)) { case 0: start=p.TrajTime(0)+arr+0.5*dt; break; case 1: start=p.TrajTime(n)+arr-(N-0.5)*dt; break; case 2: start=p.TrajTime(r.ri(0,n))+arr-(N-0.5)*dt; break; default: break; }
    if (r.coin(0.3)) start=nextafter(start,r.coin()?1e9:-1e9);
    FieldTrace tr(start,dt,N); 
    try { p.integrateFieldTrace(obs,&tr); } catch (std::exception& e) { c.check(false,"C04:edge-exception","observation window aligned with an arrival time is refused: %s (t0=%.17g dt=%.17g N=%d R=%.17g)",e.what(),start,dt,N,R); return; }
    RefTrace F; ref_trace(T,obs,start,dt,N,F); if (F.skip) return; compare(c,tr,F,"bin average, arrival times on bin edges"); c.count("aligned"); c.nontrivial(r.s);
}
// a segment starting one rounding step inside either end of the window
VF_GROUP(ulp,100,600) {
    Rng& r=c.rng; 
    for (int tries=0;tries<4000;tries++) { double dt=r.pick(std::vector<double>{1,2,3,5,7,9,1.5,2.5})*pow(10,-r.ri(11,15)); if (r.coin()) dt*=r.u(); int N=r.ri(2,2000);
        double t0=r.pick(std::vector<double>{0.0,dt*r.ri(1,2000),r.u()*1e-8}); double tmin=t0-dt*0.5,tmax=t0+dt*((double)N-0.5); 
        double hi=nextafter(tmax,-1), lo=nextafter(tmin,1); bool h=round((hi-t0)/dt)>=N, l=round((lo-t0)/dt)<0; if (!h && !l && tries<3990) continue; double ts=l?lo:hi; if (!h&&!l) ts=r.coin()?lo:hi;
        double R=1e-3, back=R/2.99792458e8, T=ts-back; Vector obs(R,0,0); for (int k=-3;k<=3;k++) { double TT=T; for (int j=0;j<abs(k);j++) TT=nextafter(TT,k>0?1:-1); if (TT+R/2.99792458e8==ts) { T=TT; break; } }
        if (T+back!=ts) continue;
        ChargedParticle p(-1,1); p.initTrajectory(T,VectorZero,VectorZero,VectorZero); p.storeTrajectoryPoint(T+dt*r.uni(0.1,3),VectorZero,VectorZero,VectorZero); if (r.coin()) p.storeTrajectoryPoint(p.TrajTime(1)+dt,VectorZero,VectorZero,VectorZero);
        FieldTrace tr(t0,dt,N);
        try { p.integrateFieldTrace(obs,&tr); } catch (std::exception& e) { c.check(false,"C04:edge-exception","signal starting one rounding step inside the observation window is refused: %s (t0=%.17g dt=%.17g N=%d arrival=%.17g)",e.what(),t0,dt,N,ts); return; }
        Tr T2=rec(p); RefTrace F; ref_trace(T2,obs,t0,dt,N,F); if (F.skip) return; compare(c,tr,F,"bin average, signal starting at the window edge"); c.count("edge_starts"); if (h||l) c.nontrivial(r.s); return; }
}
VF_GROUP(trivial,30,100) {        // no trajectory or a single point radiates nothing
    Rng& r=c.rng; ChargedParticle p(-1,1); FieldTrace tr(0,1e-12,r.ri(2,50)); if (r.coin()) p.initTrajectory(0,r.vec(1),r.vec(1),r.vec(1)); Vector o=r.vec(2); p.integrateFieldTrace(o,&tr);
    for (std::size_t k=0;k<tr.get_N();k++) c.check(tr.get_field(k).isNull(),"C04:trivial","field from a particle without a step"); c.count("bins_checked"); }
int main(int a,char**b) { return vf::main(a,b); }
