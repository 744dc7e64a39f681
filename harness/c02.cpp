// C02: recorded trajectories are complete, ordered, independent and interpolated correctly
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;

struct Pt { double t; Vector x,u,a; };
static Pt at(ChargedParticle& p,int i) { Pt r; r.t=p.TrajTime(i); r.x=p.TrajPoint(i); r.u=p.TrajMomentum(i); r.a=p.TrajAccel(i); return r; }
static bool same(const Pt&a,const Pt&b) { return a.t==b.t && a.x.x==b.x.x&&a.x.y==b.x.y&&a.x.z==b.x.z && a.u.x==b.u.x&&a.u.y==b.u.y&&a.u.z==b.u.z && a.a.x==b.a.x&&a.a.y==b.a.y&&a.a.z==b.a.z; }
static void genf(Rng& r,TestField& f,double dt) { f.kind=r.ri(0,2); double m=1.0/(1.758820025e11*fabs(dt)); f.E0=r.vec(0.05*m*3e8); f.B0=r.vec(0.2*m); f.wE=r.uni(-1e11,1e11); f.wB=r.uni(-1e11,1e11); f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }

// reference interpolation: linear between bracketing points; zero outside
static void ref_at(const std::vector<Pt>& T,double t,Vector& x,Vector& u,bool& edge) {
    x=Vector(0,0,0); u=x; edge=false; int n=T.size(); if (n==0 || t<T[0].t || t>T[n-1].t) return;
    if (n==1) { x=T[0].x; u=T[0].u; return; }
    for (int i=0;i+1<n;i++) if (t>=T[i].t && t<=T[i+1].t) { double d=T[i+1].t-T[i].t; double f=d>0?(t-T[i].t)/d:1; x=T[i].x*(1-f)+T[i+1].x*f; u=T[i].u*(1-f)+T[i+1].u*f; return; }
}
static void check_interp(Case& c,ChargedParticle& p,const std::vector<Pt>& T) {
    Rng& r=c.rng; int n=T.size(); 
    for (int k=0;k<14;k++) { double t; int w=k<12?r.ri(0,7):8;
        if (n==0) t=r.uni(-1,1); else if (w==0) t=T[0].t; else if (w==1) t=T[n-1].t; else if (w==2) t=T[r.ri(0,n-1)].t;
        else if (w==3) t=T[0].t-fabs(T[0].t)*1e-3-1e-13; else if (w==4) t=T[n-1].t+fabs(T[n-1].t)*1e-3+1e-13;
        else if (w==8 && n>1) { int i=r.coin()?n-2:r.coin()?0:r.ri(0,n-2); double q=r.logu(1e-4,0.5); if (r.coin()) q=1-q; t=T[i].t+(T[i+1].t-T[i].t)*q; }    // close to a stored point
        else t=r.uni(T[0].t,T[n-1].t);
        Vector x(9,9,9),u(9,9,9),rx,ru; bool e; p.CoordinatesAtTime(t,&x,&u); ref_at(T,t,rx,ru,e);
        double sx=0,su=0; for (auto& q:T) { sx=fmax(sx,vnorm(q.x)); su=fmax(su,vnorm(q.u)); }
        double rx_=0,ru_=0; for (int i=0;i+1<n;i++) if (T[i].t<=t && t<=T[i+1].t) { double q=1e-14*fmax(fabs(T[i].t),fabs(T[i+1].t))/(T[i+1].t-T[i].t); rx_=fmax(rx_,q*vnorm(T[i+1].x-T[i].x)); ru_=fmax(ru_,q*vnorm(T[i+1].u-T[i].u)); }
        c.nearv(x,rx,1e-13*sx+rx_,"C02:interp-position","position at a given time"); c.nearv(u,ru,1e-13*su+ru_,"C02:interp-momentum","momentum at a given time");
        c.count("interpolations"); }
}

VF_GROUP(history,120,2000) {     // tracked particle: one point per step, times t0+k dt, any preallocation
    Rng& r=c.rng; double dt=r.logu(1e-15,1e-11); TestField f; genf(r,f,dt); double t0=r.coin(0.3)?0:r.uni(-1e-8,1e-8);
    Vector x0=r.vec(1), u0=r.dir()*r.logu(1e-2,300); bool lng=c.idx%25==8; int n=lng?r.ri(1200,4000):r.ri(0,80); if (lng) c.count("long_histories");
    double q=r.coin()?-1:2, m=r.logu(1,5);
    ChargedParticle p(q,m); int pre=r.ri(0,3); if (pre==1) p.preAllocate(n+1); if (pre==2) p.preAllocate(r.ri(0,n/2+1));
    ChargedParticle p3(q,m,n+1); ChargedParticle* pp=(pre==3)?&p3:&p;
    c.check(pp->getNP()==0,"C02:empty","fresh particle has %d points",pp->getNP());
    pp->initTrajectory(t0,x0,u0,r.vec(1)); pp->InitVay(dt,&f);
    std::vector<Pt> live; live.push_back({pp->getTime(),pp->getPosition(),pp->getMomentum(),pp->getAccel()});
    for (int i=0;i<n;i++) { pp->StepVay(&f); live.push_back({pp->getTime(),pp->getPosition(),pp->getMomentum(),pp->getAccel()}); 
        if (i==n/2) { c.check(pp->getNP()==i+2,"C02:count","%d points after %d steps",pp->getNP(),i+1); if (r.coin(0.3)) pp->preAllocate(n*2+5); } }
    c.check(pp->getNP()==n+1,"C02:count","%d points after %d steps",pp->getNP(),n);
    std::vector<Pt> T; for (int i=0;i<pp->getNP();i++) T.push_back(at(*pp,i));
    for (int i=0;i<(int)T.size() && i<(int)live.size();i++) { c.check(same(T[i],live[i]),"C02:stale","point %d of %d is not the state the particle had after that step",i,n);
        c.near(T[i].t,t0+i*dt,1e-14*(fabs(t0)*(i+1)+i*dt*(1+i*0.1)),"C02:time","time of a trajectory point"); c.count("points_checked"); }
    c.check(throws([&]{pp->TrajTime(-1);})&&throws([&]{pp->TrajPoint(pp->getNP());})&&throws([&]{pp->TrajMomentum(pp->getNP());})&&throws([&]{pp->TrajAccel(-1);})&&throws([&]{pp->TrajTime(pp->getNP());})&&throws([&]{pp->TrajAccel(pp->getNP());}),
        "C02:range","access outside the trajectory was not rejected");
    check_interp(c,*pp,T);
    // copying keeps everything and detaches
    ChargedParticle cp(pp); bool okc=cp.getNP()==pp->getNP(); for (int i=0;okc && i<cp.getNP();i++) okc=same(at(cp,i),T[i]);
    c.check(okc,"C02:copy","copy of a particle differs from its origin"); c.check(cp.getCharge()==pp->getCharge(),"C02:copy","copy charge");
    cp.StepVay(&f); pp->StepVay(&f); c.check(same(at(cp,n+1),at(*pp,n+1)),"C02:copy-continue","copy continues differently from its origin");
    c.check(pp->getNP()==n+2 && cp.getNP()==n+2,"C02:copy","copy shares state with its origin");
    // a re-initialised particle forgets the old trajectory
    pp->initTrajectory(5e-9,x0*2,u0*0.5,VectorZero); c.check(pp->getNP()==1 && pp->TrajTime(0)==5e-9,"C02:reinit","initTrajectory left old points");
    c.nearv(pp->getPosition(),x0*2,0,"C02:reinit","position after initTrajectory"); c.nearv(pp->TrajPoint(0),x0*2,0,"C02:reinit","first point after initTrajectory");
    pp->InitVay(dt,&f); pp->StepVay(&f); ChargedParticle fr(q,m); fr.initTrajectory(5e-9,x0*2,u0*0.5,VectorZero); fr.InitVay(dt,&f); fr.StepVay(&f);
    c.check(pp->getNP()==2 && same(at(*pp,1),at(fr,1)),"C02:reinit","re-initialised particle tracks differently from a fresh one");
    cp.clearTrajectory(); c.check(cp.getNP()==0,"C02:clear","clearTrajectory left %d points",cp.getNP());
    { int k=r.ri(1,4); std::vector<Pt> N; for (int i=0;i<k;i++) { Pt g=T[r.ri(0,(int)T.size()-1)]; g.t=i*1e-12; g.a=r.vec(1e9); cp.storeTrajectoryPoint(g.t,g.x,g.u,g.a); N.push_back(g); }
      bool oks=cp.getNP()==k; for (int i=0;oks&&i<k;i++) oks=same(at(cp,i),N[i]); c.check(oks,"C02:clear","points stored after clearTrajectory are not what is read back (%d of %d)",cp.getNP(),k); }
    if (n>1) c.nontrivial(r.s);
    c.sample("steps=%d prealloc mode=%d dt=%g t0=%g final x=(%g,%g,%g)",n,pre,dt,t0,T.back().x.x,T.back().x.y,T.back().x.z);
}

VF_GROUP(explicit_points,80,1200) {   // trajectory given point by point, also irregular times
    Rng& r=c.rng; int n=c.idx%25==8?r.ri(1200,4000):r.ri(0,40); ChargedParticle p(-1,1); std::vector<Pt> T; double t=r.uni(-1e-9,1e-9);
    for (int i=0;i<n;i++) { Pt q; q.t=t; q.x=r.vec(1); q.u=r.vec(10); q.a=r.vec(1e9); t+=r.logu(1e-14,1e-12);
        if (i==0 && r.coin()) p.initTrajectory(q.t,q.x,q.u,q.a); else p.storeTrajectoryPoint(q.t,q.x,q.u,q.a); T.push_back(q); }
    c.check(p.getNP()==n,"C02:count","%d points after storing %d",p.getNP(),n);
    for (int i=0;i<n && i<p.getNP();i++) { c.check(same(at(p,i),T[i]),"C02:stored","stored point %d altered",i); c.count("points_checked"); }
    check_interp(c,p,T); if (n>2) c.nontrivial(r.s);
}

VF_GROUP(independence,50,800) {       // one particle's trajectory does not depend on who else is tracked, nor on the beam layout
    Rng& r=c.rng; double dt=r.logu(1e-14,1e-12); TestField f; genf(r,f,dt); int np=r.ri(2,12), n=r.ri(1,30); if (c.idx%25==8) { np=r.ri(150,400); n=r.ri(1,4); c.count("large_bunches"); }
    std::vector<double> q,m; std::vector<Vector> x,u; std::vector<double> t;
    for (int i=0;i<np;i++) { double k=r.logu(1,1e4); q.push_back(r.coin()?-k:k); m.push_back(k); x.push_back(r.vec(1)); u.push_back(r.dir()*r.logu(0.1,100)); t.push_back(r.coin()?0:r.uni(-1e-9,1e-9)); }
    auto mk=[&](int i){ ChargedParticle* p=new ChargedParticle(q[i],m[i]); p->initTrajectory(t[i],x[i],u[i],VectorZero); return p; };
    Beam beam; int nb=r.ri(1,4); std::vector<Bunch*> bs; for (int b=0;b<nb;b++) { bs.push_back(new Bunch()); beam.Add(bs[b]); }
    std::vector<ChargedParticle*> all; for (int i=0;i<np;i++) { auto p=mk(i); all.push_back(p); bs[i%nb]->Add(p); }
    c.check(beam.getNOP()==np && beam.getNOB()==nb,"C02:count","beam counts %d particles, %d bunches (%d, %d added)",beam.getNOP(),beam.getNOB(),np,nb);
    if (r.coin()) beam.preAllocate(n+1);
    beam.setTrackingMethod(TRACKING_VAY); beam.setTimeStep(dt); beam.setNOTS(r.ri(0,50)); beam.setupTracking(&f); c.check(beam.getNOTS()==0,"C02:nots","%d steps counted before the first one",beam.getNOTS());
    Bunch twin(bs[0]);                // copied bunch tracked separately
    // a second beam follows the first one through step buffers (as the parallel program does)
    Beam mirror; for (int b=0;b<nb;b++) { Bunch* B=new Bunch(); for (int i=0;i<bs[b]->getNOP();i++) B->Add(new ChargedParticle(bs[b]->getParticle(i))); mirror.Add(B); }
    std::vector<double> buf(beam.getStepBufferSize()+1,-77.25);
    c.check(beam.getStepBufferSize()==10*np,"C02:bufsize","step buffer size %d for %d particles",beam.getStepBufferSize(),np);
    for (int s=0;s<n;s++) { beam.doStep(&f); twin.StepVay(&f); beam.bufferStep(buf.data()); c.check(buf[10*np]==-77.25,"C02:bufover","step buffer overrun"); mirror.setStepFromBuffer(buf.data()); }
    c.check(mirror.getNOTS()==n,"C02:nots","follower beam counts %d steps",mirror.getNOTS());
    for (int i=0;i<np;i++) { ChargedParticle* s=mk(i); s->InitVay(dt,&f); for (int k=0;k<n;k++) s->StepVay(&f);
        c.check(all[i]->getNP()==n+1,"C02:count","particle %d has %d points after %d steps",i,all[i]->getNP(),n);
        for (int k=0;k<=n && k<all[i]->getNP();k++) { c.check(same(at(*all[i],k),at(*s,k)),"C02:independence","particle %d point %d differs from the particle tracked alone",i,k); c.count("points_checked"); }
        ChargedParticle* mp=mirror.getBunch(i%nb)->getParticle(i/nb);
        c.check(mp->getNP()==n+1,"C02:follow","follower has %d points",mp->getNP());
        for (int k=0;k<=n && k<mp->getNP();k++) c.check(same(at(*mp,k),at(*s,k)),"C02:follow","point %d restored from the step buffer differs",k);
        c.check(mp->getTime()==s->getTime() && mp->getPosition().x==s->getPosition().x && mp->getMomentum().z==s->getMomentum().z && mp->getAccel().y==s->getAccel().y,"C02:follow","current state restored from the step buffer differs");
        if (i%nb==0) { ChargedParticle* tp=twin.getParticle(i/nb); c.check(tp->getNP()==n+1 && same(at(*tp,n),at(*s,n)),"C02:twin","copied bunch tracks differently"); }
        delete s; }
    c.check(beam.getBunch(nb)==0 && beam.getBunch(-1)==0 && bs[0]->getParticle(bs[0]->getNOP())==0 && bs[0]->getParticle(-1)==0,"C02:range","out of range access returned an object");
    // restart: clearing the trajectories keeps particles but drops points
    beam.clearTrajectories(); for (auto p:all) c.check(p->getNP()==0,"C02:clear","clearTrajectories left points"); c.check(beam.getNOTS()==0,"C02:clear","step counter not reset");
    c.check(throws([&]{ beam.setupTracking(&f); }),"C02:uninit","tracking without initial coordinates accepted");
    // an emptied beam holds nothing and can be filled and tracked again
    { beam.clear(); c.check(beam.getNOB()==0 && beam.getNOP()==0 && beam.getNOTS()==0 && beam.getBunch(0)==0 && beam.getTotalCharge()==0,"C02:clear-beam","cleared beam reports %d bunches, %d particles, %d steps",beam.getNOB(),beam.getNOP(),beam.getNOTS());
      Bunch* nb2=new Bunch(); ChargedParticle* p=mk(0); nb2->Add(p); beam.Add(nb2); ChargedParticle* s=mk(0); beam.setupTracking(&f); s->InitVay(dt,&f); int n2=r.ri(1,4); for (int k=0;k<n2;k++) { beam.doStep(&f); s->StepVay(&f); }
      c.check(beam.getNOTS()==n2 && beam.getNOP()==1 && p->getNP()==n2+1,"C02:clear-beam","refilled beam counts %d steps, %d particles after %d steps",beam.getNOTS(),beam.getNOP(),n2); for (int k=0;k<=n2&&k<p->getNP();k++) c.check(same(at(*p,k),at(*s,k)),"C02:clear-beam","particle of a refilled beam tracked differently"); delete s; beam.clear(); c.check(beam.getNOB()==0 && beam.getNOP()==0 && beam.getNOTS()==0,"C02:clear-beam","cleared beam reports %d bunches, %d particles, %d steps",beam.getNOB(),beam.getNOP(),beam.getNOTS()); }
    Beam none; none.Add(new Bunch(2,-1,1)); c.check(throws([&]{ none.setupTracking(&f); }),"C02:nomethod","tracking without a method accepted"); c.check(throws([&]{ none.doStep(&f); }),"C02:nomethod","step without a method accepted");
    none.setTrackingMethod(TRACKING_VAY); c.check(throws([&]{ none.setupTracking(&f); }),"C02:uninit","tracking particles without coordinates accepted");
    c.nontrivial(r.s);
}

VF_GROUP(rechunk,30,400) {            // continuing after InitVay on the last point: points are appended, never replaced
    Rng& r=c.rng; double dt=r.logu(1e-14,1e-12); TestField f; genf(r,f,dt); ChargedParticle p(-1,1); p.initTrajectory(0,r.vec(1),r.dir()*5,VectorZero);
    p.InitVay(dt,&f); int n1=r.ri(1,20),n2=r.ri(1,20); for(int i=0;i<n1;i++) p.StepVay(&f); std::vector<Pt> T; for (int i=0;i<p.getNP();i++) T.push_back(at(p,i));
    TestField g; genf(r,g,dt); double dt2=dt*r.uni(0.3,3); p.InitVay(dt2,&g); for(int i=0;i<n2;i++) p.StepVay(&g);
    c.check(p.getNP()==n1+n2+1,"C02:append","%d points after %d+%d steps",p.getNP(),n1,n2);
    for (int i=0;i<n1;i++) { c.check(same(at(p,i),T[i]),"C02:append","earlier point %d changed when tracking continued",i); c.count("points_checked"); }
    ChargedParticle s(-1,1); s.initTrajectory(T[n1].t,T[n1].x,T[n1].u,VectorZero); s.InitVay(dt2,&g); for (int i=0;i<n2;i++) s.StepVay(&g);
    for (int i=0;i<=n2;i++) { c.check(same(at(p,n1+i),at(s,i)),"C02:continue","continued tracking differs at point %d",i); c.count("points_checked"); }
    c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
