// C17: bunch statistics and the recorded parameter logs
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "logger.h"
#include <complex>
using namespace vf;
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.05*m*3e8); f.B0=r.vec(0.2*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
struct S { double t; Vector x,u; };
struct Stat { LD t=0,gamma=0,delta=0,tmax=0,xmax=0,umax=0,zmax=0; V3 x,u,rms; int n=0; };
// two-pass statistics in extended precision
static Stat stat(const std::vector<S>& P) {
    Stat s; s.n=P.size(); LD N=P.size(), un=0; for (auto& p:P) { s.t+=p.t; s.x=s.x+V3(p.x); s.u=s.u+V3(p.u); s.gamma+=sqrtl(1+V3(p.u).n2()); un+=V3(p.u).n(); s.tmax=fmaxl(s.tmax,fabs(p.t)); s.xmax=fmaxl(s.xmax,fmax(fmax(fabs(p.x.x),fabs(p.x.y)),fabs(p.x.z))); s.umax=fmaxl(s.umax,vnorm(p.u)); s.zmax=fmaxl(s.zmax,fabs(p.x.z)); }
    s.t/=N; s.x=s.x/N; s.u=s.u/N; s.gamma/=N; un/=N; LD d=0; V3 q; for (auto& p:P) { V3 e=V3(p.x)-s.x; q=q+V3(e.x*e.x,e.y*e.y,e.z*e.z); LD w=V3(p.u).n()-un; d+=w*w; }
    s.rms=V3(sqrtl(q.x/N),sqrtl(q.y/N),sqrtl(q.z/N)); s.delta=sqrtl(d/N)/un; return s; }
static std::complex<double> bunching(const std::vector<S>& P,double f) { LD a=0,b=0; for (auto& p:P) { LD ph=2*pi*(LD)f*(LD)p.x.z/cc; a+=cosl(ph); b+=sinl(ph); } return std::complex<double>((double)(a/P.size()),(double)(b/P.size())); }
static double bftol(const Stat& s,double f) { return 1e-13+2e-14*fabs(f)*2*M_PI*(double)s.zmax/3e8; }
struct Gen { std::vector<double> q; int n; Bunch* b; double charge; double dt,g; };
static Gen gen(Rng& r,bool big,bool few=false) {
    Gen G; G.n = r.coin(0.15)?1: r.ri(2,big?(r.coin(0.04)?4000:300):30); if (few) G.n=r.ri(1,4); G.dt=r.logu(1e-15,1e-11); G.g=r.logu(1.001,1e4); G.b=new Bunch(); G.charge=0; bool zeroz=r.coin(0.1);
    Vector X=r.coin(0.2)?VectorZero:r.dir()*r.logu(1e-6,1e3), d=r.dir(); double sx=r.logu(1e-9,1), sp=r.logu(1e-7,1), st=r.coin()?0:r.logu(1e-15,1e-9), T=r.coin(0.3)?0:r.uni(-1,1)*r.logu(1e-12,1e-6); double k=r.coin()?1:r.logu(1,1e8); bool mixed=r.coin(0.3);
    for (int i=0;i<G.n;i++) { double qi=mixed?r.uni(-3,3)*k:-k; ChargedParticle* p=new ChargedParticle(qi,fabs(qi)+0.1); double bg=sqrt(G.g*G.g-1); Vector x=X+r.vec(sx); if (zeroz) x.z=0; p->initTrajectory(T+r.gauss()*st,x,d*bg+r.vec(sp*bg),VectorZero); G.b->Add(p); G.charge+=qi*(double)ec; G.q.push_back(qi); }
    return G; }
static std::vector<S> now(Bunch* b) { std::vector<S> v; for (int i=0;i<b->getNOP();i++) { ChargedParticle* p=b->getParticle(i); int k=p->getNP()-1; v.push_back({p->TrajTime(k),p->TrajPoint(k),p->TrajMomentum(k)}); } return v; }
static void compare(Case& c,Bunch* b,const std::vector<S>& v,Rng& r) {
    Stat s=stat(v); double n=4+v.size(); c.count("bunches_evaluated");
    c.near(b->avgTime(),(double)s.t,1e-15*n*(double)s.tmax,"C17:time","mean time"); c.nearv(b->avgPosition(),s.x.d(),1e-15*n*(double)s.xmax,"C17:position","mean position"); c.nearv(b->avgMomentum(),s.u.d(),1e-15*n*(double)s.umax,"C17:momentum","mean momentum");
    c.nearv(b->rmsPosition(),s.rms.d(),3e-15*n*(double)s.xmax+1e-12*(double)s.rms.n(),"C17:rms","r.m.s. position"); c.near(b->avgGamma(),(double)s.gamma,2e-15*n*(double)s.gamma,"C17:gamma","mean gamma"); c.near(b->delta(),(double)s.delta,6e-15*n*(double)(s.umax/s.u.n()>10?10:1)+1e-12*(double)s.delta,"C17:delta","relative momentum spread");
    for (int k=0;k<4;k++) { double f = k==0?0: r.coin()? r.logu(1e6,1e16) : (double)(cc/(s.rms.z+1e-9L))*r.uni(0,2); std::complex<double> g=b->BunchingFactor(f), w=bunching(v,f); double t=bftol(s,f); c.near(g.real(),w.real(),t,"C17:bunching","Re bunching factor"); c.near(g.imag(),w.imag(),t,"C17:bunching","Im bunching factor"); c.check(std::abs(g)<=1+1e-12,"C17:bunching","|b|=%g > 1",std::abs(g)); c.count("bunching_factors"); if (std::abs(w)>0.05&&std::abs(w)<0.95) c.count("bunching_partial"); }
}
VF_GROUP(statistics,150,2500) {
    Rng& r=c.rng; Gen G=gen(r,true); TestField f; genf(r,f,G.dt,G.g); compare(c,G.b,now(G.b),r); double q=0,qa=0; for (double x:G.q) { q+=x*(double)ec; qa+=fabs(x)*(double)ec; } c.near(G.b->getTotalCharge(),q,1e-13*qa,"C17:charge","bunch charge"); c.check(G.b->getNOP()==G.n,"C17:count","bunch reports %d particles of %d",G.b->getNOP(),G.n);
    int st=r.ri(1,20); G.b->InitVay(G.dt,&f); for (int i=0;i<st;i++) G.b->StepVay(&f); compare(c,G.b,now(G.b),r);
    // replacing particles, copying
    if (r.coin()) { int i=r.ri(0,G.n-1); ChargedParticle* p=new ChargedParticle(-2,1); p->initTrajectory(1e-9,r.vec(1),r.vec(3),VectorZero); q+= (-2-G.q[i])*(double)ec; qa+=2*(double)ec; G.b->replaceParticle(i,p); compare(c,G.b,now(G.b),r); c.near(G.b->getTotalCharge(),q,1e-13*qa,"C17:charge","bunch charge after replacing a particle"); }
    Bunch cp(G.b); compare(c,&cp,now(G.b),r); c.near(cp.getTotalCharge(),q,1e-13*qa,"C17:charge","charge of a copied bunch");
    // beams are the sum of their bunches
    Beam beam; beam.Add(G.b); int nb=r.ri(0,3); int n=G.n; for (int k=0;k<nb;k++) { if (r.coin(0.2)) { beam.Add(new Bunch()); continue; } Gen H=gen(r,false); for (double x:H.q) { q+=x*(double)ec; qa+=fabs(x)*(double)ec; } n+=H.n; beam.Add(H.b); } c.check(beam.getNOP()==n,"C17:count","beam reports %d particles of %d",beam.getNOP(),n); c.near(beam.getTotalCharge(),q,1e-13*qa,"C17:charge","beam charge");
    if (G.n>1) c.nontrivial(r.s); c.sample("%d particles, gamma %g, %d steps",G.n,G.g,st);
}
VF_GROUP(parameter_log,120,2000) {
    Rng& r=c.rng; bool lng=c.idx%20==9; Gen G=gen(r,false,lng); TestField f; genf(r,f,G.dt,G.g); Beam beam; beam.Add(G.b); Gen H=gen(r,false,lng); if (r.coin()) beam.Add(H.b); else { delete H.b; H.b=0; } int nots=lng?r.ri(600,5000):r.ri(0,40); if (lng) c.count("long_logs"); int st=r.coin(0.3)?1:r.ri(1,50); bool bf=r.coin(); double freq=r.logu(1e9,1e15); char fn[40]; sprintf(fn,"p%d.sdds",c.idx); double T0=0; (void)T0;
    struct L { Bunch* b; int step; bool bf; double fr; std::string fn; ParameterLogger<Bunch>* l; std::vector<int> at; }; std::vector<L> ls; ls.push_back({G.b,st,bf,freq,fn,0,{}}); if (r.coin()) ls.push_back({G.b,r.ri(1,7),r.coin(),r.logu(1e9,1e13),std::string("b")+fn,0,{}}); if (H.b) ls.push_back({H.b,r.ri(1,9),r.coin(),freq*2,std::string("h")+fn,0,{}});
    for (auto& l:ls) { l.l=new ParameterLogger<Bunch>(l.b,l.fn.c_str(),l.step); if (l.bf) l.l->record_bunching(l.fr); }
    // the loop of the program: initial state, then every step
    beam.setTrackingMethod(TRACKING_VAY); beam.setTimeStep(G.dt); beam.setNOTS(nots); beam.setupTracking(&f); for (auto& l:ls) { l.l->update(); l.at.push_back(0); }
    for (int k=0;k<nots;k++) { beam.doStep(&f); for (auto& l:ls) { bool w=(k+1)%l.step==0, g=l.l->log_requested(k+1); c.check(w==g,"C17:interval","log_requested(%d)=%d with interval %d",k+1,g,l.step); if (g) { l.l->update(); l.at.push_back(k+1); } } }
    for (auto& l:ls) { int rc=l.l->WriteData(); c.check(rc==0,"C17:log-file","WriteData returns %d",rc); Sdds s(l.fn); c.check(s.ok,"C17:log-file","unreadable: %s",s.err.c_str()); if (!s.ok) continue; int N=l.at.size(); double q=l.b->getTotalCharge();
        c.check(s.rows==N&&s.par["NumberTimeSteps"]==N,"C17:log-rows","%ld rows, NumberTimeSteps %g, %d states logged (%d steps, interval %d)",s.rows,s.par["NumberTimeSteps"],N,nots,l.step); c.check(s.par["NumberParticles"]==l.b->getNOP(),"C17:log-par","NumberParticles %g of %d",s.par["NumberParticles"],l.b->getNOP()); c.near(s.par["TotalCharge"],q,1e-14*fabs(q),"C17:log-par","TotalCharge"); c.check((s.par.count("BunchingFrequency")>0)==l.bf,"C17:log-par","BunchingFrequency"); if (l.bf) c.near(s.par["BunchingFrequency"],l.fr,1e-14*l.fr,"C17:log-par","BunchingFrequency");
        if (s.rows==N) for (int i=0;i<N;i++) { std::vector<S> v; for (int k=0;k<l.b->getNOP();k++) { ChargedParticle* p=l.b->getParticle(k); v.push_back({p->TrajTime(l.at[i]),p->TrajPoint(l.at[i]),p->TrajMomentum(l.at[i])}); } Stat w=stat(v); double n=4+v.size(); auto C=[&](const char* k){ auto& q=s.col[k]; return (int)q.size()==N?q[i]:NAN; };
            c.near(C("t"),(double)w.t,1e-15*n*(double)w.tmax,"C17:log-t","t"); c.nearv(Vector(C("x_av"),C("y_av"),C("z_av")),w.x.d(),2e-15*n*(double)w.xmax,"C17:log-pos","x_av y_av z_av"); c.nearv(Vector(C("bgx_av"),C("bgy_av"),C("bgz_av")),w.u.d(),2e-15*n*(double)w.umax,"C17:log-mom","bgx_av bgy_av bgz_av"); c.near(C("gamma"),(double)w.gamma,3e-15*n*(double)w.gamma,"C17:log-gamma","gamma"); c.near(C("delta"),(double)w.delta,6e-15*n*10+1e-12*(double)w.delta,"C17:log-delta","delta");
            c.nearv(Vector(C("x_rms"),C("y_rms"),C("z_rms")),w.rms.d(),3e-15*n*(double)w.xmax+1e-12*(double)w.rms.n(),"C17:log-rms","x_rms y_rms z_rms"); c.near(C("BF"),l.bf?std::abs(bunching(v,l.fr)):0.0,l.bf?2*bftol(w,l.fr):0,"C17:log-bf","BF"); c.count("logged_rows"); if (l.bf) c.count("logged_bunching"); }
        // a file that cannot be written is reported
        if (r.coin(0.1)) { ParameterLogger<Bunch> u(l.b,"/nonexistent-dir/x/p.sdds",1); u.update(); c.check(u.WriteData()!=0,"C17:log-file","writing to a missing directory not reported"); c.count("unwritable"); }
        unlink(l.fn.c_str()); delete l.l; c.count("log_files"); }
    if (nots>1) c.nontrivial(r.s); c.sample("%zu logs, %d steps, %d particles",ls.size(),nots,G.n);
}
int main(int a,char**b) { return vf::main(a,b); }
