// C01: the tracker obeys the relativistic Lorentz force (Vay leap-frog)
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;

static void gen_particle(Rng& r,double& q,double& m,Vector& u,Vector& x,double& t0) {
    int k=r.ri(0,4);
    double n = (k==0)?1.0:(k==1? r.logu(1,1e9): r.logu(0.5,50));
    q = r.coin(0.7)? -n : n; m = n;
    if (r.coin(0.15)) { q = 1; m = 1836.15; }
    if (r.coin(0.05)) q = 0;
    if (r.coin(0.1)) q *= r.uni(0.3,3);
    double ubg = r.coin(0.1)?0.0: r.logu(1e-3,3e3);
    Vector d=r.dir(); u=Vector(d.x*ubg,d.y*ubg,d.z*ubg);
    x=r.vec(r.coin(0.5)?1.0:100.0);
    t0 = r.coin(0.3)?0.0: r.uni(-1e-6,1e-6);
}

// every recorded step satisfies the scheme; the prediction uses only recorded data
static void check_steps(Case& c,ChargedParticle& p,TestField& f,double q,double m,double dt,int n,const char* tag) {
    LD qm=(LD)q/(LD)m*irm; LD k=0.5L*qm*(LD)dt;
    c.check(p.getNP()==n+1,"C01:count","%s: %d points recorded after %d steps",tag,p.getNP(),n);
    if (p.getNP()!=n+1) return;
    for (int i=0;i<n;i++) {
        V3 uh(p.TrajMomentum(i)), X(p.TrajPoint(i)); double t=p.TrajTime(i);
        Vector E,B; f.eval(t,p.TrajPoint(i),E,B);
        LD g1; V3 u1=vay_end(uh,k,V3(E),V3(B),g1);
        V3 Xn = X + (u1/g1)*(cc*(LD)dt);
        double t2=p.TrajTime(i+1);
        double eps=1e-15;
        double step=(double)cc*fabs(dt);
        bool ok=true;
        ok&=c.near(t2,t+dt,4e-15*(fabs(t)+fabs(dt)),"C01:time","time after one step");
        double xs=fabs(p.TrajPoint(i+1).x)+fabs(p.TrajPoint(i+1).y)+fabs(p.TrajPoint(i+1).z)+fabs((double)X.x)+fabs((double)X.y)+fabs((double)X.z);
        // p' may be much larger than the step result (strong E): rounding scales with it
        double pscale=(double)(uh.n()+ (V3(E)*(k/cc)).n())+1.0;
        double kick=(double)fabsl(k)*(V3(B).n()+(V3(E)/cc).n());
        double amp=1.0+kick;
        ok&=c.nearv(p.TrajPoint(i+1),Xn.d(),4e-15*xs+1e-12*step*amp,"C01:position","position after one step");
        // momentum at the new centre point, field sampled at the recorded new point and time
        Vector E2,B2; f.eval(t2,p.TrajPoint(i+1),E2,B2);
        V3 un=vay_half(u1,g1,k,V3(E2),V3(B2));
        double kick2=(double)(fabsl(k)*(V3(B2).n()+(V3(E2)/cc).n()));
        ok&=c.nearv(p.TrajMomentum(i+1),un.d(),1e-12*(pscale*(1+kick)+kick2*amp+(double)un.n()),"C01:momentum","momentum after one step");
        // recorded acceleration d(beta gamma)/dt
        V3 us(p.TrajMomentum(i+1)); V3 b=us/sqrtl(1.0L+us.n2());
        V3 a=(b.cross(V3(B2))+V3(E2)/cc)*qm;
        double as=(double)fabsl(qm)*(double)(V3(B2).n()+(V3(E2)/cc).n());
        ok&=c.nearv(p.TrajAccel(i+1),a.d(),1e-13*as,"C01:acceleration","recorded acceleration");
        if (i==0) { V3 b0=uh/sqrtl(1.0L+uh.n2()); V3 a0=(b0.cross(V3(B))+V3(E)/cc)*qm;
            ok&=c.nearv(p.TrajAccel(0),a0.d(),1e-13*(double)fabsl(qm)*(double)(V3(B).n()+(V3(E)/cc).n()),"C01:acceleration0","acceleration of the first point"); }
        c.count("steps_checked");
        if (!ok) break;
        (void)eps;
    }
}

static void gen_field(Rng& r,TestField& f,double m_over_q_dt) {
    f.kind=r.ri(0,2);
    // rotation angle per step tau between tiny and >1
    double tau=r.logu(1e-5,r.coin(0.2)?20.0:0.5);
    double Bmag=2*tau*m_over_q_dt;
    int mode=r.ri(0,4);           // B only, E only, both, E cross B, E parallel B
    Vector e=r.dir(), b=r.dir();
    double Emag=Bmag*(double)cc*r.logu(1e-3,3);
    if (mode==0) Emag=0; if (mode==1) Bmag=0;
    if (mode==3) { Vector p=r.dir(); Vector x=cross(b,p); if (x.norm()>0.1) { x.normalize(); e=x; } }
    if (mode==4) e=b;
    f.E0=e*Emag; f.B0=b*Bmag;
    f.wE=r.uni(-1e12,1e12); f.wB=r.uni(-1e12,1e12); f.kE=r.vec(300); f.kB=r.vec(300); f.phE=r.uni(0,6); f.phB=r.uni(0,6);
    f.gE=r.vec(2); f.gB=r.vec(2);
}

VF_GROUP(step,220,4000) {
    double q,m,t0; Vector u,x; Rng& r=c.rng;
    gen_particle(r,q,m,u,x,t0);
    double dt=r.logu(1e-16,1e-10); if (r.coin(0.1)) dt=-dt;
    TestField f; gen_field(r,f,1.0/(1.758820025e11*fabs(dt)));
    int n=r.coin(0.05)?0:r.ri(1,60);
    ChargedParticle p(q,m);
    p.initTrajectory(t0,x,u,VectorZero);
    if (r.coin(0.2)) p.preAllocate(r.ri(0,n+3));
    p.InitVay(dt,&f);
    c.check(p.getNP()==1 && p.TrajTime(0)==t0,"C01:init","initialisation changed the trajectory");
    c.nearv(p.TrajPoint(0),x,0,"C01:init","start position"); c.nearv(p.TrajMomentum(0),u,0,"C01:init","start momentum");
    for (int i=0;i<n;i++) p.StepVay(&f);
    check_steps(c,p,f,q,m,dt,n,"particle");
    // the current state is the last recorded point
    c.check(p.getTime()==p.TrajTime(n),"C01:current","current time differs from last point");
    c.nearv(p.getPosition(),p.TrajPoint(n),0,"C01:current","current position");
    c.nearv(p.getMomentum(),p.TrajMomentum(n),0,"C01:current","current momentum");
    c.nearv(p.getAccel(),p.TrajAccel(n),0,"C01:current","current acceleration");
    if (q!=0 && n>0) c.nontrivial(mix(r.s,n));
    c.sample("q=%g m=%g dt=%g steps=%d u=(%g,%g,%g) kind=%d E0=%g B0=%g end u=(%g,%g,%g)",q,m,dt,n,u.x,u.y,u.z,f.kind,f.E0.norm(),f.B0.norm(),p.getMomentum().x,p.getMomentum().y,p.getMomentum().z);
}

// the same through Beam::setupTracking/doStep with several bunches of different charge states
VF_GROUP(beam,40,600) {
    Rng& r=c.rng; double dt=r.logu(1e-15,1e-11);
    TestField f; gen_field(r,f,1.0/(1.758820025e11*fabs(dt)));
    Beam* beam=new Beam(); int nb=r.ri(1,4); std::vector<std::vector<double>> qs,ms;
    for (int b=0;b<nb;b++) { Bunch* B=new Bunch(); int np=r.ri(1,5); qs.push_back({}); ms.push_back({});
        for (int i=0;i<np;i++) { double q,m,t0; Vector u,x; gen_particle(r,q,m,u,x,t0);
            ChargedParticle* p=new ChargedParticle(q,m); p->initTrajectory(t0,x,u,VectorZero); B->Add(p); qs[b].push_back(q); ms[b].push_back(m);} 
        beam->Add(B); }
    int n=r.ri(1,25);
    beam->setTrackingMethod(TRACKING_VAY); beam->setTimeStep(dt); beam->setNOTS(n);
    beam->setupTracking(&f);
    for (int i=0;i<n;i++) beam->doStep(&f);
    c.check(beam->getNOTS()==n,"C01:nots","beam counts %d steps after %d",beam->getNOTS(),n);
    for (int b=0;b<nb;b++) for (int i=0;i<(int)qs[b].size();i++)
        check_steps(c,*beam->getBunch(b)->getParticle(i),f,qs[b][i],ms[b][i],dt,n,"beam particle");
    delete beam; c.nontrivial(r.s);
}

// physics invariants, independent of the stepping formula
VF_GROUP(energyB,60,800) {       // pure magnetic field (static or not): |u| of the *end of step* velocity is conserved
    Rng& r=c.rng; double dt=r.logu(1e-15,1e-11); double ubg=r.logu(1e-2,1e3);
    double tau=r.logu(1e-4,0.3); TestField f; f.kind=r.ri(0,2); double g=sqrt(1+ubg*ubg);
    f.B0=r.dir()*(2*tau*g/(1.758820025e11*dt)); f.kB=r.vec(1.0/(3e8*dt)*0.01); f.wB=0; f.gB=r.vec(1e-2/(3e8*dt));
    double q=r.coin()?-1:1; ChargedParticle p(q,1); Vector d=r.dir();
    p.initTrajectory(0,VectorZero,d*ubg,VectorZero); p.InitVay(dt,&f);
    int n=400; for (int i=0;i<n;i++) p.StepVay(&f);
    // step lengths c dt beta(end-of-step): speed constant to rounding (relative to first displacement)
    double v0=(p.TrajPoint(1)-p.TrajPoint(0)).norm(); double worst=0;
    for (int i=0;i<n;i++) { double v=(p.TrajPoint(i+1)-p.TrajPoint(i)).norm();
        double s=(p.TrajPoint(i+1).norm()); worst=fmax(worst,fabs(v-v0)/(1e-11*v0+1e-14*s)); c.count("steps_checked"); }
    // Vay: the centre momentum differs from the end momentum by O(tau); speed of end points is exactly constant only
    // when the implicit rotation sees the same field twice -> allow second order in the per-step rotation
    double v1=0; for (int i=0;i<n;i++) v1=fmax(v1,fabs((p.TrajPoint(i+1)-p.TrajPoint(i)).norm()-v0)/v0);
    if (f.kind==0) c.check(worst<=1.0,"C01:energy","speed changes in a static homogeneous magnetic field: excess ratio %g",worst);
    c.nontrivial(r.s);
}
VF_GROUP(drift,60,600) {         // E x B drift velocity is preserved exactly (the point of the Vay scheme)
    Rng& r=c.rng; double beta=r.uni(0.01,0.9999); double g=1/sqrt(1-beta*beta);
    double dt=r.logu(1e-15,1e-10); Vector b=r.dir(), e; do { e=cross(b,r.dir()); } while (e.norm()<0.2); e.normalize();
    double B=r.logu(1e-3,10); Vector Bv=b*B; Vector Ev=e*(B*beta*(double)cc); Vector v=cross(e,b); v.normalize(); // E x B / B^2
    HomogeneousField f(Ev,Bv); double q=r.coin()?-1:1;
    ChargedParticle p(q,1); Vector u=v*(beta*g); p.initTrajectory(1e-9,r.vec(1),u,VectorZero); p.InitVay(dt,&f);
    int n=200; for (int i=0;i<n;i++) p.StepVay(&f);
    double kick=1.758820025e11*dt*B;
    c.nearv(p.getMomentum(),u,1e-12*n*(g*kick+g*g)*1.0+1e-13*n*kick*g*g,"C01:drift","momentum on the E x B drift orbit");
    c.count("steps_checked",n); c.nontrivial(r.s);
}
VF_GROUP(hyperbolic,40,400) {    // uniform E: u grows linearly; position follows the analytic hyperbola to O(dt^2)
    Rng& r=c.rng; double dt=1e-13; double E=r.logu(1e6,1e10); Vector e=r.dir(); double q=r.coin()?-1:1;
    HomogeneousField f(e*E,VectorZero); double u0=r.uni(0,5)*r.sgn(); ChargedParticle p(q,1);
    p.initTrajectory(0,VectorZero,e*u0,VectorZero); p.InitVay(dt,&f); int n=r.ri(10,400); for (int i=0;i<n;i++) p.StepVay(&f);
    double a=q*1.758820025e11*E/(double)cc; double T=n*dt; double u1=u0+a*T;
    c.near(dot(p.getMomentum(),e),u1,1e-11*(fabs(u0)+fabs(a*T)),"C01:uniformE","momentum in a uniform electric field");
    double xs=(double)cc/a*(sqrt(1+u1*u1)-sqrt(1+u0*u0)); double adt=a*dt;
    c.near(dot(p.getPosition(),e),xs,(double)cc*T*(adt*adt)*1.0+1e-12*fabs(xs)+1e-15,"C01:uniformEx","position in a uniform electric field");
    c.count("steps_checked",n); c.nontrivial(r.s);
}
VF_GROUP(helix,40,400) {         // uniform B: cyclotron frequency qB/(gamma m), helix radius, converging as dt^2
    Rng& r=c.rng; double ubg=r.logu(0.05,200); double g=sqrt(1+ubg*ubg); double B=r.logu(1e-3,5); double q=r.coin()?-1:1;
    double w=q*1.758820025e11*B/g; int n=r.ri(50,600); double dt=r.uni(0.002,0.02)/fabs(w);
    Vector b=r.dir(), d=r.dir(); HomogeneousField f(VectorZero,b*B); ChargedParticle p(q,1);
    Vector x0=r.vec(0.1); p.initTrajectory(0,x0,d*ubg,VectorZero); p.InitVay(dt,&f); for (int i=0;i<n;i++) p.StepVay(&f);
    double T=n*dt; Vector v=d*(ubg/g*(double)cc); Vector vp=b*dot(v,b), vt=v-vp, vb=cross(v,b);
    // dv/dt = w v x b
    Vector x=x0+vp*T+vt*(sin(w*T)/w)+vb*((1-cos(w*T))/w);
    Vector uu=(vp+vt*cos(w*T)+vb*sin(w*T))*(g/(double)cc);
    double th=w*dt; double tol=th*th*(1.0+fabs(w*T));
    c.nearv(p.getPosition(),x,tol*v.norm()/fabs(w)+1e-11*v.norm()*T,"C01:helix","position on the cyclotron helix");
    c.nearv(p.getMomentum(),uu,tol*ubg+1e-11,"C01:helixu","momentum on the cyclotron helix");
    c.count("steps_checked",n); c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
