// C05: fields superpose over particles, bunches, beams and lattices
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.02*m*3e8); f.B0=r.vec(0.1*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
struct Sum { V3 E,B; LD aE=0,aB=0; void add(ElMagField f,LD k=1) { E=E+V3(f.E())*k; B=B+V3(f.B())*k; aE+=V3(f.E()).n()*fabsl(k); aB+=V3(f.B()).n()*fabsl(k); } };
static void cmp(Case& c,ElMagField got,const Sum& s,double rel,const char* key,const char* w) { c.nearv(got.E(),s.E.d(),(double)(rel*s.aE)+1e-300,key,w); c.nearv(got.B(),s.B.d(),(double)(rel*s.aB)+1e-300,key,w); }

VF_GROUP(grouping,60,800) {
    Rng& r=c.rng; double dt=r.logu(1e-13,1e-12),g=r.logu(1.05,20); TestField f; genf(r,f,dt,g); int np=r.ri(1,12),st=r.ri(0,25); bool big=c.idx%20==6; if (big) { np=r.ri(150,1200); st=r.ri(0,3); c.count("large_beams"); }
    std::vector<ChargedParticle*> P; Vector dir=r.dir(); for (int i=0;i<np;i++) { double k=r.coin()?1:r.logu(1,1e5); ChargedParticle* p=new ChargedParticle(r.sgn()*k,k*(r.coin()?1:1836)); p->initTrajectory(r.coin()?0:r.uni(-1e-11,1e-11),r.vec(0.1),dir*sqrt(g*g-1)+r.vec(0.1),VectorZero); P.push_back(p); if (st>0||r.coin()) p->InitVay(dt,&f); for (int k2=0;k2<st;k2++) p->StepVay(&f); }
    // one bunch, and a random partition into a beam (with empty bunches)
    Bunch all; for (auto p:P) all.Add(new ChargedParticle(p)); Beam beam; int nb=r.ri(1,big?40:5); std::vector<std::vector<int>> part(nb); for (int b=0;b<nb;b++) beam.Add(new Bunch()); for (int i=0;i<np;i++) { int b=r.ri(0,nb-1); part[b].push_back(i); beam.getBunch(b)->Add(new ChargedParticle(P[i])); }
    LD q=0; for (auto p:P) q+=p->getCharge(); c.near(all.getTotalCharge(),(double)q,1e-13*np*1.6e-19*1e5,"C05:total-charge","charge of the bunch"); c.near(beam.getTotalCharge(),(double)q,1e-13*np*1.6e-19*1e5,"C05:total-charge","charge of the beam"); c.check(beam.getNOP()==np&&all.getNOP()==np,"C05:count","particle count");
    for (int k=0;k<6;k++) { Vector O=r.dir()*r.uni(0.5,3); int i=r.ri(0,np-1),j=r.ri(0,P[i]->getNP()-1); double t=P[i]->TrajTime(j)+vnorm(O-P[i]->TrajPoint(j))/(double)cc+r.uni(-3,3)*dt; Sum s; std::vector<Sum> sb(nb); for (int i=0;i<np;i++) s.add(P[i]->RetardedField(t,O)); for (int b=0;b<nb;b++) for (int i:part[b]) sb[b].add(P[i]->RetardedField(t,O));
        cmp(c,all.RetardedField(t,O),s,1e-12,"C05:bunch-field","field of a bunch"); cmp(c,beam.RetardedField(t,O),s,1e-12,"C05:beam-field","field of a beam"); for (int b=0;b<nb;b++) cmp(c,beam.getBunch(b)->RetardedField(t,O),sb[b],1e-12,"C05:bunch-field","field of a part"); if (s.aE>0) c.count("point_fields"); }
    // time traces, added to whatever is there
    for (int k=0;k<3;k++) { Vector O=r.dir()*r.uni(0.5,3); int i=r.ri(0,np-1); int n=r.ri(2,40); double a=P[i]->TrajTime(0)+vnorm(O-P[i]->TrajPoint(0))/(double)cc,tdt=dt*r.logu(0.05,3),t0=a-tdt*r.uni(0,n); ElMagField off(r.vec(1),r.vec(1e-9));
        FieldTrace A(t0,tdt,n),B(t0,tdt,n); std::vector<Sum> s(n); for (int m=0;m<n;m++) { A.set_field(m,off); B.set_field(m,off); s[m].add(off); } for (int i=0;i<np;i++) { FieldTrace T(t0,tdt,n); P[i]->integrateFieldTrace(O,&T); for (int m=0;m<n;m++) s[m].add(T.get_field((size_t)m)); }
        // an accumulated bin keeps its rounding: absolute tolerance of the largest intermediate value
        all.integrateFieldTrace(O,&A); beam.integrateFieldTrace(O,&B); LD mE=0,mB=0; for (auto&x:s) { mE=fmaxl(mE,x.aE); mB=fmaxl(mB,x.aB); } for (int m=0;m<n;m++) { s[m].aE=mE; s[m].aB=mB; cmp(c,A.get_field((size_t)m),s[m],1e-11,"C05:bunch-trace","trace of a bunch"); cmp(c,B.get_field((size_t)m),s[m],1e-11,"C05:beam-trace","trace of a beam"); } c.count("trace_bins",n); }
    // histories: adding a bunch adds its field, clearing removes everything
    Vector O=r.dir()*2; double t=P[0]->TrajTime(0)+vnorm(O-P[0]->TrajPoint(0))/(double)cc; ElMagField b0=beam.RetardedField(t,O); beam.Add(new Bunch(&all)); Sum s2; s2.add(b0); s2.add(all.RetardedField(t,O)); cmp(c,beam.RetardedField(t,O),s2,1e-12,"C05:add-bunch","field after adding a bunch"); c.check(beam.getNOP()==2*np&&beam.getNOB()==nb+1,"C05:add-bunch","count after adding a bunch");
    ChargedParticle* np2=new ChargedParticle(P[0]); np2->Shift(r.vec(0.1),2); ElMagField fn=np2->RetardedField(t,O), fo=all.getParticle(np-1)->RetardedField(t,O), fa=all.RetardedField(t,O); all.replaceParticle(np-1,np2); Sum s3; s3.add(fa); s3.add(fo,-1); s3.add(fn); cmp(c,all.RetardedField(t,O),s3,1e-11,"C05:replace","field after replacing a particle");
    beam.clear(); c.check(beam.getNOB()==0&&beam.getNOP()==0&&beam.RetardedField(t,O).isNull()&&beam.getTotalCharge()==0,"C05:clear","cleared beam still there"); beam.Add(new Bunch(&all)); cmp(c,beam.RetardedField(t,O),s3,1e-11,"C05:clear","beam refilled after clearing");
    for (auto p:P) delete p; if (np>1) c.nontrivial(r.s); c.sample("%d particles in %d bunches, %d steps",np,nb,st);
}

VF_GROUP(macro,60,800) {      // a macro particle of k electrons radiates like k electrons at the same place
    Rng& r=c.rng; double dt=r.logu(1e-13,1e-12),g=r.logu(1.05,20); TestField f; genf(r,f,dt,g); int k=r.coin()?r.ri(1,6):r.ri(100,1000000); bool same=k<=6; double t0=r.coin()?0:r.uni(-1e-10,1e-10); Vector x=r.vec(0.1),u=r.dir()*sqrt(g*g-1);
    ChargedParticle m(-k,k),e(-1,1); m.initTrajectory(t0,x,u,VectorZero); e.initTrajectory(t0,x,u,VectorZero); m.InitVay(dt,&f); e.InitVay(dt,&f); int n=r.ri(1,30); for (int i=0;i<n;i++) { m.StepVay(&f); e.StepVay(&f); }
    c.nearv(m.getPosition(),e.getPosition(),1e-13,"C05:macro-orbit","orbit of the macro particle"); c.near(m.getCharge(),k*e.getCharge(),1e-14*k*1.6e-19,"C05:macro-charge","charge of the macro particle");
    Bunch b(0,-1,1); if (same) for (int i=0;i<k;i++) b.Add(new ChargedParticle(&e));
    for (int j=0;j<5;j++) { Vector O=r.dir()*r.uni(0.5,3); int p=r.ri(0,n); double t=e.TrajTime(p)+vnorm(O-e.TrajPoint(p))/(double)cc; ElMagField M=m.RetardedField(t,O),E=e.RetardedField(t,O); double del=1e-14*(fabs(t)+2e-8); ElMagField E1=e.RetardedField(t+del,O),E2=e.RetardedField(t-del,O); if (E1.isNull()!=E2.isNull()) continue; double rel=1e-10+((E1.E()-E.E()).norm()+(E2.E()-E.E()).norm())/(E.E().norm()+1e-300); if (rel>1e-3) continue; Sum s; s.add(E,k); cmp(c,M,s,rel,"C05:macro-field","field of the macro particle"); if (same) cmp(c,b.RetardedField(t,O),s,1e-12,"C05:macro-field","field of k electrons"); if (s.aE>0) c.count("macro_fields");
        FieldTrace A(t-dt*r.uni(1,5),dt*r.uni(0.1,2),10),B(&A); m.integrateFieldTrace(O,&A); e.integrateFieldTrace(O,&B); LD mE=0,mB=0; for (size_t i=0;i<10;i++) { mE=fmaxl(mE,V3(B.get_field(i).E()).n()*k); mB=fmaxl(mB,V3(B.get_field(i).B()).n()*k); } for (size_t i=0;i<10;i++) { Sum q; q.add(B.get_field(i),k); q.aE=mE; q.aB=mB; cmp(c,A.get_field(i),q,1e-6,"C05:macro-trace","trace of the macro particle"); } }
    c.nontrivial(r.s);
}

VF_GROUP(lattice,150,2000) {
    Rng& r=c.rng; Lattice L; struct El { TestField* t; GeneralField* g; ElMagField c; }; std::vector<El> E; int steps=r.ri(1,20); std::string hist;
    c.check(L.count()==0&&L.Field(0,VectorZero).isNull()&&!L.is_external(),"C05:lattice-empty","empty lattice");
    for (int s=0;s<steps;s++) { int op=E.empty()?0:r.ri(0,4);
        if (op<=1) { El e; e.t=0; if (r.coin(0.7)) { e.t=new TestField(); genf(r,*e.t,1e-12,1); e.g=e.t; } else if (r.coin(0.8)||E.empty()) { e.c=ElMagField(r.vec(1e6),r.vec(1)); e.g=new HomogeneousField(e.c.E(),e.c.B()); c.check(e.g->is_external(),"C05:external","homogeneous field not external"); } else { Lattice* sub=new Lattice(); TestField* t=new TestField(); genf(r,*t,1e-12,1); sub->addElement(t); e.t=t; e.g=sub; } L.addElement(e.g); E.push_back(e); hist+="+"; }
        else if (op==2) { int i=r.ri(0,(int)E.size()-1); L.remove(i); E.erase(E.begin()+i); hist+="-"; }
        else hist+=".";
        c.check(L.count()==(int)E.size(),"C05:lattice-count","lattice counts %d elements, %zu expected",L.count(),E.size()); for (int i=0;i<(int)E.size();i++) c.check(L.at(i)==E[i].g,"C05:lattice-at","element %d is another one",i);
        int n=E.size(); c.check(throws([&]{L.at(n);})&&throws([&]{L.at(-1);})&&throws([&]{L.remove(n);})&&throws([&]{L.remove(-1);}),"C05:lattice-range","out-of-range element accepted"); c.check(L.count()==n,"C05:lattice-range","rejected removal changed the lattice");
        for (int k=0;k<3;k++) { double t=r.uni(-1e-9,1e-9); Vector X=r.vec(1); Sum sum; std::vector<long> calls; for (auto& e:E) { if (e.t) { Vector a,b; e.t->eval(t,X,a,b); sum.add(ElMagField(a,b)); calls.push_back(e.t->calls); } else { sum.add(e.c); calls.push_back(0); } }
            ElMagField F=L.Field(t,X); cmp(c,F,sum,1e-13,"C05:lattice-field","field of a lattice"); for (size_t i=0;i<E.size();i++) if (E[i].t) c.check(E[i].t->calls>=calls[i]+1,"C05:lattice-once","element %zu not evaluated",i); c.count("lattice_fields"); } }
    if (E.size()>1) c.nontrivial(r.s); c.sample("history %s, %zu elements at the end",hist.c_str(),E.size());
}
int main(int a,char**b) { return vf::main(a,b); }
