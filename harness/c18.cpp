// C18: phase-space output (watch points, trajectory and probe logs) is complete and faithful
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "logger.h"
using namespace vf;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.05*m*3e8); f.B0=r.vec(0.2*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
struct World { Beam beam; std::vector<std::vector<ChargedParticle*>> P; double dt,charge=0,qabs=0; TestField f; int nb,n=0; std::vector<ChargedParticle*> all;
    World(Rng& r,bool empties,int many=0) { dt=r.logu(1e-15,1e-11); double g=r.logu(1.01,1e3); genf(r,f,dt,g); nb=r.ri(1,5); for (int b=0;b<nb;b++) { Bunch* B=new Bunch(); P.push_back({}); int np=r.ri(empties&&(b>0||nb>1)?0:1,r.coin(0.1)?60:7); if (many&&b==0) np=many; if (b==nb-1&&n==0&&np==0) np=1; for (int i=0;i<np;i++) { double q=r.uni(-3,3)*r.logu(1,1e6); ChargedParticle* p=new ChargedParticle(q,fabs(q)+0.1); charge+=q*(double)ec; qabs+=fabs(q)*(double)ec; p->initTrajectory(r.coin()?0:r.uni(-1e-9,1e-9),r.vec(1),r.dir()*sqrt(g*g-1),VectorZero); B->Add(p); P.back().push_back(p); all.push_back(p); n++; } beam.Add(B); }
        beam.setTrackingMethod(TRACKING_VAY); beam.setTimeStep(dt); beam.setupTracking(&f); } 
    void step() { beam.doStep(&f); }
    // order of the probes: first particles of all bunches, then the second ones, ...
    std::vector<ChargedParticle*> robin() { std::vector<ChargedParticle*> o; for (size_t i=0;(int)o.size()<n;i++) for (auto& b:P) if (i<b.size()) o.push_back(b[i]); return o; } };
static bool row6(const double* q,ChargedParticle* p,int k) { Vector x=p->TrajPoint(k),u=p->TrajMomentum(k); return q[0]==x.x&&q[1]==x.y&&q[2]==x.z&&q[3]==u.x&&q[4]==u.y&&q[5]==u.z; }
static void sddsfile(Case& c,const char* fn,const std::vector<ChargedParticle*>& L,const char* who) {
    Sdds s(fn); std::string key=std::string("C18:sdds-")+who; c.check(s.ok,key.c_str(),"unreadable: %s",s.err.c_str()); if (!s.ok) return; c.check(s.rows==(long)L.size()&&s.par["NumberOfParticles"]==L.size(),key.c_str(),"%ld rows, NumberOfParticles %g, %zu particles",s.rows,s.par["NumberOfParticles"],L.size()); if (s.rows!=(long)L.size()) return; auto C=[&](const char* n,size_t i){ auto& v=s.col[n]; return i<v.size()?v[i]:NAN; };
    for (size_t i=0;i<L.size();i++) { ChargedParticle* p=L[i]; int k=p->getNP()-1; Vector x=p->TrajPoint(k),u=p->TrajMomentum(k); c.check(C("t",i)==p->TrajTime(k)&&C("x",i)==x.x&&C("y",i)==x.y&&C("z",i)==x.z&&C("px",i)==u.x&&C("py",i)==u.y&&C("pz",i)==u.z,key.c_str(),"particle %zu of %zu: row holds t=%g x=(%g %g %g) p=(%g %g %g), particle is at t=%g x=(%g %g %g) p=(%g %g %g)",i,L.size(),C("t",i),C("x",i),C("y",i),C("z",i),C("px",i),C("py",i),C("pz",i),p->TrajTime(k),x.x,x.y,x.z,u.x,u.y,u.z);
        LD pn=V3(u).n(); std::string kd=key+"-derived"; c.near(C("p",i),(double)pn,1e-14*(double)pn,kd.c_str(),"p"); c.near(C("gamma",i),(double)sqrtl(1+pn*pn),1e-14*(double)sqrtl(1+pn*pn),kd.c_str(),"gamma"); if (u.z!=0) { c.near(C("xp",i),u.x/u.z,1e-14*fabs(u.x/u.z),kd.c_str(),"xp"); c.near(C("yp",i),u.y/u.z,1e-14*fabs(u.y/u.z),kd.c_str(),"yp"); } c.count("sdds_rows"); }
}
VF_GROUP(watch,150,2500) {
    Rng& r=c.rng; bool big=c.idx%15==4; World w(r,true,big?r.ri(1500,12000):0); if (big) c.count("large_watch_points"); char f1[40],f2[40],f3[40]; sprintf(f1,"w%d.h5",c.idx); sprintf(f2,"w%d.sdds",c.idx); sprintf(f3,"b%d.sdds",c.idx); int points=r.ri(1,3);
    for (int k=0;k<points;k++) { int st=r.ri(0,big?2:8); for (int i=0;i<st;i++) w.step();      // several watch points may overwrite the same file
        int rc=w.beam.WriteWatchPointHDF5(f1); c.check(rc==w.n,"C18:watch","WriteWatchPointHDF5 returns %d for %d particles",rc,w.n); { H5File h(f1); H5Set e=h.get("electrons"); c.check(e.ok&&e.dims==std::vector<long>({w.n,6}),"C18:watch","dataset electrons missing or of wrong shape"); if (e.ok&&(int)e.v.size()==6*w.n) for (int i=0;i<w.n;i++) { ChargedParticle* p=w.all[i]; c.check(row6(&e.v[6*i],p,p->getNP()-1),"C18:watch","particle %d of %d: row (%g %g %g %g %g %g), particle at (%g %g %g)",i,w.n,e.v[6*i],e.v[6*i+1],e.v[6*i+2],e.v[6*i+3],e.v[6*i+4],e.v[6*i+5],p->getPosition().x,p->getPosition().y,p->getPosition().z); c.count("watch_rows"); } }
        rc=w.beam.WriteWatchPointSDDS(f2); c.check(rc==0,"C18:sdds-beam","WriteWatchPointSDDS returns %d",rc); sddsfile(c,f2,w.all,"beam"); { Sdds s(f2); if (s.ok) c.near(s.par.count("Charge")?s.par["Charge"]:NAN,w.charge,1e-13*w.qabs,"C18:sdds-charge","Charge parameter [C]"); }
        int b=r.ri(0,w.nb-1); rc=w.beam.getBunch(b)->WriteWatchPointSDDS(f3); c.check(rc==0,"C18:sdds-bunch","WriteWatchPointSDDS returns %d",rc); sddsfile(c,f3,w.P[b],"bunch"); 
        for (auto p:w.all) c.check(p->getPosition().x==p->TrajPoint(p->getNP()-1).x&&p->getMomentum().z==p->TrajMomentum(p->getNP()-1).z,"C18:watch","current state is not the last recorded one"); c.count("watch_points"); }
    if (r.coin(0.1)) { c.check(w.beam.WriteWatchPointHDF5("/nonexistent-dir/w.h5")<0,"C18:unwritable","missing directory not reported (HDF5)"); c.check(w.beam.WriteWatchPointSDDS("/nonexistent-dir/w.sdds")!=0,"C18:unwritable","missing directory not reported (SDDS)"); c.check(w.beam.getBunch(0)->WriteWatchPointSDDS("/nonexistent-dir/w.sdds")!=0,"C18:unwritable","missing directory not reported (SDDS)"); c.count("unwritable"); }
    unlink(f1); unlink(f2); unlink(f3); if (w.nb>1&&w.n>1) c.nontrivial(r.s); c.sample("%d bunches, %d particles, %d watch points",w.nb,w.n,points);
}
VF_GROUP(logs,150,2500) {
    Rng& r=c.rng; int big=c.idx%15==4?1+(c.idx/15)%2:0; World w(r,true,big==1?r.ri(1200,4000):0); int nots=r.ri(0,40); if (big==1) nots=r.ri(0,6); if (big==2) nots=r.ri(700,3000); if (big) c.count("large_logs"); std::vector<ChargedParticle*> rob=w.robin(); struct T { int b; int step,num; std::string fn; TrajectoryLogger<Bunch>* t; ProbeLogger<Beam>* p; std::vector<int> at; }; std::vector<T> L; int nl=r.ri(1,4);
    for (int i=0;i<nl;i++) { T t; t.t=0; t.p=0; t.b=r.ri(0,w.nb-1); t.step=r.coin(0.3)?1:r.ri(1,12); int tot = (i%2)?w.n:(int)w.P[t.b].size(); t.num=r.pick(std::vector<int>{1,tot,r.ri(0,tot),tot+r.ri(1,1000),1<<30}); char b[50]; sprintf(b,"l%d_%d.h5",c.idx,i); t.fn=b; L.push_back(t); }
    for (auto& t:L) { if ((&t-&L[0])%2) t.p=new ProbeLogger<Beam>(&w.beam,t.fn.c_str(),t.step,t.num); else t.t=new TrajectoryLogger<Bunch>(w.beam.getBunch(t.b),t.fn.c_str(),t.step,t.num); }
    for (auto& t:L) { (t.t?(Logger*)t.t:(Logger*)t.p)->update(); t.at.push_back(0); }
    for (int k=0;k<nots;k++) { w.step(); for (auto& t:L) { Logger* l=t.t?(Logger*)t.t:(Logger*)t.p; bool g=l->log_requested(k+1); c.check(g==((k+1)%t.step==0),"C18:interval","log_requested(%d)=%d with interval %d",k+1,g,t.step); if (g) { l->update(); t.at.push_back(k+1); } } }
    for (auto& t:L) { Logger* l=t.t?(Logger*)t.t:(Logger*)t.p; const char* key=t.t?"C18:trajectories":"C18:probe"; std::vector<ChargedParticle*> ps=t.t?w.P[t.b]:rob; int np=(int)ps.size()<t.num?ps.size():t.num, N=t.at.size(), nd=t.t?6:16; int rc=l->WriteData(); c.check(rc==0,key,"WriteData returns %d",rc); if (r.coin(0.2)) { rc=l->WriteData(); c.check(rc==0,key,"second WriteData returns %d",rc); }
        { H5File h(t.fn); H5Set s=h.get(t.t?"Trajectories":"Probe"); c.check(s.ok&&s.dims==std::vector<long>({N,np,nd}),key,"dataset missing or of wrong shape: %ld x %ld x %ld, expected %d x %d x %d",s.dims.size()>0?s.dims[0]:-1,s.dims.size()>1?s.dims[1]:-1,s.dims.size()>2?s.dims[2]:-1,N,np,nd); c.check(s.att["NOTS"]==N&&s.att["NOP"]==np,key,"attributes NOTS %g, NOP %g",s.att["NOTS"],s.att["NOP"]);
          if ((int)s.v.size()==N*np*nd) for (int i=0;i<N;i++) for (int k=0;k<np;k++) { const double* q=&s.v[(i*np+k)*nd]; ChargedParticle* p=ps[k]; int st=t.at[i];
                if (t.t) c.check(row6(q,p,st),key,"particle %d at step %d (row %d): (%g %g %g %g %g %g)",k,st,i,q[0],q[1],q[2],q[3],q[4],q[5]);
                else { Vector A=p->TrajAccel(st); c.check(q[0]==p->TrajTime(st)&&row6(q+1,p,st)&&q[7]==A.x&&q[8]==A.y&&q[9]==A.z,key,"probe %d at step %d (row %d): t=%g (%g %g %g %g %g %g) A (%g %g %g), particle t=%g x=(%g %g %g)",k,st,i,q[0],q[1],q[2],q[3],q[4],q[5],q[6],q[7],q[8],q[9],p->TrajTime(st),p->TrajPoint(st).x,p->TrajPoint(st).y,p->TrajPoint(st).z);
                       Vector E,B; w.f.eval(q[0],Vector(q[1],q[2],q[3]),E,B); c.nearv(Vector(q[10],q[11],q[12]),E,1e-9*vnorm(E)+1e-12*vnorm(w.f.E0),"C18:probe-field","electric field perceived by the probe"); c.nearv(Vector(q[13],q[14],q[15]),B,1e-9*vnorm(B)+1e-12*vnorm(w.f.B0),"C18:probe-field","magnetic field perceived by the probe"); c.count("probe_fields"); }
                c.count(t.t?"trajectory_rows":"probe_rows"); } }
        unlink(t.fn.c_str()); delete l; c.count("log_files"); }
    if (r.coin(0.1)) { TrajectoryLogger<Bunch> a(w.beam.getBunch(0),"/nonexistent-dir/t.h5",1,3); a.update(); ProbeLogger<Beam> b(&w.beam,"/nonexistent-dir/t.h5",1,3); b.update(); c.check(throws([&]{a.WriteData();})&&throws([&]{b.WriteData();}),"C18:unwritable","missing directory not reported"); c.count("unwritable"); }
    if (nots>1) c.nontrivial(r.s); c.sample("%d logs, %d bunches, %d particles, %d steps",nl,w.nb,w.n,nots);
}
int main(int a,char**b) { return vf::main(a,b); }
