// C16: particles survive serialisation unchanged
#include "ref.h"
#include "bunch.h"
#include "beam.h"
using namespace vf;
struct Pt { double t; Vector x,u,a; };
static Pt at(ChargedParticle& p,int i) { Pt r; r.t=p.TrajTime(i); r.x=p.TrajPoint(i); r.u=p.TrajMomentum(i); r.a=p.TrajAccel(i); return r; }
static Pt cur(ChargedParticle& p) { Pt r; r.t=p.getTime(); r.x=p.getPosition(); r.u=p.getMomentum(); r.a=p.getAccel(); return r; }
static bool eqv(const Vector&a,const Vector&b) { return a.x==b.x&&a.y==b.y&&a.z==b.z; }
static bool same(const Pt&a,const Pt&b) { return a.t==b.t&&eqv(a.x,b.x)&&eqv(a.u,b.u)&&eqv(a.a,b.a); }
static void genf(Rng& r,TestField& f,double dt) { f.kind=r.ri(0,2); double m=1.0/(1.758820025e11*fabs(dt)); f.E0=r.vec(0.05*m*3e8); f.B0=r.vec(0.2*m); f.wE=r.uni(-1e11,1e11); f.wB=r.uni(-1e11,1e11); f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static const double G=-7.25e77;
// exactly sized heap buffer (sanitizer red zones on both sides) 
struct Buf { std::vector<double> v; Buf(size_t n):v(n,G){ if (!n) v.reserve(1); } double* p() { return v.data(); } size_t unwritten() { size_t k=0; for (double d:v) k+=(d==G); return k; } };
static ChargedParticle* mkp(Rng& r,GeneralField* f,double dt,int& n,bool& tracked,double& q,double& m) {
    q=r.sgn()*(r.coin()?1:r.logu(1,1e9)); m=r.coin()?fabs(q):r.logu(0.5,1e9); ChargedParticle* p=new ChargedParticle(q,m); tracked=false; n=0;
    if (r.coin(0.1)) return p;
    p->initTrajectory(r.coin(0.3)?0:r.uni(-1e-8,1e-8),r.vec(1),r.dir()*r.logu(1e-2,300),r.vec(1e8)); n=1; if (r.coin(0.15)) return p;
    if (r.coin(0.3)) p->preAllocate(r.ri(1,80)); p->InitVay(dt,f); tracked=true; int k=r.coin(0.03)?r.ri(1100,3000):r.ri(0,40); for (int i=0;i<k;i++) p->StepVay(f); n=k+1; return p; }

VF_GROUP(state,200,2000) {
    Rng& r=c.rng; double dt=r.logu(1e-14,1e-12),q,m; TestField f; genf(r,f,dt); int n; bool tr; ChargedParticle* p=mkp(r,&f,dt,n,tr,q,m);
    Buf b(PARTICLE_SERIALIZE_BUFSIZE); p->serialize(b.p()); c.check(b.unwritten()==0,"C16:size","serialize left %zu of %d buffer entries unwritten",b.unwritten(),PARTICLE_SERIALIZE_BUFSIZE);
    ChargedParticle s(b.p()); c.check(s.getCharge()==p->getCharge(),"C16:charge","charge %g became %g",p->getCharge(),s.getCharge());
    c.check(s.getNP()==1&&s.getNpre()==0,"C16:state-layout","rebuilt particle has %d points, %d pre-allocated",s.getNP(),s.getNpre());
    if (n>0) { c.check(same(cur(s),cur(*p)),"C16:state","current state changed by serialisation"); c.check(same(at(s,0),cur(*p)),"C16:state","trajectory point of the rebuilt particle is not the current state"); }
    else c.check(cur(s).t==0&&eqv(cur(s).x,VectorZero)&&eqv(cur(s).u,VectorZero),"C16:state","particle without coordinates got some");
    // a second generation and the mass, seen through the orbit
    Buf b2(PARTICLE_SERIALIZE_BUFSIZE); s.serialize(b2.p()); c.check(b2.v==b.v,"C16:state","serialising the rebuilt particle gives another buffer");
    if (n>0) { ChargedParticle o(q,m); Pt k=cur(*p); o.initTrajectory(k.t,k.x,k.u,k.a); o.InitVay(dt,&f); s.InitVay(dt,&f); for (int i=0;i<3;i++) { o.StepVay(&f); s.StepVay(&f); } c.check(same(cur(o),cur(s)),"C16:state-orbit","rebuilt particle moves differently"); c.count("states"); c.nontrivial(r.s); }
    // the copy shares nothing with the buffer or the origin
    Pt k=cur(s); std::fill(b.v.begin(),b.v.end(),3.0); delete p; c.check(same(cur(s),k),"C16:detached","rebuilt particle depends on its buffer");
}

VF_GROUP(history,150,1500) {
    Rng& r=c.rng; double dt=r.logu(1e-14,1e-12),q,m; TestField f; genf(r,f,dt); int n; bool tr; ChargedParticle* p=mkp(r,&f,dt,n,tr,q,m);
    c.check(p->getNP()==n,"C16:size","particle has %d points, expected %d",p->getNP(),n);
    Buf b(p->TrajBufSize()); p->serializeTraj(b.p()); c.check(b.unwritten()==0,"C16:traj-size","%zu of %zu announced buffer entries unwritten",b.unwritten(),b.v.size());
    int pre=r.coin()?0:r.ri(1,2*n+5); ChargedParticle s(b.p(),n,pre);
    c.check(s.getNP()==n,"C16:traj-count","%d of %d points restored",s.getNP(),n); c.check(s.getCharge()==p->getCharge(),"C16:charge","charge");
    for (int i=0;i<n&&i<s.getNP();i++) { c.check(same(at(s,i),at(*p,i)),"C16:traj-point","point %d of %d changed",i,n); c.count("points"); }
    if (n>0) c.check(same(cur(s),cur(*p)),"C16:traj-state","current state changed");
    c.check(pre==0||s.getNpre()==pre,"C16:traj-prealloc","pre-allocation %d instead of %d",s.getNpre(),pre);
    ChargedParticle cp(&s); c.check(cp.getNP()==n,"C16:traj-copy","copy of a rebuilt particle");
    Buf b2(s.TrajBufSize()); s.serializeTraj(b2.p()); c.check(b2.v==b.v,"C16:traj","serialising the rebuilt particle gives another buffer");
    if (tr) { int k=r.ri(1,12); for (int i=0;i<k;i++) { p->StepVay(&f); s.StepVay(&f); cp.StepVay(&f); c.check(same(cur(*p),cur(s))&&same(at(s,s.getNP()-1),cur(*p)),"C16:traj-continue","rebuilt particle continues differently after %d steps",i+1); c.check(same(cur(*p),cur(cp)),"C16:traj-continue","copy of the rebuilt particle continues differently"); c.count("continued_steps"); } c.nontrivial(r.s);
        Vector obs=r.dir()*r.uni(2,4); double t=p->TrajTime(n/2)+vnorm(obs-p->TrajPoint(n/2))/(double)cc; ElMagField A=p->RetardedField(t,obs),B=s.RetardedField(t,obs); c.check(eqv(A.E(),B.E())&&eqv(A.B(),B.B()),"C16:traj-field","rebuilt particle radiates differently"); }
    delete p; c.sample("history of %d points, prealloc %d, tracked %d",n,pre,(int)tr);
}

VF_GROUP(probes,100,1000) {
    Rng& r=c.rng; double dt=r.logu(1e-14,1e-12); TestField f; genf(r,f,dt); Beam beam; int nb=r.ri(1,4); std::vector<int> sz; int tot=0;
    for (int i=0;i<nb;i++) { Bunch* b=new Bunch(); int k=r.coin(0.15)?0:r.ri(1,6); sz.push_back(k); tot+=k; for (int j=0;j<k;j++) { double q=r.logu(1,1e3); ChargedParticle* p=new ChargedParticle(r.sgn()*q,q); p->initTrajectory(r.uni(-1e-9,1e-9),r.vec(1),r.dir()*r.logu(0.1,50),VectorZero); b->Add(p); } beam.Add(b); }
    c.check(beam.getNOP()==tot&&beam.getNOB()==nb,"C16:count","beam counts %d/%d",beam.getNOP(),beam.getNOB());
    beam.setTrackingMethod(TRACKING_VAY); beam.setTimeStep(dt); beam.setupTracking(&f); int st=r.ri(0,8); for (int i=0;i<st;i++) beam.doStep(&f);
    // expected order: i-th particles of all bunches in sequence
    std::vector<ChargedParticle*> ord; for (int j=0;(int)ord.size()<tot;j++) for (int b=0;b<nb;b++) if (j<sz[b]) ord.push_back(beam.getBunch(b)->getParticle(j));
    int num=r.coin(0.3)?tot:r.ri(0,tot); Buf b(beam.getProbeBufferSize(num)); c.check(b.v.size()==(size_t)num*16,"C16:probe-size","probe buffer size %zu for %d particles",b.v.size(),num);
    if (num>0) beam.bufferProbe(b.p(),num); c.check(b.unwritten()==0,"C16:probe-size","%zu entries unwritten",b.unwritten());
    for (int i=0;i<num;i++) { double* d=b.p()+16*i; Pt k=cur(*ord[i]); ElMagField F=f.Field(k.t,k.x); bool ok=d[0]==k.t&&eqv(Vector(d[1],d[2],d[3]),k.x)&&eqv(Vector(d[4],d[5],d[6]),k.u)&&eqv(Vector(d[7],d[8],d[9]),k.a);
        c.check(ok,"C16:probe-state","probe %d does not hold the state of its particle",i); c.check(eqv(Vector(d[10],d[11],d[12]),F.E())&&eqv(Vector(d[13],d[14],d[15]),F.B()),"C16:probe-field","probe %d does not hold the field its particle perceives",i); c.count("probes");
        ChargedParticle cp(ord[i]); Buf x(cp.getProbeBufferSize()); double* e=cp.bufferProbe(x.p()); c.check(e==x.p()+x.v.size(),"C16:probe-size","returned pointer"); c.check(std::equal(x.v.begin(),x.v.end(),d),"C16:probe-copy","probe of a copied particle differs from its origin"); }
    // coordinates with limited space
    for (int k=0;k<nb;k++) { Bunch* bu=beam.getBunch(k); int lim=r.ri(0,sz[k]+2),w=std::min(lim,sz[k]); Buf x(w*6); double* e=bu->bufferCoordinates(x.p(),lim); c.check(e==x.p()+6*w,"C16:coord-size","wrote %ld values of %d particles into space for %d",(long)(e-x.p()),sz[k],lim);
        for (int j=0;j<w;j++) { Pt s=cur(*bu->getParticle(j)); double* d=x.p()+6*j; c.check(eqv(Vector(d[0],d[1],d[2]),s.x)&&eqv(Vector(d[3],d[4],d[5]),s.u),"C16:coord","buffered coordinates of particle %d",j); c.count("coordinates"); } }
    // step buffers
    Buf sb(beam.getStepBufferSize()); beam.bufferStep(sb.p()); c.check(sb.unwritten()==0,"C16:step-size","%zu step buffer entries unwritten",sb.unwritten());
    Beam fol; for (int k=0;k<nb;k++) fol.Add(new Bunch(beam.getBunch(k))); beam.doStep(&f); Buf s2(beam.getStepBufferSize()); beam.bufferStep(s2.p()); fol.setStepFromBuffer(s2.p());
    for (int k=0;k<nb;k++) for (int j=0;j<sz[k];j++) { ChargedParticle *a=beam.getBunch(k)->getParticle(j),*d=fol.getBunch(k)->getParticle(j); c.check(a!=d&&same(cur(*a),cur(*d))&&a->getNP()==d->getNP()&&same(at(*d,d->getNP()-1),cur(*a))&&same(at(*d,0),at(*a,0)),"C16:step","follower particle %d/%d differs",k,j); c.check(a->getCharge()==d->getCharge(),"C16:step","follower charge"); c.count("followed"); }
    // replacing a particle
    if (sz[0]>0) { Bunch* bu=beam.getBunch(0); int j=r.ri(0,sz[0]-1); ChargedParticle* np=new ChargedParticle(2,3); np->initTrajectory(1e-9,r.vec(1),r.vec(1),VectorZero); std::vector<ChargedParticle*> keep; for (int k=0;k<sz[0];k++) keep.push_back(bu->getParticle(k)); bu->replaceParticle(j,np); bool ok=bu->getNOP()==sz[0]; for (int k=0;k<sz[0];k++) ok=ok&&bu->getParticle(k)==(k==j?np:keep[k]); c.check(ok,"C16:replace","replaceParticle changed something else"); }
    c.check(beam.getBunch(-1)==0&&beam.getBunch(nb)==0&&beam.getBunch(0)->getParticle(-1)==0&&beam.getBunch(0)->getParticle(sz[0])==0,"C16:range","out-of-range particle or bunch delivered");
    if (tot>1) c.nontrivial(r.s);
}

VF_GROUP(distribution,150,1500) {
    Rng& r=c.rng; int D=r.ri(1,8),N=r.coin(0.1)?0:c.idx%20==3?r.ri(1000,5000):r.ri(1,40); Distribution d(D,N); c.check(d.getDIM()==D&&d.getNOP()==N,"C16:dist-size","distribution %dx%d announces %dx%d",D,N,d.getDIM(),d.getNOP());
    std::vector<double> M(D*N); for (int i=0;i<N;i++) for (int k=0;k<D;k++) { if (r.coin(0.7)) { M[i*D+k]=r.gauss(); d.setCoordinate(i,k,M[i*D+k]); } else M[i*D+k]=d.getCoordinate(i,k); }
    d.setCoordinate(-1,0,9); d.setCoordinate(N,0,9); d.setCoordinate(0,D,9); d.setCoordinate(0,-1,9); c.check(d.getCoordinate(-1,0)==0&&d.getCoordinate(N,0)==0&&d.getCoordinate(0,D)==0&&d.getCoordinate(0,-1)==0,"C16:dist-range","out-of-range coordinate not zero");
    Buf b(D*N); d.bufferData(b.p(),D*N); c.check(b.v==M,"C16:dist-export","exported buffer is not the distribution"); 
    Buf w(D*N+1); c.check(throws([&]{d.bufferData(w.p(),D*N+1);})&&throws([&]{d.fromBuffer(w.p(),D*N+1);})&&(D*N==0||throws([&]{d.bufferData(w.p(),D*N-1);})),"C16:dist-mismatch","wrong buffer size accepted"); c.check(w.unwritten()==w.v.size(),"C16:dist-mismatch","rejected export wrote data");
    Distribution e(D,N); e.fromBuffer(b.p(),D*N); bool ok=true; for (int i=0;i<N;i++) for (int k=0;k<D;k++) ok=ok&&e.getCoordinate(i,k)==M[i*D+k]; c.check(ok,"C16:dist-import","imported distribution differs");
    // subdivision: the parts together are the whole
    int parts=r.ri(1,5),i0=0; for (int q=0;q<parts;q++) { int n=q==parts-1?N-i0:r.ri(0,N-i0); Distribution* s=d.subDist(i0,n); c.check(s->getNOP()==n&&s->getDIM()==D,"C16:dist-sub","part has size %dx%d",s->getNOP(),s->getDIM()); bool o=true; for (int i=0;i<n;i++) for (int k=0;k<D;k++) o=o&&s->getCoordinate(i,k)==M[(i0+i)*D+k]; c.check(o,"C16:dist-sub","part %d starting at %d differs",q,i0); if (n) { s->setCoordinate(0,0,1e30); c.check(d.getCoordinate(i0,0)==M[i0*D],"C16:dist-sub","part shares memory with the whole"); } delete s; i0+=n; c.count("sub_distributions"); }
    Distribution* o=d.subDist(N>2?N-2:0,5); c.check(o->getNOP()==5,"C16:dist-sub","over-long part"); for (int i=0;i<std::min(2,N);i++) c.check(N<2||o->getCoordinate(i,0)==M[(N-2+i)*D],"C16:dist-sub","over-long part differs"); delete o;
    if (N>0) c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
