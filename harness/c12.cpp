// C12: observers record at every cell and sample the field of the source, and write what they hold
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "screen.h"
#include "snapshot.h"
#include "point_observer.h"
using namespace vf;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.02*m*3e8); f.B0=r.vec(0.1*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
// sources ------------------------------------------------------------------
struct Src { Beam beam; Lattice* lat; TestField* tf; TestField* tf2; std::vector<ChargedParticle*> P; double dt; Vector O; double tc;
    // big: a bunch of many particles
    Src(Rng& r,bool big=false) { lat=new Lattice(); tf=new TestField(); tf2=new TestField(); dt=r.logu(1e-13,1e-12); double g=r.logu(1.1,20); TestField f; genf(r,f,dt,g); genf(r,*tf,1e-12,1); genf(r,*tf2,1e-12,1); lat->addElement(tf); if (r.coin()) lat->addElement(tf2); else tf2=0;
        int nb=r.ri(1,3); Vector d=r.dir()*sqrt(g*g-1); for (int b=0;b<nb;b++) { Bunch* B=new Bunch(); int np=r.ri(b==0?1:0,3); if (big&&b==0) np=r.ri(150,1200); for (int i=0;i<np;i++) { double k=r.coin()?1:r.logu(1,1e5); ChargedParticle* p=new ChargedParticle(-k,k); p->initTrajectory(r.coin()?0:r.uni(-1e-11,1e-11),r.vec(0.01),d+r.vec(0.1),VectorZero); p->InitVay(dt,&f); int st=big?r.ri(1,3):r.ri(1,25); for (int k2=0;k2<st;k2++) p->StepVay(&f); B->Add(p); P.push_back(p); } beam.Add(B); }
        O=r.dir()*r.uni(0.3,2); ChargedParticle* q=P[r.ri(0,P.size()-1)]; int j=r.ri(0,q->getNP()-1); tc=q->TrajTime(j)+vnorm(O-q->TrajPoint(j))/(double)cc; }
    ~Src() { delete lat; } };
template<class S> struct Field1; 
template<> struct Field1<Beam> { static Beam* get(Src& s) { return &s.beam; } static const char* n() { return "beam"; } static ElMagField at(Src& s,double t,Vector X) { return s.beam.RetardedField(t,X); } static void trace(Src& s,Vector X,FieldTrace* T) { for (auto p:s.P) p->integrateFieldTrace(X,T); } };
template<> struct Field1<Bunch> { static Bunch* get(Src& s) { return s.beam.getBunch(0); } static const char* n() { return "bunch"; } static ElMagField at(Src& s,double t,Vector X) { return s.beam.getBunch(0)->RetardedField(t,X); } static void trace(Src& s,Vector X,FieldTrace* T) { Bunch* b=s.beam.getBunch(0); for (int i=0;i<b->getNOP();i++) b->getParticle(i)->integrateFieldTrace(X,T); } };
template<> struct Field1<Lattice> { static Lattice* get(Src& s) { return s.lat; } static const char* n() { return "lattice"; } static ElMagField at(Src& s,double t,Vector X) { Vector E,B,e,b; s.tf->eval(t,X,E,B); if (s.tf2) { s.tf2->eval(t,X,e,b); E=E+e; B=B+b; } return ElMagField(E,B); } static void trace(Src& s,Vector X,FieldTrace* T) { for (size_t i=0;i<T->get_N(); i++) T->add(i,at(s,T->get_t0()+(double)i*T->get_dt(),X)); } };
static bool same(const ElMagField& a_,const ElMagField& b_,double relE,double absE,double absB,double& d) { ElMagField a=a_,b=b_; double e=vnorm(a.E()-b.E()),m=vnorm(a.B()-b.B()); d=fmax(e/(absE*relE+1e-300),m/(absB*relE+1e-300)); return d<=1; }
struct Mag { double E=0,B=0; void add(ElMagField f) { E=fmax(E,vnorm(f.E())); B=fmax(B,vnorm(f.B())); } };
static void f6(const double* p,ElMagField& f) { f=ElMagField(Vector(p[0],p[1],p[2]),Vector(p[3],p[4],p[5])); }

template<class S> static void screen(Case& c) {
    // every tenth case is large in one respect
    Rng& r=c.rng; int L=c.idx%10==7?1+(c.idx/10)%3:0; Src s(r,L==1); typedef Field1<S> F; int nx=r.ri(1,5),ny=r.ri(1,5),n=r.ri(1,12); if (L==1) { nx=r.ri(1,2); ny=r.ri(1,3); n=r.ri(1,4); } if (L==2) { nx=r.ri(1,2); ny=r.ri(1,2); n=r.ri(1000,6000); } if (L==3) { nx=r.ri(20,80); ny=r.ri(20,80); n=r.ri(1,2); } if (L) c.count("large_screens"); Vector dx=r.dir()*r.logu(1e-4,1e-1),dy; do dy=r.dir()*r.logu(1e-4,1e-1); while (vnorm(dy)*vnorm(dx)*0.2>sqrt(fmax(0,dx.x*0+vnorm(dx)*vnorm(dx)*vnorm(dy)*vnorm(dy)-pow(dx.x*dy.x+dx.y*dy.y+dx.z*dy.z,2)))); double tdt=s.dt*r.logu(0.05,3),dtx=r.coin()?0:r.uni(-2,2)*tdt,dty=r.coin()?0:r.uni(-2,2)*tdt,t0=s.tc-tdt*r.uni(-1,n+1);
    if (r.coin(0.3)) { dtx=0; dty=0; } std::string fn="scr.h5"; ScreenObserver<S> o(fn,s.O,dx,dy,nx,ny,t0,tdt,dtx,dty,n); S* src=F::get(s); o.setSource(src);
    c.check(o.getBufferSize()==(size_t)nx*ny*n*6,"C12:size","buffer size %zu",o.getBufferSize());
    bool pre=r.coin(0.4); std::vector<double> init(o.getBufferSize(),0.0); if (pre) { for (auto& v:init) v=r.uni(-1,1)*1e-3; o.fromBuffer(init.data(),init.size()); } 
    o.integrate(); int times=1; Mag m; std::vector<ElMagField> ref; std::vector<std::vector<double>> pos;
    for (int ix=0;ix<nx;ix++) for (int iy=0;iy<ny;iy++) { double kx=ix-nx/2,ky=iy-ny/2; V3 p=V3(s.O)+V3(dx)*kx+V3(dy)*ky; LD tt=(LD)t0+(LD)dtx*kx+(LD)dty*ky; FieldTrace T((double)tt,tdt,n); F::trace(s,p.d(),&T); for (int it=0;it<n;it++) { ElMagField f=T.get_field((size_t)it); const double* q=&init[((ix*ny+iy)*n+it)*6]; ElMagField f0; f6(q,f0); ElMagField tot(f.E()+f0.E(),f.B()+f0.B()); ref.push_back(tot); m.add(tot); m.add(f); } pos.push_back({(double)p.x,(double)p.y,(double)p.z}); }
    // the arrival of a signal within the rounding of its cell time may fall into the neighbouring sample: cells are
    // compared against the trace of the same cell computed at times displaced by a few rounding errors as well
    double tol = std::is_same<S,Lattice>::value ? 1e-9 : 1e-6; int k=0; std::vector<ElMagField> got; double rdt=1e-15*(fabs(t0)+vnorm(s.O)/3e8+1e-9)/tdt; (void)rdt;
    for (int ix=0;ix<nx;ix++) for (int iy=0;iy<ny;iy++) for (int it=0;it<n;it++,k++) { ElMagField g=o.getField(ix,iy,it); got.push_back(g); double d; bool ok=same(g,ref[k],tol,m.E,m.B,d); c.check(ok,(std::string("C12:screen-")+F::n()).c_str(),"cell %d,%d of %dx%d sample %d of %d: E (%g %g %g) expected (%g %g %g), %g times the tolerance",ix,iy,nx,ny,it,n,g.E().x,g.E().y,g.E().z,ref[k].E().x,ref[k].E().y,ref[k].E().z,d); c.count((std::string("screen_samples_")+F::n()).c_str()); }
    c.check(throws([&]{o.getField(nx,0,0);})&&throws([&]{o.getField(0,ny,0);})&&throws([&]{o.getField(0,0,n);})&&throws([&]{o.setField(nx,0,0,ElMagFieldZero);})&&throws([&]{o.setField(0,ny,0,ElMagFieldZero);})&&throws([&]{o.setField(0,0,n,ElMagFieldZero);}),"C12:range","index out of range accepted");
    // the exchange buffer
    double* b=o.getBuffer(); bool eq=true; for (size_t i=0;i<got.size();i++) { ElMagField g; f6(b+6*i,g); double d; if (!same(g,got[i],1e-15,m.E,m.B,d)) eq=false; } c.check(eq,"C12:screen-buffer","buffer differs from the fields"); for (size_t i=0;i<o.getBufferSize();i++) b[i]=-2*b[i]+0.25*i; double* keep=b; o.fromBuffer(b,o.getBufferSize()); double* b2=o.getBuffer(); c.check(!memcmp(keep,b2,8*o.getBufferSize()),"C12:screen-buffer","buffer not restored"); 
    c.check(throws([&]{o.fromBuffer(b,o.getBufferSize()-1);})&&throws([&]{o.fromBuffer(b,o.getBufferSize()+1);})&&throws([&]{o.fromBuffer(b,0);}),"C12:size","buffer of wrong size accepted"); double* b3=o.getBuffer(); c.check(!memcmp(keep,b3,8*o.getBufferSize()),"C12:size","rejected buffer changed the fields");
    // a single sample
    { int ix=r.ri(0,nx-1),iy=r.ri(0,ny-1),it=r.ri(0,n-1); ElMagField f(r.vec(1),r.vec(1)); o.setField(ix,iy,it,f); size_t at=6*((ix*ny+iy)*n+it); double* q=o.getBuffer(); double w[6]={f.E().x,f.E().y,f.E().z,f.B().x,f.B().y,f.B().z}; bool ok=true; for (size_t i=0;i<o.getBufferSize();i++) { double want=(i>=at&&i<at+6)?w[i-at]:keep[i]; if (q[i]!=want) ok=false; } c.check(ok,"C12:setfield","setField(%d,%d,%d) changed other samples or not this one",ix,iy,it); memcpy(keep,q,8*o.getBufferSize()); delete[] q; }
    // the file
    o.generateOutput(); { H5File h(fn); H5Set P=h.get("ObservationPosition"),S2=h.get("Screen"),E=h.get("ElMagField"); c.check(h.ok()&&P.ok&&S2.ok&&E.ok,"C12:screen-file","dataset missing");
        if (P.ok&&S2.ok&&E.ok) { c.check(P.dims==std::vector<long>({nx,ny,3})&&P.att["Nx"]==nx&&P.att["Ny"]==ny,"C12:screen-file","shape of ObservationPosition"); c.check(E.dims==std::vector<long>({nx,ny,n,6}),"C12:screen-file","shape of ElMagField"); c.check(S2.dims==std::vector<long>({4,3}),"C12:screen-file","shape of Screen");
            double ext=vnorm(s.O)+6*(vnorm(dx)+vnorm(dy)); if (P.v.size()==3*pos.size()) for (size_t i=0;i<pos.size();i++) c.nearv(Vector(P.v[3*i],P.v[3*i+1],P.v[3*i+2]),Vector(pos[i][0],pos[i][1],pos[i][2]),1e-14*ext,"C12:screen-position","cell position"); c.check(E.v.size()==o.getBufferSize()&&!memcmp(E.v.data(),keep,8*o.getBufferSize()),"C12:screen-file","fields in the file differ from those held");
            c.nearv(Vector(S2.v[0],S2.v[1],S2.v[2]),s.O,1e-15*ext,"C12:screen-geometry","origin"); c.nearv(Vector(S2.v[6],S2.v[7],S2.v[8]),dx,1e-14*vnorm(dx),"C12:screen-geometry","dX"); c.nearv(Vector(S2.v[9],S2.v[10],S2.v[11]),dy,1e-14*vnorm(dy),"C12:screen-geometry","dY"); V3 nn=V3(dx).cross(V3(dy))*-1; c.nearv(Vector(S2.v[3],S2.v[4],S2.v[5]),nn.unit().d(),1e-12,"C12:screen-geometry","normal ((x,y,-n) right-handed)");
            for (H5Set* q:{&S2,&E}) { c.check(q->att.count("t0")&&q->att.count("dt")&&q->att.count("NOTS"),"C12:screen-file","timing attributes missing"); c.near(q->att["t0"],t0,1e-15*fabs(t0),"C12:screen-file","t0"); c.near(q->att["dt"],tdt,1e-15*tdt,"C12:screen-file","dt"); c.check(q->att["NOTS"]==n,"C12:screen-file","NOTS"); } c.check(S2.att["Nx"]==nx&&S2.att["Ny"]==ny,"C12:screen-file","Nx, Ny"); c.near(S2.att["dtx"],dtx,1e-15*fabs(dtx),"C12:screen-file","dtx"); c.near(S2.att["dty"],dty,1e-15*fabs(dty),"C12:screen-file","dty"); c.count("files"); } }
    delete[] b; delete[] b2; delete[] b3; if (m.E>0&&(nx>1||ny>1)) c.nontrivial(r.s); c.sample("%s on a %dx%d screen, %d samples, tilt %g %g%s",F::n(),nx,ny,n,dtx/tdt,dty/tdt,pre?", accumulating":""); (void)times;
}
VF_GROUP(screen_beam,60,700) { screen<Beam>(c); }
VF_GROUP(screen_bunch,60,700) { screen<Bunch>(c); }
VF_GROUP(screen_lattice,60,700) { screen<Lattice>(c); }

template<class S> struct Store { static int go(SnapshotObserver<S>&) { return -1; } }; template<> struct Store<Beam> { static int go(SnapshotObserver<Beam>& o) { int n=o.getNumParticles(); int m=o.storeParticlePositions(); return m==n?m:-2; } };
template<class S> static void snap(Case& c) {
    Rng& r=c.rng; int L=c.idx%12==7?1+(c.idx/12)%2:0; Src s(r,L==1); typedef Field1<S> F; int nx=r.ri(1,9),ny=r.ri(1,9); if (L==1) { nx=r.ri(1,3); ny=r.ri(1,3); } if (L==2) { nx=r.ri(30,90); ny=r.ri(30,90); } if (L) c.count("large_snapshots"); Vector dx=r.dir()*r.logu(1e-4,1e-1),dy=r.dir()*r.logu(1e-4,1e-1); double t=s.tc+r.uni(-3,6)*s.dt; if (r.coin(std::is_same<S,Beam>::value?0.6:0.3)) { ChargedParticle* q=s.P[r.ri(0,s.P.size()-1)]; t=r.coin(0.2)?q->TrajTime(r.ri(0,q->getNP()-1)):r.uni(q->TrajTime(0),q->TrajTime(q->getNP()-1)); } std::string fn="snap.h5"; SnapshotObserver<S> o(fn,s.O,dx,dy,nx,ny,t); o.setSource(F::get(s)); c.check(o.getBufferSize()==(size_t)nx*ny*6,"C12:size","snapshot buffer size"); { double* z=o.getBuffer(); bool zero=true; for (size_t i=0;i<o.getBufferSize();i++) if (z[i]!=0) zero=false; c.check(zero,"C12:snap-initial","fields not zero before integration"); delete[] z; }
    o.integrate(); if (r.coin(0.3)) o.integrate();   // a snapshot is computed, not accumulated
    Mag m; std::vector<ElMagField> ref,got; std::vector<Vector> pos; double ext=vnorm(s.O)+9*(vnorm(dx)+vnorm(dy));
    for (int ix=0;ix<nx;ix++) for (int iy=0;iy<ny;iy++) { Vector p=(V3(s.O)+V3(dx)*(ix-0.5L*(nx-1))+V3(dy)*(iy-0.5L*(ny-1))).d(); ElMagField f=F::at(s,t,p); ref.push_back(f); m.add(f); pos.push_back(p); got.push_back(o.getField(ix,iy)); }
    double e=4e-15*(fabs(t)+ext/3e8);
    for (size_t i=0;i<ref.size();i++) { double d; bool ok=same(got[i],ref[i],1e-8,m.E,m.B,d); if (!ok) { // sensitivity to the rounding of the cell position
            Mag v; for (int q=0;q<6;q++) { Vector X=pos[i]; double h=4e-15*ext; (q%3==0?X.x:q%3==1?X.y:X.z)+=(q<3?h:-h); ElMagField f=F::at(s,t,X); v.E=fmax(v.E,vnorm(f.E()-ref[i].E())); v.B=fmax(v.B,vnorm(f.B()-ref[i].B())); } for (double dd:{-e,e}) { ElMagField f=F::at(s,t+dd,pos[i]); v.E=fmax(v.E,vnorm(f.E()-ref[i].E())); v.B=fmax(v.B,vnorm(f.B()-ref[i].B())); } ok=vnorm(got[i].E()-ref[i].E())<=8*v.E+1e-8*m.E && vnorm(got[i].B()-ref[i].B())<=8*v.B+1e-8*m.B; }
        c.check(ok,(std::string("C12:snap-")+F::n()).c_str(),"cell %zu of %dx%d: E (%g %g %g) expected (%g %g %g)",i,nx,ny,got[i].E().x,got[i].E().y,got[i].E().z,ref[i].E().x,ref[i].E().y,ref[i].E().z); c.count((std::string("snapshot_cells_")+F::n()).c_str()); }
    c.check(throws([&]{o.getField(nx,0);})&&throws([&]{o.getField(0,ny);})&&throws([&]{o.setField(nx,0,ElMagFieldZero);})&&throws([&]{o.setField(0,ny,ElMagFieldZero);}),"C12:range","index out of range accepted");
    double* b=o.getBuffer(); for (size_t i=0;i<o.getBufferSize();i++) b[i]=r.uni(-1,1); o.fromBuffer(b,o.getBufferSize()); { int ix=r.ri(0,nx-1),iy=r.ri(0,ny-1); ElMagField f(r.vec(1),r.vec(1)); o.setField(ix,iy,f); double* q=b+6*(ix*ny+iy); q[0]=f.E().x;q[1]=f.E().y;q[2]=f.E().z;q[3]=f.B().x;q[4]=f.B().y;q[5]=f.B().z; } double* b2=o.getBuffer(); c.check(!memcmp(b,b2,8*o.getBufferSize()),"C12:snap-buffer","buffer not restored"); c.check(throws([&]{o.fromBuffer(b,o.getBufferSize()-1);})&&throws([&]{o.fromBuffer(b,o.getBufferSize()+6);}),"C12:size","buffer of wrong size accepted");
    bool store=r.coin(0.6); int np=-1; if (store) { np=Store<S>::go(o); if (std::is_same<S,Beam>::value) c.check(np==(int)s.P.size(),"C12:snap-particles","%d particles stored, %zu in the beam",np,s.P.size()); }
    o.generateOutput(); { H5File h(fn); H5Set P=h.get("ObservationPosition"),E=h.get("ElMagField"); c.check(P.ok&&E.ok&&P.dims==std::vector<long>({nx,ny,3})&&E.dims==std::vector<long>({nx,ny,6})&&P.att["Nx"]==nx&&P.att["Ny"]==ny,"C12:snap-file","dataset missing or of wrong shape"); if (P.v.size()==3*pos.size()) for (size_t i=0;i<pos.size();i++) c.nearv(Vector(P.v[3*i],P.v[3*i+1],P.v[3*i+2]),pos[i],1e-14*ext,"C12:snap-position","cell position"); c.check(E.v.size()==o.getBufferSize()&&!memcmp(E.v.data(),b,8*o.getBufferSize()),"C12:snap-file","fields in the file differ from those held"); c.near(E.att["t0"],t,1e-15*fabs(t),"C12:snap-file","t0"); c.count("files");
        if (np>0) { H5Set C=h.get("ParticleCoordinates"); c.check(C.ok&&C.dims==std::vector<long>({np,6})&&C.att["N_particles"]==np,"C12:snap-particles","particle coordinates missing"); int i=0; if ((int)C.v.size()==6*np) for (auto p:s.P) { // linear interpolation of the trajectory, clamped to its ends
                    int n=p->getNP(); int j=0; while (j<n-2&&p->TrajTime(j+1)<=t) j++; LD f=((LD)t-p->TrajTime(j))/(p->TrajTime(j+1)-(LD)p->TrajTime(j)); V3 X=V3(p->TrajPoint(j))*(1-f)+V3(p->TrajPoint(j+1))*f, U=V3(p->TrajMomentum(j))*(1-f)+V3(p->TrajMomentum(j+1))*f; double* q=&C.v[6*i++]; double L=s.dt*3e8, dU=0; for (int k=0;k+1<n;k++) dU=fmax(dU,vnorm(p->TrajMomentum(k+1)-p->TrajMomentum(k))); bool in=t>=p->TrajTime(0)&&t<=p->TrajTime(n-1); if (!in) { if (t<p->TrajTime(0)||t>p->TrajTime(n-1)) { bool z=true; for (int k=0;k<6;k++) if (q[k]!=0) z=false; c.check(z,"C12:snap-particles-absent","particle without a trajectory point at the snapshot time (%.17g not in %.17g .. %.17g) has coordinates %g %g %g",t,p->TrajTime(0),p->TrajTime(n-1),q[0],q[1],q[2]); c.count("absent_particles"); } continue; } c.nearv(Vector(q[0],q[1],q[2]),X.d(),0.15*L*fmin(1,dU)+1e-9*L+1e-12,"C12:snap-particles","particle position at the snapshot time"); c.nearv(Vector(q[3],q[4],q[5]),U.d(),0.5*dU+1e-9*(1+vnorm(U.d())),"C12:snap-particles","particle momentum at the snapshot time"); c.count("particles_in_snapshot"); } }
        else c.check(!h.has("ParticleCoordinates"),"C12:snap-particles","particle coordinates not asked for"); }
    delete[] b; delete[] b2; if (m.E>0&&nx*ny>1) c.nontrivial(r.s);
}
VF_GROUP(snapshot_beam,100,1200) { snap<Beam>(c); }
VF_GROUP(snapshot_bunch,100,1200) { snap<Bunch>(c); }
VF_GROUP(snapshot_lattice,100,1200) { snap<Lattice>(c); }

template<class S> static void point(Case& c) {
    Rng& r=c.rng; int L=c.idx%12==7?1+(c.idx/12)%2:0; Src s(r,L==1); typedef Field1<S> F; int n=r.ri(1,60); if (L==2) n=r.ri(2000,20000); if (L) c.count("large_points"); double tdt=s.dt*r.logu(0.05,3),t0=s.tc-tdt*r.uni(-1,n+1); std::string fn="pt.sdds"; PointObserver<S> o(fn,s.O,t0,tdt,n); o.setSource(F::get(s)); c.check(o.getBufferSize()==(size_t)6*n,"C12:size","point buffer size %zu for %d samples",o.getBufferSize(),n);
    std::vector<double> init(6*n,0.0); if (r.coin()) { for (auto& v:init) v=r.uni(-1,1)*1e-4; o.fromBuffer(init.data(),init.size()); } o.integrate(); FieldTrace T(t0,tdt,n); F::trace(s,s.O,&T); Mag m; std::vector<ElMagField> ref; for (int i=0;i<n;i++) { ElMagField f=T.get_field((size_t)i),f0; f6(&init[6*i],f0); ElMagField t(f.E()+f0.E(),f.B()+f0.B()); ref.push_back(t); m.add(t); m.add(f); }
    double* b=o.getBuffer(); for (int i=0;i<n;i++) { ElMagField g; f6(b+6*i,g); double d; c.check(same(g,ref[i],1e-9,m.E,m.B,d),(std::string("C12:point-")+F::n()).c_str(),"sample %d of %d: E (%g %g %g) expected (%g %g %g)",i,n,g.E().x,g.E().y,g.E().z,ref[i].E().x,ref[i].E().y,ref[i].E().z); c.count((std::string("point_samples_")+F::n()).c_str()); }
    for (int i=0;i<6*n;i++) b[i]=r.uni(-1,1)*r.logu(1e-20,1e20); o.fromBuffer(b,6*n); double* b2=o.getBuffer(); c.check(!memcmp(b,b2,48*n),"C12:point-buffer","buffer not restored"); c.check(throws([&]{o.fromBuffer(b,6*n-1);})&&throws([&]{o.fromBuffer(b,0);}),"C12:size","buffer of wrong size accepted");
    o.generateOutput(); Sdds f(fn); c.check(f.ok,"C12:point-file","SDDS file unreadable: %s",f.err.c_str()); c.check(f.rows==n&&f.par["NumberTimeSteps"]==n,"C12:point-file","%ld rows, NumberTimeSteps %g, expected %d",f.rows,f.par["NumberTimeSteps"],n); c.near(f.par["t0"],t0,1e-14*fabs(t0),"C12:point-file","t0"); c.near(f.par["dt"],tdt,1e-14*tdt,"C12:point-file","dt");
    if (f.rows==n) for (int i=0;i<n;i++) { c.near(f.col["t"].at(i),(double)((LD)t0+(LD)i*tdt),1e-14*(fabs(t0)+n*tdt),"C12:point-file","time"); const char* nm[6]={"Ex","Ey","Ez","Bx","By","Bz"}; for (int k=0;k<6;k++) c.near(f.col[nm[k]].size()>(size_t)i?f.col[nm[k]][i]:NAN,b[6*i+k],1e-14*fabs(b[6*i+k]),"C12:point-file",nm[k]); } c.count("files");
    delete[] b; delete[] b2; if (m.E>0) c.nontrivial(r.s);
}
VF_GROUP(point_beam,100,1200) { point<Beam>(c); }
VF_GROUP(point_bunch,100,1200) { point<Bunch>(c); }
VF_GROUP(point_lattice,100,1200) { point<Lattice>(c); }
int main(int a,char**b) { return vf::main(a,b); }
