// C06: observers computed in parallel: no data races, results independent of the schedule, every cell computed once
#include "gomp_standin.h"
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "screen.h"
#include "snapshot.h"
#include "mesh.h"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include <sys/syscall.h>
#include <time.h>
using namespace vf;
// a clock that can be made to run fast, so that the progress messages (once per minute) take part as well
static std::atomic<long> fast(0), ticks(0);
extern "C" int clock_gettime(clockid_t id,struct timespec* t) { int r=syscall(SYS_clock_gettime,id,t); if (id==CLOCK_REALTIME && fast.load(std::memory_order_relaxed)) t->tv_sec+=100*ticks.fetch_add(1,std::memory_order_relaxed); return r; }
// lattice element that logs every evaluation without synchronising the threads (relaxed counters only)
struct LogField : public GeneralField { TestField f; std::vector<std::atomic<int>>* hits=nullptr; std::vector<std::atomic<int>>* order=nullptr; std::atomic<int> ticket{0}; std::vector<Vector> cells; 
    bool is_external() override { return true; }
    int find(const Vector& X) const { int b=-1; double d=1e300; for (size_t i=0;i<cells.size();i++) { double x=cells[i].x-X.x,y=cells[i].y-X.y,z=cells[i].z-X.z; double q=x*x+y*y+z*z; if (q<d) { d=q; b=i; } } return b; }
    ElMagField Field(double t,Vector X) override { if (hits) { gs::jitter(); int i=find(X); if (i>=0) { (*hits)[i].fetch_add(1,std::memory_order_relaxed); int k=ticket.fetch_add(1,std::memory_order_relaxed); if (k<(int)order->size()) (*order)[k].store(i,std::memory_order_relaxed); } } Vector E,B; f.eval(t,X,E,B); return ElMagField(E,B); } };
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.02*m*3e8); f.B0=r.vec(0.1*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
struct World { Beam beam; Lattice* lat; LogField* lf; std::vector<ChargedParticle*> P; Vector O; double tc,dt;
    World(Rng& r) { lat=new Lattice(); lf=new LogField(); genf(r,lf->f,1e-12,1); dt=r.logu(1e-13,1e-12); double g=r.logu(1.1,20); TestField f; genf(r,f,dt,g); int nb=r.ri(1,3); Vector d=r.dir()*sqrt(g*g-1); for (int b=0;b<nb;b++) { Bunch* B=new Bunch(); int np=r.ri(1,3); for (int i=0;i<np;i++) { ChargedParticle* p=new ChargedParticle(-1,1); p->initTrajectory(0,r.vec(0.01),d+r.vec(0.1),VectorZero); p->InitVay(dt,&f); int st=r.ri(3,25); for (int k=0;k<st;k++) p->StepVay(&f); B->Add(p); P.push_back(p); } beam.Add(B); }
        O=r.dir()*r.uni(0.3,2); ChargedParticle* q=P[0]; int j=r.ri(0,q->getNP()-1); tc=q->TrajTime(j)+vnorm(O-q->TrajPoint(j))/(double)cc;
        lat->addElement(lf); // and one of each kind of real element around the observed region
        if (r.coin()) { PlanarUndulator* u=new PlanarUndulator(O); u->Setup(0.5,0.05,10); lat->addElement(u); } if (r.coin()) { GaussianWave* w=new GaussianWave(tc,O); w->Setup(1e-3,std::complex<double>(1e6,2e5),0.1); lat->addElement(w); } if (r.coin()) { GaussianWavePacket* w=new GaussianWavePacket(tc,O); w->Setup(1e-3,std::complex<double>(1e6,0),0.1,1e-12); lat->addElement(w); } if (r.coin()) { HomogeneousField* h=new HomogeneousField(Vector(1,2,3),Vector(0.1,0.2,0.3)); lat->addElement(h); } }
    ~World() { delete lat; } };
template<class S> struct Sel; template<> struct Sel<Beam> { static Beam* get(World& w) { return &w.beam; } static const char* n() { return "beam"; } }; template<> struct Sel<Bunch> { static Bunch* get(World& w) { return w.beam.getBunch(0); } static const char* n() { return "bunch"; } }; template<> struct Sel<Lattice> { static Lattice* get(World& w) { return w.lat; } static const char* n() { return "lattice"; } };
static void compare(Case& c,const char* key,const double* g,const std::vector<double>& w,int per,int threads) { double mE=1e-300,mB=1e-300; for (size_t i=0;i<w.size();i++) { double& m=i%6<3?mE:mB; m=fmax(m,fabs(w[i])); } size_t bad=0,first=0; for (size_t i=0;i<w.size();i++) if (!(fabs(g[i]-w[i])<=1e-9*(i%6<3?mE:mB))) { if (!bad++) first=i; } c.check(bad==0,key,"%zu of %zu values differ from the sequential result with %d threads; first in cell %zu: %g, expected %g",bad,w.size(),threads,first/6/per,g[first],w[first]); c.count("values_compared",w.size()); }
template<class F> static void schedules(Case& c,World& w,int ncell,int per,bool lattice,const std::vector<Vector>& cells,int runs,F run) {
    Rng& r=c.rng; for (int k=0;k<runs;k++) { gs::Config& g=gs::cfg(); g.threads = k==0? r.pick(std::vector<int>{2,3,4}) : r.ri(1,16); g.seed=r.next(); g.jitter=r.pick(std::vector<int>{0,5,30,80}); bool ff=r.coin(0.4); fast.store(ff,std::memory_order_relaxed); std::vector<std::atomic<int>> hits(ncell), order(ncell*per+8); for (auto& h:hits) h.store(0); for (auto& o:order) o.store(-1); if (lattice) { w.lf->cells=cells; w.lf->hits=&hits; w.lf->order=&order; w.lf->ticket.store(0); }
        long t0=gs::regions().load(); run(g.threads); fast.store(0); w.lf->hits=nullptr; long nr=gs::regions().load()-t0; c.check(nr>0||g.threads>=1,"C06:parallel","no parallel region"); g.jitter=0; 
        if (lattice) { int miss=0,rep=0; for (auto& h:hits) { int n=h.load(); if (n<per) miss++; if (n>per) rep++; } c.check(miss==0,"C06:missing","%d of %d cells were not evaluated at every sample with %d threads",miss,ncell,g.threads); if (rep==0) c.count("cells_exactly_once",ncell); std::string sig; for (auto& o:order) { int v=o.load(); sig+=(char)(v&255); sig+=(char)(v>>8); } uint64_t h=1469598103934665603ull; for (unsigned char x:sig) { h^=x; h*=1099511628211ull; } c.nontrivial(h^(uint64_t)c.idx); } else if (g.threads>1) c.nontrivial(r.s);
        c.count("schedules"); if (ff) c.count("schedules_with_progress"); if (g.threads>ncell) c.count("more_threads_than_cells"); } }
template<class S> static void screen(Case& c) {
    Rng& r=c.rng; World w(r); typedef Sel<S> L; S* src=L::get(w); int nx=r.ri(1,4),ny=r.ri(1,9),n=r.ri(1,10); Vector dx=r.dir()*r.logu(1e-3,1e-1),dy; do dy=r.dir()*r.logu(1e-3,1e-1); while (V3(dx).cross(V3(dy)).n()<0.2*vnorm(dx)*vnorm(dy)); double tdt=w.dt*r.logu(0.05,3),dtx=r.uni(-2,2)*tdt,dty=r.uni(-2,2)*tdt,t0=w.tc-tdt*r.uni(-1,n+1); std::vector<Vector> cells; std::vector<double> ref;
    for (int ix=0;ix<nx;ix++) for (int iy=0;iy<ny;iy++) { Vector X=w.O+dx*(double)(ix-nx/2)+dy*(double)(iy-ny/2); cells.push_back(X); }
    gs::cfg().threads=1; gs::cfg().jitter=0; { ScreenObserver<S> o("s1.h5",w.O,dx,dy,nx,ny,t0,tdt,dtx,dty,n); o.setSource(src); o.integrate(); double* b=o.getBuffer(); ref.assign(b,b+o.getBufferSize()); delete[] b; double m=0; for (double v:ref) m=fmax(m,fabs(v)); if (m>0) c.count("fields_seen"); }
    bool lat=std::is_same<S,Lattice>::value; std::string key=std::string("C06:screen-")+L::n(); gs::cfg().jitter=0;
    schedules(c,w,nx*ny,n,lat,cells,c.thorough?6:3,[&](int th){ ScreenObserver<S> o("s.h5",w.O,dx,dy,nx,ny,t0,tdt,dtx,dty,n); o.setSource(src); o.integrate(); double* b=o.getBuffer(); compare(c,key.c_str(),b,ref,n,th); delete[] b; }); c.sample("%s on %dx%d cells, %d samples",L::n(),nx,ny,n);
}
template<class S> static void snap(Case& c) {
    Rng& r=c.rng; World w(r); typedef Sel<S> L; S* src=L::get(w); int nx=r.ri(1,6),ny=r.ri(1,9); Vector dx=r.dir()*r.logu(1e-3,1e-1),dy=r.dir()*r.logu(1e-3,1e-1); double t=w.tc+r.uni(-1,3)*w.dt; std::vector<Vector> cells; std::vector<double> ref; for (int ix=0;ix<nx;ix++) for (int iy=0;iy<ny;iy++) { Vector X=w.O+dx*(ix-0.5*(nx-1))+dy*(iy-0.5*(ny-1)); cells.push_back(X); }
    gs::cfg().threads=1; gs::cfg().jitter=0; { SnapshotObserver<S> o("q.h5",w.O,dx,dy,nx,ny,t); o.setSource(src); o.integrate(); double* b=o.getBuffer(); ref.assign(b,b+o.getBufferSize()); delete[] b; double m=0; for (double v:ref) m=fmax(m,fabs(v)); if (m>0) c.count("fields_seen"); } bool lat=std::is_same<S,Lattice>::value; std::string key=std::string("C06:snapshot-")+L::n(); gs::cfg().jitter=0;
    schedules(c,w,nx*ny,1,lat,cells,c.thorough?6:3,[&](int th){ SnapshotObserver<S> o("s.h5",w.O,dx,dy,nx,ny,t); o.setSource(src); o.integrate(); double* b=o.getBuffer(); compare(c,key.c_str(),b,ref,1,th); delete[] b; });
}
template<class S> static void mesh(Case& c) {
    Rng& r=c.rng; World w(r); typedef Sel<S> L; S* src=L::get(w); int np=r.ri(1,30), n=r.ri(1,8); double tdt=w.dt*r.logu(0.05,3); std::vector<double> corner,center,t0; std::vector<int> tri; std::vector<Vector> cells; Vector a=r.dir(),b; do b=r.dir(); while (V3(a).cross(V3(b)).n()<0.3); a=a*0.02; b=b*0.02; auto add=[&](Vector v){ corner.push_back(v.x);corner.push_back(v.y);corner.push_back(v.z); };
    for (int i=0;i<=np;i++) { add(w.O+a*(double)i); add(w.O+a*(double)i+b); } for (int i=0;i<np;i++) { int k=2*i; tri.push_back(k);tri.push_back(k+1);tri.push_back(k+2); Vector X=(w.O+a*(double)i)+(a+b)*(1/3.); center.push_back(X.x);center.push_back(X.y);center.push_back(X.z); cells.push_back(X); t0.push_back(w.tc-tdt*r.uni(-1,n+1)); }
    std::string fn="m.h5"; { H5Out f(fn); f.put<double>("MeshCornerPoints",{corner.size()/3,3},corner,{{"Ncp",(int)corner.size()/3}}); f.put<double>("ObservationPosition",{(hsize_t)np,3},center,{{"Np",np}}); f.put<int>("MeshTriangles",{(hsize_t)np,3},tri); f.put<double>("ObservationTime",{(hsize_t)np},t0,{{"Nt",n}},{{"dt",tdt}}); }
    std::vector<double> ref; gs::cfg().threads=1; gs::cfg().jitter=0; { MeshedScreen<S> o(fn); o.init(); o.zero(); o.setSource(src); o.integrate(); double* b=o.getBuffer(); ref.assign(b,b+o.getBufferSize()); delete[] b; double m=0; for (double v:ref) m=fmax(m,fabs(v)); if (m>0) c.count("fields_seen"); } bool lat=std::is_same<S,Lattice>::value; std::string key=std::string("C06:mesh-")+L::n(); gs::cfg().jitter=0;
    schedules(c,w,np,n,lat,cells,c.thorough?6:3,[&](int th){ MeshedScreen<S> o(fn); o.init(); o.zero(); o.setSource(src); o.integrate(); double* b=o.getBuffer(); compare(c,key.c_str(),b,ref,n,th); delete[] b; });
}
VF_GROUP(screen_beam,25,250) { screen<Beam>(c); }
VF_GROUP(screen_bunch,25,250) { screen<Bunch>(c); }
VF_GROUP(screen_lattice,25,250) { screen<Lattice>(c); }
VF_GROUP(snapshot_beam,25,250) { snap<Beam>(c); }
VF_GROUP(snapshot_bunch,25,250) { snap<Bunch>(c); }
VF_GROUP(snapshot_lattice,25,250) { snap<Lattice>(c); }
VF_GROUP(mesh_beam,25,250) { mesh<Beam>(c); }
VF_GROUP(mesh_bunch,25,250) { mesh<Bunch>(c); }
VF_GROUP(mesh_lattice,25,250) { mesh<Lattice>(c); }
int main(int a,char**b) { return vf::main(a,b); }
