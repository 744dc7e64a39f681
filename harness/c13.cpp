// C13: meshed screens
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "mesh.h"
#include <algorithm>
using namespace vf;
static std::string lastex; template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception& e) { lastex=e.what(); return true; } return false; }
struct MeshDef { int nc,np,nt; double dt; std::vector<double> corner,center,t0,field; std::vector<int> tri; bool time,fld; V3 n; };
static Vector at(const std::vector<double>& v,int i) { return Vector(v[3*i],v[3*i+1],v[3*i+2]); }
// an irregular triangulated surface patch around O with average normal n: jittered grid, random diagonals, some cells left out
static MeshDef make(Rng& r,bool small=false) {
    MeshDef m; int a=r.ri(1,small?2:4),b=r.ri(1,small?2:4); if (!small&&r.coin(0.03)) { a=r.ri(12,35); b=r.ri(12,35); } V3 n(r.dir()); V3 e1=V3(r.vec(1)).cross(n); while (e1.n()<0.1) e1=V3(r.vec(1)).cross(n); e1=e1.unit(); V3 e2=e1.cross(n)*-1; // e1 x e2 = n
    Vector O=r.vec(1); double h=r.logu(1e-4,1e-1); m.n=n; bool flat=r.coin(0.4);
    for (int i=0;i<=a;i++) for (int j=0;j<=b;j++) { V3 p=V3(O)+e1*((i+0.25*r.uni(-1,1))*h)+e2*((j+0.25*r.uni(-1,1))*h)+n*(flat?0:0.1*h*r.uni(-1,1)); m.corner.push_back(p.x); m.corner.push_back(p.y); m.corner.push_back(p.z); }
    m.nc=(a+1)*(b+1); std::vector<std::vector<int>> T;
    for (int i=0;i<a;i++) for (int j=0;j<b;j++) { int p00=i*(b+1)+j,p01=p00+1,p10=p00+b+1,p11=p10+1; // normal is (p3-p1)x(p2-p1)
        if (r.coin()) { T.push_back({p00,p11,p10}); T.push_back({p00,p01,p11}); } else { T.push_back({p00,p01,p10}); T.push_back({p01,p11,p10}); } }
    for (size_t i=T.size();i>1;i--) std::swap(T[i-1],T[r.ri(0,i-1)]); if (T.size()>2&&r.coin()) T.resize(T.size()-r.ri(0,(int)T.size()/2)); m.np=T.size();
    for (auto& t:T) { int k=r.ri(0,2); for (int q=0;q<3;q++) m.tri.push_back(t[(q+k)%3]); V3 p=(V3(at(m.corner,t[0]))+V3(at(m.corner,t[1]))+V3(at(m.corner,t[2])))/3; m.center.push_back(p.x); m.center.push_back(p.y); m.center.push_back(p.z); }
    m.time=r.coin(0.9); m.fld=m.time&&r.coin(0.7); m.nt=m.time?r.ri(m.fld?1:0,12):0; if (m.time&&m.np<60&&r.coin(0.03)) m.nt=r.ri(600,3000); m.dt=m.time?r.logu(1e-14,1e-11):0; for (int i=0;i<m.np;i++) m.t0.push_back(m.time?r.uni(-1,1)*1e-9:0); for (int i=0;i<m.np*m.nt*6;i++) m.field.push_back(m.fld?r.uni(-1,1)*(i%6<3?1e3:1e-5):0); return m; }
static void write(const MeshDef& m,const char* fn,int dn=0,int dp=0,int dtn=0) { H5Out f(fn); f.put<double>("MeshCornerPoints",{(hsize_t)m.corner.size()/3,3},m.corner,{{"Ncp",m.nc+dn}}); f.put<double>("ObservationPosition",{(hsize_t)m.center.size()/3,3},m.center,{{"Np",m.np+dp}}); f.put<int>("MeshTriangles",{(hsize_t)m.tri.size()/3,3},m.tri); if (m.time) f.put<double>("ObservationTime",{(hsize_t)m.t0.size()},m.t0,{{"Nt",m.nt+dtn}},{{"dt",m.dt}}); if (m.fld) f.put<double>("ElMagField",{(hsize_t)m.np,(hsize_t)m.nt,6},m.field); }
template<class S> static void same(Case& c,MeshedScreen<S>& s,const MeshDef& m,const char* key) {
    c.check(s.get_Np()==m.np&&s.get_Nt()==m.nt&&s.getBufferSize()==(size_t)m.np*m.nt*6,key,"Np %d Nt %d, expected %d %d",s.get_Np(),s.get_Nt(),m.np,m.nt); if (s.get_Np()!=m.np||s.get_Nt()!=m.nt) return; c.check(s.get_dt()==m.dt,key,"dt %g expected %g",(double)s.get_dt(),m.dt);
    for (int i=0;i<m.np;i++) { Vector p=s.get_point(i); c.check(p.x==m.center[3*i]&&p.y==m.center[3*i+1]&&p.z==m.center[3*i+2],key,"point %d",i); c.check(s.get_t0(i)==m.t0[i],key,"t0 of cell %d is %g, expected %g",i,s.get_t0(i),m.t0[i]); FieldTrace t=s.get_trace(i); c.check((int)t.get_N()==m.nt&&t.get_t0()==m.t0[i],key,"trace of cell %d",i); bool ok=true; for (int k=0;k<m.nt&&k<(int)t.get_N();k++) { ElMagField f=t.get_field((size_t)k); const double* q=&m.field[6*(i*m.nt+k)]; if (f.E().x!=q[0]||f.E().y!=q[1]||f.E().z!=q[2]||f.B().x!=q[3]||f.B().y!=q[4]||f.B().z!=q[5]) ok=false; } c.check(ok,key,"field of cell %d differs",i); c.count("cells"); } }
static void filesame(Case& c,const char* fn,const MeshDef& m,const char* key) { H5File h(fn); H5Set a=h.get("MeshCornerPoints"),b=h.get("ObservationPosition"),t=h.get("MeshTriangles"),o=h.get("ObservationTime"),e=h.get("ElMagField"); c.check(a.ok&&b.ok&&t.ok&&o.ok&&e.ok,key,"dataset missing in the written file"); c.check(a.v==m.corner&&a.att["Ncp"]==m.nc,key,"corner points changed"); c.check(b.v==m.center&&b.att["Np"]==m.np,key,"centre points changed"); std::vector<double> tt(m.tri.begin(),m.tri.end()); c.check(t.v==tt,key,"triangles changed"); c.check(o.v==m.t0&&o.att["Nt"]==m.nt&&o.att["dt"]==m.dt,key,"timing changed"); c.check(e.v==m.field&&e.dims==std::vector<long>({m.np,m.nt,6}),key,"fields changed"); }

VF_GROUP(roundtrip,200,3000) {
    Rng& r=c.rng; MeshDef m=make(r); write(m,"m.h5"); MeshedScreen<Beam> s("m.h5"); same(c,s,m,"C13:read"); if (r.coin()) { s.init(); same(c,s,m,"C13:init-changes-data"); }
    s.writeFile("m2.h5"); filesame(c,"m2.h5",m,"C13:write"); { MeshDef m2=m; MeshedScreen<Beam> s2("m2.h5"); same(c,s2,m2,"C13:roundtrip"); }
    double* b=s.getBuffer(); c.check(s.getBufferSize()==m.field.size()&&(m.field.empty()||!memcmp(b,m.field.data(),8*m.field.size())),"C13:buffer","buffer differs from the fields"); for (size_t i=0;i<m.field.size();i++) b[i]=m.field[i]=r.uni(-1,1); s.fromBuffer(b,m.field.size()); same(c,s,m,"C13:buffer"); c.check(throws([&]{s.fromBuffer(b,m.field.size()+1);})&&(m.field.empty()||throws([&]{s.fromBuffer(b,m.field.size()-1);})),"C13:buffer-size","buffer of wrong size accepted"); same(c,s,m,"C13:buffer-size"); delete[] b;
    if (m.nt>0) { int i=r.ri(0,m.np-1); FieldTrace t(m.t0[i],m.dt,m.nt); for (int k=0;k<m.nt;k++) { Vector E=r.vec(1),B=r.vec(1); t.set_field(k,ElMagField(E,B)); double* q=&m.field[6*(i*m.nt+k)]; q[0]=E.x;q[1]=E.y;q[2]=E.z;q[3]=B.x;q[4]=B.y;q[5]=B.z; } s.set_trace(i,t); same(c,s,m,"C13:set-trace"); }
    s.generateOutput(); filesame(c,"m.h5",m,"C13:output"); s.zero(); std::fill(m.field.begin(),m.field.end(),0.0); same(c,s,m,"C13:zero"); if (m.np>1&&m.nt>1) c.nontrivial(r.s); c.sample("%d cells, %d corners, %d samples, dt %g",m.np,m.nc,m.nt,m.dt);
}
VF_GROUP(geometry,200,3000) {
    Rng& r=c.rng; MeshDef m=make(r); write(m,"g.h5"); MeshedScreen<Beam> s("g.h5"); s.init(); if (r.coin(.2)) s.init(); LD area=0; V3 avg; std::vector<V3> N; std::vector<LD> A;
    for (int i=0;i<m.np;i++) { V3 a(at(m.corner,m.tri[3*i])),b(at(m.corner,m.tri[3*i+1])),d(at(m.corner,m.tri[3*i+2])); V3 x=(d-a).cross(b-a); N.push_back(x.unit()); A.push_back(x.n()/2); area+=x.n()/2; avg=avg+x.unit(); } avg=avg.unit(); double ext=2;
    for (int i=0;i<m.np;i++) { Vector n=s.get_normal(i),xi=s.get_xi(i),eta=s.get_eta(i); double rel=1e-14*ext/sqrt((double)A[i]); c.near(s.get_area(i),(double)A[i],10*rel*(double)A[i],"C13:area","cell area"); c.nearv(n,N[i].d(),20*rel+1e-13,"C13:normal","cell normal"); V3 x(xi),y(eta),z(n); c.near((double)x.dot(y),0,1e-12,"C13:frame","xi.eta"); c.near((double)x.dot(z),0,1e-12,"C13:frame","xi.n"); c.near((double)y.dot(z),0,1e-12,"C13:frame","eta.n"); c.near((double)x.n(),1,1e-12,"C13:frame","|xi|"); c.near((double)y.n(),1,1e-12,"C13:frame","|eta|"); c.nearv(x.cross(y).d(),n,1e-12,"C13:frame-handed","xi x eta = n"); c.count("frames");
        // all cells use the same convention: xi in the x-z plane, or (screens facing +-y) eta in the y-z plane
        if (fabsl(avg.y)<0.69) c.near(xi.y,0,1e-12,"C13:frame-axis","xi confined to the x-z plane"); if (fabsl(avg.y)>0.71) c.near(eta.x,0,1e-12,"C13:frame-axis","eta confined to the y-z plane"); if (avg.y>0.71) c.check(dot(eta,Vector(0,0,1))*1>-1.1,"C13:frame-axis","eta"); }
    // neighbourhoods
    for (int i=0;i<m.np;i++) { std::vector<int> want; for (int k=0;k<m.np;k++) { bool sh=false; for (int a=0;a<3;a++) for (int b=0;b<3;b++) if (m.tri[3*i+a]==m.tri[3*k+b]) sh=true; if (sh) want.push_back(k); } std::vector<int> buf(m.np+2,-77); int n=s.get_Neighbourhood(i,buf.data()); std::vector<int> got(buf.begin(),buf.begin()+std::max(0,std::min(n,m.np))); std::sort(got.begin(),got.end()); c.check(got==want,"C13:neighbourhood","neighbourhood of cell %d has %d members, expected %zu",i,n,want.size()); c.check(buf[m.np]==-77,"C13:neighbourhood","wrote behind the neighbourhood"); c.count("neighbourhoods"); }
    // energy balance
    LD tot=0,scale=0; for (int i=0;i<m.np;i++) { V3 S; LD ab=0; for (int k=0;k<m.nt;k++) { const double* q=&m.field[6*(i*m.nt+k)]; V3 p=V3(q[0],q[1],q[2]).cross(V3(q[3],q[4],q[5]))/mu0*m.dt; S=S+p; ab+=p.n(); } c.nearv(s.Poynting(i),S.d(),(double)(1e-9*ab),"C13:poynting","energy flow density of a cell"); tot-=S.dot(N[i])*A[i]; scale+=ab*A[i]; } if (scale>0) { c.near(s.totalEnergy(),(double)tot,(double)(1e-9*scale),"C13:energy","total energy"); c.count("energies"); }
    // the report names the totals
    std::ostringstream os; s.writeReport(&os); std::string t=os.str(); size_t p=t.find("total area = "); c.check(p!=std::string::npos,"C13:report","no total area in the report"); if (p!=std::string::npos) c.near(atof(t.c_str()+p+13),(double)area*1e4,1e-5*(double)area*1e4,"C13:report","total area"); p=t.find("Energy incident on screen = "); if (scale>0&&p!=std::string::npos) c.near(atof(t.c_str()+p+28),(double)tot*1e6,1e-5*fabs((double)tot)*1e6+1e-9*(double)scale*1e6,"C13:report","energy");
    if (m.np>2) c.nontrivial(r.s); c.sample("%d cells, normal (%.2f %.2f %.2f), area %g",m.np,(double)avg.x,(double)avg.y,(double)avg.z,(double)area);
}
static void genf(Rng& r,TestField& f,double dt,double g) { f.kind=r.ri(0,2); double m=g/(1.758820025e11*dt); f.E0=r.vec(0.02*m*3e8); f.B0=r.vec(0.1*m); f.wE=r.uni(-1,1)*0.1/dt; f.wB=r.uni(-1,1)*0.1/dt; f.kE=r.vec(30); f.kB=r.vec(30); f.gE=r.vec(1); f.gB=r.vec(1); }
VF_GROUP(integrate,60,800) {
    Rng& r=c.rng; MeshDef m=make(r,true); while(!m.time||m.nt<1) m=make(r,true); double dt=r.logu(1e-13,1e-12); TestField f; genf(r,f,dt,5); std::vector<ChargedParticle*> P; Beam* beam=new Beam(); Bunch* bu=new Bunch(); Vector d=r.dir()*5; for (int i=0,n=r.ri(1,4);i<n;i++) { ChargedParticle* p=new ChargedParticle(-1,1); p->initTrajectory(0,r.vec(0.01),d+r.vec(0.1),VectorZero); p->InitVay(dt,&f); int st=r.ri(2,20); for (int k=0;k<st;k++) p->StepVay(&f); P.push_back(p); bu->Add(p); } beam->Add(bu); m.dt=dt*r.logu(0.1,3);
    for (int i=0;i<m.np;i++) { ChargedParticle* q=P[r.ri(0,P.size()-1)]; int j=r.ri(0,q->getNP()-1); m.t0[i]=q->TrajTime(j)+vnorm(at(m.center,i)-q->TrajPoint(j))/(double)cc-m.dt*r.uni(-1,m.nt+1); } write(m,"i.h5"); MeshedScreen<Beam> sb("i.h5"); MeshedScreen<Bunch> su("i.h5"); MeshedScreen<Lattice> sl("i.h5"); Lattice L; TestField* tf=new TestField(); genf(r,*tf,1e-12,1); L.addElement(tf); bool z=r.coin(); if (z) { sb.zero(); su.zero(); sl.zero(); std::fill(m.field.begin(),m.field.end(),0.0); } sb.setSource(beam); su.setSource(bu); sl.setSource(&L); sb.integrate(); su.integrate(); sl.integrate(); double mE=1e-300,mB=1e-300;
    struct Ref { std::vector<ElMagField> v; }; std::vector<Ref> rp(m.np),rl(m.np);
    for (int i=0;i<m.np;i++) { Vector X=at(m.center,i); FieldTrace T(m.t0[i],m.dt,m.nt); for (int k=0;k<m.nt;k++) { const double* q=&m.field[6*(i*m.nt+k)]; T.set_field(k,ElMagField(Vector(q[0],q[1],q[2]),Vector(q[3],q[4],q[5]))); Vector E,B; tf->eval(m.t0[i]+k*m.dt,X,E,B); rl[i].v.push_back(ElMagField(E+Vector(q[0],q[1],q[2]),B+Vector(q[3],q[4],q[5]))); } for (auto p:P) p->integrateFieldTrace(X,&T); for (int k=0;k<m.nt;k++) { ElMagField g=T.get_field((size_t)k); rp[i].v.push_back(g); mE=fmax(mE,fmax(vnorm(g.E()),vnorm(rl[i].v[k].E()))); mB=fmax(mB,fmax(vnorm(g.B()),vnorm(rl[i].v[k].B()))); } }
    for (int i=0;i<m.np;i++) { FieldTrace a=sb.get_trace(i),b=su.get_trace(i),l=sl.get_trace(i); for (int k=0;k<m.nt;k++) { for (int w=0;w<3;w++) { ElMagField g=(w==0?a:w==1?b:l).get_field((size_t)k), e=w==2?rl[i].v[k]:rp[i].v[k]; static const char* key[3]={"C13:beam","C13:bunch","C13:lattice"}; c.nearv(g.E(),e.E(),1e-9*mE,key[w],"electric field"); c.nearv(g.B(),e.B(),1e-9*mB,key[w],"magnetic field"); } c.count("recorded_samples"); } } delete beam; if (m.np>1) c.nontrivial(r.s);
}
VF_GROUP(hostile,300,2500) {     // files whose parts do not belong together
    Rng& r=c.rng; MeshDef m=make(r); if (m.nt<1) { m.time=m.fld=true; m.nt=3; m.dt=1e-12; m.field.assign(18*m.np,0.5); } std::string hfn="h"+std::to_string(c.idx)+".h5"; const char* hf=hfn.c_str(); std::string what; int k=r.ri(0,12); int dn=0,dp=0,dt=0; bool bad=true; std::string drop;
    switch(k) { case 0: { int i=r.ri(0,m.tri.size()-1); m.tri[i]=r.pick(std::vector<int>{m.nc,m.nc+r.ri(1,1000000),-1,-r.ri(2,1000000),2147483647}); what="triangle refers to a non-existing corner"; break; }
        case 1: dn=r.pick(std::vector<int>{-1,1,100000,-2*m.nc-1}); what="Ncp"; if (dn==-1) { } break; case 2: dp=r.pick(std::vector<int>{-1,1,1000,-m.np-5}); what="Np"; break; case 3: dt=r.pick(std::vector<int>{-1,1,1000,-m.nt-3}); what="Nt"; if (!m.fld&&dt>=0) bad=false; if (!m.fld&&m.nt+dt>=0) bad=false; break;
        case 4: m.center.resize(m.center.size()+3); what="too many positions"; break; case 5: m.tri.resize(m.tri.size()+3); what="too many triangles"; break; case 6: m.tri.resize(m.tri.size()-3); what="too few triangles"; break; case 7: m.t0.push_back(0); what="too many start times"; break; case 8: m.t0.pop_back(); if (m.t0.empty()) m.t0.resize(3); what="too few start times"; break;
        case 9: m.corner.resize(m.corner.size()+3); what="too many corners"; break; case 10: drop="MeshCornerPoints"; break; case 11: drop="MeshTriangles"; break; case 12: drop="ObservationPosition"; break; }
    write(m,hf,dn,dp,dt); if (!drop.empty()) { what="missing "+drop; hid_t f=H5Fopen(hf,H5F_ACC_RDWR,H5P_DEFAULT); H5Ldelete(f,drop.c_str(),H5P_DEFAULT); H5Fclose(f); } bool t=throws([&]{ MeshedScreen<Beam> s(hf); s.init(); s.totalEnergy(); }); if (bad) { c.check(t,("C13:reject:"+what).c_str(),"file with %s accepted",what.c_str()); c.count("rejected_files"); } else c.check(!t,"C13:accept","usable file rejected: %s",lastex.c_str());
    if (r.coin(0.2)) { FILE* f=fopen("bad.h5","w"); fprintf(f,"no hdf5 %d",r.ri(0,9)); fclose(f); c.check(throws([&]{MeshedScreen<Beam> s("bad.h5");})&&throws([&]{MeshedScreen<Beam> s("nofile.h5");}),"C13:reject:file","unreadable file accepted"); c.count("rejected_files"); } unlink(hf); c.nontrivial(what+std::to_string(m.np)); c.sample("%s",what.c_str());
}
int main(int a,char**b) { return vf::main(a,b); }
