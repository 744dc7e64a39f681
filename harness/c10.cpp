// C10: 1-D FEL interaction field against a reference advance of the grid
#include "ref.h"
#include "bunch.h"
#include "beam.h"
#include "fel1d.h"
#include "parser.h"
#include "pugixml.hpp"
#include "hdf5.h"
#include <memory>
using namespace vf;

struct Doc { pugi::xml_document d; std::unique_ptr<InputParser> p; pugi::xml_node n;
    Doc(const std::string& body) { std::string s="<teufel>"+body+"</teufel>"; d.load_string(s.c_str()); pugi::xml_node root=d.child("teufel"); p.reset(new InputParser(root)); n=root.first_child(); } };
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static std::string num(double v) { char b[60]; snprintf(b,sizeof b,"%.17g",v); return b; }
static std::string xyz(const char* tag,Vector v) { return std::string("<")+tag+" x=\""+num(v.x)+"\" y=\""+num(v.y)+"\" z=\""+num(v.z)+"\"/>"; }

// the documented 1-D scheme in long double
struct RefFel { int N; LD dt,ds; V3 prop,ex,ey,origin; LD zR,w0,zw; int steps; std::vector<LD> E,P; std::vector<LD> lastJ; LD maxE,fuzz;
    V3 head() const { return origin+prop*(ds*steps); } LD time() const { return dt*steps; }
    void start(int n) { N=n; E.assign(N,0); P=E; steps=0; lastJ.assign(N,0); maxE=0; fuzz=0; }
    void seed(LD E0,LD lam,LD tau,LD ts) { LD om=2*pi*cc/lam; for (int i=0;i<N;i++) { LD t=i*dt-ts; E[i]=E0*cosl(om*t)*expl(-0.5L*(t/tau)*(t/tau)); } P=E; upd(); }
    void upd() { for (LD v:E) maxE=fmaxl(maxE,fabsl(v)); }
    void advance(const std::vector<LD>& J) { std::vector<LD> nx(N,0.0L); nx[1]=E[0]; for (int i=1;i+1<N;i++) nx[i+1]=E[i-1]+E[i+1]-P[i-1]+dt*dt*J[i]; for (int i=1;i+1<N;i++) E[i]+=dt*dt*J[i]; P=E; E=nx; steps++; lastJ=J; upd(); }
    struct Pt { V3 X,u,a; LD Q; };
    void drive(const std::vector<Pt>& ps) { LD z=ds*steps, w=w0*sqrtl(1+((z-zw)/zR)*((z-zw)/zR)), A=pi/2*w*w; std::vector<LD> J(N,0.0L); LD jsum=0;
        for (auto& p:ps) { LD dz=(head()-p.X).dot(prop); LD g=sqrtl(1+p.u.n2()); V3 b=p.u/g; V3 bp=(p.a-b*b.dot(p.a))/g; LD j=bp.dot(ex)*p.Q/A/dt*(mu0*cc*cc); jsum+=p.a.n()/g*fabsl(p.Q)/A/dt*(mu0*cc*cc)*dt*dt*1e-2L+fabsl(j)*dt*dt;
            LD q=dz/ds; long ci=(long)rintl(q); if (fabsl(fabsl(q-floorl(q))-0.5L)<1e-6L) fuzz+=fabsl(j)*dt*dt*1e-6L; for (long i=ci-10;i<ci+11;i++) if (i>=0&&i<N) J[i]+=j*expl(-(dz-i*ds)*(dz-i*ds)/(2*4*ds*ds))/(2*sqrtl(2*pi)); }
        // rounding of particle positions relative to the grid
        LD rel=0; for (auto& p:ps) rel=fmaxl(rel,1e-15L*((head().n()+p.X.n())/ds)); fuzz+=jsum*(rel*2+1e-13L); advance(J); }
};
struct Setup { RefFel R; FEL_1D* f=nullptr; bool own=true; ~Setup() { if (own) delete f; } std::unique_ptr<Doc> doc; double dt; bool seeded; std::string log; int lstep; };
static void mk(Case& c,Setup& s,int N,double dt,bool seedit,bool logit,int kind) {
    Rng& r=c.rng; s.dt=dt; RefFel& R=s.R; R.dt=dt; R.ds=dt*cc; s.seeded=seedit; s.lstep=1;
    if (kind==0) { R.prop=V3(0,0,1); R.ex=V3(1,0,0); R.ey=V3(0,1,0); R.origin=V3(); R.zR=1; R.w0=1e-3; R.zw=1; R.start(N); s.f=new FEL_1D(dt,N); s.seeded=false; c.count("default_ctor"); return; }
    Vector prop=r.coin(0.3)?Vector(0,0,1):r.dir(), pol; do pol=r.dir(); while (fabs(dot(pol,prop))>0.9); Vector pos=r.vec(r.logu(1e-3,3)); R.origin=V3(pos); R.prop=V3(prop).unit(); V3 e=V3(pol); e=e-R.prop*e.dot(R.prop); R.ex=e.unit(); R.ey=R.prop.cross(R.ex);
    R.zR=r.logu(0.01,10); R.w0=r.logu(1e-4,1e-2); R.zw=r.uni(-1,2); R.start(N); double sc=r.logu(0.1,10),sp=r.logu(0.1,10);
    double E0=r.logu(1,1e9)*r.sgn(), lam=(double)R.ds*r.uni(4,60), tau=dt*N*r.uni(0.02,0.05), ts=dt*N*r.uni(0.45,0.6);
    std::string x="<fel1d N=\""+std::to_string(N)+"\">"+xyz("position",pos)+xyz("prop",prop*sc)+xyz("pol",pol*sp)+"<mode zR=\""+num(R.zR)+"\" w0=\""+num(R.w0)+"\" zwaist=\""+num(R.zw)+"\"/>";
    R.zR=(double)R.zR; if (seedit) { x+="<seed E0=\""+num(E0)+"\" lambda=\""+num(lam)+"\" tau=\""+num(tau)+"\" tstart=\""+num(ts)+"\"/>"; R.seed(E0,lam,tau,ts); }
    if (logit) { s.log="fel_"+std::to_string(c.idx)+".h5"; s.lstep=r.ri(1,6); x+="<log file=\""+s.log+"\""; if (s.lstep!=1||r.coin()) x+=" step=\""+std::to_string(s.lstep)+"\""; x+="/>"; }
    x+="</fel1d>"; s.doc.reset(new Doc(x)); s.f=new FEL_1D(dt,s.doc->n,s.doc->p.get()); c.check(!s.f->is_external(),"C10:external","interaction field claims to be external");
}
static double tolE(Setup& s) { RefFel& R=s.R; return (double)(R.maxE*(2e-13L*(R.steps+10)) + R.fuzz*(R.steps+2)*4)+1e-300; }
static void cmpfield(Case& c,Setup& s,const char* key,const char* w) {
    RefFel& R=s.R; double tol=tolE(s); Rng& r=c.rng; 
    for (int i=0;i<R.N;i++) { V3 X=R.head()-R.prop*(R.ds*(i+r.uni(-0.4,0.4))); Vector side=r.vec(1e-3); V3 sd=V3(side); sd=sd-R.prop*sd.dot(R.prop); X=X+sd; // uniform in the transverse plane
                ElMagField g=s.f->Field((double)(R.time()+R.dt*r.uni(-0.2,0.2)),X.d()); 
        if (!c.nearv(g.E(),(R.ex*R.E[i]).d(),tol+1e-12*(double)fabsl(R.E[i]),key,w)) { break; } if (!c.nearv(g.B()*299792458.0,(R.ey*R.E[i]).d(),tol+1e-12*(double)fabsl(R.E[i]),"C10:plane-wave","magnetic field of the wave")) break; c.count("cells_compared"); if (fabsl(R.E[i])>1e-3L*R.maxE) c.count("cells_with_field"); }
}
static void window(Case& c,Setup& s) {
    RefFel& R=s.R; V3 h=R.head(); double t=(double)R.time(); FEL_1D& f=*s.f;
    c.check(throws([&]{f.Field(t,(h+R.prop*(R.ds*0.8L)).d());}),"C10:window","field in front of the head was delivered"); c.check(throws([&]{f.Field(t,(h-R.prop*(R.ds*(R.N+0.2L))).d());}),"C10:window","field behind the tail was delivered");
    V3 mid=h-R.prop*(R.ds*(R.N/2)); c.check(throws([&]{f.Field(t+s.dt*0.5,mid.d());})&&throws([&]{f.Field(t-s.dt*0.5,mid.d());}),"C10:window","field of another time was delivered"); c.check(!throws([&]{f.Field(t,mid.d());}),"C10:window","field inside the window refused"); c.count("window_checks",5); }
struct LogRow { int step; std::vector<LD> E,J; double tol; LD fuzz; };
static bool rd(const char* fn,const char* ds,std::vector<double>& d,hsize_t dim[2],std::map<std::string,double>* att) {
    hid_t f=H5Fopen(fn,H5F_ACC_RDONLY,H5P_DEFAULT); if (f<0) return false; hid_t e=H5Dopen2(f,ds,H5P_DEFAULT); if (e<0) { H5Fclose(f); return false; } hid_t sp=H5Dget_space(e); bool ok=H5Sget_simple_extent_ndims(sp)==2; if (ok) { H5Sget_simple_extent_dims(sp,dim,0); d.resize(dim[0]*dim[1]+1); H5Dread(e,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,d.data()); d.pop_back(); }
    if (att) for (const char* n:{"N_field","N_steps","N_output","dt","w0","z_Rayl","z_waist","origin.x","origin.y","origin.z","prop.x","prop.y","prop.z"}) if (H5Aexists(e,n)>0) { hid_t a=H5Aopen(e,n,H5P_DEFAULT); double v=0; H5Aread(a,H5T_NATIVE_DOUBLE,&v); (*att)[n]=v; H5Aclose(a); }
    H5Sclose(sp); H5Dclose(e); H5Fclose(f); return ok; }
static void chklog(Case& c,Setup& s,const std::vector<LogRow>& rows) {
    if (s.log.empty()) return; s.f->write_output(); std::vector<double> E,J; hsize_t d[2]={0,0},dj[2]={0,0}; std::map<std::string,double> a; RefFel& R=s.R;
    if (!c.check(rd(s.log.c_str(),"InteractionField",E,d,&a)&&rd(s.log.c_str(),"CurrentDensity",J,dj,0),"C10:log-file","log file cannot be read")) return;
    c.check(d[0]==rows.size()&&d[1]==(hsize_t)R.N&&dj[0]==d[0]&&dj[1]==d[1],"C10:log-rows","log has %d x %d, expected %d rows (one per %d steps) x %d",(int)d[0],(int)d[1],(int)rows.size(),s.lstep,R.N);
    for (size_t k=0;k<rows.size()&&k<d[0]&&d[1]==(hsize_t)R.N;k++) { LD mj=0; for (LD v:rows[k].J) mj=fmaxl(mj,fabsl(v)); bool bad=false; for (int i=0;i<R.N&&!bad;i++) { bad|=!c.near(E[k*R.N+i],(double)rows[k].E[i],rows[k].tol+1e-12*(double)fabsl(rows[k].E[i]),"C10:log-field","logged field"); bad|=!c.near(J[k*R.N+i],(double)rows[k].J[i],(double)(mj*1e-9L+rows[k].fuzz/(R.dt*R.dt))+1e-300,"C10:log-current","logged current density"); c.count("log_values"); } if (bad) break; }
    Vector o=R.origin.d(), dz=(R.prop*(-R.ds)).d(); double ds=(double)R.ds; auto A=[&](const char* n,double v,double tol) { c.check(a.count(n)>0,"C10:log-attr","attribute %s missing",n); c.near(a[n],v,tol,"C10:log-attr",n); };
    A("N_field",R.N,0); A("N_steps",rows.size(),0); A("N_output",s.lstep,0); A("dt",s.dt,1e-14*s.dt); A("w0",R.w0,1e-12*(double)R.w0); A("z_Rayl",R.zR,1e-12*(double)R.zR); A("z_waist",R.zw,1e-12); A("origin.x",o.x,1e-14); A("origin.y",o.y,1e-14); A("origin.z",o.z,1e-14); A("prop.x",dz.x,1e-12*ds); A("prop.y",dz.y,1e-12*ds); A("prop.z",dz.z,1e-12*ds);
    c.count("logs_read"); unlink(s.log.c_str()); }
static void row(Setup& s,std::vector<LogRow>& rows,bool init) { RefFel& R=s.R; if (init || R.steps%s.lstep==0) rows.push_back({R.steps,R.E,R.lastJ,tolE(s),R.fuzz*4}); }

VF_GROUP(free,60,500) {         // no particles: unchanged propagation with light velocity
    Rng& r=c.rng; double dt=r.logu(1e-16,1e-12); int N=r.ri(60,300); Setup s; mk(c,s,N,dt,true,r.coin(0.5),1); std::vector<LD> start=s.R.E; Beam b; b.setTrackingMethod(TRACKING_VAY); b.setTimeStep(dt); TestField none; b.setupTracking(&none); b.setNOTS(0);
    std::vector<LogRow> rows; row(s,rows,true); cmpfield(c,s,"C10:seed","seeded field"); s.f->init(&b); s.R.advance(std::vector<LD>(N,0.0L)); row(s,rows,false); int n=r.ri(1,c.thorough?300:100);
    for (int k=0;k<n;k++) { b.setNOTS(k+1); s.f->step(&b); s.R.advance(std::vector<LD>(N,0.0L)); row(s,rows,false); if (k<3||k==n-1||r.coin(0.05)) { window(c,s); 
            // property itself: the seed moved with c (cells well away from both ends of the grid)
            for (int i=4;i<N;i++) { V3 X=s.R.head()-s.R.prop*(s.R.ds*i); ElMagField g=s.f->Field((double)s.R.time(),X.d()); c.nearv(g.E(),(s.R.ex*start[i]).d(),(double)(s.R.maxE*(2e-13L*(s.R.steps+10)))+(double)(1e-12L*s.R.maxE*(k+2)),"C10:light-velocity","freely propagating pulse"); c.count("free_cells"); } cmpfield(c,s,"C10:advance","field without particles"); } }
    chklog(c,s,rows); c.nontrivial(r.s); c.sample("free propagation N=%d dt=%g steps=%d",N,dt,n);
}
static void drivecase(Case& c,bool couple) {
    Rng& r=c.rng; double dt=r.logu(1e-15,1e-12); int N=r.ri(60,240); Setup s; int kind=r.coin(0.2)?0:1; mk(c,s,N,dt,r.coin(0.5),r.coin(0.6),kind); RefFel& R=s.R;
    // wiggling electrons moving roughly along the propagation direction, starting inside the window
    TestField& ext=*new TestField(); ext.kind=r.ri(0,1); double m=1.0/(1.758820025e11*dt); ext.E0=r.vec(0.01*m*3e8); ext.B0=r.vec(0.05*m); ext.wE=r.uni(-1,1)/dt*0.05; ext.wB=r.uni(-1,1)/dt*0.05; ext.kE=r.vec(0.05/(double)R.ds); ext.kB=r.vec(0.05/(double)R.ds);
    Beam b; int nb=r.ri(1,3); int np=0; bool tail=r.coin(0.3); double qmacro=r.logu(1,1e9); for (int ib=0;ib<nb;ib++) { Bunch* B=new Bunch(); int n=r.ri(ib==0?1:0,5); for (int i=0;i<n;i++) { double q=qmacro*r.uni(0.5,2)*r.sgn(); ChargedParticle* p=new ChargedParticle(q,fabs(q)); double cell=tail&&r.coin(0.7)?N-r.uni(1,14):r.coin(0.15)?r.uni(2,8):N*r.uni(0.2,0.6); V3 side(r.vec((double)R.ds*20)); V3 X=R.origin-R.prop*(R.ds*cell)+(side-R.prop*side.dot(R.prop)); double g=r.logu(1.05,60); V3 d=(R.prop+V3(r.vec(0.2))).unit(); V3 u=d*sqrt(g*g-1); p->initTrajectory(0,X.d(),u.d(),VectorZero); B->Add(p); np++; } b.Add(B); }
    Lattice lat; lat.addElement(&ext); if (couple) lat.addElement((s.own=false,s.f));
    b.setTrackingMethod(TRACKING_VAY); b.setTimeStep(dt); b.setNOTS(0); b.setupTracking(&lat); 
    std::vector<LogRow> rows; row(s,rows,true); s.f->init(&b); R.advance(std::vector<LD>(N,0.0L)); row(s,rows,false); int n=r.ri(3,c.thorough?150:50), done=0; if (r.coin(0.3)) cmpfield(c,s,"C10:advance","field after initialisation");
    for (int k=0;k<n;k++) { bool inside=true; if (couple) { try { b.doStep(&lat); } catch (std::exception&) { /* only a particle at the border of the window may end the run */ for (int ib=0;ib<b.getNOB();ib++) for (int ip=0;ip<b.getBunch(ib)->getNOP();ip++) { LD z=(R.head()-V3(b.getBunch(ib)->getParticle(ip)->getPosition())).dot(R.prop)/R.ds; if (z<4||z>N-5) inside=false; } c.check(!inside,"C10:window","field inside the window refused during tracking"); break; } } else b.doStep(&lat); std::vector<RefFel::Pt> ps; 
        for (int ib=0;ib<b.getNOB();ib++) for (int ip=0;ip<b.getBunch(ib)->getNOP();ip++) { ChargedParticle* p=b.getBunch(ib)->getParticle(ip); RefFel::Pt q; q.X=V3(p->getPosition()); q.u=V3(p->getMomentum()); q.a=V3(p->getAccel()); q.Q=p->getCharge(); LD z=(R.head()-q.X).dot(R.prop)/R.ds; if (z<1||z>N-2) inside=false; ps.push_back(q); 
            if (couple) { // the particle was pushed with the sum of lattice and interaction field at its own cell
                double pb[16]; p->bufferProbe(pb); LD zi=z-floorl(z); if (inside && fabsl(zi-0.5L)>1e-3L) { long i=(long)rintl(z); Vector E,B; ext.eval(p->getTime(),p->getPosition(),E,B); V3 Er=V3(E)+R.ex*R.E[i], Br=V3(B)+R.ey*(R.E[i]/cc); double te=1e-9*(vnorm(E)+(double)R.maxE)+tolE(s); c.nearv(Vector(pb[10],pb[11],pb[12]),Er.d(),te,"C10:acts-back-E","electric field perceived by a particle"); c.nearv(Vector(pb[13],pb[14],pb[15]),Br.d(),1e-9*(vnorm(B)+(double)R.maxE/3e8)+tolE(s)/3e8,"C10:acts-back-B","magnetic field perceived by a particle"); c.count("perceived"); } } }
        if (!inside) break; s.f->step(&b); R.drive(ps); row(s,rows,false); done++; if (k<2||k==n-1||r.coin(0.1)) { cmpfield(c,s,couple?"C10:coupled":"C10:driven","field driven by particles"); } }
    cmpfield(c,s,couple?"C10:coupled":"C10:driven","field driven by particles"); window(c,s); chklog(c,s,rows); if (done>2 && R.maxE>0) { c.nontrivial(r.s); c.count("driven_runs"); } c.count("driven_steps",done); c.sample("%s N=%d particles=%d steps=%d seed=%d maxE=%g",couple?"coupled":"driven",N,np,done,s.seeded,(double)R.maxE);
}
VF_GROUP(driven,80,600) { drivecase(c,false); }
VF_GROUP(coupled,80,600) { drivecase(c,true); }

VF_GROUP(rejects,60,400) {
    Rng& r=c.rng; double dt=r.logu(1e-15,1e-12); int N=r.ri(40,80); Setup s; mk(c,s,N,dt,false,false,1); RefFel& R=s.R; TestField none; Beam b; Bunch* B=new Bunch(); ChargedParticle* p=new ChargedParticle(-1,1); V3 X=R.origin-R.prop*(R.ds*N/2); V3 u=R.prop*3; p->initTrajectory(0,X.d(),u.d(),VectorZero); B->Add(p); b.Add(B); b.setTrackingMethod(TRACKING_VAY); 
    b.setTimeStep(dt*(r.coin()?1.001:0.5)); c.check(throws([&]{s.f->init(&b);}),"C10:reject-timestep","mismatching time step accepted"); b.setTimeStep(dt); b.setNOTS(0); b.setupTracking(&none);
    c.check(!throws([&]{s.f->init(&b);}),"C10:init","matching set-up refused"); c.check(throws([&]{s.f->step(&b);}),"C10:reject-time","step with a beam at another time accepted"); b.doStep(&none); b.setNOTS(3); c.check(throws([&]{s.f->step(&b);}),"C10:reject-time","step with a beam at another step accepted"); b.setNOTS(1); 
    V3 out=r.coin()?R.head()+R.prop*(R.ds*2):R.head()-R.prop*(R.ds*(N+2)); ChargedParticle* q=new ChargedParticle(-1,1); q->initTrajectory((double)dt,out.d(),u.d(),VectorZero); Bunch* B2=new Bunch(); B2->Add(q); Beam b2; b2.Add(B2); b2.setTimeStep(dt); b2.setNOTS(1); c.check(throws([&]{s.f->step(&b2);}),"C10:reject-outside","particle outside the grid accepted");
    ChargedParticle* w=new ChargedParticle(-1,1); w->initTrajectory((double)dt*3,X.d(),u.d(),VectorZero); Bunch* B3=new Bunch(); B3->Add(w); Beam b3; b3.Add(B3); b3.setTimeStep(dt); b3.setNOTS(1); c.check(throws([&]{s.f->step(&b3);}),"C10:reject-particle-time","particle at another time accepted");
    std::string base="<position x=\"0\" y=\"0\" z=\"0\"/>|<prop x=\"0\" y=\"0\" z=\"1\"/>|<pol x=\"1\" y=\"0\" z=\"0\"/>|<mode zR=\"1\" w0=\"0.001\" zwaist=\"1\"/>"; std::vector<std::string> parts; { std::stringstream ss(base); std::string t; while (std::getline(ss,t,'|')) parts.push_back(t); }
    int miss=r.ri(0,4); std::string x=miss==4?"<fel1d>":"<fel1d N=\"50\">"; for (int i=0;i<4;i++) if (i!=miss) x+=parts[i]; x+="</fel1d>"; Doc d(x); c.check(throws([&]{FEL_1D f(dt,d.n,d.p.get());}),"C10:reject-incomplete","incomplete definition accepted (part %d missing)",miss);
    std::string all=parts[0]+parts[1]+parts[2]+parts[3]; Doc d2("<fel1d N=\"50\">"+all+"<log step=\"1\"/></fel1d>"); c.check(throws([&]{FEL_1D f(dt,d2.n,d2.p.get());}),"C10:reject-log","log without file accepted");
    int bn=r.ri(-2,1); Doc d3("<fel1d N=\""+std::to_string(bn)+"\">"+all+"</fel1d>"); bool rej=throws([&]{ FEL_1D f(dt,d3.n,d3.p.get()); Beam bb; bb.setTimeStep(dt); f.init(&bb); }); c.check(rej,"C10:reject-size","grid of %d cells accepted",bn); c.check(throws([&]{ FEL_1D f(dt,bn); Beam bb; bb.setTimeStep(dt); f.init(&bb); }),"C10:reject-size","grid of %d cells accepted",bn);
    Doc d4("<fel1d N=\"50\">"+all+"<log file=\"x.h5\" step=\""+std::to_string(r.ri(-1,0))+"\"/></fel1d>"); c.check(throws([&]{ FEL_1D f(dt,d4.n,d4.p.get()); }),"C10:reject-log-step","logging interval below one step accepted");
    c.count("rejections",10); c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
