// C09: Gaussian beams and wave packets
#include "ref.h"
#include <complex>
using std::complex;
#include "wave.h"
#include "parser.h"
#include "pugixml.hpp"
#include <memory>
using namespace vf;

struct Doc { pugi::xml_document d; std::unique_ptr<InputParser> p; pugi::xml_node n;
    Doc(const std::string& body) { std::string s="<teufel>"+body+"</teufel>"; d.load_string(s.c_str()); pugi::xml_node root=d.child("teufel"); p.reset(new InputParser(root)); n=root.first_child(); } };
static std::string num(Rng& r,double v) { char b[120]; int w=r.ri(0,2); if (w==0) snprintf(b,sizeof b,"%.17g",v); else if (w==1) snprintf(b,sizeof b,"%.17g*2.0",v/2); else snprintf(b,sizeof b,"(%.17g)",v); return b; }

struct W { bool packet; double lam,zR,tau; complex<double> A; double t0; Vector pos; LD k() const { return 2*pi/(LD)lam; } };
struct RefV { LD Ex; LD amp; LD phase; };
static RefV ref(const W& w,LD t,V3 X) {
    LD tl=t-(LD)w.t0; V3 x=X-V3(w.pos); LD k=w.k(); LD w0=sqrtl((LD)w.lam*w.zR/pi); LD ww=w0*sqrtl(1+x.z*x.z/((LD)w.zR*w.zR)); LD r2=x.x*x.x+x.y*x.y;
    LD invR= x.z==0?0:1/(x.z+(LD)w.zR*w.zR/x.z); LD ph1=k*cc*tl, ph2=k*x.z, ph3=k*r2*invR/2; LD env=w0/ww*expl(-r2/(ww*ww)); if (w.packet) { LD q=(tl-x.z/cc)/w.tau; env*=expl(-q*q); }
    LD ph=ph1-ph2-ph3; RefV v; v.amp=env*std::abs(w.A); v.Ex=env*((LD)w.A.real()*cosl(ph)-(LD)w.A.imag()*sinl(ph)); v.phase=fabsl(ph1)+fabsl(ph2)+fabsl(ph3)+ k*(fabsl(X.z)+fabsl((LD)w.pos.z)+cc*(fabsl(t)+fabsl((LD)w.t0)))+1; return v; }
static LD envgrad(const W& w,LD t,V3 X) { // relative sensitivity of the envelope to rounding
    LD s=1; if (w.packet) { LD tl=t-(LD)w.t0; LD q=(tl-(X.z-w.pos.z)/cc)/w.tau; s+=2*fabsl(q)/w.tau*(fabsl(t)+fabsl((LD)w.t0)+(fabsl(X.z)+fabsl((LD)w.pos.z))/cc)+2*q*q; }
    V3 x=X-V3(w.pos); LD w0=sqrtl((LD)w.lam*w.zR/pi); s+=4*(fabsl(x.x)*(fabsl(X.x)+fabsl((LD)w.pos.x))+fabsl(x.y)*(fabsl(X.y)+fabsl((LD)w.pos.y)))/(w0*w0); return s; }
static W gen(Rng& r,bool packet) { W w; w.packet=packet; w.lam=r.logu(1e-7,1e-2); w.zR=w.lam*r.logu(3,1e6); double a=r.logu(1e-3,1e11), ph=r.coin(0.2)?0.5*M_PI*r.ri(0,3):r.uni(0,6.3); w.A=complex<double>(a*cos(ph),a*sin(ph)); w.tau=w.lam/3e8*r.logu(0.3,1e4); w.t0=r.coin(0.3)?0:r.sgn()*r.logu(1e-15,1e-7); w.pos=r.coin(0.2)?Vector(0,0,0):r.vec(r.logu(1e-3,10)); return w; }
struct Obj { std::unique_ptr<GeneralField> f; std::unique_ptr<Doc> doc; double wl; };
static Obj mk(Case& c,W& w) { Rng& r=c.rng; Obj o; 
    if (r.coin(0.4)) { if (!w.packet) w.t0=0; std::string s="<wave><position x=\""+num(r,w.pos.x)+"\" y=\""+num(r,w.pos.y)+"\" z=\""+num(r,w.pos.z)+"\""; if (w.packet) s+=" t=\""+num(r,w.t0)+"\""; s+="/><field ReA=\""+num(r,w.A.real())+"\" ImA=\""+num(r,w.A.imag())+"\" lambda=\""+num(r,w.lam)+"\" rayleigh=\""+num(r,w.zR)+"\""; if (w.packet) s+=" tau=\""+num(r,w.tau)+"\""; s+="/></wave>"; o.doc.reset(new Doc(s));
        if (w.packet) { auto* p=new GaussianWavePacket(o.doc->n,o.doc->p.get()); o.wl=p->getWavelength(); o.f.reset(p); } else { auto* p=new GaussianWave(o.doc->n,o.doc->p.get()); o.wl=p->getWavelength(); o.f.reset(p); } c.count("xml_waves"); }
    else if (w.packet) { auto* p=new GaussianWavePacket(w.t0,w.pos); if (r.coin(0.4)) p->Setup(r.coin()?w.lam:1,r.coin()?w.A:complex<double>(2,3),r.coin()?w.zR:4,r.coin()?w.tau:5); p->Setup(w.lam,w.A,w.zR,w.tau); o.wl=p->getWavelength(); o.f.reset(p); }
    else { auto* p=new GaussianWave(w.t0,w.pos); if (r.coin(0.4)) p->Setup(r.coin()?w.lam:1,r.coin()?w.A:complex<double>(2,3),r.coin()?w.zR:4); p->Setup(w.lam,w.A,w.zR); o.wl=p->getWavelength(); o.f.reset(p); }
    c.near(o.wl,w.lam,1e-14*w.lam,"C09:wavelength","getWavelength"); c.check(o.f->is_external(),"C09:external","wave is not an external field"); return o; }
static double chk(Case& c,const W& w,GeneralField& f,double t,Vector X) {
    ElMagField g=f.Field(t,X); Vector E=g.E(),B=g.B(); RefV v=ref(w,t,V3(X)); double C=(double)cc;
    // rounding: phases are sums of large numbers; placement differences are rounded
    double tol=(double)(v.amp*(4e-16*(v.phase+envgrad(w,t,V3(X)))*8+1e-13)) + 1e-300; const char* n=w.packet?"packet":"wave";
    c.check(std::isfinite(E.x)&&std::isfinite(B.y),"C09:finite","%s field not finite at z=%g",n,X.z-w.pos.z);
    c.check(E.y==0&&E.z==0&&B.x==0&&B.z==0,"C09:polarisation","%s: E=(%g,%g,%g) B=(%g,%g,%g) not polarised along x / y",n,E.x,E.y,E.z,B.x,B.y,B.z);
    c.near(E.x,(double)v.Ex,tol,w.packet?"C09:packet":"C09:wave",n); c.near(B.y*C,E.x,1e-14*fabs(E.x)+1e-290,"C09:E=cB","E=cB"); 
    c.count("field_points"); if (fabs(E.x)>0.01*std::abs(w.A)) c.count("strong_points"); return E.x; }
static void wavecase(Case& c,bool packet) {
    Rng& r=c.rng; W w=gen(r,packet); Obj o=mk(c,w); double w0=sqrt(w.lam*w.zR/M_PI); double T=w.lam/299792458.0; int strong=0;
    for (int i=0;i<60;i++) {
        double z; int m=r.ri(0,4); if (m==0) z=0; else if (m==1) z=r.uni(-1,1)*w.lam; else if (m==2) z=r.uni(-3,3)*w.zR; else if (m==3) z=r.sgn()*w.zR*r.logu(1e-6,1); else z=r.sgn()*w.zR*r.logu(1,1e3);
        double ww=w0*sqrt(1+z*z/w.zR/w.zR); double rr=r.coin(0.2)?0:ww*r.uni(0,2.5), ph=r.uni(0,6.3); if (r.coin(0.05)) rr=ww*r.logu(3,30); Vector X=w.pos+Vector(rr*cos(ph),rr*sin(ph),z); double t;
        if (packet && r.coin(0.8)) t=w.t0+(X.z-w.pos.z)/299792458.0+w.tau*r.uni(-3,3); else if (r.coin()) t=w.t0+r.uni(-3,3)*T; else t=w.t0+r.uni(-1,1)*1e-9; 
        double e=chk(c,w,*o.f,t,X); if (fabs(e)>0.05*std::abs(w.A)) strong++; }
    // peak at the waist: amplitude |A| is attained, cos/sin parts
    double e0=chk(c,w,*o.f,w.t0,w.pos); c.near(e0,w.A.real(),std::abs(w.A)*1e-12,"C09:waist-phase","field at waist at t0"); 
    if (!packet||w.tau>50*T) { double q=chk(c,w,*o.f,w.t0+T/4,w.pos); c.near(q,-w.A.imag(),std::abs(w.A)*((packet?T/w.tau*0.2:0)+1e-8+1e-15*fabs(w.t0)/T*10),"C09:waist-quadrature","field a quarter period later"); }
    if (strong>2) { char s[120]; snprintf(s,sizeof s,"%d %g %g %g",packet,w.lam,w.zR,w.tau); c.nontrivial(s); }
    c.sample("%s lambda=%g zR=%g |A|=%g tau=%g t0=%g: %d strong points",packet?"packet":"wave",w.lam,w.zR,std::abs(w.A),w.tau,w.t0,strong);
}
VF_GROUP(wave,200,2000) { wavecase(c,false); }
VF_GROUP(packet,200,2000) { wavecase(c,true); }
// power through any plane and propagation with c: no reference formula, only field values
static void powercase(Case& c,bool packet) {
    Rng& r=c.rng; W w=gen(r,packet); w.pos=r.vec(0.1*w.zR); w.t0=r.uni(-1,1)*w.zR/3e8; if (packet) w.tau=w.lam/3e8*r.logu(300,3000); Obj o=mk(c,w); double w0=sqrt(w.lam*w.zR/M_PI), T=w.lam/299792458.0; double P0=M_PI/2*w0*w0*std::norm(w.A)/2*8.854187817e-12*299792458.0;
    for (int k=0;k<4;k++) { double z=k==0?0:r.uni(-4,4)*w.zR; double ww=w0*sqrt(1+z*z/w.zR/w.zR); double tp=w.t0+z/299792458.0; const int n=24; double h=ww*0.25; double P=0; // trapezoidal rule, spectrally accurate for gaussians
        for (int i=-n/2;i<=n/2;i++) for (int j=-n/2;j<=n/2;j++) { Vector X=w.pos+Vector(i*h,j*h,z); for (int q=0;q<4;q++) { ElMagField f=o.f->Field(tp+q*T/4-1.5*T/4,X); P+=f.Poynting().z*h*h/4; } }
        c.near(P/P0,1,1e-6+(packet?20*T*T/w.tau/w.tau:0)+1e-13*(fabs(w.t0)/T+fabs(w.pos.z)/w.lam+fabs(z)/w.lam),"C09:power","power through a transverse plane relative to nominal"); c.count("power_planes"); }
    // the field pattern near the waist on the axis travels with c
    for (int k=0;k<10;k++) { double d=r.uni(-1,1)*fmin(1e-4*w.zR,w.lam*50); double t=w.t0+r.uni(-1,1)*T; double z=r.uni(-1,1)*w.lam*0.3; double a=o.f->Field(t,w.pos+Vector(0,0,z)).E().x, b=o.f->Field(t+d/299792458.0,w.pos+Vector(0,0,z+d)).E().x; c.near(b,a,std::abs(w.A)*(1e-4+1e-14*(fabs(w.t0)/T+(fabs(w.pos.z)+w.zR)/w.lam)),"C09:light-velocity","on-axis field moving with c"); c.count("travel_points"); }
    c.nontrivial(r.s);
}
VF_GROUP(power_wave,30,200) { powercase(c,false); }
VF_GROUP(power_packet,30,200) { powercase(c,true); }
VF_GROUP(defaults,20,100) { Rng& r=c.rng; GaussianWave a; GaussianWavePacket b; GaussianWave a2(r.uni(-1,1),r.vec(1)); GaussianWavePacket b2(r.uni(-1,1),r.vec(1)); Vector X=r.vec(1); double t=r.uni(-1,1); c.check(a.Field(t,X).isNull()&&b.Field(t,X).isNull()&&a2.Field(t,X).isNull()&&b2.Field(t,X).isNull(),"C09:default","default wave produces field"); c.count("defaults"); c.nontrivial(r.s); }
int main(int a,char**b) { return vf::main(a,b); }
