// C19: the objects built from an input file are the ones it describes, unusable files are rejected
#include "ref.h"
#include "io.h"
#include "bunch.h"
#include "beam.h"
#include "parser.h"
#include "pugixml.hpp"
#include "undulator.h"
#include "dipole.h"
#include "wave.h"
#include "source_screen.h"
#include "fel1d.h"
#include "logger.h"
#include "point_observer.h"
#include "screen.h"
#include "snapshot.h"
#include "mesh.h"
#include <memory>
#include <algorithm>
#include <sys/stat.h>
using namespace vf;
typedef std::string S;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
static S lit(double v) { char b[60]; snprintf(b,sizeof b,"%.17g",v); return b; }

// expressions ------------------------------------------------------------------------
// text together with its value, evaluated independently in long double; variables are those defined so far
struct Ex { S t; LD v; int p; };       // p: precedence (9 atom, 4 power, 3 product, 2 sum)
struct Gen { Rng& r; Case& c; std::vector<std::pair<S,LD>> vars; int fresh=0; bool redef=true; bool plain=false;
    Gen(Rng& r_,Case& c_) : r(r_),c(c_) {}
    static S par(const Ex& e,int need) { return e.p>=need?e.t:"("+e.t+")"; }
    const char* sp() { return r.coin(0.15)?" ":""; }
    Ex atom() { static const std::vector<std::pair<S,LD>> K={{"_c",299792458.0L},{"_e",1.6021766208e-19L},{"_h",6.62607015e-34L},{"_mec2",0.5109989461e6L},{"_eps0",8.854187817e-12L},{"_mu0",4e-7L*pi},{"_pi",pi}};
        int k=r.ri(0,9); if (k<4&&!vars.empty()) { auto& q=r.pick(vars); if (fabsl(q.second)>1e-3L&&fabsl(q.second)<1e3L) { c.count("variables_used"); return q.second<0?Ex{"(-"+q.first+")",-q.second,9}:Ex{q.first,q.second,9}; } }
        if (k==4) { auto& q=r.pick(K); c.count("constants_used"); LD s=q.second; double f=powl(10.0L,rintl(-log10l(s))); char b[80]; snprintf(b,sizeof b,"%s*%.17g",q.first.c_str(),f); return {b,s*(LD)f,3}; }
        if (k==5) return {"_pi",pi,9};
        double v=r.coin()?r.ri(1,9):r.logu(0.1,9); char b[60]; snprintf(b,sizeof b,r.coin()?"%.15g":"%.15e",v); return {b,(LD)strtod(b,0),9}; }
    // positive, within 1e-3 .. 1e3, without cancellation
    Ex tree(int d) { if (d<=0) return atom(); for(int g=0;g<20;g++) { Ex a=tree(d-1-r.ri(0,1)), b=tree(d-1-r.ri(0,1)), e; int k=r.ri(0,15);
        switch(k) { case 0: case 1: e={par(a,2)+sp()+"+"+sp()+par(b,2),a.v+b.v,2}; break;
        case 2: case 3: if (fabsl(a.v-b.v)<0.1L*fmaxl(a.v,b.v)||a.v<b.v) continue; e={par(a,2)+sp()+"-"+sp()+par(b,3),a.v-b.v,2}; break;
        case 4: case 5: e={par(a,3)+sp()+"*"+sp()+par(b,3),a.v*b.v,3}; break; case 6: case 7: e={par(a,3)+"/"+par(b,4),a.v/b.v,3}; break;
        case 8: { int n=r.ri(2,3); e={par(a,9)+"^"+std::to_string(n),powl(a.v,n),4}; break; } case 9: e={"sqrt("+a.t+")",sqrtl(a.v),9}; break;
        case 10: e={"abs(-("+a.t+"))",a.v,9}; break; case 11: if (a.v>5) continue; e={"exp(-("+a.t+"))",expl(-a.v),9}; break; case 12: if (a.v<1.2L) continue; e={"ln("+a.t+")",logl(a.v),9}; break;
        case 13: if (a.v>1.4L||a.v<.1L) continue; e={"sin("+a.t+")",sinl(a.v),9}; break; case 14: e={"atan("+a.t+")",atanl(a.v),9}; break; default: if (fabsl(a.v-b.v)<1e-6L) continue; e={"max("+a.t+","+b.t+")",fmaxl(a.v,b.v),9}; }
        if (e.v>1e-3L&&e.v<1e3L) return e; } return atom(); }
    S num(double v) { if (plain||r.coin(0.3)) return lit(v); c.count("expressions"); Ex e=tree(r.ri(0,3)); if (v==0) return r.coin()?"0*("+e.t+")":par(e,2)+"-("+e.t+")"; double f=v/(double)e.v; 
        switch(r.ri(0,2)) { case 0: return lit(f)+"*"+par(e,4); case 1: return par(e,3)+"*"+(f<0?"("+lit(f)+")":lit(f)); default: { double q=(double)e.v/v; return par(e,3)+"/"+(q<0?"("+lit(q)+")":lit(q)); } } }
    S inum(int v) { if (plain||r.coin(0.3)) return std::to_string(v); c.count("integer_expressions"); switch(r.ri(0,3)) { case 0: { int a=r.ri(-3,v+3); return std::to_string(a)+"+"+(v-a<0?"("+std::to_string(v-a)+")":std::to_string(v-a)); } case 1: return "sqrt("+std::to_string((long)v*v)+")"; case 2: return "2*"+std::to_string(v)+"-"+std::to_string(v); default: return num(v); } }
    S calc() { char b[40]; S n; int at=-1; if (redef&&!vars.empty()&&r.coin(0.2)) { at=r.ri(0,vars.size()-1); n=vars[at].first; } else { snprintf(b,sizeof b,"%s%d",r.coin()?"v_":"Abc",fresh++); n=b; }
        Ex e; if (at>=0&&fabsl(vars[at].second)<100&&r.coin()) { e={n+"+1",vars[at].second+1,2}; c.count("self_reference"); } else { e=tree(r.ri(0,3)); if (r.coin(0.2)) e={"-("+e.t+")",-e.v,2}; } if (at>=0) { vars[at].second=e.v; c.count("redefined"); } else vars.push_back({n,e.v}); c.count("definitions");
        return S("<calc ")+(r.coin(0.3)?"print=\"value of "+n+" = \" ":"")+"var=\""+n+"\" eq=\""+e.t+"\"/>"; }
    S calcs(int mx) { S s; int n=r.ri(0,mx); for (int i=0;i<n;i++) s+=calc(); return s; }
    void calcs(int mx,std::vector<S>& parts) { int n=r.ri(0,mx); for (int i=0;i<n;i++) parts.push_back(calc()); }
    S xyz(const S& tag,Vector v,const S& more="",const S& inner="") { S x="x=\""+num(v.x)+"\"",y="y=\""+num(v.y)+"\"",z="z=\""+num(v.z)+"\""; return "<"+tag+" "+x+" "+y+" "+z+(more.empty()?"":" "+more)+(inner.empty()?"/>":">"+inner+"</"+tag+">"); }
    S at(const char* n,double v) { return S(n)+"=\""+num(v)+"\""; }  S iat(const char* n,int v) { return S(n)+"=\""+inum(v)+"\""; }
};
// calc nodes must keep their order among themselves, everything else may stand anywhere
static S mix(Rng& r,std::vector<S> calcs,std::vector<S> kids) { for (size_t i=kids.size();i>1;i--) std::swap(kids[i-1],kids[r.ri(0,i-1)]); S s; size_t a=0,b=0; while(a<calcs.size()||b<kids.size()) { if (b>=kids.size()||(a<calcs.size()&&r.coin())) s+=calcs[a++]; else s+=kids[b++]; if (r.coin(0.1)) s+="<!-- a comment -->\n"; } return s; }
struct Doc { pugi::xml_document d; std::unique_ptr<InputParser> p; bool ok; Doc(const S& s) { ok=(bool)d.load_string(s.c_str()); if (!ok) throw std::runtime_error("not an XML document"); pugi::xml_node root=d.child("teufel"); if (!root) throw std::runtime_error("no root"); p.reset(new InputParser(root)); } };
static Vector rv(Rng& r,double s) { return r.vec(s); }

// auxiliary files
static void aux_screen(const S& fn,Rng& r) { int nx=r.ri(1,3),ny=r.ri(1,3),n=r.ri(3,8); H5Out h(fn); std::vector<double> g={0,0,0,0,0,-1,.01,0,0,0,.01,0},f; h.put<double>("Screen",{4,3},g,{{"Nx",nx},{"Ny",ny},{"NOTS",n}},{{"t0",1e-9},{"dt",1e-11}}); for (int i=0;i<nx*ny*n*6;i++) f.push_back(r.uni(-1,1)*(i%6<3?1e4:3e-5)); h.put<double>("ElMagField",{(hsize_t)nx,(hsize_t)ny,(hsize_t)n,6},f); }
static void aux_mesh(const S& fn,Rng& r,int nt) { H5Out h(fn); double x=r.uni(.01,.1); std::vector<double> P={0,0,1,x,0,1,x,x,1,0,x,1},C={2*x/3,x/3,1,x/3,2*x/3,1},T={1e-9,2e-9},F(2*nt*6,0.0); h.put<double>("MeshCornerPoints",{4,3},P,{{"Ncp",4}}); h.put<double>("ObservationPosition",{2,3},C,{{"Np",2}}); h.put<int>("MeshTriangles",{2,3},std::vector<int>{0,2,1,0,3,2}); h.put<double>("ObservationTime",{2},T,{{"Nt",nt}},{{"dt",1e-12}}); h.put<double>("ElMagField",{2,(hsize_t)nt,6},F); }
static void aux_sdds(const S& fn,Rng& r,int n,double g,double q) { std::ofstream o(fn); o<<"SDDS1\n&parameter name=Particles, type=long, &end\n&parameter name=Charge, type=double, &end\n"; for (const char* k:{"x","xp","y","yp","t","p"}) o<<"&column name="<<k<<", type=double, &end\n"; o<<"&data mode=ascii, &end\n! page number 1\n"<<n<<"\n"<<lit(q)<<"\n"<<n<<"\n"; for (int i=0;i<n;i++) { o<<lit(r.uni(-1,1)*1e-3)<<" "<<lit(r.uni(-1,1)*1e-2)<<" "<<lit(r.uni(-1,1)*1e-3)<<" "<<lit(r.uni(-1,1)*1e-2)<<" "<<lit(1e-9+r.uni(-1,1)*1e-12)<<" "<<lit(g*(1+0.01*r.uni(-1,1)))<<"\n"; } }

// sections -----------------------------------------------------------------------------
struct Section { S xml; }; 
struct El { S xml; GeneralField* ref; Vector P; double L; double T; const char* kind; };
static El element(Gen& g,int kind,Case& c) {
    Rng& r=g.r; El e; std::vector<S> cs,ks; S nm=r.coin(0.7)?" name=\"el"+std::to_string(r.ri(0,99))+"\"":""; g.calcs(2,cs); e.T=1e-9; Vector P=rv(r,2); e.P=P; 
    if (kind==0) { e.kind="planar"; double B=r.uni(-2,2),l=r.logu(.01,.5); int N=r.ri(1,40); ks.push_back(g.xyz("position",P)); S a=g.at("B",B),b=g.at("period",l),n=g.iat("N",N); ks.push_back("<field "+a+" "+b+" "+n+"/>"); PlanarUndulator* u=new PlanarUndulator(P); u->Setup(B,l,N); e.ref=u; e.L=l*.3; e.xml="<undulator type=\"planar\""+nm+">"+mix(r,cs,ks)+"</undulator>"; e.P=P+Vector(0,0,r.uni(-.6,.6)*N*l); return e; }
    if (kind==1) { e.kind="tgu"; double B=r.uni(-2,2),l=r.logu(.01,.5),kx=r.uni(-30,30),m=r.coin()?0:r.uni(-1,1); int N=r.ri(1,40); ks.push_back(g.xyz("position",P)); S a=g.at("B",B),k=g.at("kx",kx),mm=m!=0||r.coin()?" "+g.at("modulation",m):"",b=g.at("period",l),n=g.iat("N",N); ks.push_back("<field "+a+" "+k+mm+" "+b+" "+n+"/>"); TransverseGradientUndulator* u=new TransverseGradientUndulator(P); u->Setup(B,kx,m,l,N); e.ref=u; e.L=fmin(l*.3,.1); e.xml="<undulator type=\"transverse gradient\""+nm+">"+mix(r,cs,ks)+"</undulator>"; e.P=P+Vector(0,0,r.uni(-.6,.6)*N*l); return e; }
    if (kind==2||kind==3) { double l=r.logu(1e-4,1e-1),zr=r.logu(.05,3),a=r.uni(-1,1)*1e6,b=r.coin()?0:r.uni(-1,1)*1e6,tau=r.logu(1e-12,1e-9),t=r.uni(-1e-9,1e-9); S pos; if (kind==3) { S x="x=\""+g.num(P.x)+"\"",y="y=\""+g.num(P.y)+"\"",z="z=\""+g.num(P.z)+"\"",tt=g.at("t",t); pos="<position "+x+" "+y+" "+z+" "+tt+"/>"; } else pos=g.xyz("position",P); ks.push_back(pos); S f1=g.at("ReA",a),f2=g.at("ImA",b),f3=g.at("lambda",l),f4=g.at("rayleigh",zr),f5=kind==3?" "+g.at("tau",tau):""; ks.push_back("<field "+f3+" "+f1+" "+f2+" "+f4+f5+"/>"); std::complex<double> A(a,b);
        if (kind==2) { e.kind="gaussian"; GaussianWave* w=new GaussianWave(0,P); w->Setup(l,A,zr); e.ref=w; } else { e.kind="packet"; GaussianWavePacket* w=new GaussianWavePacket(t,P); w->Setup(l,A,zr,tau); e.ref=w; e.T=tau*3; }
        e.L=kind==3?(double)cc*tau:zr; e.P=P; e.xml=S("<wave type=\"")+e.kind+"\""+nm+">"+mix(r,cs,ks)+"</wave>"; return e; }
    if (kind==4||kind==5) { Vector B=rv(r,1),p1=rv(r,1),p2=rv(r,1),n1=r.dir(),n2=r.dir(); double l1=r.logu(1e-3,.3),l2=r.logu(1e-3,.3); for (int i=0;i<6;i++) { switch(i) { case 0: ks.push_back(g.xyz("B",B)); break; case 1: ks.push_back(g.xyz("p1",p1)); break; case 2: ks.push_back(g.xyz("n1",n1)); break; case 3: ks.push_back(g.xyz("p2",p2)); break; case 4: ks.push_back(g.xyz("n2",n2)); break; case 5: if (kind==5) { S a=g.at("l1",l1),b=g.at("l2",l2); ks.push_back("<transition "+a+" "+b+"/>"); } } }
        e.kind=kind==4?"hard edge":"soft edge"; e.ref=kind==4?(GeneralField*)new HardEdgeDipole(B,p1,n1,p2,n2):(GeneralField*)new SoftEdgeDipole(B,p1,n1,l1,p2,n2,l2); e.P=p1; e.L=1; e.xml=S("<dipole type=\"")+e.kind+"\""+nm+">"+mix(r,cs,ks)+"</dipole>"; return e; }
    if (kind==6) { e.kind="background"; Vector E=rv(r,1e6),B=rv(r,1); int w=r.ri(0,3); if (w&1) ks.push_back(g.xyz("E",E)); else E=VectorZero; if (w&2) ks.push_back(g.xyz("B",B)); else B=VectorZero; e.ref=new HomogeneousField(E,B); e.L=1; e.xml="<background"+nm+">"+mix(r,cs,ks)+"</background>"; return e; }
    e.kind="screen"; static int uq=0; S fn="src_"+std::to_string(c.idx)+"_"+std::to_string(uq++)+".h5"; aux_screen(fn,r); double t=r.uni(-1e-9,1e-9); S x="x=\""+g.num(P.x)+"\"",y="y=\""+g.num(P.y)+"\"",z="z=\""+g.num(P.z)+"\"",tt=g.at("t",t); ks.push_back("<position "+x+" "+y+" "+z+" "+tt+"/>"); e.ref=new SourceScreen(fn,P,t); e.L=.05; e.T=3e-11; e.P=P+Vector(0,0,.2); e.xml="<screen"+nm+" file=\""+fn+"\">"+mix(r,cs,ks)+"</screen>"; return e; }
// the root node: its own definitions are evaluated first, wherever they stand
struct Root { Gen g; std::vector<S> calcs; std::vector<S> secs; S xml; Root(Case& c) : g(c.rng,c) { g.calcs(5,calcs); } S text() { Rng& r=g.r; xml=S(r.coin()?"<?xml version=\"1.0\"?>\n":"")+"<teufel description=\"test\" author=\"me\">\n"+mix(r,calcs,secs)+"</teufel>\n"; return xml; } };
static S empty_lattice(){ return "<lattice></lattice>"; }

VF_GROUP(calculator,150,2500) {       // definitions and expressions reach the attribute with their value
    Rng& r=c.rng; Root R(c); Gen& g=R.g; S nodes; std::vector<std::pair<double,int>> want; S sec="<lattice>"; int n=r.ri(3,12); for (int i=0;i<n;i++) { double v=r.coin(0.1)?0:r.sgn()*r.logu(1e-20,1e20); int k=r.ri(-50,2000); if (r.coin(0.4)) sec+=g.calc(); S a=g.num(v),b=g.inum(abs(k)); if (k<0) { b="-("+b+")"; } sec+="<entry a=\""+a+"\" b=\""+b+"\"/>"; want.push_back({v,k}); } sec+="</lattice>"; R.secs.push_back(sec); Doc d(R.text());
    int i=0; for (pugi::xml_node e:d.d.child("teufel").child("lattice").children()) { if (S(e.name())=="calc") { d.p->parseCalc(e); continue; } double a=d.p->parseDouble(e.attribute("a")); int b=(int)d.p->parseInt(e.attribute("b")); S t=e.attribute("a").value(); c.near(a,want[i].first,1e-11*fabs(want[i].first)+(want[i].first==0?1e-9:0),"C19:expression",t.c_str()); c.check(b==want[i].second,"C19:integer","%s read as %d instead of %d",e.attribute("b").value(),b,want[i].second); c.count("values"); i++; }
    c.check(i==n,"C19:harness","entries"); 
    // constants, and what cannot be evaluated
    struct K { const char* n; double v; }; for (K k:{K{"_c",299792458.0},K{"_e",1.6021766208e-19},K{"_mec2",0.5109989461e6},K{"_eps0",8.854187817e-12},K{"_mu0",4e-7*M_PI},K{"_pi",M_PI}}) { Doc q(S("<teufel><a v=\"")+k.n+"\"/></teufel>"); c.near(q.p->parseDouble(q.d.child("teufel").child("a").attribute("v")),k.v,1e-9*k.v,(S("C19:const:")+k.n).c_str(),k.n); c.count("constants"); }
    { const char* bad[]={"1+","nosuchvariable","2*(3","sqrt()",")","1 2","$","a=","nofunc(3)","1e"}; S t=r.pick(std::vector<S>(bad,bad+10)); Doc q("<teufel><a v=\""+t+"\"/></teufel>"); std::stringstream o; std::streambuf* old=std::cout.rdbuf(o.rdbuf()); double v=7; bool th=throws([&]{ v=q.p->parseDouble(q.d.child("teufel").child("a").attribute("v")); }); std::cout.rdbuf(old); c.check(th||(v==0&&o.str().find(t)!=S::npos),"C19:unreadable","'%s' read as %g, reported as '%s'",t.c_str(),v,o.str().c_str()); c.count("unreadable"); }
    c.nontrivial(r.s); c.sample("%s",R.xml.substr(0,700).c_str());
}
VF_GROUP(prints,60,1000) {       // definitions with a text are reported with their value, in the order of the document
    Rng& r=c.rng; Root R(c); Gen& g=R.g; struct P { S text; LD v; }; std::vector<P> want; R.calcs.clear(); g.vars.clear(); int n=r.ri(2,10);
    for (int i=0;i<n;i++) { int k=r.ri(0,2); char t[60]; snprintf(t,sizeof t,"quantity %c%d of %d = ",(char)('A'+r.ri(0,25)),i,n); Ex e=g.tree(r.ri(0,3)); if (r.coin(0.2)) e={"-("+e.t+")",-e.v,2}; S pr=k==1?"":S("print=\"")+t+"\" ",va; if (k) { char b[20]; snprintf(b,sizeof b,"q_%d",i); va=S("var=\"")+b+"\" "; }
        if (k!=1) want.push_back({t,e.v}); R.calcs.push_back("<calc "+(r.coin()?pr+va:va+pr)+"eq=\""+e.t+"\"/>"); if (k) g.vars.push_back({va.substr(5,va.size()-7),e.v}); }
    R.secs.push_back(empty_lattice()); S x=R.text(); std::stringstream o; std::streambuf* old=std::cout.rdbuf(o.rdbuf()); bool th=throws([&]{ Doc d(x); }); std::cout.rdbuf(old); if (!c.check(!th,"C19:print","definitions rejected: %s",x.c_str())) return;
    S t=o.str(); size_t at=0; for (auto& w:want) { size_t p=t.find(w.text,at); if (!c.check(p!=S::npos,"C19:print","'%s' is not reported (in its order): %s",w.text.c_str(),t.c_str())) return; at=p+w.text.size(); c.near(strtod(t.c_str()+at,0),(double)w.v,2e-5*fabs((double)w.v),"C19:print",w.text.c_str()); c.check(t.find(w.text,at)==S::npos,"C19:print","'%s' is reported twice",w.text.c_str()); c.count("printed_definitions"); }
    if (want.size()>1) c.nontrivial(r.s);
}
static void cmpfield(Case& c,GeneralField* a,El& e,Rng& r,const char* key) {
    double mE=0,mB=0; struct Q { ElMagField f,g; Vector X; double t; bool edge; }; std::vector<Q> q; for (int k=0;k<30;k++) { Q p; p.X=(k==0&&!strstr(e.kind,"edge")?e.P:e.P+rv(r,e.L)); p.t=r.uni(-2,2)*e.T; if (S(e.kind)=="screen") p.t=r.uni(-1e-9,3e-9); else if (S(e.kind)=="packet") { p.X=e.P+Vector(r.uni(-.02,.02),r.uni(-.02,.02),r.uni(-1,1)*e.L); p.t=r.uni(-1e-9,1e-9); } p.f=a->Field(p.t,p.X); p.g=e.ref->Field(p.t,p.X); mE=fmax(mE,vnorm(p.g.E())); mB=fmax(mB,vnorm(p.g.B())); ElMagField h=e.ref->Field(p.t*(1+1e-9)+1e-18,p.X+rv(r,1e-9)); p.edge=vnorm(h.E()-p.g.E())>1e-3*vnorm(h.E()+p.g.E())||vnorm(h.B()-p.g.B())>1e-3*vnorm(h.B()+p.g.B()); q.push_back(p); }
    if (S(e.kind)=="packet"||S(e.kind)=="gaussian") { mE=1e6; mB=mE/3e8; }
    for (auto& p:q) { if (p.edge) { c.count("edge_points"); continue; } S w=S(e.kind)+" field"; c.nearv(p.f.E(),p.g.E(),1e-8*mE,key,w.c_str()); c.nearv(p.f.B(),p.g.B(),1e-8*mB,key,w.c_str()); c.count("field_points"); if (!p.g.isNull()) c.count((S("nonzero_")+e.kind).c_str()); } }
VF_GROUP(lattice,150,2500) {
    Rng& r=c.rng; Root R(c); Gen& g=R.g; Lattice L; std::vector<El> els; S sec="<lattice>"; int n=r.ri(0,5); for (int i=0;i<n;i++) { sec+=g.calcs(2); els.push_back(element(g,r.ri(0,7),c)); sec+=els.back().xml; } S tail=g.calcs(1); R.secs.push_back(sec+tail+"</lattice>"); 
    // a definition made inside the section is visible afterwards
    R.secs.push_back("<beam>"+S("</beam>")); Doc d(R.text()); int m=-1; bool th=throws([&]{ m=d.p->parseLattice(&L); }); if (!c.check(!th,"C19:lattice","valid lattice rejected: %s",R.xml.c_str())) return; c.check(m==n&&L.count()==n,"C19:lattice-count","%d elements described, %d reported, %d in the lattice",n,m,L.count());
    if (L.count()==n) for (int i=0;i<n;i++) { S key=S("C19:lattice:")+els[i].kind; c.check(L.at(i)->is_external(),key.c_str(),"not an external field"); cmpfield(c,L.at(i),els[i],r,key.c_str()); c.count("elements"); }
    // variables end with the value of their last definition
    for (auto& v:g.vars) { pugi::xml_document q; q.load_string(("<a v=\""+v.first+"\"/>").c_str()); c.near(d.p->parseDouble(q.child("a").attribute("v")),(double)v.second,1e-11*fabs((double)v.second),"C19:lattice:variable",v.first.c_str()); c.count("final_values"); }
    for (auto& e:els) delete e.ref; if (n>1) c.nontrivial(r.s); c.sample("%d elements: %s",n,sec.substr(0,900).c_str());
}

struct LogX { int kind; S file; int step; double freq; int limit; int bunch; };   // 0 parameters, 1 trajectories
static S logxml(Gen& g,Case& c,std::vector<LogX>& logs,int bunch,bool bf) { Rng& r=g.r; LogX l; l.kind=0; l.bunch=bunch; l.freq=-1; l.limit=0; l.file="log_"+std::to_string(c.idx)+"_"+std::to_string(logs.size())+".sdds"; l.step=r.coin(0.3)?1:r.ri(1,50); S s="<log file=\""+l.file+"\""; if (l.step!=1||r.coin()) s+=" "+g.iat("step",l.step); if (bf&&r.coin()) { l.freq=r.logu(1e9,1e14); s+=" "+g.at("bunching-freq",l.freq); } logs.push_back(l); return s+"/>"; }
struct Want { bool exact; bool file; int n; double t,q,m,gam; Vector X,U; double rms[6]; double zft; std::vector<int> a,b; std::vector<double> f; std::unique_ptr<Bunch> ref; };
VF_GROUP(beam,150,2500) {
    Rng& r=c.rng; Root R(c); Gen& g=R.g; std::vector<LogX> logs; std::vector<Want> W; ProbeInfo pr{false,0,"",0,0}; S sec="<beam>"; int n=r.ri(0,4); int probe=r.coin(0.4)?r.ri(0,n):-1; int pstep=1,pnum=1; 
    for (int i=0;i<=n;i++) { sec+=g.calcs(1); if (i==probe) { pstep=r.coin(0.3)?1:r.ri(1,99); pnum=r.coin(0.3)?1:r.ri(1,99); sec+="<probe file=\"pr.h5\""; if (pstep!=1||r.coin()) sec+=" "+g.iat("step",pstep); if (pnum!=1||r.coin()) sec+=" "+g.iat("number",pnum); sec+="/>"; } if (i==n) break;
        Want w; w.exact=true; w.file=false; for (double& x:w.rms) x=0; w.zft=0; int kind=r.ri(0,4); double gam=r.logu(1.0001,1e4), q=r.sgn()*r.logu(1e-19,1e-9), cmr=r.sgn()*r.logu(1e-4,10); w.t=0; w.X=rv(r,3); Vector d=r.dir()*r.logu(.1,10); w.gam=gam; double bg=sqrt(gam*gam-1); w.U=d*(bg/vnorm(d)); w.q=q/1.6021766208e-19; w.m=w.q/cmr; w.n=1; std::vector<S> cs,ks;
        if (kind==4) { w.file=true; S fn="beam_"+std::to_string(c.idx)+"_"+std::to_string(i)+".sdds"; int np=r.ri(1,6); aux_sdds(fn,r,np,bg,fabs(q)); Vector dir(0,0,1); if (r.coin(0.7)) { std::vector<S> ci; g.calcs(1,ci); S in; for (auto& s:ci) in+=s; dir=d; ks.push_back(g.xyz("dir",d,"",in)); } dir=dir*(1/vnorm(dir)); w.ref.reset(new Bunch(fn.c_str(),dir)); w.n=np; if (r.coin(0.4)) { S cor="<correlations>"; cor+=g.calcs(1); int k=r.ri(1,3); for (int j=0;j<k;j++) { int a=r.ri(0,5),b=r.ri(0,5); double f=r.uni(-2,2); cor+="<linear "+g.iat("indep",a)+" "+g.iat("dep",b)+" "+g.at("factor",f)+"/>"; w.ref->addCorrelation(a,b,f); } ks.push_back(cor+"</correlations>"); c.count("correlations"); } if (r.coin()) ks.push_back(logxml(g,c,logs,i,true)); sec+="<SDDS file=\""+fn+"\">"+mix(r,{},ks)+"</SDDS>"; W.push_back(std::move(w)); c.count("sdds"); continue; }
        S at=g.at("gamma",gam)+" "+g.at("charge",q)+" "+g.at("cmr",cmr);
        if (kind<2) { g.calcs(2,cs); if (r.coin()) { w.t=r.uni(-1e-9,1e-9); ks.push_back("<time "+g.at("t0",w.t)+"/>"); } ks.push_back(g.xyz("position",w.X)); ks.push_back(g.xyz("momentum",d)); if (r.coin()) ks.push_back(logxml(g,c,logs,i,false)); sec+="<particle "+at+">"+mix(r,cs,ks)+"</particle>"; c.count("particles"); }
        else { w.exact=kind==2; w.n=w.exact?r.ri(1,30):r.ri(1500,3000); if (w.n>1||r.coin()) at+=" "+g.iat("n",w.n); g.calcs(2,cs); if (r.coin()) { w.t=r.uni(-1e-9,1e-9); std::vector<S> ci; g.calcs(1,ci); S in; for (auto& s:ci) in+=s; S a=g.at("t0",w.t); ks.push_back(in.empty()?"<time "+a+"/>":"<time "+a+">"+in+"</time>"); } 
            std::vector<S> ci; g.calcs(1,ci); S in; for (auto& s:ci) in+=s; S x="x=\""+g.num(w.X.x)+"\"",y="y=\""+g.num(w.X.y)+"\"",z="z=\""+g.num(w.X.z)+"\"",more; const char* nm[3]={"xrms","yrms","zrms"}; for (int j=0;j<3;j++) { bool on=!w.exact&&r.coin(0.7); if (on) w.rms[j]=r.logu(1e-6,1e-2); if (on||r.coin(0.3)) more+=" "+g.at(nm[j],w.rms[j]); } if (!w.exact&&r.coin(0.4)) { w.zft=r.logu(1e-6,1e-2); more+=" "+g.at("zft",w.zft); w.rms[2]=w.zft/sqrt(3.0); } S p="<position "+x+" "+y+" "+z+more; ks.push_back(in.empty()?p+"/>":p+">"+in+"</position>");
            ci.clear(); g.calcs(1,ci); in=""; for (auto& s:ci) in+=s; x="x=\""+g.num(d.x)+"\"",y="y=\""+g.num(d.y)+"\"",z="z=\""+g.num(d.z)+"\""; more=""; const char* mm[3]={"xrms","yrms","delta"}; for (int j=0;j<3;j++) { bool on=!w.exact&&r.coin(0.7); double v=on?r.logu(1e-5,1e-1):0; w.rms[3+j]=v*bg; if (on||r.coin(0.3)) more+=" "+g.at(mm[j],v); } p="<momentum "+x+" "+y+" "+z+more; ks.push_back(in.empty()?p+"/>":p+">"+in+"</momentum>");
            if (r.coin(0.4)) { S cor="<correlations>"; cor+=g.calcs(1); int k=r.ri(1,2); for (int j=0;j<k;j++) { int a=r.ri(0,5),b=r.ri(0,5); double f=r.sgn()*r.logu(.3,3); if (w.rms[a]>0) f*=(w.rms[b]>0?w.rms[b]:1e-3)/w.rms[a]; S s1=g.iat("indep",a),s2=g.iat("dep",b),s3=g.at("factor",f); cor+="<linear "+s1+" "+s2+" "+s3+"/>"; w.a.push_back(a); w.b.push_back(b); w.f.push_back(f); } ks.push_back(cor+"</correlations>"); c.count("correlations"); }
            if (r.coin()) ks.push_back(logxml(g,c,logs,i,true)); if (r.coin(0.4)) { LogX l; l.kind=1; l.bunch=i; l.freq=-1; l.file="traj_"+std::to_string(c.idx)+"_"+std::to_string(logs.size())+".h5"; l.step=r.coin(0.3)?1:r.ri(1,50); S s="<trajectories file=\""+l.file+"\""; if (l.step!=1||r.coin()) s+=" "+g.iat("step",l.step); l.limit=r.coin(0.3)?1000000:r.ri(1,40); if (l.limit<1000000) s+=" "+g.iat("particles",l.limit); logs.push_back(l); ks.push_back(s+"/>"); }
            w.q/=w.n; w.m/=w.n; sec+="<bunch "+at+">"+mix(r,cs,ks)+"</bunch>"; c.count(w.exact?"cold_bunches":"bunches"); }
        W.push_back(std::move(w)); }
    R.secs.push_back(sec+"</beam>"); Doc d(R.text()); Beam* Bm=new Beam(); Beam& B=*Bm; std::vector<Logger*> ls; int m=-1; S why; try { m=d.p->parseBeam(&B,&ls,&pr); } catch (std::exception& e) { why=e.what(); } if (!c.check(m>=0,"C19:beam","valid beam rejected (%s): %s",why.c_str(),R.xml.c_str())) return;
    c.check(m==n&&B.getNOB()==n,"C19:beam-count","%d entries described, %d reported, %d bunches",n,m,B.getNOB()); if (B.getNOB()!=n) return;
    c.check(pr.requested==(probe>=0),"C19:probe","probe requested: %d",(int)pr.requested); if (probe>=0) { c.check(S(pr.filename)=="pr.h5"&&pr.step==pstep&&(int)pr.number==pnum,"C19:probe","file %s step %d number %d expected pr.h5 %d %d",pr.filename,(int)pr.step,(int)pr.number,pstep,pnum); c.count("probes"); }
    for (int i=0;i<n;i++) { Want& w=W[i]; Bunch* b=B.getBunch(i); if (!c.check(b->getNOP()==w.n,"C19:beam-size","bunch %d of %d particles holds %d",i,w.n,b->getNOP())) continue; std::vector<std::vector<double>> P(w.n,std::vector<double>(12)); for (int k=0;k<w.n;k++) b->getParticle(k)->serialize(P[k].data());
        if (w.file) { for (int k=0;k<w.n;k++) { double q[12]; w.ref->getParticle(k)->serialize(q); double mx=0; for (int j=3;j<9;j++) mx=fmax(mx,fabs(q[j])); bool ok=true; for (int j=0;j<9;j++) if (!(fabs(P[k][j]-q[j])<=1e-9*fabs(q[j])+(j>2?1e-9*mx:0))) ok=false; c.check(ok,"C19:sdds","particle %d of the imported bunch: (%g %g %g %g %g %g) expected (%g %g %g %g %g %g)",k,P[k][3],P[k][4],P[k][5],P[k][6],P[k][7],P[k][8],q[3],q[4],q[5],q[6],q[7],q[8]); } continue; }
        // common values
        double u=vnorm(w.U); bool ok=true; for (auto& p:P) if (!(fabs(p[0]-w.q)<=1e-9*fabs(w.q)&&fabs(p[1]-w.m)<=1e-9*fabs(w.m)&&fabs(p[2]-w.t)<=1e-10*fabs(w.t))) ok=false; c.check(ok,"C19:particle","charge %g mass %g time %g expected %g %g %g",P[0][0],P[0][1],P[0][2],w.q,w.m,w.t);
        double ref[6]={w.X.x,w.X.y,w.X.z,w.U.x,w.U.y,w.U.z};
        if (w.exact) { double sc[2]={5,u}; bool good=true; for (auto& p:P) for (int j=0;j<6;j++) if (!(fabs(p[3+j]-ref[j])<=1e-10*sc[j/3])) good=false; auto& p=P[0]; c.check(good,"C19:particle","bunch %d (%d particles): position (%g %g %g) momentum (%g %g %g) expected (%g %g %g) (%g %g %g)",i,w.n,p[3],p[4],p[5],p[6],p[7],p[8],ref[0],ref[1],ref[2],ref[3],ref[4],ref[5]); c.count("exact_particles",w.n); }
        else { // covariance of the requested distribution after the requested correlations, bounds at 8 sigma
            double M[6][6]; for (auto& x:M) for (double& y:x) y=0; for (int j=0;j<6;j++) M[j][j]=1; for (size_t k=0;k<w.a.size();k++) if (w.a[k]!=w.b[k]) for (int j=0;j<6;j++) M[w.b[k]][j]+=w.f[k]*M[w.a[k]][j]; double C[6][6],mu[6],K[6][6]; for (int a=0;a<6;a++) { LD s=0; for (auto& p:P) s+=p[3+a]; mu[a]=(double)(s/w.n); for (int e=0;e<6;e++) { C[a][e]=0; for (int j=0;j<6;j++) C[a][e]+=M[a][j]*M[e][j]*w.rms[j]*w.rms[j]; } } for (int a=0;a<6;a++) for (int e=0;e<6;e++) { LD s=0; for (auto& p:P) s+=(LD)(p[3+a]-mu[a])*(p[3+e]-mu[e]); K[a][e]=(double)(s/w.n); }
            double s8=8/sqrt((double)w.n); const char* nm[6]={"x","y","z","px","py","pz"}; for (int a=0;a<6;a++) { double fl=1e-9*(a<3?5:u); c.near(mu[a],ref[a],s8*sqrt(C[a][a])+fl,"C19:bunch-mean",nm[a]); for (int e=0;e<=a;e++) { S what=S(nm[a])+"-"+nm[e]+" covariance"; double lim=s8*1.5*sqrt(C[a][a]*C[e][e]); c.near(K[a][e],C[a][e],lim+fl*(sqrt(C[a][a])+sqrt(C[e][e])+fl),"C19:bunch-width",what.c_str()); } } c.count("warm_particles",w.n);
            if (w.zft>0) { bool in=true; bool touched=false; for (size_t k=0;k<w.a.size();k++) if (w.b[k]==2&&w.a[k]!=2) touched=true; if (!touched) { for (auto& p:P) if (!(fabs(p[5]-w.X.z)<=w.zft*(1+1e-9)+1e-12)) in=false; c.check(in,"C19:bunch-flat","flat-top bunch exceeds its length"); } } } }
    // loggers: kind, step, bunch, file, options
    if (c.check(ls.size()==logs.size(),"C19:log-count","%zu loggers described, %zu created",logs.size(),ls.size())) { std::vector<LogX> lo=logs; std::stable_sort(lo.begin(),lo.end(),[](const LogX& a,const LogX& b){ return a.bunch!=b.bunch?a.bunch<b.bunch:a.kind<b.kind; }); for (size_t i=0;i<ls.size();i++) { LogX& l=lo[i]; bool ok=true; for (int k=0;k<130;k++) if (ls[i]->log_requested(k)!=(k%l.step==0)) ok=false; c.check(ok,"C19:log-step","logger with step %d",l.step); Bunch* b=B.getBunch(l.bunch); if (b->getNOP()>100) { for (int k=0;k<1;k++) ; } 
        ls[i]->update(); ls[i]->WriteData(); struct stat st; if (!c.check(stat(l.file.c_str(),&st)==0,"C19:log-file","%s not written",l.file.c_str())) continue; c.count("logs");
        if (l.kind==0) { Sdds s(l.file); Vector x=b->avgPosition(),p=b->avgMomentum(); bool good=s.ok&&s.rows==1; if (c.check(good,"C19:log","%s: %s",l.file.c_str(),s.err.c_str())) { c.check(fabs(s.col["x_av"][0]-x.x)+fabs(s.col["y_av"][0]-x.y)+fabs(s.col["z_av"][0]-x.z)<1e-6*(1e-9+vnorm(x))&&fabs(s.col["bgx_av"][0]-p.x)+fabs(s.col["bgy_av"][0]-p.y)+fabs(s.col["bgz_av"][0]-p.z)<1e-6*vnorm(p)&&s.par["NumberParticles"]==b->getNOP(),"C19:log-bunch","the log is not that of its bunch"); c.check((s.par.count("BunchingFrequency")>0)==(l.freq>0),"C19:log-bunching","bunching recorded: %d, requested: %d",(int)s.par.count("BunchingFrequency"),(int)(l.freq>0)); if (l.freq>0&&s.par.count("BunchingFrequency")) c.near(s.par["BunchingFrequency"],l.freq,1e-5*l.freq,"C19:log-bunching","bunching frequency"); } }
        else { H5File h(l.file); H5Set t=h.get("Trajectories"); c.check(h.ok()&&t.ok&&t.dims.size()==3&&t.dims[1]==std::min(l.limit,b->getNOP()),"C19:log-traj","trajectories of %ld particles, requested %d of %d",t.ok&&t.dims.size()==3?t.dims[1]:-1,l.limit,b->getNOP()); }
        remove(l.file.c_str()); delete ls[i]; } }
    if (n>1) c.nontrivial(r.s); c.sample("%d entries, %zu loggers: %s",n,logs.size(),sec.substr(0,900).c_str());
}
struct FelX { S xml; S refxml; int N; Vector pos,prop; };
VF_GROUP(tracking,120,2000) {
    Rng& r=c.rng; Root R(c); Gen& g=R.g; double dt=r.logu(1e-15,1e-11); int n=r.coin(0.1)?0:r.ri(1,1000000); S a=g.at("delta_t",dt),b=g.iat("n",n); g.redef=false; S sec="<tracking "+S(r.coin()?a+" method=\"Vay\" "+b:"method=\"Vay\" "+b+" "+a)+">"; std::vector<std::pair<int,std::pair<S,int>>> ws; std::vector<FelX> fs; int k=r.ri(0,6);
    for (int i=0;i<k;i++) { sec+=g.calcs(1); if (r.coin(0.65)) { int st=r.ri(0,n); bool sd=r.coin(); S fn="w"+std::to_string(i)+".out"; S s=g.iat("step",st); sec+=S("<watch")+(sd?"-sdds":"")+(r.coin()?" "+s+" file=\""+fn+"\"":" file=\""+fn+"\" "+s)+"/>"; ws.push_back({st,{fn,sd?1:0}}); }
        else { FelX f; f.N=r.ri(2,60); f.pos=rv(r,1); f.prop=r.dir(); Vector pol; do pol=r.dir(); while(fabs(dot(pol,f.prop))>.9); double zR=r.logu(.1,10),w0=r.logu(1e-4,1e-2),zw=r.uni(-1,1),E0=r.uni(-1e6,1e6),lam=(double)cc*dt*r.uni(3,20),tau=dt*f.N*r.uni(.05,.3),ts=dt*f.N*r.uni(.2,.8); bool seed=r.coin(0.8); auto gen=[&](Gen& q,bool inner) { std::vector<S> cs,ks; if (inner) q.calcs(1,cs); S N=q.iat("N",f.N); (void)N; ks.push_back(q.xyz("position",f.pos)); ks.push_back(q.xyz("prop",f.prop)); ks.push_back(q.xyz("pol",pol)); S m1=q.at("zR",zR),m2=q.at("w0",w0),m3=q.at("zwaist",zw); ks.push_back("<mode "+m1+" "+m2+" "+m3+"/>"); if (seed) { S s1=q.at("E0",E0),s2=q.at("lambda",lam),s3=q.at("tau",tau),s4=q.at("tstart",ts); ks.push_back("<seed "+s1+" "+s2+" "+s3+" "+s4+"/>"); } return "<fel1d "+N+">"+mix(r,cs,ks)+"</fel1d>"; };
            f.xml=gen(g,true); Gen p(r,c); p.plain=true; f.refxml="<teufel>"+gen(p,false)+"</teufel>"; sec+=f.xml; fs.push_back(f); } }
    R.secs.push_back(sec+"</tracking>"); Doc d(R.text()); Beam B; std::vector<watch_t> w; std::list<InteractionField*> in; S why; bool ok=true; try { d.p->parseTracking(&B,&w,&in); } catch (std::exception& e) { ok=false; why=e.what(); } if (!c.check(ok,"C19:tracking","valid section rejected (%s): %s",why.c_str(),R.xml.c_str())) return;
    c.near(B.getTimeStep(),dt,1e-11*dt,"C19:tracking-step","time step"); c.check(B.getNOTS()==n,"C19:tracking-steps","%d steps instead of %d",B.getNOTS(),n); c.check(B.getTrackingMethod()==TRACKING_VAY,"C19:tracking-method","tracking method");
    if (c.check(w.size()==ws.size(),"C19:watch-count","%zu watch points instead of %zu",w.size(),ws.size())) for (size_t i=0;i<w.size();i++) { c.check(w[i].step==ws[i].first&&w[i].filename==ws[i].second.first&&(w[i].type==sdds)==(ws[i].second.second==1),"C19:watch","watch point %zu: step %d file %s expected %d %s",i,w[i].step,w[i].filename.c_str(),ws[i].first,ws[i].second.first.c_str()); c.count("watch_points"); }
    if (c.check(in.size()==fs.size(),"C19:fel-count","%zu interactions instead of %zu",in.size(),fs.size())) { size_t i=0; for (InteractionField* f:in) { FelX& x=fs[i++]; Doc q(x.refxml); FEL_1D ref(dt,q.d.child("teufel").first_child(),q.p.get()); c.check(dynamic_cast<FEL_1D*>(f)!=nullptr,"C19:fel","kind of interaction"); double mE=0; std::vector<ElMagField> A,Bf; for (int k2=0;k2<x.N;k2++) { Vector X=x.pos-x.prop*((double)cc*dt*k2); A.push_back(f->Field(0,X)); Bf.push_back(ref.Field(0,X)); mE=fmax(mE,vnorm(Bf.back().E())); } for (size_t j=0;j<A.size();j++) { c.nearv(A[j].E(),Bf[j].E(),1e-7*mE,"C19:fel","seed field"); c.nearv(A[j].B(),Bf[j].B(),1e-7*mE/3e8,"C19:fel","seed field"); if (!Bf[j].isNull()) c.count("fel_cells"); } } }
    for (InteractionField* f:in) delete f; if (k>0) c.nontrivial(r.s); c.sample("%s",sec.substr(0,900).c_str());
}
static bool cmpset(Case& c,const S& A,const S& B,const char* ds,double tol,const char* key) { H5File a(A),b(B); H5Set x=a.get(ds),y=b.get(ds); if (!c.check(x.ok&&y.ok&&x.dims==y.dims,key,"%s missing or of different shape",ds)) return false; double m=0; for (double v:y.v) m=fmax(m,fabs(v)); bool ok=true; size_t at=0; for (size_t i=0;i<x.v.size();i++) if (!(fabs(x.v[i]-y.v[i])<=tol*m)) { ok=false; at=i; } c.check(ok,key,"%s differs from the direct set-up: %g, expected %g",ds,x.v[at],y.v[at]); for (auto& q:y.att) { double p=x.att.count(q.first)?x.att[q.first]:NAN; c.check(fabs(p-q.second)<=1e-9*fabs(q.second),key,"%s attribute %s is %g, expected %g",ds,q.first.c_str(),p,q.second); } c.count("observer_values",x.v.size()); return true; }
VF_GROUP(observers,150,2500) {
    Rng& r=c.rng; Root R(c); Gen& g=R.g; S sec="<observer>"; struct O { int kind; S fn; int src; Vector P,h,v; int nh,nv,nt; double t0,dt,dth,dtv; }; std::vector<O> os; int n=r.ri(0,5); 
    for (int i=0;i<n;i++) { O o; o.kind=r.ri(0,3); o.src=r.ri(0,2); o.P=rv(r,3); o.h=rv(r,.1); o.v=rv(r,.1); o.nh=r.ri(1,5); o.nv=r.ri(1,5); o.nt=r.ri(1,9); o.t0=r.uni(-1e-8,1e-8); o.dt=r.logu(1e-13,1e-10); o.dth=r.coin()?0:r.uni(-1e-12,1e-12); o.dtv=r.coin()?0:r.uni(-1e-12,1e-12); o.fn="o"+std::to_string(c.idx)+"_"+std::to_string(i)+(o.kind==3?".sdds":".h5"); sec+=g.calcs(1); std::vector<S> cs,ks; g.calcs(2,cs); S head=S(" file=\"")+o.fn+"\""+(o.src==0?"":o.src==1?" source=\"beam\"":" source=\"lattice\"");
        if (o.kind==2) { aux_mesh(o.fn,r,o.nt); sec+="<mesh"+head+(cs.empty()?S("/>"):">"+mix(r,cs,ks)+"</mesh>"); os.push_back(o); continue; }
        ks.push_back(g.xyz("position",o.P)); if (o.kind<2) { S nh=g.iat("n",o.nh); if (o.kind==1&&(o.dth!=0||r.coin())) nh+=" "+g.at("dt",o.dth); ks.push_back(g.xyz("hpitch",o.h,nh)); S nv=g.iat("n",o.nv); if (o.kind==1&&(o.dtv!=0||r.coin())) nv+=" "+g.at("dt",o.dtv); ks.push_back(g.xyz("vpitch",o.v,nv)); } S t=g.at("t0",o.t0); if (o.kind==0) ks.push_back("<time "+t+"/>"); else { S a=g.at("dt",o.dt),b=g.iat("n",o.nt); ks.push_back("<time "+t+" "+a+" "+b+"/>"); }
        S tag=o.kind==0?"snapshot":o.kind==1?"screen":"point"; sec+="<"+tag+head+">"+mix(r,cs,ks)+"</"+tag+">"; os.push_back(o); }
    R.secs.push_back(sec+"</observer>"); Doc d(R.text()); std::vector<BaseObserver*> L; S why; bool ok=true; try { d.p->parseObservers(&L); } catch (std::exception& e) { ok=false; why=e.what(); } if (!c.check(ok,"C19:observers","valid section rejected (%s): %s",why.c_str(),R.xml.c_str())) return;
    if (!c.check((int)L.size()==n,"C19:observer-count","%zu observers instead of %d",L.size(),n)) return;
    Lattice lat; TestField* tf=new TestField(); tf->kind=0; tf->E0=r.vec(1e3); tf->B0=r.vec(1e-5); tf->wE=r.uni(-1,1)*1e9; tf->wB=r.uni(-1,1)*1e9; tf->kE=r.vec(3); tf->kB=r.vec(3); lat.addElement(tf); Beam beam; { Bunch* b=new Bunch(); ChargedParticle* p=new ChargedParticle(-1,1); p->initTrajectory(0,r.vec(1),r.vec(1),VectorZero); b->Add(p); beam.Add(b); }
    for (int i=0;i<n;i++) { O& o=os[i]; BaseObserver* b=L[i]; bool lt=o.src==2; const char* kn[]={"snapshot","screen","mesh","point"}; S key=S("C19:observer:")+kn[o.kind]; c.check(b->getSourceType()==(lt?LatticeObservation:BeamObservation),key.c_str(),"source type"); bool kindok=false; if (lt) { Observer<Lattice>* p=dynamic_cast<Observer<Lattice>*>(b); if (p) { p->setSource(&lat); kindok = o.kind==0?dynamic_cast<SnapshotObserver<Lattice>*>(b)!=0:o.kind==1?dynamic_cast<ScreenObserver<Lattice>*>(b)!=0:o.kind==2?dynamic_cast<MeshedScreen<Lattice>*>(b)!=0:dynamic_cast<PointObserver<Lattice>*>(b)!=0; } } else { Observer<Beam>* p=dynamic_cast<Observer<Beam>*>(b); if (p) { p->setSource(&beam); kindok = o.kind==0?dynamic_cast<SnapshotObserver<Beam>*>(b)!=0:o.kind==1?dynamic_cast<ScreenObserver<Beam>*>(b)!=0:o.kind==2?dynamic_cast<MeshedScreen<Beam>*>(b)!=0:dynamic_cast<PointObserver<Beam>*>(b)!=0; } } if (!c.check(kindok,key.c_str(),"kind of observer")) continue;
        size_t want=6*(size_t)(o.kind==0?o.nh*o.nv:o.kind==1?o.nh*o.nv*o.nt:o.kind==2?2*o.nt:o.nt); if (!c.check(b->getBufferSize()==want,key.c_str(),"%zu values instead of %zu",b->getBufferSize(),want)) continue; c.count("observers"); if (o.kind==2) { delete b; continue; }
        S rf="ref_"+o.fn; BaseObserver* q=0; if (lt) { Observer<Lattice>* p= o.kind==0?(Observer<Lattice>*)new SnapshotObserver<Lattice>(rf.c_str(),o.P,o.h,o.v,o.nh,o.nv,o.t0):o.kind==1?(Observer<Lattice>*)new ScreenObserver<Lattice>(rf,o.P,o.h,o.v,o.nh,o.nv,o.t0,o.dt,o.dth,o.dtv,o.nt):(Observer<Lattice>*)new PointObserver<Lattice>(rf.c_str(),o.P,o.t0,o.dt,o.nt); p->setSource(&lat); q=p; } else { Observer<Beam>* p= o.kind==0?(Observer<Beam>*)new SnapshotObserver<Beam>(rf.c_str(),o.P,o.h,o.v,o.nh,o.nv,o.t0):o.kind==1?(Observer<Beam>*)new ScreenObserver<Beam>(rf,o.P,o.h,o.v,o.nh,o.nv,o.t0,o.dt,o.dth,o.dtv,o.nt):(Observer<Beam>*)new PointObserver<Beam>(rf.c_str(),o.P,o.t0,o.dt,o.nt); p->setSource(&beam); q=p; }
        if (lt) { b->integrate(); q->integrate(); } b->generateOutput(); q->generateOutput(); struct stat st; if (!c.check(stat(o.fn.c_str(),&st)==0,key.c_str(),"%s not written",o.fn.c_str())) continue;
        if (o.kind==3) { Sdds x(o.fn),y(rf); c.check(x.ok&&y.ok&&x.rows==y.rows&&x.colnames==y.colnames,key.c_str(),"tables differ"); for (auto& k:y.col) { double m=0; bool good=x.col[k.first].size()==k.second.size(); for (double v:k.second) m=fmax(m,fabs(v)); for (size_t j=0;good&&j<k.second.size();j++) if (!(fabs(x.col[k.first][j]-k.second[j])<=1e-7*m)) good=false; c.check(good,key.c_str(),"column %s differs from the direct set-up",k.first.c_str()); c.count("observer_values",k.second.size()); } for (auto& k:y.par) { double v=x.par.count(k.first)?x.par[k.first]:NAN; c.check(fabs(v-k.second)<=1e-7*fabs(k.second),key.c_str(),"parameter %s is %g, expected %g",k.first.c_str(),v,k.second); } }
        else { cmpset(c,o.fn,rf,"ObservationPosition",1e-9,key.c_str()); if (o.kind==1) cmpset(c,o.fn,rf,"Screen",1e-9,key.c_str()); cmpset(c,o.fn,rf,"ElMagField",1e-7,key.c_str()); }
        remove(o.fn.c_str()); remove(rf.c_str()); delete b; delete q; }
    if (n>1) c.nontrivial(r.s); c.sample("%d observers: %s",n,sec.substr(0,900).c_str());
}
// single faults ---------------------------------------------------------------------------
struct Piece { S text; S what; };      // a required part of an entry
struct Entry { S open,close; std::vector<Piece> parts; };
static S join(const std::vector<Piece>& p,int miss) { S s; for (size_t i=0;i<p.size();i++) if ((int)i!=miss) s+=p[i].text; return s; }
VF_GROUP(faults,150,2500) {
    Rng& r=c.rng; Gen g(r,c); g.plain=r.coin(); S id=std::to_string(c.idx); aux_screen("fs"+id+".h5",r); aux_mesh("fm"+id+".h5",r,3); aux_sdds("fb"+id+".sdds",r,3,10,1e-12); auto V=[&](const char* t,const S& more=""){ return g.xyz(t,r.dir(),more); };
    S lat[8],beam[4],trk[4],obs[4]; 
    struct M { S sec; S whole; S broken; S what; }; std::vector<M> ms; auto add=[&](const S& sec,const S& tag,const S& attrs,std::vector<Piece> ps,std::vector<std::pair<S,S>> req={}) { // req: attributes written separately, required
        S a; for (auto& q:req) a+=" "+q.first+"=\""+q.second+"\""; S whole="<"+tag+attrs+a+">"+join(ps,-1)+"</"+tag+">"; for (size_t i=0;i<ps.size();i++) if (ps[i].what!="") ms.push_back({sec,whole,"<"+tag+attrs+a+">"+join(ps,i)+"</"+tag+">",tag+" without "+ps[i].what}); for (size_t i=0;i<req.size();i++) { S b; for (size_t j=0;j<req.size();j++) if (j!=i) b+=" "+req[j].first+"=\""+req[j].second+"\""; ms.push_back({sec,whole,"<"+tag+attrs+b+">"+join(ps,-1)+"</"+tag+">",tag+" without attribute "+req[i].first}); } ms.push_back({sec,whole,"<x"+tag+attrs+a+">"+join(ps,-1)+"</x"+tag+">","unknown entry x"+tag}); };
    S pos=V("position");
    add("lattice","undulator","",{{pos,"position"},{"<field B=\"1\" period=\"0.1\" N=\"5\"/>","field"}},{{"type","planar"}}); add("lattice","undulator","",{{pos,"position"},{"<field B=\"1\" kx=\"3\" period=\"0.1\" N=\"5\"/>","field"}},{{"type","transverse gradient"}}); add("lattice","wave","",{{pos,"position"},{"<field lambda=\"1e-3\" ReA=\"1\" ImA=\"0\" rayleigh=\"1\"/>","field"}},{{"type","gaussian"}}); add("lattice","wave","",{{V("position","t=\"0\""),"position"},{"<field lambda=\"1e-3\" ReA=\"1\" ImA=\"0\" rayleigh=\"1\" tau=\"1e-12\"/>","field"}},{{"type","packet"}}); add("lattice","screen","",{{V("position","t=\"0\""),"position"}},{{"file","fs"+id+".h5"}});
    for (const char* k:{"hard edge","soft edge"}) { std::vector<Piece> p={{V("B"),"B"},{V("p1"),"p1"},{V("n1"),"n1"},{V("p2"),"p2"},{V("n2"),"n2"}}; if (k[0]=='s') p.push_back({"<transition l1=\"0.1\" l2=\"0.2\"/>","transition"}); add("lattice","dipole","",p,{{"type",k}}); }
    ms.push_back({"lattice","<background><B x=\"0\" y=\"1\" z=\"0\"/></background>","<backgroud><B x=\"0\" y=\"1\" z=\"0\"/></backgroud>","misspelt background"});
    for (const char* k:{"undulator","wave","dipole"}) ms.push_back({"lattice","<background/>","<"+S(k)+" type=\"unknown\">"+pos+V("B")+"</"+k+">","unknown type of "+S(k)});
    ms.push_back({"lattice","<background/>","<screen file=\"missing"+id+".h5\">"+V("position","t=\"0\"")+"</screen>","source screen file that does not exist"}); { std::ofstream("junk"+id+".h5")<<"not an HDF5 file at all"; ms.push_back({"lattice","<background/>","<screen file=\"junk"+id+".h5\">"+V("position","t=\"0\"")+"</screen>","source screen file that is none"}); }
    S gc=" gamma=\"10\" charge=\"-1e-12\" cmr=\"-1\""; add("beam","particle",gc,{{pos,"position"},{V("momentum"),"momentum"},{"<log file=\"l.sdds\" step=\"2\"/>",""}}); add("beam","bunch",gc+" n=\"5\"",{{pos,"position"},{V("momentum"),"momentum"}}); add("beam","SDDS","",{{V("dir"),""}},{{"file","fb"+id+".sdds"}}); add("beam","probe"," number=\"2\"",{},{{"file","p.h5"}});
    auto bunch=[&](const S& in){ return "<bunch"+gc+" n=\"5\">"+pos+V("momentum")+in+"</bunch>"; }; auto part=[&](const S& in){ return "<particle"+gc+">"+pos+V("momentum")+in+"</particle>"; }; auto sdd=[&](const S& in){ return "<SDDS file=\"fb"+id+".sdds\">"+in+"</SDDS>"; };
    for (int k=0;k<3;k++) { auto w=[&](const S& in){ return k==0?bunch(in):k==1?part(in):sdd(in); }; const char* nm[]={"bunch","particle","SDDS"}; ms.push_back({"beam",w("<log file=\"a\"/>"),w("<log step=\"3\"/>"),S(nm[k])+" log without file"}); for (const char* st:{"0","-3","1-1","nosuchvar"}) ms.push_back({"beam",w("<log file=\"a\" step=\"2\"/>"),w("<log file=\"a\" step=\""+S(st)+"\"/>"),S(nm[k])+" log with step "+st}); if (k==1) continue; const char* cor[]={"<linear dep=\"1\" factor=\"1\"/>","<linear indep=\"1\" factor=\"1\"/>","<linear indep=\"1\" dep=\"2\"/>","<quadratic indep=\"1\" dep=\"2\" factor=\"1\"/>"}; for (const char* q:cor) ms.push_back({"beam",w("<correlations><linear indep=\"1\" dep=\"2\" factor=\"1\"/></correlations>"),w("<correlations>"+S(q)+"</correlations>"),S(nm[k])+" correlation "+q}); }
    ms.push_back({"beam",bunch("<trajectories file=\"a\" step=\"2\"/>"),bunch("<trajectories step=\"3\"/>"),"trajectories without file"}); for (const char* st:{"0","-1"}) { ms.push_back({"beam",bunch("<trajectories file=\"a\" step=\"2\"/>"),bunch("<trajectories file=\"a\" step=\""+S(st)+"\"/>"),"trajectories with step "+S(st)}); ms.push_back({"beam","<probe file=\"p.h5\"/>","<probe file=\"p.h5\" step=\""+S(st)+"\"/>","probe with step "+S(st)}); }
    S fel0=V("position"),felp="<prop x=\"0\" y=\"0\" z=\"1\"/>",felq="<pol x=\"1\" y=\"0\" z=\"0\"/>",felm="<mode zR=\"1\" w0=\"1e-3\" zwaist=\"0\"/>"; add("tracking","fel1d","",{{fel0,"position"},{felp,"prop"},{felq,"pol"},{felm,"mode"}},{{"N","20"}}); add("tracking","watch","",{},{{"step","3"},{"file","w.h5"}}); add("tracking","watch-sdds","",{},{{"step","3"},{"file","w.sdds"}}); ms.push_back({"tracking","<fel1d N=\"9\">"+fel0+felp+felq+felm+"<log file=\"f\"/></fel1d>","<fel1d N=\"9\">"+fel0+felp+felq+felm+"<log step=\"2\"/></fel1d>","fel log without file"}); ms.push_back({"tracking","<fel1d N=\"9\">"+fel0+felp+felq+felm+"<log file=\"f\"/></fel1d>","<fel1d N=\"9\">"+fel0+felp+felq+felm+"<log file=\"f\" step=\"0\"/></fel1d>","fel log with step 0"}); 
    S hp=V("hpitch","n=\"2\""),vp=V("vpitch","n=\"3\""),hp0=V("hpitch"),vp0=V("vpitch"),tm="<time t0=\"0\" dt=\"1e-12\" n=\"4\"/>"; add("observer","snapshot","",{{pos,"position"},{hp,"hpitch"},{vp,"vpitch"},{"<time t0=\"0\"/>","time"}},{{"file","o.h5"}}); add("observer","screen","",{{pos,"position"},{hp,"hpitch"},{vp,"vpitch"},{tm,"time"}},{{"file","o.h5"}}); add("observer","point","",{{pos,"position"},{tm,"time"}},{{"file","o.sdds"}}); add("observer","mesh","",{},{{"file","fm"+id+".h5"}});
    for (const char* k:{"snapshot","screen"}) { S w="<"+S(k)+" file=\"o.h5\">"+pos+hp+vp+tm+"</"+k+">"; ms.push_back({"observer",w,"<"+S(k)+" file=\"o.h5\">"+pos+hp0+vp+tm+"</"+k+">",S(k)+" hpitch without n"}); ms.push_back({"observer",w,"<"+S(k)+" file=\"o.h5\">"+pos+hp+vp0+tm+"</"+k+">",S(k)+" vpitch without n"}); } for (const char* k:{"screen","point"}) { S w="<"+S(k)+" file=\"o.h5\">"+pos+hp+vp+tm+"</"+k+">"; ms.push_back({"observer",w,"<"+S(k)+" file=\"o.h5\">"+pos+hp+vp+"<time t0=\"0\" dt=\"1e-12\"/></"+k+">",S(k)+" time without n"}); }
    for (const char* k:{"snapshot","screen","point","mesh"}) { S f=S(k)=="mesh"?"fm"+id+".h5":"o.h5"; auto w=[&](const char* s){ return "<"+S(k)+" file=\""+f+"\" source=\""+s+"\">"+pos+hp+vp+tm+"</"+k+">"; }; for (const char* s:{"bunch","Lattice","","none"}) ms.push_back({"observer",w("beam"),w(s),S(k)+" with source '"+s+"'"}); } ms.push_back({"observer","<mesh file=\"fm"+id+".h5\"/>","<mesh file=\"missing"+id+".h5\"/>","mesh file that does not exist"}); ms.push_back({"observer","<mesh file=\"fm"+id+".h5\"/>","<mesh file=\"junk"+id+".h5\"/>","mesh file that is none"});
    S trka=" method=\"Vay\" delta_t=\"1e-12\" n=\"10\""; auto build=[&](const S& sec,const S& in,const S& ta,int miss){ const char* names[]={"lattice","beam","tracking","observer"}; S s="<teufel>"; for (int i=0;i<4;i++) if (i!=miss) s+="<"+S(names[i])+(i==2?ta:S(""))+">"+(sec==names[i]?in:S(""))+"</"+names[i]+">"; return s+"</teufel>"; };
    auto parse=[&](const S& x,S& stage){ stage="load"; Doc d(x); Lattice L; Beam* B=new Beam(); std::vector<Logger*> l; ProbeInfo p{false,0,"",0,0}; std::vector<watch_t> w; std::list<InteractionField*> in; std::vector<BaseObserver*> o; struct Cl { std::vector<Logger*>& l; std::list<InteractionField*>& in; std::vector<BaseObserver*>& o; ~Cl() { for (auto q:l) delete q; for (auto q:in) delete q; for (auto q:o) delete q; } } cl{l,in,o}; stage="lattice"; d.p->parseLattice(&L); stage="beam"; d.p->parseBeam(B,&l,&p); stage="tracking"; d.p->parseTracking(B,&w,&in); stage="observer"; d.p->parseObservers(&o); stage="done"; };
    auto one=[&](const M& m,const S& good,const S& bad){ S st; bool th=throws([&]{ parse(good,st); }); if (!c.check(!th,("C19:accept:"+m.sec).c_str(),"valid input rejected in section %s: %s",st.c_str(),good.c_str())) return; th=throws([&]{ parse(bad,st); }); c.check(th,("C19:reject:"+m.sec).c_str(),"accepted: %s (%s)",m.what.c_str(),bad.c_str()); c.count("faults"); };
    for (int k=0;k<25;k++) { const M& m=r.pick(ms); one(m,build(m.sec,m.whole,trka,-1),build(m.sec,m.broken,trka,-1)); c.nontrivial(m.what); }
    { M m{"sections","","",""}; int i=r.ri(0,3); m.what="missing section"; one(m,build("","",trka,-1),build("","",trka,i)); const char* t[]={" delta_t=\"1e-12\" n=\"10\""," method=\"Euler\" delta_t=\"1e-12\" n=\"10\""," method=\"Vay\" n=\"10\""," method=\"Vay\" delta_t=\"1e-12\""}; m.what="incomplete tracking"; one(m,build("","",trka,-1),build("","",t[r.ri(0,3)],-1)); 
      const M& q=r.pick(ms); S whole=build(q.sec,q.whole,trka,-1); m.what="truncated file"; for (int k=0;k<4;k++) one(m,whole,whole.substr(0,r.ri(1,(int)whole.size()-1))); S root=whole; root.replace(1,6,"trufel"); root.replace(root.size()-7,6,"trufel"); m.what="other root node"; one(m,whole,root); }
    c.sample("%zu kinds of fault, e.g. %s",ms.size(),ms[r.ri(0,ms.size()-1)].what.c_str()); for (const char* f:{"fs","fm"}) remove((f+id+".h5").c_str()); remove(("fb"+id+".sdds").c_str());
}
int main(int argc,char** argv) { return vf::main(argc,argv); }
