// C08: static lattice elements against their documented fields
#include "ref.h"
#include "dipole.h"
#include "undulator.h"
#include "parser.h"
#include "pugixml.hpp"
#include <memory>
using namespace vf;

struct Doc { pugi::xml_document d; std::unique_ptr<InputParser> p; pugi::xml_node n;
    Doc(const std::string& body) { std::string s="<teufel>"+body+"</teufel>"; d.load_string(s.c_str()); pugi::xml_node root=d.child("teufel"); p.reset(new InputParser(root)); n=root.first_child(); } };
static std::string num(Rng& r,double v) { char b[120]; int w=r.ri(0,3);
    if (w==0) snprintf(b,sizeof b,"%.17g",v); else if (w==1) snprintf(b,sizeof b,"%.17g*2.0",v/2); else if (w==2) snprintf(b,sizeof b,"0.5*(%.17g)+%.17g",v,v/2); else snprintf(b,sizeof b,"(%.17g)",v); return b; }
static std::string xyz(Rng& r,const char* tag,Vector v) { return std::string("<")+tag+" x=\""+num(r,v.x)+"\" y=\""+num(r,v.y)+"\" z=\""+num(r,v.z)+"\"/>"; }
static V3 Bof(Case& c,GeneralField& f,double t,Vector X,const char* w) { ElMagField e=f.Field(t,X); Vector E=e.E(); c.check(E.x==0&&E.y==0&&E.z==0,"C08:electric","%s: electric field %g %g %g in a magnet",w,E.x,E.y,E.z); return V3(e.B()); }
static double aT(Rng& r) { return r.coin(0.3)?0.0:r.sgn()*r.logu(1e-15,1e3); }

// d<0: inside
static void dipcase(Case& c,bool soft) {
    Rng& r=c.rng; double L=r.logu(1e-3,10); Vector B=r.vec(r.logu(1e-4,10)); Vector p1=r.vec(L*2),n1,n2,p2; int kind=r.ri(0,2);
    n1=r.dir(); if (kind==0) { n2=n1*-1; p2=p1-n1*(L*r.uni(0.2,2)); } else { do n2=r.dir(); while (fabs(dot(n1,n2))>0.98); p2=r.vec(L*2); }
    double t1=L*r.logu(1e-3,1), t2=L*r.logu(1e-3,1); double sc1=1,sc2=1; if (!soft) { sc1=r.logu(1e-3,1e3); sc2=r.logu(1e-3,1e3); }
    std::unique_ptr<GeneralField> f; std::unique_ptr<Doc> doc; const char* w=soft?"soft edge dipole":"hard edge dipole"; bool viaxml=r.coin(0.4);
    Vector N1=n1*sc1,N2=n2*sc2;
    if (viaxml) { std::string s="<dipole>"+xyz(r,"B",B)+xyz(r,"p1",p1)+xyz(r,"n1",N1)+xyz(r,"p2",p2)+xyz(r,"n2",N2)+(soft?"<transition l1=\""+num(r,t1)+"\" l2=\""+num(r,t2)+"\"/>":"")+"</dipole>"; doc.reset(new Doc(s));
        if (soft) f.reset(new SoftEdgeDipole(doc->n,doc->p.get())); else f.reset(new HardEdgeDipole(doc->n,doc->p.get())); c.count("xml_elements"); }
    else { if (soft) f.reset(new SoftEdgeDipole(B,p1,n1,t1,p2,n2,t2)); else f.reset(new HardEdgeDipole(B,p1,N1,p2,N2)); }
    Vector gb=soft?((SoftEdgeDipole*)f.get())->GetB():((HardEdgeDipole*)f.get())->GetB(); double bm=vnorm(B); c.nearv(gb,B,1e-14*bm,"C08:dipole-getB","GetB");
    c.check(f->is_external(),"C08:external","dipole is not an external field");
    int ins=0,outs=0; double size=L*4;
    for (int i=0;i<60;i++) {
        int m=r.ri(0,4); Vector X; 
        if (m==0) X=r.vec(size); else if (m==1) X=p1+r.vec(L); else if (m==2) X=p1-n1*(L*r.uni(0,0.2)); else if (m==3) { Vector q=p1+(p2-p1)*0.5; X=q+r.vec(L*0.3); } else X=r.coin()?p1+n1*(r.sgn()*L*r.logu(1e-9,1)):p2+n2*(r.sgn()*L*r.logu(1e-9,1));
        if (r.coin(0.05)) X=r.dir()*1e6;
        V3 x(X); LD d1=(x-V3(p1)).dot(V3(n1)), d2=(x-V3(p2)).dot(V3(n2)); double wd=1e-14*(vnorm(X)+size); double t=aT(r);
        V3 got=Bof(c,*f,t,X,w);
        if (!soft) { if (fabsl(d1)<wd||fabsl(d2)<wd) continue; bool in=d1<0&&d2<0; V3 ref=in?V3(B):V3(0,0,0); c.nearv(got.d(),ref.d(),1e-14*bm,"C08:hard-edge",in?"inside the hard edge dipole":"outside the hard edge dipole"); (in?ins:outs)++; }
        else { LD a=atanl(2*d1/t1)/pi+0.5L, b=atanl(2*d2/t2)/pi+0.5L; LD s=1-a-b; bool neg=s<0; if (neg) s=0; double tol=bm*(1e-14+wd*(1/t1+1/t2));
            if (neg) c.nearv(got.d(),Vector(0,0,0),tol,"C08:soft-edge-outside","field beyond both edges must have dropped to zero"); else c.nearv(got.d(),(V3(B)*s).d(),tol,"C08:soft-edge","soft edge dipole profile"); (s>0.5?ins:outs)++; }
        V3 again=Bof(c,*f,aT(r),X,w); c.nearv(again.d(),got.d(),1e-15*bm,"C08:static","field changes with time"); c.count("dipole_points");
    }
    // documented 75% / 25% points at an isolated edge, and full field deep inside
    if (soft && kind==0) { SoftEdgeDipole s(B,p1,n1,t1,p1-n1*(t2*1e9),n1*-1,t2); double u=r.uni(-1,1)*L; V3 h=fabs(n1.x)<0.7?V3(1,0,0):V3(0,1,0); Vector side=(h.cross(V3(n1)).unit()*u).d();
        double wq=bm*(1e-8+1e-14*(L/t1)*10); c.nearv(Bof(c,s,0,p1+side-n1*(t1/2),w).d(),B*0.75,wq,"C08:soft-edge-75","half a transition length inside"); c.nearv(Bof(c,s,0,p1+side+n1*(t1/2),w).d(),B*0.25,wq,"C08:soft-edge-25","half a transition length outside"); c.nearv(Bof(c,s,0,p1+side-n1*(t1*1e6),w).d(),B,1e-6*bm,"C08:soft-edge-full","deep inside"); c.count("edge_points",3); }
    if (ins&&outs) { char sg[80]; snprintf(sg,sizeof sg,"%d %d %d %g",soft,kind,viaxml,L); c.nontrivial(sg); c.count("both_sides"); }
    c.sample("%s B=%g T L=%g inside %d outside %d",w,bm,L,ins,outs);
}
VF_GROUP(hard_edge,150,1500) { dipcase(c,false); }
VF_GROUP(soft_edge,150,1500) { dipcase(c,true); }

struct Und { bool tgu; double B,lam,kx,mod; int N; Vector pos; };
static LD ramp(const Und& u,LD z) { LD h=(u.N+1)*(LD)u.lam/2; if (z<-h||z>=h) return 0; LD s=1; if (z<-h+u.lam) s*=(z+h)/u.lam; if (z>=h-u.lam) s*=(h-z)/u.lam; return s; }
static V3 refU(const Und& u,V3 X) { V3 x=X-V3(u.pos); LD s=ramp(u,x.z); if (s==0) return V3(); LD kz=2*pi/u.lam; V3 b;
    if (!u.tgu) { b=V3(0,sinl(kz*x.z)*coshl(kz*x.y),cosl(kz*x.z)*sinhl(kz*x.y)); return b*(u.B*s); }
    LD ky=sqrtl(kz*kz+(LD)u.kx*u.kx); b=V3(u.kx/ky*cosl(u.kx*x.x)*sinhl(ky*x.y)*sinl(kz*x.z), sinl(kz*x.z)*coshl(kz*x.y)+sinl(u.kx*x.x)*coshl(ky*x.y)*sinl(kz*x.z), cosl(kz*x.z)*sinhl(kz*x.y)+kz/ky*sinl(u.kx*x.x)*sinhl(ky*x.y)*cosl(kz*x.z));
    return b*(u.B*s*(1+u.mod*sinl(kz*x.z))); }
static void undcase(Case& c,bool tgu) {
    Rng& r=c.rng; Und u; u.tgu=tgu; u.B=r.sgn()*r.logu(1e-3,3); u.lam=r.logu(5e-3,1); u.N=r.ri(1,60); if (r.coin(0.15)) u.N=1; u.kx=r.coin(0.1)?0:r.sgn()*r.logu(0.01,1)*6/u.lam; u.mod=r.coin()?0:r.uni(-0.5,0.5); u.pos=r.coin(0.2)?Vector(0,0,0):r.vec(r.logu(0.1,30));
    std::unique_ptr<GeneralField> f; std::unique_ptr<Doc> doc; bool viaxml=r.coin(0.4); const char* w=tgu?"transverse gradient undulator":"planar undulator"; double K,Kr,bp,lu; int np;
    if (viaxml) { std::string s="<undulator>"+xyz(r,"position",u.pos)+"<field B=\""+num(r,u.B)+"\" period=\""+num(r,u.lam)+"\" N=\""+std::to_string(u.N)+"\""; if (tgu) { s+=" kx=\""+num(r,u.kx)+"\""; if (u.mod!=0||r.coin()) s+=" modulation=\""+num(r,u.mod)+"\""; } s+="/></undulator>"; doc.reset(new Doc(s));
        if (tgu) f.reset(new TransverseGradientUndulator(doc->n,doc->p.get())); else f.reset(new PlanarUndulator(doc->n,doc->p.get())); c.count("xml_elements"); }
    else if (tgu) { auto* p=new TransverseGradientUndulator(u.pos); p->Setup(u.B,u.kx,u.mod,u.lam,u.N); f.reset(p); } else { auto* p=new PlanarUndulator(u.pos); if (r.coin(0.3)) p->Setup(r.uni(0,1),r.uni(0.1,1),r.ri(1,9)); p->Setup(u.B,u.lam,u.N); f.reset(p); }
    if (tgu) { auto* p=(TransverseGradientUndulator*)f.get(); K=p->GetKpeak(); Kr=p->GetKrms(); bp=p->GetBPeak(); lu=p->GetLambdaU(); np=p->GetNPeriods(); } else { auto* p=(PlanarUndulator*)f.get(); K=p->GetKpeak(); Kr=p->GetKrms(); bp=p->GetBPeak(); lu=p->GetLambdaU(); np=p->GetNPeriods(); }
    double Kref=(double)(ec*u.B*u.lam/(2*pi*(LD)9.1093837e-31L*cc)); c.near(K,Kref,3e-5*fabs(Kref),"C08:und-K","peak undulator parameter"); c.near(Kr,K/sqrt(2.0),1e-12*fabs(K),"C08:und-K","rms undulator parameter");
    c.near(bp,u.B,1e-14*fabs(u.B),"C08:und-param","BPeak"); c.near(lu,u.lam,1e-14*u.lam,"C08:und-param","LambdaU"); c.check(np==u.N,"C08:und-param","NPeriods %d instead of %d",np,u.N); c.check(f->is_external(),"C08:external","undulator is not an external field");
    double h=(u.N+1)*u.lam/2; double pos=vnorm(u.pos); int in=0,ed=0,out=0; double kz=2*M_PI/u.lam,ky=sqrt(kz*kz+(tgu?u.kx*u.kx:0.0));
    for (int i=0;i<80;i++) {
        int m=r.ri(0,5); double z; if (m==0) z=r.uni(-1.3,1.3)*h; else if (m==1) z=r.sgn()*(h-r.uni(0,1)*u.lam); else if (m==2) z=r.sgn()*h*(1+r.sgn()*r.logu(1e-8,1)); else if (m==3) z=r.uni(-1,1)*(h-u.lam); else if (m==4) z=r.sgn()*(h-u.lam*(1+r.uni(-0.02,0.02))); else z=r.sgn()*h*r.logu(1,1e6);
        Vector X=Vector(r.uni(-1,1)*u.lam*r.logu(1e-3,20),r.uni(-1,1)*u.lam*r.logu(1e-3,0.5),z); Vector P=X+u.pos; if (r.coin(0.1)) P.y=u.pos.y; double t=aT(r); V3 p(P); double zl=(double)(p.z-(LD)u.pos.z), yl=(double)(p.y-(LD)u.pos.y); 
        if (fabs(yl)*ky>20) continue;
        double dpos=2e-16*(pos+fabs(z)+fabs(X.x)+fabs(X.y))*8; bool nearedge=fabs(fabs(zl)-h)<dpos; if (nearedge) continue;
        double amp=fabs(u.B)*(1+fabs(u.mod))*(tgu?2:1)*cosh(ky*yl); double tol=amp*(1e-13+dpos*(kz+ky+1/u.lam)*3);
        V3 got=Bof(c,*f,t,P,w); V3 ref=refU(u,p); c.nearv(got.d(),ref.d(),tol,tgu?"C08:tgu":"C08:planar",w);
        if (fabs(zl)>h) { out++; c.check(got.n()==0,"C08:und-outside","field %g T outside the undulator at z=%g, end at %g",(double)got.n(),zl,h); } else if (fabs(zl)>h-u.lam) ed++; else in++;
        V3 again=Bof(c,*f,aT(r),P,w); c.nearv(again.d(),got.d(),1e-15*amp,"C08:static","field changes with time"); c.count("undulator_points");
        // Maxwell: central differences inside the ramps
        if (fabs(zl)<h-u.lam*1.001 && !(tgu&&u.mod!=0)) { double e=1e-3/(kz+ky); V3 dx,dy,dz; auto g=[&](double a,double b,double cz){ return V3(f->Field(0,Vector(P.x+a,P.y+b,P.z+cz)).B()); };
            dx=(g(e,0,0)-g(-e,0,0))/(2*e); dy=(g(0,e,0)-g(0,-e,0))/(2*e); dz=(g(0,0,e)-g(0,0,-e))/(2*e); double sc=amp*(kz+ky)*(5e-6+ 1e-12*(1+pos/e*1e-3)); sc+=amp*3e-16*(pos+h)*(kz+ky)/e*2;
            c.near((double)(dx.x+dy.y+dz.z),0,sc,"C08:divergence","div B"); c.nearv(V3(dy.z-dz.y,dz.x-dx.z,dx.y-dy.x).d(),Vector(0,0,0),sc,"C08:curl","curl B"); c.count("maxwell_points"); }
    }
    // TGU: linear gradient on the mid plane: By doubles (extrapolated) at 1/kx
    if (tgu && u.kx!=0 && u.mod==0 && u.N>=4) { double z=u.lam/4; double e=1e-4/fabs(u.kx); double b0=f->Field(0,u.pos+Vector(0,0,z)).B().y, b1=f->Field(0,u.pos+Vector(e,0,z)).B().y, b2=f->Field(0,u.pos+Vector(-e,0,z)).B().y; c.near((b1-b2)/(2*e)/u.kx,b0,fabs(u.B)*(1e-5+1e-11*(pos+1)/e),"C08:gradient","relative gradient"); c.near(b0,u.B,fabs(u.B)*(1e-9+1e-12*pos/u.lam),"C08:peak","peak field on axis"); c.count("gradient"); }
    if (in&&ed&&out) { char sg[100]; snprintf(sg,sizeof sg,"%d %d %g %g",tgu,u.N,u.lam,u.B); c.nontrivial(sg); }
    c.sample("%s N=%d lambda=%g B=%g K=%g: %d points inside, %d in ramps, %d outside",w,u.N,u.lam,u.B,K,in,ed,out);
}
VF_GROUP(planar,150,1500) { undcase(c,false); }
VF_GROUP(tgu,150,1500) { undcase(c,true); }

VF_GROUP(homogeneous,60,400) {
    Rng& r=c.rng; Vector E=r.vec(r.logu(1,1e9)),B=r.vec(r.logu(1e-6,10)); if (r.coin(0.2)) E=Vector(0,0,0); HomogeneousField f(E,B); HomogeneousField z;
    for (int i=0;i<10;i++) { Vector X=r.vec(r.logu(1e-6,1e6)); double t=aT(r); ElMagField g=f.Field(t,X); c.nearv(g.E(),E,0,"C08:homogeneous","E"); c.nearv(g.B(),B,0,"C08:homogeneous","B"); c.check(z.Field(t,X).isNull(),"C08:homogeneous","default homogeneous field not zero"); c.count("homogeneous_points"); }
    HardEdgeDipole h; SoftEdgeDipole s; PlanarUndulator p; TransverseGradientUndulator g; Vector X=r.vec(1); c.check(h.Field(0,X).isNull()&&s.Field(0,X).isNull()&&p.Field(0,X).isNull()&&g.Field(0,X).isNull(),"C08:default","default constructed element produces field at %g %g %g",X.x,X.y,X.z);
    c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
