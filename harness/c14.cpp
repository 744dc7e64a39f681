// C14: a recorded screen used as a field source
#include "ref.h"
#include "io.h"
#include "source_screen.h"
#include "screen.h"
#include <complex>
using namespace vf;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }
struct Scr { int nx,ny,n; double t0,dt,dtx,dty; V3 O,nrm,dx,dy; bool tilt; std::vector<double> f;
    V3 cell(int i,int j) const { return dx*(i-nx/2)+dy*(j-ny/2); } LD ct(int i,int j) const { return (LD)(tilt?dtx:0)*(i-nx/2)+(LD)(tilt?dty:0)*(j-ny/2); } };
static void write(const Scr& s,const char* fn) { H5Out h(fn); std::vector<double> v; for (V3 a:{s.O,s.nrm,s.dx,s.dy}) { v.push_back(a.x); v.push_back(a.y); v.push_back(a.z); } std::map<std::string,double> d={{"t0",s.t0},{"dt",s.dt}}; if (s.tilt) { d["dtx"]=s.dtx; d["dty"]=s.dty; } h.put<double>("Screen",{4,3},v,{{"Nx",s.nx},{"Ny",s.ny},{"NOTS",s.n}},d); h.put<double>("ElMagField",{(hsize_t)s.nx,(hsize_t)s.ny,(hsize_t)s.n,6},s.f); }
static Scr make(Rng& r,int style=-1) { Scr s; s.nx=r.ri(1,5); s.ny=r.ri(1,5); s.n=r.ri(2,12); if (style<0&&r.coin(0.04)) { s.nx=r.ri(15,40); s.ny=r.ri(15,40); } else if (r.coin(0.04)) s.n=r.ri(600,3000); s.dt=r.logu(1e-14,1e-11); s.t0=r.uni(-1,1)*1e-9; s.tilt=r.coin(0.7); s.dtx=r.uni(-1,1)*s.dt; s.dty=r.uni(-1,1)*s.dt; s.O=V3(r.vec(3)); double h=r.logu(1e-4,0.1); V3 a; if (style==0) a=V3(1,0,0); else a=V3(r.dir()); V3 b=V3(r.vec(1)).cross(a); while(b.n()<0.1) b=V3(r.vec(1)).cross(a); b=b.unit(); if (style==0) b=V3(0,1,0); s.dx=a*h; s.dy=b*(h*r.uni(0.5,2)); s.nrm=a.cross(b)*-1; s.nrm=s.nrm.unit(); s.f.resize((size_t)s.nx*s.ny*s.n*6); int zero=r.coin(0.3)?r.ri(0,s.nx*s.ny-1):-1; for (int c=0;c<s.nx*s.ny;c++) for (int k=0;k<6*s.n;k++) s.f[6*s.n*c+k]=(zero>=0&&c!=zero)?0:r.uni(-1,1)*(k%6<3?1e4:3e-5); return s; }
struct Out { V3 E,B; LD aE=0,aB=0,slope=0; bool edge=false; int cells=0; };
// discretised Kirchhoff integral of fields travelling along -normal; x and t relative to the new placement
static Out kirchhoff(const Scr& s,LD t,V3 x) { Out o; LD dA=s.dx.n()*s.dy.n()/(4*pi); V3 n=s.nrm.unit();
    for (int i=0;i<s.nx;i++) for (int j=0;j<s.ny;j++) { V3 R=x-s.cell(i,j); LD d=R.n(); LD u=(t-d/cc-s.ct(i,j))/s.dt; LD lim=1e-6L; if (fabsl(u)<lim||fabsl(u-(s.n-1))<lim) o.edge=true; if (u<0||u>s.n-1) continue; int k=(int)floorl(u); if (k>s.n-2) k=s.n-2; LD f=u-k; const double* q=&s.f[(size_t)(i*s.ny+j)*s.n*6]; o.cells++;
        auto smp=[&](int a,int w)->V3 { V3 v(q[6*a+w],q[6*a+w+1],q[6*a+w+2]); return v-n*v.dot(n); }; auto der=[&](int a,int w)->V3 { int lo=a==0?0:a-1,hi=a==s.n-1?a:a+1; return (smp(hi,w)-smp(lo,w))/((LD)s.dt*(hi-lo)); };
        LD c1=-R.dot(n)/(d*d*d), c2=(1-R.dot(n)/d)/(d*cc); for (int w=0;w<6;w+=3) { V3 a=smp(k,w)*(1-f)+smp(k+1,w)*f, b=der(k,w)*(1-f)+der(k+1,w)*f; V3 v=(a*c1+b*c2)*dA; LD m=0; for (int z=0;z<s.n;z++) m=fmaxl(m,(smp(z,w).n()*fabsl(c1)+4*smp(z,w).n()/s.dt*fabsl(c2))*dA); if (w==0) { o.E=o.E+v; o.aE+=m; } else { o.B=o.B+v; o.aB+=m; } } }
    return o; }
static Vector point(Rng& r,const Scr& s,V3& rel) { LD D=(s.dx.n()*s.nx+s.dy.n()*s.ny); rel = s.nrm*(-(LD)r.logu(0.05,50)*D) + s.dx*(s.nx*r.uni(-2,2)) + s.dy*(s.ny*r.uni(-2,2)); return rel.d(); }
static void cmp(Case& c,ElMagField g,const Out& o,double tol,const char* key) { c.nearv(g.E(),o.E.d(),(double)(tol*o.aE)+1e-300,key,"electric field of the source screen"); c.nearv(g.B(),o.B.d(),(double)(tol*o.aB)+1e-300,key,"magnetic field of the source screen"); }

VF_GROUP(kirchhoff,150,1500) {
    Rng& r=c.rng; Scr s=make(r); write(s,"s.h5"); V3 P(r.vec(2)); double T=r.coin(0.3)?0:r.uni(-1,1)*1e-9; SourceScreen S("s.h5",P.d(),T); GeneralField* F=&S; c.check(F->is_external(),"C14:external","source screen is not an external field");
    bool hit=false; for (int k=0;k<20;k++) { V3 rel; point(r,s,rel); int i=r.ri(0,s.nx-1),j=r.ri(0,s.ny-1); LD tl=(rel-s.cell(i,j)).n()/cc+s.ct(i,j)+s.dt*r.uni(-1,s.n); Vector X=(P+rel).d(); double t=(double)(tl+T); Out o=kirchhoff(s,(LD)t-T,V3(X)-P); if (o.edge) { c.count("edge_skipped"); continue; } ElMagField g=F->Field(t,X); double tol=1e-10+1e-14*(fabs(t)+fabs(T)+10/3e8)/s.dt; cmp(c,g,o,tol,"C14:kirchhoff"); c.count("points"); if (o.cells) { c.count("contributing_cells",o.cells); hit=true; } else c.check(g.isNull(),"C14:causal","field without a contributing sample"); }
    // before any light can arrive, and long after
    for (int k=0;k<4;k++) { V3 rel; point(r,s,rel); LD a=1e30,b=-1e30; for (int i=0;i<s.nx;i++) for (int j=0;j<s.ny;j++) { LD u=(rel-s.cell(i,j)).n()/cc+s.ct(i,j); a=fminl(a,u); b=fmaxl(b,u+(s.n-1)*(LD)s.dt); } Vector X=(P+rel).d(); LD m=1e-15L*(fabsl((LD)T)+1e-6)+1e-4L*s.dt; c.check(F->Field((double)(a+T-m-r.logu(1e-15,1)),X).isNull(),"C14:causal","field before light can arrive"); c.check(F->Field((double)(b+T+m+r.logu(1e-15,1)),X).isNull(),"C14:ends","field after the recorded traces have passed"); c.count("causality"); }
    // energy through the screen, positive against the normal
    LD en=0,sc=0; V3 n=s.nrm.unit(); for (int i=0;i<s.nx;i++) for (int j=0;j<s.ny;j++) { V3 Sp; LD ab=0; for (int k=0;k<s.n;k++) { const double* q=&s.f[(size_t)((i*s.ny+j)*s.n+k)*6]; V3 E(q[0],q[1],q[2]),B(q[3],q[4],q[5]); E=E-n*E.dot(n); B=B-n*B.dot(n); V3 p=E.cross(B)/mu0*s.dt; Sp=Sp+p; ab+=E.n()*B.n()/mu0*s.dt; } en-=Sp.dot(n)*s.dx.n()*s.dy.n(); sc+=ab*s.dx.n()*s.dy.n(); } c.near(S.totalEnergy(),(double)en,(double)(1e-9*sc),"C14:energy","energy through the screen");
    if (hit&&s.nx*s.ny>1) c.nontrivial(r.s); c.sample("%dx%d cells, %d samples of %g s, placed at (%.2f %.2f %.2f), t0 %g, normal (%.2f %.2f %.2f)",s.nx,s.ny,s.n,s.dt,(double)P.x,(double)P.y,(double)P.z,T,(double)n.x,(double)n.y,(double)n.z);
}
VF_GROUP(covariance,80,800) {   // a rotated recording radiates the rotated field; twice the recording twice the field
    Rng& r=c.rng; Scr s=make(r,r.coin()?0:1); write(s,"a.h5"); V3 e1(r.dir()),e2=V3(r.vec(1)).cross(e1); while(e2.n()<0.1) e2=V3(r.vec(1)).cross(e1); e2=e2.unit(); V3 e3=e1.cross(e2); auto rot=[&](V3 v){ return e1*v.x+e2*v.y+e3*v.z; }; Scr q=s; q.O=V3(r.vec(1)); q.t0=5e-9; q.nrm=rot(s.nrm); q.dx=rot(s.dx); q.dy=rot(s.dy); double k=r.uni(-3,3); for (size_t i=0;i<s.f.size();i+=3) { V3 v=rot(V3(s.f[i],s.f[i+1],s.f[i+2]))*k; q.f[i]=v.x; q.f[i+1]=v.y; q.f[i+2]=v.z; } write(q,"b.h5");
    Vector P1=r.vec(1),P2=r.vec(1); double T2=r.uni(-1,1)*1e-9; SourceScreen A("a.h5",P1,0),B("b.h5",P2,T2); GeneralField *a=&A,*b=&B;
    for (int m=0;m<12;m++) { V3 rel; point(r,s,rel); int i=r.ri(0,s.nx-1),j=r.ri(0,s.ny-1); LD t=(rel-s.cell(i,j)).n()/cc+s.ct(i,j)+s.dt*r.uni(0,s.n-1); Out o=kirchhoff(s,t,rel); if (o.edge) continue; ElMagField f=a->Field((double)t,(V3(P1)+rel).d()), g=b->Field((double)(t+T2),(V3(P2)+rot(rel)).d()); o.E=rot(V3(f.E()))*k; o.B=rot(V3(f.B()))*k; o.aE*=fabs(k)+1e-3; o.aB*=fabs(k)+1e-3; cmp(c,g,o,1e-10+1e-13*(fabs((double)t)+2e-9+10/3e8)/s.dt,"C14:covariance"); c.count("rotated_points"); } c.nontrivial(r.s);
}
VF_GROUP(record,40,400) {      // what the screen observer records the source screen reads
    Rng& r=c.rng; Lattice L; TestField* tf=new TestField(); tf->kind=0; tf->E0=r.vec(1e3); tf->B0=r.vec(1e-5); tf->wE=r.uni(-1,1)*1e11; tf->wB=r.uni(-1,1)*1e11; tf->kE=r.vec(30); tf->kB=r.vec(30); L.addElement(tf); Scr s=make(r); s.tilt=true; Vector O=s.O.d(); ScreenObserver<Lattice> ob("r.h5",O,s.dx.d(),s.dy.d(),s.nx,s.ny,s.t0,s.dt,s.dtx,s.dty,s.n); ob.setSource(&L); ob.integrate(); ob.generateOutput(); for (int i=0;i<s.nx;i++) for (int j=0;j<s.ny;j++) for (int k=0;k<s.n;k++) { ElMagField f=ob.getField(i,j,k); double* q=&s.f[(size_t)((i*s.ny+j)*s.n+k)*6]; q[0]=f.E().x;q[1]=f.E().y;q[2]=f.E().z;q[3]=f.B().x;q[4]=f.B().y;q[5]=f.B().z; } s.nrm=s.dx.cross(s.dy).unit()*-1; SourceScreen S("r.h5",O,s.t0); GeneralField* F=&S;
    for (int m=0;m<10;m++) { V3 rel; point(r,s,rel); LD t=rel.n()/cc+s.dt*r.uni(0,s.n-1); double tt=(double)(t+s.t0); Vector X=(V3(O)+rel).d(); Out o=kirchhoff(s,(LD)tt-s.t0,V3(X)-V3(O)); if (o.edge) continue; cmp(c,F->Field(tt,X),o,1e-9+1e-13*(fabs(tt)+2e-9+10/3e8)/s.dt,"C14:recorded"); c.count("recorded_points"); } c.nontrivial(r.s);
}
VF_GROUP(beam,3,24) {         // a wide paraxial pulse passes on unchanged, in any direction
    Rng& r=c.rng; double lam=1e-3,w=5e-3,tau=3e-12,h=0.5e-3; int N=51; V3 f(r.dir()); V3 a=V3(r.vec(1)).cross(f); while(a.n()<0.2) a=V3(r.vec(1)).cross(f); a=a.unit(); V3 b=a.cross(f)*-1; // a x b = f
    bool flip=r.coin(); Scr s; s.nx=N; s.ny=N; s.dx=a*h; s.dy=b*h; if (flip) { V3 x=s.dx; s.dx=s.dy; s.dy=x*-1; } s.nrm=f*-1; s.dt=lam/3e8/24; s.n=200; s.t0=0; s.tilt=false; s.dtx=s.dty=0; s.O=V3(); V3 pol=(a*cos(0.7)+b*sin(0.7)); double om=2*M_PI*3e8/lam*0.999308193, tc=0.5*s.n*s.dt; s.f.resize((size_t)N*N*s.n*6);
    for (int i=0;i<N;i++) for (int j=0;j<N;j++) { V3 p=s.cell(i,j); double g=exp(-(double)p.n2()/w/w); for (int k=0;k<s.n;k++) { double t=k*s.dt-tc; LD v=g*exp(-t*t/tau/tau)*cos(om*t)*1e5; V3 E=pol*v, B=f.cross(pol)*(v/cc); double* q=&s.f[(size_t)((i*N+j)*s.n+k)*6]; q[0]=E.x;q[1]=E.y;q[2]=E.z;q[3]=B.x;q[4]=B.y;q[5]=B.z; } } write(s,"w.h5"); V3 P(r.vec(1)); SourceScreen S("w.h5",P.d(),1e-9); GeneralField* F=&S; double d=r.uni(0.015,0.03); std::complex<double> q0(1.0,-d*lam/(M_PI*w*w)); double eE=0,eB=0; LD en=0; for (int i=0;i<N*N;i++) for (int k=0;k<s.n;k++) { const double* q=&s.f[(size_t)(i*s.n+k)*6]; en+=V3(q[0],q[1],q[2]).cross(V3(q[3],q[4],q[5])).dot(f)/mu0*s.dt*h*h; } c.near(S.totalEnergy(),(double)en,1e-8*(double)en,"C14:beam-energy","energy of the pulse");
    for (int k=0;k<80;k++) { double t=(k-40)*tau/20; std::complex<double> u=std::exp(std::complex<double>(0,1)*om*t)/q0*exp(-t*t/tau/tau)*1e5; V3 E=pol*u.real(), B=f.cross(pol)*(u.real()/cc); ElMagField g=F->Field(1e-9+tc+t+d/(double)cc,(P+f*d).d()); eE=fmax(eE,(double)(V3(g.E())-E).n()); eB=fmax(eB,(double)(V3(g.B())-B).n()); } c.check(eE<0.08e5&&eB<0.08e5/3e8,"C14:beam","pulse distorted by up to %g of its peak (B: %g) after %g m",eE/1e5,eB*3e8/1e5,d); c.count("pulses"); c.nontrivial(r.s); c.sample("pulse along (%.2f %.2f %.2f), largest deviation %.3g of the peak",(double)f.x,(double)f.y,(double)f.z,eE/1e5); unlink("w.h5"); unlink("SourceScreenTraces_DEBUG.h5"); unlink("SourceScreenTimeDerivative_DEBUG.h5");
}
VF_GROUP(hostile,100,1000) {
    Rng& r=c.rng; Scr s=make(r); std::string fn="h"+std::to_string(c.idx)+".h5"; write(s,fn.c_str()); hid_t f=H5Fopen(fn.c_str(),H5F_ACC_RDWR,H5P_DEFAULT); std::string what; auto att=[&](const char* d,const char* n,bool del,int v){ hid_t h=H5Dopen2(f,d,H5P_DEFAULT); if (del) H5Adelete(h,n); else { hid_t a=H5Aopen_name(h,n); H5Awrite(a,H5T_NATIVE_INT,&v); H5Aclose(a); } H5Dclose(h); }; 
    switch(r.ri(0,8)) { case 0: H5Ldelete(f,"Screen",H5P_DEFAULT); what="no Screen"; break; case 1: H5Ldelete(f,"ElMagField",H5P_DEFAULT); what="no fields"; break; case 2: { const char* n=r.pick(std::vector<const char*>{"Nx","Ny","NOTS","dt"}); att("Screen",n,true,0); what=std::string("no ")+n; break; } case 3: att("Screen","Nx",false,s.nx+r.pick(std::vector<int>{-1,1,1000})); what="wrong Nx"; break; case 4: att("Screen","Ny",false,s.ny+r.pick(std::vector<int>{-1,1,1000})); what="wrong Ny"; break; case 5: att("Screen","NOTS",false,s.n+r.pick(std::vector<int>{-1,1,1000})); what="wrong NOTS"; break;
        case 6: { H5Ldelete(f,"Screen",H5P_DEFAULT); hsize_t d[2]={(hsize_t)r.ri(5,50),3}; hid_t sp=H5Screate_simple(2,d,NULL),h=H5Dcreate2(f,"Screen",H5T_NATIVE_DOUBLE,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); std::vector<double> v(d[0]*3,1.0); H5Dwrite(h,H5T_NATIVE_DOUBLE,H5S_ALL,H5S_ALL,H5P_DEFAULT,v.data()); hid_t as=H5Screate(H5S_SCALAR); int iv[3]={s.nx,s.ny,s.n}; const char* nm[3]={"Nx","Ny","NOTS"}; for (int k=0;k<3;k++) { hid_t a=H5Acreate2(h,nm[k],H5T_NATIVE_INT,as,H5P_DEFAULT,H5P_DEFAULT); H5Awrite(a,H5T_NATIVE_INT,&iv[k]); H5Aclose(a); } hid_t a=H5Acreate2(h,"dt",H5T_NATIVE_DOUBLE,as,H5P_DEFAULT,H5P_DEFAULT); H5Awrite(a,H5T_NATIVE_DOUBLE,&s.dt); H5Aclose(a); H5Sclose(as); H5Sclose(sp); H5Dclose(h); what="wrong shape of Screen"; break; }
        case 7: { H5Ldelete(f,"ElMagField",H5P_DEFAULT); hsize_t d[3]={(hsize_t)s.nx,(hsize_t)s.ny,(hsize_t)s.n*6}; hid_t sp=H5Screate_simple(3,d,NULL),h=H5Dcreate2(f,"ElMagField",H5T_NATIVE_DOUBLE,sp,H5P_DEFAULT,H5P_DEFAULT,H5P_DEFAULT); H5Sclose(sp); H5Dclose(h); what="wrong shape of the fields"; break; } case 8: what="no file"; fn="nofile.h5"; break; }
    H5Fclose(f); c.check(throws([&]{SourceScreen S(fn.c_str(),VectorZero,0);}),("C14:reject:"+what).c_str(),"file with %s accepted",what.c_str()); c.count("rejected_files"); c.nontrivial(what+std::to_string(s.nx*100+s.ny*10)); unlink(("h"+std::to_string(c.idx)+".h5").c_str()); c.sample("%s",what.c_str());
}
int main(int a,char**b) { return vf::main(a,b); }
