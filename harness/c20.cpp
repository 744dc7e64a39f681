// C20: generated distributions and imported bunches
#include "ref.h"
#include "bunch.h"
#include "beam.h"
#include <fstream>
#include <sys/stat.h>
using namespace vf;
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }

// shadow arithmetic over random sequences of operations
VF_GROUP(operations,250,4000) {
    Rng& r=c.rng; int D=r.ri(1,9), N=r.coin(0.1)?1:c.idx%25==3?r.ri(1000,5000):r.ri(1,40); Distribution d(D,N); c.check(d.getDIM()==D&&d.getNOP()==N,"C20:size","dimensions %d x %d reported for %d x %d",d.getDIM(),d.getNOP(),D,N); std::vector<double> A(D*N); d.bufferData(A.data(),D*N); bool in=true,same=true; for (double v:A) { if (!(v>=-1&&v<1)) in=false; if (v!=A[0]) same=false; } c.check(in,"C20:initial","coordinates not in [-1,1)"); if (D*N>1) c.check(!same,"C20:initial","all coordinates are equal");
    int ops=r.ri(1,14); double mx=1; for (int o=0;o<ops;o++) { int k=r.ri(0,8); int a=r.ri(-1,D), b=r.ri(-1,D); double f=r.coin(0.1)?0:r.sgn()*r.logu(1e-3,1e2); 
        if (k==0) { d.scale(a,f); if (a>=0&&a<D) for (int i=0;i<N;i++) A[i*D+a]*=f; }
        else if (k==1||k==2) { d.addCorrelation(a,b,f); if (a>=0&&a<D&&b>=0&&b<D&&a!=b) for (int i=0;i<N;i++) A[i*D+b]+=f*A[i*D+a]; }
        else if (k==3) { int i=r.ri(-1,N); d.setCoordinate(i,a,f); if (i>=0&&i<N&&a>=0&&a<D) A[i*D+a]=f; }
        else if (k==4) { std::vector<double> B(D*N); for (auto& v:B) v=r.gauss(); d.fromBuffer(B.data(),D*N); A=B; }
        else if (k==5) { std::vector<double> B(D*N+8,7.5),C=B; c.check(throws([&]{d.bufferData(B.data(),D*N+1);})&&throws([&]{d.fromBuffer(B.data(),D*N-1);})&&throws([&]{d.fromBuffer(B.data(),D*N+1);})&&throws([&]{d.bufferData(B.data(),0);}),"C20:buffer","wrong buffer size accepted"); c.check(B==C,"C20:buffer","rejected buffer was written"); }
        else if (k==6) { d.generateGaussian(a,fabs(f)); if (a>=0&&a<D) for (int i=0;i<N;i++) { double v=d.getCoordinate(i,a); c.check(fabs(v)<=10*fabs(f),"C20:gauss","Gaussian value %g with sigma %g",v,fabs(f)); if (N>1&&f!=0) c.check(v!=A[i*D+a],"C20:gauss","coordinate not replaced"); A[i*D+a]=v; } }
        else if (k==7) { int i0=r.ri(0,N-1), n=r.coin(0.2)?r.ri(0,N+5):r.ri(0,N-i0); Distribution* s=d.subDist(i0,n); c.check(s->getDIM()==D&&s->getNOP()==n,"C20:subdist","subset has %d x %d instead of %d x %d",s->getDIM(),s->getNOP(),D,n); bool ok=true; for (int i=0;i<n&&i0+i<N;i++) for (int j=0;j<D;j++) if (s->getCoordinate(i,j)!=d.getCoordinate(i0+i,j)) ok=false; c.check(ok,"C20:subdist","subset from %d differs",i0); if (n>0) { s->scale(0,3); s->setCoordinate(0,0,1e9); } delete s; c.count("subsets"); }
        else { c.check(d.getCoordinate(-1,0)==0&&d.getCoordinate(N,0)==0&&d.getCoordinate(0,D)==0&&d.getCoordinate(0,-1)==0,"C20:range","out of range coordinate not 0"); }
        for (double v:A) mx=fmax(mx,fabs(v)); std::vector<double> G(D*N); d.bufferData(G.data(),D*N); for (int i=0;i<N;i++) for (int j=0;j<D;j++) { c.check(fabs(G[i*D+j]-A[i*D+j])<=2e-15*mx*(1+fabs(f)),"C20:operation","operation %d (%d,%d,%g) on %dx%d: coordinate %d of particle %d is %g, expected %g",k,a,b,f,D,N,j,i,G[i*D+j],A[i*D+j]); c.check(d.getCoordinate(i,j)==G[i*D+j],"C20:operation","getCoordinate differs from the buffer"); } A=G; c.count("operations"); }
    // a bunch made of it
    double t0=r.coin()?0:r.uni(-1e-9,1e-9); Vector X=r.vec(10), P=r.dir()*r.logu(0.1,1e4); double q=r.uni(-3,3), m=fabs(q)+0.5; Bunch B(&d,t0,X,P,q,m); c.check(B.getNOP()==N,"C20:bunch","%d particles of %d",B.getNOP(),N); auto at=[&](int i,int j){ return j<D?A[i*D+j]:0.0; };
    for (int i=0;i<B.getNOP();i++) { ChargedParticle* p=B.getParticle(i); c.near(p->getTime(),t0+at(i,6),4e-16*(fabs(t0)+fabs(at(i,6))),"C20:bunch","start time"); c.nearv(p->getPosition(),X+Vector(at(i,0),at(i,1),at(i,2)),1e-15*(20+mx*3),"C20:bunch","position"); c.nearv(p->getMomentum(),P+Vector(at(i,3),at(i,4),at(i,5)),1e-15*(vnorm(P)+mx*3),"C20:bunch","momentum"); c.near(p->getCharge(),q*(double)ec,1e-15*fabs(q)*(double)ec,"C20:bunch","charge"); c.check(p->getNP()==1,"C20:bunch","trajectory not started"); }
    // correlations among its particles, mean values unchanged
    if (r.coin()) for (int i=0;i<N;i++) { ChargedParticle* p=B.getParticle(i); p->initTrajectory(p->getTime(),p->getPosition(),p->getMomentum(),r.vec(1e9)); }
    int nc=r.ri(1,4); struct St { double v[6]; double t; Vector a; }; std::vector<St> S; auto get=[](ChargedParticle* p){ St s; Vector x=p->TrajPoint(0),u=p->TrajMomentum(0); s.v[0]=x.x;s.v[1]=x.y;s.v[2]=x.z;s.v[3]=u.x;s.v[4]=u.y;s.v[5]=u.z; s.t=p->TrajTime(0); s.a=p->TrajAccel(0); return s; }; for (int i=0;i<N;i++) S.push_back(get(B.getParticle(i)));
    for (int k=0;k<nc;k++) { int a=r.ri(-1,6),b=r.ri(-1,6); double f=r.sgn()*r.logu(1e-3,1e2); B.addCorrelation(a,b,f); LD mean=0; double mv=0; if (a>=0&&a<6) { for (auto& s:S) { mean+=s.v[a]; mv=fmax(mv,fabs(s.v[a])); } mean/=N; } bool act=a>=0&&a<6&&b>=0&&b<6&&a!=b; if (act) for (auto& s:S) s.v[b]+=f*(double)((LD)s.v[a]-mean);
        double tol=1e-15*N*(fabs(f)*mv+1); for (int i=0;i<N;i++) { St g=get(B.getParticle(i)); for (int j=0;j<6;j++) { c.near(g.v[j],S[i].v[j],tol+1e-14*fabs(S[i].v[j]),"C20:bunch-correlation","coordinate after a correlation"); } c.check(g.t==S[i].t&&g.a.x==S[i].a.x&&g.a.y==S[i].a.y&&g.a.z==S[i].a.z,"C20:bunch-correlation","time or acceleration changed"); Vector x=B.getParticle(i)->getPosition(),u=B.getParticle(i)->getMomentum(); c.check(x.x==g.v[0]&&x.y==g.v[1]&&x.z==g.v[2]&&u.x==g.v[3]&&u.y==g.v[4]&&u.z==g.v[5]&&B.getParticle(i)->getNP()==1,"C20:bunch-correlation","current state differs from the first trajectory point"); S[i]=g; } if (act) c.count("bunch_correlations"); }
    if (N>1&&ops>1) c.nontrivial(r.s); c.sample("%d operations on %d particles of %d dimensions",ops,N,D);
}
// statistics of the generators; bounds at 7 sigma of the estimators
VF_GROUP(statistics,12,120) {
    Rng& r=c.rng; int D=r.ri(1,7), N=r.ri(2000,20000); Distribution d(D,N), e(D,N); std::vector<double> A(D*N),B(D*N); d.bufferData(A.data(),D*N); e.bufferData(B.data(),D*N); c.check(A!=B,"C20:seed","two distributions are identical"); double s7=7/sqrt((double)N);
    std::vector<double> sig(D,0.0); std::vector<int> ga; for (int j=0;j<D;j++) if (r.coin()) { sig[j]=r.logu(1e-6,1e3); d.generateGaussian(j,sig[j]); c.count("gaussian_axes"); } std::vector<double> G(D*N); d.bufferData(G.data(),D*N);
    std::vector<std::vector<double>> Z(D); for (int j=0;j<D;j++) { double m=0,v=0,k4=0,mn=1e300,mxv=-1e300,sc=sig[j]>0?sig[j]:1; std::set<double> u; for (int i=0;i<N;i++) { double x=G[i*D+j]/sc; u.insert(x); m+=x; mn=fmin(mn,x); mxv=fmax(mxv,x); } m/=N; int lt=0; for (int i=0;i<N;i++) { double x=G[i*D+j]/sc-m; v+=x*x; k4+=x*x*x*x; if (x<0) lt++; Z[j].push_back(x); } v/=N; k4/=N; for (auto& z:Z[j]) z/=sqrt(v); c.check((int)u.size()>N*0.99,"C20:repeat","%zu distinct values of %d",u.size(),N);
        if (sig[j]>0) { c.check(fabs(m)<s7,"C20:gauss-mean","mean %g sigma of %d values",m,N); c.check(fabs(v-1)<s7*1.42,"C20:gauss-width","variance %g sigma^2 of %d values",v,N); c.check(fabs(k4-3)<s7*10,"C20:gauss-shape","4th moment %g of %d values",k4,N); }
        else { bool un=true; for (int i=0;i<N;i++) if (G[i*D+j]!=A[i*D+j]) un=false; c.check(un,"C20:axis","generateGaussian changed another axis"); c.check(fabs(m)<s7*0.58,"C20:uniform-mean","mean %g",m); c.check(fabs(v-1/3.)<s7*0.3,"C20:uniform-width","variance %g",v); c.check(fabs(k4-0.2)<s7*0.27,"C20:uniform-shape","4th moment %g",k4); c.check(mn>=-1&&mxv<1&&mn<-1+40.0/N&&mxv>1-40.0/N,"C20:uniform-range","range %g %g",mn,mxv); }
        c.count("axes"); }
    for (int a=0;a<D;a++) for (int b=0;b<a;b++) { double k=0; for (int i=0;i<N;i++) k+=Z[a][i]*Z[b][i]; c.check(fabs(k/N)<s7,"C20:independence","correlation %g between axes %d and %d",k/N,a,b); } for (int j=0;j<D;j++) { double k=0; for (int i=0;i+1<N;i++) k+=Z[j][i]*Z[j][i+1]; c.check(fabs(k/N)<s7*1.1,"C20:independence","serial correlation %g",k/N); }
    if (N>100) c.nontrivial(r.s);
}
// ---- import -------------------------------------------------------------------
struct Imp { int np; long rows; double charge; std::vector<std::string> cols; std::vector<std::vector<double>> v; std::vector<std::string> type; bool bin; bool par=true, chg=true; std::string text; };
static std::string num(double d) { char b[40]; snprintf(b,sizeof b,"%.17g",d); return b; }
static void put(std::string& s,const void* p,int n) { s.append((const char*)p,n); }
static std::string build(Rng& r,Imp& f) {
    std::string s="SDDS1\n"; if (f.bin) s+="!# little-endian\n"; s+="&description text=\"watch-point phase space\", contents=\"test\", &end\n"; std::vector<std::pair<std::string,std::string>> ps; if (f.par) ps.push_back({"Particles","long"}); if (f.chg) ps.push_back({"Charge","double"}); if (r.coin()) ps.push_back({"pCentral","double"}); if (r.coin()) ps.push_back({"Step","long"}); for (size_t i=ps.size();i>1;i--) std::swap(ps[i-1],ps[r.ri(0,i-1)]);
    for (auto& p:ps) s+="&parameter name="+p.first+", type="+p.second+", &end\n"; for (size_t j=0;j<f.cols.size();j++) s+="&column name="+f.cols[j]+", type="+f.type[j]+", &end\n"; s+=std::string("&data mode=")+(f.bin?"binary":"ascii")+", &end\n"; int32_t rows=f.rows; if (f.bin) put(s,&rows,4); else s+="! page number 1\n";
    for (auto& p:ps) { double d=p.first=="Charge"?f.charge:p.first=="Particles"?f.np:r.ri(1,50); if (f.bin) { if (p.second=="long") { int32_t i=(int32_t)d; put(s,&i,4); } else put(s,&d,8); } else s+=(p.second=="long"?std::to_string((int)d):num(d))+"\n"; } if (!f.bin) s+="\t"+std::to_string(rows)+"\n";
    for (long i=0;i<f.rows;i++) { for (size_t j=0;j<f.cols.size();j++) { double d=f.v[j][i]; if (f.type[j]=="string") { if (f.bin) { int32_t l=3; put(s,&l,4); s+="abc"; } else s+="abc "; continue; } if (f.bin) { if (f.type[j]=="float") { float q=d; put(s,&q,4); } else if (f.type[j]=="long") { int32_t q=(int32_t)d; put(s,&q,4); } else put(s,&d,8); } else s+=(f.type[j]=="long"?std::to_string((int)d):num(d))+" "; } if (!f.bin) s+="\n"; }
    return s; }
static Imp make(Rng& r) { Imp f; f.bin=r.coin(); f.np=r.coin(0.1)?1:r.coin(0.04)?r.ri(1100,6000):r.ri(1,60); f.rows=f.np; f.charge=r.logu(1e-15,1e-8); f.cols={"x","xp","y","yp","t","p"}; if (r.coin()) f.cols.push_back("dt"); if (r.coin()) f.cols.push_back("particleID"); for (size_t i=f.cols.size();i>1;i--) std::swap(f.cols[i-1],f.cols[r.ri(0,i-1)]); double T=r.uni(-1,1)*r.logu(1e-12,1e-6), st=r.logu(1e-15,1e-11), g=r.logu(0.1,1e4);
    for (auto& k:f.cols) { std::vector<double> v; std::string t="double"; for (int i=0;i<f.np;i++) v.push_back(k=="x"||k=="y"?r.gauss()*1e-3:k=="t"?T+st*r.gauss():k=="p"?g*(1+0.01*r.uni(-1,1)):k=="xp"||k=="yp"?r.gauss()*1e-2:k=="particleID"?i+1:r.gauss()*1e-13); if (k=="particleID") t="long"; else if ((k=="x"||k=="yp")&&r.coin(0.2)) { t="float"; for (auto& q:v) q=(float)q; } f.v.push_back(v); f.type.push_back(t); }
    return f; }
static void particles(Case& c,Imp& f,Bunch& b,Vector dir,int n) {
    auto C=[&](const char* k)->std::vector<double>& { for (size_t j=0;j<f.cols.size();j++) if (f.cols[j]==k) return f.v[j]; static std::vector<double> e; return e; }; V3 s=V3(dir).unit(); LD t0=0; for (int i=0;i<n;i++) t0+=C("t")[i]; t0/=n; double tm=0,ts=0; for (int i=0;i<n;i++) { tm=fmax(tm,fabs(C("t")[i])); ts=fmax(ts,fabs((double)(C("t")[i]-t0))); }
    // axes are documented for horizontal directions and those perpendicular to x; otherwise any left-handed orthonormal system
    bool known=fabs(dir.y)<1e-12||fabs(dir.x)<1e-12; V3 ex,ey; bool have=false; V3 bx= fabsl(s.x)>0.8L?V3(0,0,1):V3(1,0,0); bx=bx-s*s.dot(bx); bx=bx.unit(); if (known||n<1) { ex=bx; ey=ex.cross(s); have=true; } 
    if (!have) { // derive e_x from the momentum of a particle with the largest angle: u/p*|1,xp,yp| = e_x xp + e_y yp + s
        int i=0; double best=-1; for (int k=0;k<n;k++) { double a=hypot(C("xp")[k],C("yp")[k]); if (a>best) { best=a; i=k; } } V3 w=V3(b.getParticle(i)->getMomentum())/(LD)C("p")[i]*sqrtl(1+(LD)C("xp")[i]*C("xp")[i]+(LD)C("yp")[i]*C("yp")[i])-s; LD x=C("xp")[i],y=C("yp")[i]; V3 h=w-s*w.dot(s); /* h = ex x + ey y with ey=ex x s  ->  h x s = ey x - ex y */ V3 k=h.cross(s); ex=(h*x-k*y)/(x*x+y*y); ey=ex.cross(s); c.near((double)ex.n(),1,1e-6,"C20:import-axes","length of the transverse axis"); c.count("free_axes"); }
    c.check(b.getNOP()==n,"C20:import-count","%d particles of %d",b.getNOP(),n);
    for (int i=0;i<b.getNOP()&&i<n;i++) { ChargedParticle* p=b.getParticle(i); LD xp=C("xp")[i],yp=C("yp")[i],u=C("p")[i]; V3 d=(ex*xp+ey*yp+s).unit(); LD be=u/sqrtl(1+u*u); V3 X=ex*(LD)C("x")[i]+ey*(LD)C("y")[i]+d*(be*(t0-(LD)C("t")[i])*cc); double e=have?0:1e-6*0.02; c.nearv(p->getPosition(),X.d(),1e-15+4e-16*tm*3e8*(4+n)+e,"C20:import-position","position"); c.nearv(p->getMomentum(),(d*u).d(),(1e-14+e)*(double)u,"C20:import-momentum","momentum"); c.near(p->getTime(),0,0,"C20:import-time","start time"); c.near(p->getCharge(),-f.charge/n,1e-13*f.charge/n,"C20:import-charge","particle charge"); c.count("imported_particles"); }
    c.near(b.getTotalCharge(),-f.charge,1e-12*f.charge,"C20:import-charge","total charge");
    // charge to mass ratio of the electron: moves like one
    if (n>0&&b.getNOP()==n) { TestField E; E.kind=0; E.E0=Vector(1e5,2e5,-1e5); E.B0=Vector(0.1,-0.2,0.3); E.wE=E.wB=0; ChargedParticle* p=b.getParticle(n-1); ChargedParticle q(-1,1); q.initTrajectory(p->getTime(),p->getPosition(),p->getMomentum(),VectorZero); p->InitVay(1e-13,&E); q.InitVay(1e-13,&E); for (int k=0;k<5;k++) { p->StepVay(&E); q.StepVay(&E); } c.nearv(p->getMomentum(),q.getMomentum(),1e-12*vnorm(q.getMomentum()),"C20:import-mass","imported particles do not move like electrons"); }
}
static Vector rdir(Rng& r) { int k=r.ri(0,4); if (k==0) return Vector(0,0,1); if (k==1) return Vector(0,0,-1); if (k==2) { double a=r.uni(0,6.283); return Vector(sin(a),0,cos(a))*r.logu(0.1,10); } if (k==3) { double a=r.uni(0,6.283); return Vector(0,sin(a),cos(a))*r.logu(0.1,10); } return r.dir()*r.logu(0.1,10); }
VF_GROUP(import,200,3000) {
    Rng& r=c.rng; Imp f=make(r); char fn[40]; sprintf(fn,"i%d.sdds",c.idx); { std::ofstream o(fn,std::ios::binary); o<<build(r,f); } Vector d=rdir(r); { Bunch b(fn,d); particles(c,f,b,d,f.np); } unlink(fn); c.count(f.bin?"binary_files":"ascii_files"); if (f.np>1) c.nontrivial(r.s); c.sample("%s file with %d particles along (%g %g %g)",f.bin?"binary":"ascii",f.np,d.x,d.y,d.z);
}
VF_GROUP(import_hostile,200,3000) {
    Rng& r=c.rng; Imp f=make(r); char b0[60]; sprintf(b0,"h%d.sdds",c.idx); std::string fn=b0; int k=c.idx%14; Vector d=rdir(r); std::string text; int want=0; std::string dir;
    auto drop=[&](size_t j){ f.cols.erase(f.cols.begin()+j); f.v.erase(f.v.begin()+j); f.type.erase(f.type.begin()+j); };
    switch (k) {
        case 0: { dir="d"; for (int i=0;i<r.ri(90,200);i++) dir+=(char)('a'+r.ri(0,25)); mkdir(dir.c_str(),0700); fn=dir+"/"+fn; want=f.np; text=build(r,f); break; }    // a long path
        case 1: f.par=false; text=build(r,f); break;
        case 2: f.chg=false; text=build(r,f); break;
        case 3: { size_t j; do j=r.ri(0,f.cols.size()-1); while (f.cols[j]=="dt"||f.cols[j]=="particleID"); drop(j); text=build(r,f); break; }
        case 4: { int n=f.np; f.np=n+r.pick(std::vector<int>{1,2,100,5000,100000}); text=build(r,f); f.np=n; want=-1; break; }            // sampled file: fewer rows than particles
        case 5: { f.rows=0; f.np=r.ri(0,1)?0:f.np; text=build(r,f); break; }
        case 6: { int n=f.np; f.np=-r.ri(1,1000); text=build(r,f); f.np=n; want=-1; break; }
        case 7: { text=build(r,f); size_t e=text.find("&data"); e=text.find('\n',e)+1; text=text.substr(0,e); break; }         // no page
        case 8: { text=build(r,f); size_t e=text.find("&data"); e=text.find('\n',e)+1; text=text.substr(0,e+r.ri(1,(int)(text.size()-e)-1)); want=-2; break; }   // truncated data
        case 9: { text=build(r,f); text=text.substr(0,r.ri(0,(int)text.find("&data"))); break; }      // truncated header
        case 10: { size_t j; do j=r.ri(0,f.cols.size()-1); while (f.cols[j]=="dt"||f.cols[j]=="particleID"); f.type[j]="string"; text=build(r,f); break; }
        case 11: text="this is not an SDDS file\n\x01\x02\n"; if (r.coin()) text=""; break;
        case 12: { int n=f.np; f.np=2147483647; text=build(r,f); f.np=n; want=-1; break; }
        default: fn="does-not-exist.sdds"; break;
    }
    if (k!=13) { std::ofstream o(fn,std::ios::binary); o<<text; }
    fflush(stderr); { Bunch b(fn.c_str(),d); int n=b.getNOP(); c.count("hostile_imports"); for (int i=0;i<n;i++) c.check(b.getParticle(i)&&b.getParticle(i)->getNP()==1,"C20:import-hostile","particle %d not initialised",i);
      if (want==0) c.check(n==0,"C20:import-hostile","kind %d: %d particles from an unusable file",k,n); else if (want==-1) { c.check(n==0||n==f.rows,"C20:import-hostile","kind %d: %d particles, file has %ld rows",k,n,f.rows); if (n>0&&n==f.rows) { particles(c,f,b,d,n); c.count("sampled_imports"); } } else if (want==-2) c.check(n>=0&&n<=f.rows,"C20:import-hostile","%d particles of %ld rows",n,f.rows); else particles(c,f,b,d,want); 
      // the (possibly empty) bunch is usable
      ElMagField g=b.RetardedField(0,Vector(1,2,3)); (void)g; b.getTotalCharge(); b.addCorrelation(0,1,2.0); }
    unlink(fn.c_str()); if (!dir.empty()) rmdir(dir.c_str()); c.nontrivial(r.s);
}
int main(int a,char**b) { return vf::main(a,b); }
