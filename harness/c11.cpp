// C11: vector, field and trace arithmetic
#include "ref.h"
using namespace vf;

struct LV { LD x,y,z; };
static V3 l(const Vector& v) { return V3(v); }
static double mag(const Vector& v) { return fmax(fabs(v.x),fmax(fabs(v.y),fabs(v.z))); }
static Vector rv(Rng& r) {      // hostile mixture of magnitudes
    double s=r.logu(1e-12,1e12); Vector v=r.vec(s);
    int w=r.ri(0,9); if (w==0) v.x=0; if (w==1) v.y=0; if (w==2) { v.x=0; v.z=0; } if (w==3) return Vector(0,0,0); if (w==4) v.z*=1e-9; return v; }
static double rf(Rng& r) { return r.sgn()*r.logu(1e-9,1e9); }
static bool clv(const Vector&,const Vector&);
static bool eqv(const Vector&a,const Vector&b) { return a.x==b.x && a.y==b.y && a.z==b.z; }

VF_GROUP(vectors,400,3000) {
    Rng& r=c.rng; const Vector A=rv(r),B=rv(r); double f=rf(r); const double eps=4e-16;
    Vector a=A,b=B; double sc=mag(A)+mag(B);
    Vector s=a.operator+(b), d=a.operator-(b), m=a.operator*(f), q=a.operator/(f), n=-a;
    c.nearv(s,(l(A)+l(B)).d(),eps*sc*2,"C11:vec-sum","a+b"); c.nearv(d,(l(A)-l(B)).d(),eps*sc*2,"C11:vec-diff","a-b");
    c.nearv(m,(l(A)*f).d(),eps*fabs(f)*mag(A)*2,"C11:vec-scale","a*f"); c.nearv(q,(l(A)/f).d(),eps*mag(A)/fabs(f)*2,"C11:vec-div","a/f"); c.nearv(n,(l(A)*-1).d(),0,"C11:vec-neg","-a");
    c.check(eqv(a,A)&&eqv(b,B),"C11:operand-changed","binary operator changed its operand");
    Vector t=A; Vector* rt=&(t+=b); c.check(rt==&t && clv(t,s),"C11:inplace","+= differs from +"); t=A; rt=&(t-=b); c.check(rt==&t && clv(t,d),"C11:inplace","-= differs from -");
    t=A; rt=&(t*=f); c.check(rt==&t&&clv(t,m),"C11:inplace","*= differs from *"); t=A; rt=&(t/=f); c.check(rt==&t&&clv(t,q),"C11:inplace","/= differs from /");
    t=A; t+=t; c.nearv(t,(l(A)*2).d(),0,"C11:alias","a+=a"); t=A; t-=t; c.nearv(t,Vector(0,0,0),0,"C11:alias","a-=a");
    double dp=dot(a,b); c.near(dp,(double)l(A).dot(l(B)),1e-15*mag(A)*mag(B)*4,"C11:dot","dot product");
    Vector x=cross(a,b); c.nearv(x,l(A).cross(l(B)).d(),1e-15*mag(A)*mag(B)*4,"C11:cross","cross product");
    c.check(eqv(a,A)&&eqv(b,B),"C11:operand-changed","product changed its operand");
    c.near(a.norm(),(double)l(A).n(),1e-15*mag(A)*2,"C11:norm","norm"); c.near(a.abs2nd(),(double)l(A).n2(),1e-15*mag(A)*mag(A)*4,"C11:norm2","squared norm");
    Vector sq=a.square(); c.nearv(sq,Vector(A.x*A.x,A.y*A.y,A.z*A.z),1e-15*mag(A)*mag(A),"C11:square","element-wise square");
    Vector ro=sq.root(); c.nearv(ro,Vector(fabs(A.x),fabs(A.y),fabs(A.z)),1e-15*mag(A)*2,"C11:root","element-wise root");
    c.check(eqv(a,A),"C11:operand-changed","unary function changed its operand");
    c.check(a.isNull()==(A.x==0&&A.y==0&&A.z==0),"C11:isnull","isNull of (%g,%g,%g)",A.x,A.y,A.z);
    Vector oz(0,0,0); int w=r.ri(0,2); (w==0?oz.x:w==1?oz.y:oz.z)=1e-300; c.check(!oz.isNull(),"C11:isnull","isNull with one tiny component");
    if (mag(A)>0) { Vector u=A; u.normalize(); c.nearv(u,l(A).unit().d(),2e-15,"C11:normalize","unit vector"); }
    // components in another right-handed frame
    Vector e=r.dir(); V3 ez(e); V3 h=fabs(e.x)<0.7?V3(1,0,0):V3(0,1,0); V3 ex=h.cross(ez).unit(), ey=ez.cross(ex);
    Vector tr=A; tr.transform(ex.d(),ey.d(),ez.d()); c.nearv(tr,V3(l(A).dot(ex),l(A).dot(ey),l(A).dot(ez)).d(),2e-15*mag(A)*2,"C11:vec-transform","components in another frame");
    c.near(tr.norm(),a.norm(),4e-15*mag(A),"C11:vec-transform","length after transformation");
    Vector back=ex.d()*tr.x+ey.d()*tr.y+ez.d()*tr.z; c.nearv(back,A,1e-14*mag(A),"C11:vec-transform","recomposition");
    c.count("vector_ops",20); c.nontrivial(r.s);
}

static void eqf(Case& c,ElMagField f,const V3& E,const V3& B,double tE,double tB,const char* key,const char* w) { c.nearv(f.E(),E.d(),tE,key,w); c.nearv(f.B(),B.d(),tB,key,w); }
static bool same(ElMagField a,ElMagField b) { return eqv(a.E(),b.E()) && eqv(a.B(),b.B()); }
static bool clv(const Vector&a,const Vector&b) { return fabs(a.x-b.x)<=1e-15*(fabs(b.x))+1e-300 && fabs(a.y-b.y)<=1e-15*(fabs(b.y))+1e-300 && fabs(a.z-b.z)<=1e-15*(fabs(b.z))+1e-300; }
static bool close(ElMagField a,ElMagField b) { return clv(a.E(),b.E()) && clv(a.B(),b.B()); }

VF_GROUP(fields,400,3000) {
    Rng& r=c.rng; Vector E1=rv(r),B1=rv(r),E2=rv(r),B2=rv(r); double f=rf(r); const double eps=1e-15;
    ElMagField a(E1,B1), b(E2,B2); const ElMagField a0=a,b0=b; double sE=mag(E1)+mag(E2), sB=mag(B1)+mag(B2);
    c.check(eqv(a.E(),E1)&&eqv(a.B(),B1),"C11:field-ctor","field does not hold its components");
    ElMagField s=a+b,d=a-b,m=a*f,q=a/f;
    eqf(c,s,l(E1)+l(E2),l(B1)+l(B2),eps*sE,eps*sB,"C11:field-sum","f1+f2"); eqf(c,d,l(E1)-l(E2),l(B1)-l(B2),eps*sE,eps*sB,"C11:field-diff","f1-f2");
    eqf(c,m,l(E1)*f,l(B1)*f,eps*mag(E1)*fabs(f),eps*mag(B1)*fabs(f),"C11:field-scale","f*k"); eqf(c,q,l(E1)/f,l(B1)/f,eps*mag(E1)/fabs(f),eps*mag(B1)/fabs(f),"C11:field-div","f/k");
    c.check(same(a,a0)&&same(b,b0),"C11:operand-changed","field operator changed its operand");
    ElMagField t=a; ElMagField* p=&(t+=b); c.check(p==&t&&close(t,s),"C11:field-inplace","+="); t=a; p=&(t-=b); c.check(p==&t&&close(t,d),"C11:field-inplace","-=");
    t=a; p=&(t*=f); c.check(p==&t&&close(t,m),"C11:field-inplace","*="); t=a; p=&(t/=f); c.check(p==&t&&close(t,q),"C11:field-inplace","/=");
    V3 S=l(E1).cross(l(B1))/mu0; c.nearv(a.Poynting(),S.d(),4e-15*mag(E1)*mag(B1)/1.2e-6+1e-9*(double)S.n(),"C11:poynting","Poynting vector");
    c.check(a.isNull()==(mag(E1)==0 && mag(B1)==0),"C11:isnull","isNull of a field"); ElMagField onlyE(Vector(0,1e-200,0),VectorZero), onlyB(VectorZero,Vector(0,0,1e-200));
    c.check(!onlyE.isNull()&&!onlyB.isNull(),"C11:isnull","isNull with one component"); t=a; t.Zero(); c.check(t.isNull(),"C11:isnull","Zero() leaves field"); ElMagField n; c.check(n.isNull(),"C11:isnull","default field not zero");
    double tt=r.uni(-1,1); ElMagObs o(tt,E1,B1); c.check(o.Time()==tt&&eqv(o.E(),E1)&&eqv(o.B(),B1)&&same(o.EB(),a),"C11:obs","observation does not hold its components");
    ElMagObs o0; c.check(o0.Time()==0&&o0.EB().isNull(),"C11:obs","default observation not zero");
    c.count("field_ops",16); c.nontrivial(r.s);
}

// ---- traces against a shadow model --------------------------------------------------------
struct Shadow { LD t0,dt; std::vector<EB3> s; };
static EB3 lin(const Shadow& S,LD t) { // linear between samples; zero one sample outside
    LD x=(t-S.t0)/S.dt; LD fl=floorl(x); LD fr=x-fl; EB3 z; long n=S.s.size(); if (x<=-1||x>=n) return z;
    long i=(long)fl; EB3 a,b; if (i>=0&&i<n) a=S.s[i]; if (i+1>=0&&i+1<n) b=S.s[i+1]; return a*(1-fr)+b*fr; }
static double scE(const Shadow& S) { double m=0; for (auto&e:S.s) m=fmax(m,(double)e.E.n()); return m; }
static double scB(const Shadow& S) { double m=0; for (auto&e:S.s) m=fmax(m,(double)e.B.n()); return m; }
static void cmp(Case& c,FieldTrace& T,const Shadow& S,const char* key,const char* w,double rel=1e-13,double mE=0,double mB=0) {
    if (!c.check(T.get_N()==S.s.size(),key,"%s: trace has %zu samples, expected %zu",w,T.get_N(),S.s.size())) return;
    c.check((LD)T.get_t0()==S.t0 && (LD)T.get_dt()==S.dt,key,"%s: sampling t0=%.17g dt=%.17g, expected %.17g %.17g",w,T.get_t0(),T.get_dt(),(double)S.t0,(double)S.dt);
    double tE=rel*fmax(scE(S),mE)+1e-290,tB=rel*fmax(scB(S),mB)+1e-290; for (size_t i=0;i<S.s.size();i++) { ElMagField f=T.get_field(i); if (!c.nearv(f.E(),S.s[i].E.d(),tE,key,w)) break; if (!c.nearv(f.B(),S.s[i].B.d(),tB,key,w)) break; c.count("samples_compared"); } }
static FieldTrace* mk(Rng& r,Shadow& S,size_t n,double t0,double dt,double amp) { FieldTrace* T=new FieldTrace(t0,dt,n); S.t0=t0; S.dt=dt; S.s.assign(n,EB3());
    for (size_t i=0;i<n;i++) { Vector E=r.vec(amp),B=r.vec(amp*3e-9); ElMagField f(E,B); if (r.coin()) T->set_field(i,f); else T->add(i,f); S.s[i].E=V3(E); S.s[i].B=V3(B); } return T; }
template<class F> static bool throws(F fn) { try { fn(); } catch (std::exception&) { return true; } return false; }

VF_GROUP(traces,150,1000) {
    Rng& r=c.rng; size_t n=r.coin(0.15)?r.ri(0,3):r.ri(4,60); double dt=r.logu(1e-16,1e-9), t0=r.coin(0.3)?0:r.uni(-1e-7,1e-7), amp=r.logu(1e-6,1e9);
    Shadow S; FieldTrace* T=mk(r,S,n,t0,dt,amp); cmp(c,*T,S,"C11:trace-set","after setting samples",0);
    std::vector<std::pair<FieldTrace*,Shadow>> others; int steps=r.ri(3,12); std::string hist;
    for (int k=0;k<steps;k++) {
        double mE=scE(S), mB=scB(S);
        int op=r.ri(0,9); char tag[8]; snprintf(tag,8,"%d,",op); hist+=tag;
        if (op==0) { double f=r.uni(-3,3); FieldTrace R=(*T)*f; cmp(c,*T,S,"C11:trace-operand","operand of *",1e-13,mE,mB); Shadow Q=S; for (auto&e:Q.s) e=e*f; cmp(c,R,Q,"C11:trace-scale","trace*k"); *T=R; S=Q; }
        else if (op==1) { double f=r.uni(0.2,3)*r.sgn(); FieldTrace R=(*T)/f; Shadow Q=S; for (auto&e:Q.s) e=e*(1.0L/f); cmp(c,R,Q,"C11:trace-div","trace/k"); *T=R; S=Q; }
        else if (op==2||op==3||op==4) { Shadow O; FieldTrace* P=mk(r,O,n,(double)S.t0,(double)S.dt,amp); Shadow Q=S; for (size_t i=0;i<n;i++) Q.s[i]=S.s[i]+O.s[i]*(op==4?-1:1);
            double xE=fmax(mE,scE(O)),xB=fmax(mB,scB(O));
            if (op==2) { FieldTrace R=(*T)+(*P); cmp(c,R,Q,"C11:trace-sum","trace sum",1e-13,xE,xB); cmp(c,*T,S,"C11:trace-operand","operand of +",1e-13,mE,mB); *T=R; }
            else if (op==3) { FieldTrace& R=((*T)+=(*P)); c.check(&R==T,"C11:trace-inplace","+= returns another object"); cmp(c,*T,Q,"C11:trace-inplace","+=",1e-13,xE,xB); }
            else { FieldTrace R=(*T)-(*P); cmp(c,R,Q,"C11:trace-diff","trace difference",1e-13,xE,xB); *T=R; }
            cmp(c,*P,O,"C11:trace-operand","right operand",0); S=Q; 
            // mismatching operands must be rejected and leave the trace alone
            FieldTrace b1((double)S.t0,(double)S.dt,n+1+r.ri(0,3)), b2((double)S.t0+(double)S.dt,(double)S.dt,n), b3((double)S.t0,(double)S.dt*1.5,n);
            FieldTrace* bad[3]={&b1,&b2,&b3}; for (int j=0;j<3;j++) c.check(throws([&]{ FieldTrace X=(*T)+(*bad[j]); }) && throws([&]{ FieldTrace X=(*T)-(*bad[j]); }) && throws([&]{ (*T)+=(*bad[j]); }),"C11:trace-mismatch","combining traces with mismatching %s was not rejected",j==0?"size":j==1?"start time":"time step");
            c.check(throws([&]{ *T=b1; }),"C11:trace-mismatch","assigning a trace of another size was not rejected"); cmp(c,*T,S,"C11:trace-mismatch","trace after rejected operation",1e-13,xE,xB); c.count("rejections",10); delete P; }
        else if (op==5) { std::vector<ElMagField> buf(n+2); ElMagField guard(Vector(7,7,7),Vector(8,8,8)); buf[n]=guard; T->get_buffer(buf.data(),n); c.check(same(buf[n],guard),"C11:trace-buffer","buffer overrun");
            for (size_t i=0;i<n;i++) c.check(same(buf[i],T->get_field(i)),"C11:trace-buffer","buffered sample differs");
            c.check(throws([&]{ T->get_buffer(buf.data(),n+1); })&&throws([&]{ T->set_buffer(buf.data(),n+1); }),"C11:trace-mismatch","wrong buffer size accepted");
            for (size_t i=0;i<n;i++) { Vector E=r.vec(amp),B=r.vec(amp*3e-9); buf[i]=ElMagField(E,B); S.s[i].E=V3(E); S.s[i].B=V3(B); } T->set_buffer(buf.data(),n); cmp(c,*T,S,"C11:trace-buffer","after set_buffer",0); }
        else if (op==6) { Vector e=r.dir(); V3 ez(e); V3 h=fabs(e.x)<0.7?V3(1,0,0):V3(0,1,0); V3 ex=h.cross(ez).unit(), ey=ez.cross(ex); T->transform(ex.d(),ey.d(),ez.d());
            for (auto&q:S.s) { q.E=V3(q.E.dot(ex),q.E.dot(ey),q.E.dot(ez)); q.B=V3(q.B.dot(ex),q.B.dot(ey),q.B.dot(ez)); } cmp(c,*T,S,"C11:trace-transform","transformed trace"); }
        else if (op==7) { Vector nn=r.dir(); V3 n3(nn); T->cancel_long_fields(nn*r.logu(0.01,100)); for (auto&q:S.s) { q.E=q.E-n3*q.E.dot(n3); q.B=q.B-n3*q.B.dot(n3); } cmp(c,*T,S,"C11:trace-transverse","cancel_long_fields",1e-13,mE,mB);
            }
        else if (op==8) { double nt=r.uni(-1e-8,1e-8); T->set_t0(nt); S.t0=nt; }
        else if (n>0) { size_t i=r.ri(0,n-1); Vector E=r.vec(amp),B=r.vec(amp*3e-9); T->add(i,ElMagField(E,B)); S.s[i].E=S.s[i].E+V3(E); S.s[i].B=S.s[i].B+V3(B); }
        cmp(c,*T,S,"C11:trace-state","state after operation",1e-12,mE,mB);
        // re-sync (keeps rounding from accumulating)
        for (size_t i=0;i<n && i<T->get_N();i++) { S.s[i].E=V3(T->get_field(i).E()); S.s[i].B=V3(T->get_field(i).B()); }
    }
    // interpolation
    double tE=scE(S),tB=scB(S); double trel=2e-16*(fabs((double)S.t0)/dt+n)*8+1e-14;
    for (int k=0;k<40;k++) { LD t; int w=r.ri(0,7); if (w==0) t=S.t0+S.dt*r.ri(-2,(int)n+1); else if (w==1) t=S.t0-S.dt*r.u(); else if (w==2) t=S.t0+S.dt*((LD)n-1+r.u()); else if (w==3) t=S.t0-S.dt*r.logu(1,1e6); else if (w==4) t=S.t0+S.dt*(n+r.logu(1,1e6)); else t=S.t0+S.dt*r.uni(0,n);
        double td=(double)t; EB3 e=lin(S,td); ElMagField f=T->get_field(td); c.nearv(f.E(),e.E.d(),tE*trel+1e-290,"C11:interp","E at a time"); c.nearv(f.B(),e.B.d(),tB*trel+1e-290,"C11:interp","B at a time"); c.count("interpolations"); }
    for (size_t i=0;i<n;i++) { c.near(T->get_time(i),(double)(S.t0+S.dt*i),2e-15*(fabs((double)S.t0)+dt*n),"C11:time","sample time"); }
    if (n>0) { c.near(T->get_last_time(),(double)(S.t0+S.dt*(n-1)),2e-15*(fabs((double)S.t0)+dt*n),"C11:time","last sample time"); } else c.check(T->get_last_time()==(double)S.t0,"C11:time","last time of an empty trace");
    c.near(T->get_center_time(),(double)(S.t0+0.5L*S.dt*n),2e-15*(fabs((double)S.t0)+dt*n),"C11:time","center time");
    ElMagField z; c.check(throws([&]{T->get_time(n);})&&throws([&]{T->get_field((size_t)n);})&&throws([&]{T->set_field(n,z);})&&throws([&]{T->add(n,z);})&&throws([&]{T->get_field((size_t)-1);})&&throws([&]{T->add((size_t)-1,z);}),"C11:trace-range","out-of-range sample access was not rejected");
    // far away times
    for (double ft: {1e3,-1e3,1e300,-1e300}) c.check(T->get_field(ft).isNull(),"C11:far-time","field at time %g is not zero",ft);
    // Poynting, derivative
    V3 P; for (auto&q:S.s) P=P+q.E.cross(q.B)/mu0*S.dt; c.nearv(T->Poynting(),P.d(),1e-8*tE*tB/1.25e-6*dt*(n+1)+1e-290,"C11:trace-poynting","time integrated Poynting vector");
    if (n>=2) { FieldTrace* D=T->derivative(); Shadow Q=S; for (size_t i=0;i<n;i++) { size_t a=i==0?0:i-1,b=i==n-1?n-1:i+1; Q.s[i]=(S.s[b]+S.s[a]*-1)*(1.0L/(S.dt*(b-a))); } cmp(c,*D,Q,"C11:derivative","derivative",1e-13,tE/dt,tB/dt); cmp(c,*T,S,"C11:trace-operand","trace after derivative()",0); delete D; }
    else { try { FieldTrace* D=T->derivative(); for (size_t i=0;i<n;i++) c.check(D->get_field(i).isNull(),"C11:derivative","derivative of a single sample"); delete D; } catch (std::exception&) { c.count("rejections"); } }
    { Shadow O; FieldTrace* P=mk(r,O,n,(double)S.t0+dt*r.uni(-9,9),dt*r.logu(0.1,10),amp); FieldTrace& R=(*P=*T); c.check(&R==P,"C11:assign","assignment returns another object"); cmp(c,*P,S,"C11:assign","trace assigned over one with other times",0); delete P; }
    FieldTrace C(T); cmp(c,C,S,"C11:copy","copy",0); if (n>0) { C.set_field((size_t)0,z); cmp(c,*T,S,"C11:copy","original after changing the copy",0); }
    // retardation, also of purely electric or magnetic traces
    int pure = r.ri(0,3)==0 ? r.ri(1,2) : 0;
    if (pure) { for (size_t i=0;i<n;i++) { V3& q = pure==1 ? S.s[i].B : S.s[i].E; q=V3(); T->set_field(i,ElMagField(S.s[i].E.d(),S.s[i].B.d())); S.s[i].E=V3(T->get_field(i).E()); S.s[i].B=V3(T->get_field(i).B()); } (pure==1?tB:tE)=0; }
    for (int k=0;k<3;k++) { size_t m=r.ri(1,40); double dt2=dt*r.logu(0.3,3), del=r.uni(-1e-8,1e-8); double tt0=(double)S.t0+del+dt*r.uni(-5,(double)n); FieldTrace G(tt0,dt2,m); for (size_t i=0;i<m;i++) G.set_field(i,ElMagField(Vector(1,1,1),Vector(1,1,1)));
        Shadow Q; Q.t0=tt0; Q.dt=dt2; Q.s.resize(m); bool zero=true, clear=false; LD sh=S.dt*1e-6L;
        for (size_t i=0;i<m;i++) { LD t=((LD)tt0+(LD)dt2*i)-(LD)del; Q.s[i]=lin(S,t);
            for (LD u: {t-sh,t,t+sh}) { EB3 q=lin(S,u); if (q.E.n()!=0||q.B.n()!=0) zero=false; }
            if ((tE>1e-150 && Q.s[i].E.n()>1e-6*tE)||(tB>1e-150 && Q.s[i].B.n()>1e-6*tB)) clear=true; }
        bool th=throws([&]{ T->retard(del,&G); });
        // a window without any signal is reported; purely electric or magnetic fields are signal
        if (zero) c.check(th,"C11:retard-zero","retardation to a window without signal was not reported");
        else if (clear) { c.check(!th,"C11:retard","retardation of an overlapping trace was rejected"); if (pure) c.count("pure_retardations"); }
        double rel=4e-16*((fabs((double)S.t0)+fabs(del)+fabs(tt0))/dt+n+m)*8+1e-13;
        cmp(c,G,Q,"C11:retard","retarded trace",rel,tE,tB); cmp(c,*T,S,"C11:trace-operand","source of retard()",0); c.count("retardations"); }
    T->zero(); for (size_t i=0;i<n;i++) c.check(T->get_field(i).isNull(),"C11:zero","zero() leaves field"); c.check(T->get_N()==n&&(LD)T->get_t0()==S.t0,"C11:zero","zero() changes sampling");
    if (n>1) c.nontrivial(r.s); c.sample("N=%zu t0=%g dt=%g operations=%s",n,t0,dt,hist.c_str());
    delete T;
}
int main(int a,char**b) { return vf::main(a,b); }
