// Independent reference models shared by the monitors (long double).
#pragma once
#include "vf.h"
#include "particle.h"
#include "fieldtrace.h"

namespace vf {

// a smooth, time dependent, analytic test field of moderate complexity.
// external to the code under test; deterministic in its parameters.
struct TestField : public GeneralField {
    Vector E0,B0,kE,kB; double wE,wB; Vector gE,gB; int kind; double phE,phB;
    long calls=0;
    TestField() : kind(0),wE(0),wB(0),phE(0),phB(0) {}
    bool is_external() override { return true; }
    static double d(const Vector&a,const Vector&b) { return a.x*b.x+a.y*b.y+a.z*b.z; }
    void eval(double t,Vector X,Vector&E,Vector&B) const {
        double sE=1,sB=1;
        if (kind>=1) { sE=cos(wE*t-d(kE,X)+phE); sB=cos(wB*t-d(kB,X)+phB); }
        if (kind>=2) { double a=d(gE,X); double b=d(gB,X); sE*=1.0/(1.0+a*a); sB*=1.0/(1.0+b*b); }
        E=Vector(E0.x*sE,E0.y*sE,E0.z*sE); B=Vector(B0.x*sB,B0.y*sB,B0.z*sB);
    }
    ElMagField Field(double t,Vector X) override { calls++; Vector E,B; eval(t,X,E,B); return ElMagField(E,B); }
};

// second half of the Vay step: implicit in the end momentum
//   u1 = uh + k (E/c + beta1 x B),  beta1 = u1/gamma(u1)
// solved by bisection on gamma1 (no closed form used)
inline V3 vay_end(const V3& uh, LD k, const V3& E, const V3& B, LD& gamma1) {
    V3 p = uh + E*(k/cc);
    V3 tau = B*k;
    auto u_of = [&](LD g) { V3 t=tau/g; LD t2=t.n2(); return (p + t*p.dot(t) + p.cross(t))/(1+t2); };
    LD lo=1.0L, hi=sqrtl(1.0L+p.n2())*(1.0L+1e-15L)+1e-15L;
    for (int i=0;i<200;i++) { LD m=0.5L*(lo+hi); if (m==lo||m==hi) break; LD f=m*m-1.0L-u_of(m).n2(); if (f>0) hi=m; else lo=m; }
    gamma1=0.5L*(lo+hi);
    return u_of(gamma1);
}
// first half (explicit): uh = u0 + k (E/c + beta0 x B)
inline V3 vay_half(const V3& u0, LD g0, LD k, const V3& E, const V3& B) { return u0 + (E/cc + (u0/g0).cross(B))*k; }

// Lienard-Wiechert field of a point charge q [C] with emission point X, velocity beta, d(beta)/dt
inline EB3 lienard(LD q, const V3& X, const V3& beta, const V3& betap, LD gamma2, const V3& obs) {
    V3 R=obs-X; LD r=R.n(); V3 n=R/r;
    LD k=1.0L-n.dot(beta); 
    V3 E=(n-beta)/(gamma2*k*k*k*r*r) + n.cross((n-beta).cross(betap))/(cc*k*k*k*r);
    E=E*(q/(4.0L*pi*eps0));
    EB3 f; f.E=E; f.B=n.cross(E)/cc; return f;
}
// from the recorded quantities: u=beta gamma, a=d(beta gamma)/dt
inline EB3 lienard_u(LD q,const V3& X,const V3& u,const V3& a,const V3& obs) {
    LD g2=1.0L+u.n2(), g=sqrtl(g2); V3 b=u/g; V3 bp=(a-b*b.dot(a))/g;
    return lienard(q,X,b,bp,g2,obs);
}
} // namespace vf
