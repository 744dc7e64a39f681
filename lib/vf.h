// Common runtime for the C++ monitors/harnesses of /verif.
// One process runs one "group" of generated cases; every random choice derives
// from (seed, group, case index).  Results go to the file named by --out, since
// the code under test prints freely on stdout.
#pragma once
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <functional>
#include <exception>
#include <sstream>
#include <unistd.h>

#include "vector.h"
#include "fields.h"
#include "global.h"

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

// const-friendly operators for the harnesses (the library's members are non-const)
inline Vector operator*(const Vector& a,double f) { return Vector(a.x*f,a.y*f,a.z*f); }
inline Vector operator+(const Vector& a,const Vector& b) { return Vector(a.x+b.x,a.y+b.y,a.z+b.z); }
inline Vector operator-(const Vector& a,const Vector& b) { return Vector(a.x-b.x,a.y-b.y,a.z-b.z); }

namespace vf {

typedef long double LD;
inline double vnorm(const Vector& a) { return sqrt(a.x*a.x+a.y*a.y+a.z*a.z); }

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed=1) : s(seed) {}
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    double u() { return (double)(next() >> 11) * (1.0/9007199254740992.0); }
    double uni(double a, double b) { return a + (b-a)*u(); }
    double logu(double a, double b) { return exp(uni(log(a),log(b))); }
    double sgn() { return (next()&1) ? 1.0 : -1.0; }
    int ri(int a, int b) { return a + (int)(next() % (uint64_t)(b-a+1)); }   // inclusive
    bool coin(double p=0.5) { return u() < p; }
    double gauss() { double a=u(), b=u(); if (a<1e-300) a=1e-300; return sqrt(-2.0*log(a))*cos(2.0*M_PI*b); }
    Vector dir() {                                    // unit vector, sometimes axis-aligned
        if (coin(0.2)) { double s1=sgn(); int k=ri(0,2); return Vector(k==0?s1:0,k==1?s1:0,k==2?s1:0); }
        for(;;) { double x=uni(-1,1),y=uni(-1,1),z=uni(-1,1); double r=sqrt(x*x+y*y+z*z);
            if (r>0.1 && r<1.0) return Vector(x/r,y/r,z/r); }
    }
    Vector vec(double scale) { return Vector(uni(-scale,scale),uni(-scale,scale),uni(-scale,scale)); }
    template<class T> const T& pick(const std::vector<T>& v) { return v[next()%v.size()]; }
};

inline uint64_t hash_str(const char* p, uint64_t h=1469598103934665603ull) {
    while (*p) { h ^= (unsigned char)*p++; h *= 1099511628211ull; } return h; }
inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a*0x2545F4914F6CDD1Dull ^ (b+0x9E3779B97F4A7C15ull)); r.next(); return r.next(); }

struct State {
    FILE* out=nullptr; std::string group; int idx=-1; uint64_t seed=1; bool thorough=false;
    std::map<std::string,long> counters; std::set<uint64_t> distinct; long cases=0; long evals=0;
    std::map<std::string,int> violcount; std::map<std::string,double> ratio; int samples=0; bool finished=false;
};
inline State& st() { static State s; return s; }

inline void dump_stats(const char* how) {
    State& s = st(); if (!s.out) return;
    fprintf(s.out,"STAT\t%s\t%ld\t%ld\t%ld\n",s.group.c_str(),s.cases,(long)s.distinct.size(),s.evals);
    for (auto& k : s.counters) fprintf(s.out,"CNT\t%s\t%ld\n",k.first.c_str(),k.second);
    for (auto& k : s.ratio) fprintf(s.out,"RATIO\t%s\t%.4g\n",k.first.c_str(),k.second);
    fprintf(s.out,"%s\t%s\t%d\n",how,s.group.c_str(),s.idx);
    fflush(s.out);
}
inline void on_death() { dump_stats("DIED"); }
inline void on_exit_cb() { if (!st().finished) dump_stats("DIED"); }

struct Case {
    Rng rng; int idx; bool failed=false; bool thorough;
    Case(uint64_t s,int i) : rng(s), idx(i), thorough(st().thorough) {}
    // count something observed by the monitor
    void count(const char* name,long n=1) { st().counters[name]+=n; }
    // a distinct, non-trivial case signature
    void nontrivial(uint64_t sig) { st().distinct.insert(sig); }
    void nontrivial(const std::string& s) { st().distinct.insert(hash_str(s.c_str())); }
    void sample(const char* fmt,...) __attribute__((format(printf,2,3))) {
        if (st().samples>=2) return; st().samples++;
        char b[2000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
        for(char*p=b;*p;p++) if(*p=='\n'||*p=='\t') *p=' ';
        fprintf(st().out,"SAMPLE\t%s#%d\t%s\n",st().group.c_str(),idx,b); fflush(st().out);
    }
    bool check(bool ok,const char* key,const char* fmt,...) __attribute__((format(printf,4,5))) {
        st().evals++;
        if (ok) return true;
        failed=true;
        if (st().violcount[key]++ < 3) {
            char b[3000]; va_list ap; va_start(ap,fmt); vsnprintf(b,sizeof b,fmt,ap); va_end(ap);
            for(char*p=b;*p;p++) if(*p=='\n'||*p=='\t') *p=' ';
            fprintf(st().out,"VIOL\t%s\t%s\t%d\t%s\n",key,st().group.c_str(),idx,b); fflush(st().out);
        }
        return false;
    }
    // |got-ref| <= tol (absolute); NaN fails
    void margin(const char* key,double d,double tol) { if (tol>0 && d<=tol) { double& m=st().ratio[key]; if (d/tol>m) m=d/tol; } }
    bool near(double got,double ref,double tol,const char* key,const char* what) {
        bool ok = (fabs(got-ref)<=tol) || (got==ref); margin(key,fabs(got-ref),tol);
        return check(ok,key,"%s: got %.17g, reference %.17g, |diff| %.3g > tol %.3g",what,got,ref,fabs(got-ref),tol);
    }
    bool nearv(Vector got,Vector ref,double tol,const char* key,const char* what) {
        double d = sqrt((got.x-ref.x)*(got.x-ref.x)+(got.y-ref.y)*(got.y-ref.y)+(got.z-ref.z)*(got.z-ref.z));
        margin(key,d,tol);
        return check(d<=tol,key,"%s: got (%.12g, %.12g, %.12g), reference (%.12g, %.12g, %.12g), |diff| %.3g > tol %.3g",
            what,got.x,got.y,got.z,ref.x,ref.y,ref.z,d,tol);
    }
};

struct Group { const char* name; int nq, nt; std::function<void(Case&)> fn; };
inline std::vector<Group>& groups() { static std::vector<Group> g; return g; }
struct Reg { Reg(const char* n,int nq,int nt,std::function<void(Case&)> f) { groups().push_back({n,nq,nt,f}); } };
#define VF_GROUP(name,nq,nt) static void vfg_##name(vf::Case& c); static vf::Reg vfr_##name(#name,nq,nt,vfg_##name); static void vfg_##name(vf::Case& c)

inline void terminate_cb() {
    const char* w="unknown exception";
    static char buf[400];
    try { auto e=std::current_exception(); if (e) std::rethrow_exception(e); }
    catch (const std::exception& e) { snprintf(buf,sizeof buf,"exception: %s",e.what()); w=buf; }
    catch (...) {}
    if (st().out) fprintf(st().out,"TERMINATE\t%s\n",w);
    dump_stats("DIED"); st().finished=true; _exit(97);
}

inline int main(int argc,char** argv) {
    std::string grp, out; int start=0, only=-1; double mult=1; State& s=st();
    for (int i=1;i<argc;i++) {
        std::string a=argv[i];
        if (a=="--list") { for (auto& g:groups()) printf("%s %d %d\n",g.name,g.nq,g.nt); return 0; }
        if (i+1>=argc) break;
        if (a=="--group") grp=argv[++i]; else if (a=="--out") out=argv[++i];
        else if (a=="--seed") s.seed=strtoull(argv[++i],0,10); else if (a=="--start") start=atoi(argv[++i]);
        else if (a=="--case") only=atoi(argv[++i]); else if (a=="--mult") mult=atof(argv[++i]); else if (a=="--tier") s.thorough = std::string(argv[++i])=="thorough";
    }
    s.out = out.empty()? stderr : fopen(out.c_str(),"a");
    if (!s.out) { fprintf(stderr,"cannot open out file\n"); return 96; }
    s.group=grp;
    if (__sanitizer_set_death_callback) __sanitizer_set_death_callback(on_death);
    std::set_terminate(terminate_cb);
    atexit(on_exit_cb);
    for (auto& g:groups()) if (grp==g.name) {
        int n = (int)(mult*(s.thorough? g.nt : g.nq)+0.5); if (n<1) n=1;
        int a=start, b=n; if (only>=0) { a=only; b=only+1; }
        for (int i=a;i<b;i++) {
            s.idx=i;
            fprintf(s.out,"CASE\t%s\t%d\n",g.name,i);   // buffered; flushed on death
            Case c(mix(mix(s.seed,hash_str(g.name)),i),i);
            try { g.fn(c); }
            catch (const std::exception& e) { c.check(false,(std::string("exception:")+g.name).c_str(),"unexpected exception: %s",e.what()); }
            s.cases++;
        }
        dump_stats("DONE"); s.finished=true; fclose(s.out);
        fflush(stdout); _exit(0);
    }
    fprintf(stderr,"no such group %s\n",grp.c_str()); s.finished=true; return 95;
}

// ---- extended precision vectors for the reference models -------------------
struct V3 {
    LD x,y,z; V3():x(0),y(0),z(0){} V3(LD a,LD b,LD c_):x(a),y(b),z(c_){} V3(const Vector& v):x(v.x),y(v.y),z(v.z){}
    V3 operator+(const V3&o) const {return V3(x+o.x,y+o.y,z+o.z);} V3 operator-(const V3&o) const {return V3(x-o.x,y-o.y,z-o.z);}
    V3 operator*(LD f) const {return V3(x*f,y*f,z*f);} V3 operator/(LD f) const {return V3(x/f,y/f,z/f);}
    LD dot(const V3&o) const {return x*o.x+y*o.y+z*o.z;}
    V3 cross(const V3&o) const {return V3(y*o.z-z*o.y,z*o.x-x*o.z,x*o.y-y*o.x);}
    LD n2() const {return x*x+y*y+z*z;} LD n() const {return sqrtl(n2());}
    V3 unit() const { LD r=n(); return V3(x/r,y/r,z/r);}
    Vector d() const { return Vector((double)x,(double)y,(double)z); }
};
struct EB3 { V3 E,B; EB3 operator+(const EB3&o) const { EB3 r; r.E=E+o.E; r.B=B+o.B; return r;} EB3 operator*(LD f) const { EB3 r; r.E=E*f; r.B=B*f; return r; } };

const LD cc = 2.99792458e8L;
const LD ec = 1.6021766208e-19L;
const LD eps0 = 8.854187817e-12L;
const LD mu0 = 4.0e-7L*3.14159265358979323846264338327950288L;
const LD irm = 1.758820025e11L;
const LD pi = 3.14159265358979323846264338327950288L;

} // namespace vf
