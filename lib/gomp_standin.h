// A stand-in for the OpenMP runtime built on pthreads, so that ThreadSanitizer sees all of its synchronisation and
// the schedule can be varied: thread count, assignment of thread numbers to threads, order of start, delays at
// every call into the runtime.  Anything not defined here is taken from the real libgomp.
#pragma once
#include <pthread.h>
#include <unistd.h>
#include <sched.h>
#include <atomic>
#include <vector>
#include <map>
#include <cstring>
#include <cstdint>
#include <ctime>
#include <omp.h>
namespace gs {
struct Config { int threads=2; uint64_t seed=1; int jitter=0; bool reverse=false; };
inline Config& cfg() { static Config c; return c; }
struct WS { long next,end,incr,chunk; int arrived=0,left=0; bool dynamic; long sect=0; };
struct Team { int n; pthread_barrier_t bar; pthread_mutex_t m; std::map<long,WS> ws; };
struct Self { Team* team=nullptr; int id=0; long wsid=0; WS* cur=nullptr; long pos=0; bool done=false; uint64_t rng=1; int level=0; };
inline Self& self() { static thread_local Self s; return s; }
inline std::atomic<long>& regions() { static std::atomic<long> r(0); return r; }
inline std::atomic<long>& threads_run() { static std::atomic<long> r(0); return r; }
inline uint64_t rnd(uint64_t& s) { uint64_t z=(s+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
inline void jitter() { int j=cfg().jitter; if (!j) return; Self& s=self(); uint64_t r=rnd(s.rng); if (r%100>=(uint64_t)j) return; r>>=8; if (r%4==0) usleep(r/7%60); else if (r%4==1) sched_yield(); else { volatile int k=0; for (int i=0;i<(int)(r/7%3000);i++) k=i; } }
struct Arg { Team* t; int id; void (*fn)(void*); void* data; uint64_t seed; int level; void (*init)(Self&,void*); void* iarg; };
inline void* tmain(void* p) { Arg* a=(Arg*)p; Self& s=self(); s=Self(); s.team=a->t; s.id=a->id; s.rng=a->seed; s.level=a->level; jitter(); a->fn(a->data); jitter(); return nullptr; }
inline void region(void (*fn)(void*),void* data,unsigned want,void (*prep)(Team&,void*)=nullptr,void* parg=nullptr) {
    Self& me=self(); int n=want?(int)want:cfg().threads; if (n<1) n=1; if (me.level>0) n=1; regions().fetch_add(1,std::memory_order_relaxed); threads_run().fetch_add(n,std::memory_order_relaxed);
    Team t; t.n=n; pthread_barrier_init(&t.bar,nullptr,n); pthread_mutex_init(&t.m,nullptr); if (prep) prep(t,parg); uint64_t seed=cfg().seed^(regions().load(std::memory_order_relaxed)*0x51ED27ull); 
    std::vector<int> perm(n); for (int i=0;i<n;i++) perm[i]=i; for (int i=n-1;i>0;i--) std::swap(perm[i],perm[rnd(seed)%(i+1)]); // which thread gets which number
    std::vector<Arg> a(n); std::vector<pthread_t> th(n); for (int i=0;i<n;i++) { a[i]={&t,perm[i],fn,data,rnd(seed),me.level+1,nullptr,nullptr}; }
    // the calling thread takes part, as in the real runtime
    for (int i=1;i<n;i++) pthread_create(&th[i],nullptr,tmain,&a[i]); Self keep=me; tmain(&a[0]); self()=keep; for (int i=1;i<n;i++) pthread_join(th[i],nullptr); pthread_barrier_destroy(&t.bar); pthread_mutex_destroy(&t.m); }
inline Team* solo() { static thread_local Team* t=nullptr; if (!t) { t=new Team; t->n=1; pthread_barrier_init(&t->bar,nullptr,1); pthread_mutex_init(&t->m,nullptr); } return t; }
inline Team* team() { Self& s=self(); return s.team?s.team:solo(); }
inline WS* ws_enter(long start,long end,long incr,long chunk,bool dyn) { Self& s=self(); Team* t=team(); pthread_mutex_lock(&t->m); long id=s.wsid++; WS& w=t->ws[id]; if (w.arrived++==0) { w.next=start; w.end=end; w.incr=incr; w.chunk=chunk>0?chunk:1; w.dynamic=dyn; } s.cur=&w; s.pos=0; pthread_mutex_unlock(&t->m); return s.cur; }
inline long cnt(WS* w) { return w->incr>0? (w->end-w->next+w->incr-1)/w->incr : (w->next-w->end-w->incr-1)/(-w->incr); }
inline bool ws_next(long* is,long* ie) { jitter(); Self& s=self(); Team* t=team(); WS* w=s.cur; bool r=false; pthread_mutex_lock(&t->m);
    if (w->dynamic) { long n=cnt(w); if (n>0) { long k=w->chunk<n?w->chunk:n; *is=w->next; *ie=w->next+k*w->incr; w->next=*ie; r=true; } }
    else { long n=cnt(w), c=w->chunk, k=(s.pos*t->n+s.id)*c; if (k<n) { long m=c<n-k?c:n-k; *is=w->next+k*w->incr; *ie=*is+m*w->incr; s.pos++; r=true; } }
    pthread_mutex_unlock(&t->m); return r; }
inline void barrier() { jitter(); Team* t=team(); if (t->n>1) pthread_barrier_wait(&t->bar); jitter(); }
struct PL { long s,e,i,c; bool d; void (*fn)(void*); void* data; };
inline pthread_mutex_t& crit() { static pthread_mutex_t m=PTHREAD_MUTEX_INITIALIZER; return m; }
}
extern "C" {
void GOMP_parallel(void (*fn)(void*),void* data,unsigned nt,unsigned) { gs::region(fn,data,nt); }
unsigned GOMP_parallel_reductions(void (*fn)(void*),void* data,unsigned nt,unsigned) { gs::region(fn,data,nt); return nt; }
void GOMP_barrier() { gs::barrier(); }
bool GOMP_barrier_cancel() { gs::barrier(); return false; }
void GOMP_critical_start() { gs::jitter(); pthread_mutex_lock(&gs::crit()); }
void GOMP_critical_end() { pthread_mutex_unlock(&gs::crit()); gs::jitter(); }
void GOMP_critical_name_start(void**) { GOMP_critical_start(); }      // one lock for all names: no extra deadlocks without nesting
void GOMP_critical_name_end(void**) { GOMP_critical_end(); }
static pthread_mutex_t gs_atomic=PTHREAD_MUTEX_INITIALIZER;
void GOMP_atomic_start() { gs::jitter(); pthread_mutex_lock(&gs_atomic); }
void GOMP_atomic_end() { pthread_mutex_unlock(&gs_atomic); }
bool GOMP_single_start() { gs::Team* t=gs::team(); gs::Self& s=gs::self(); gs::jitter(); pthread_mutex_lock(&t->m); gs::WS& w=t->ws[s.wsid++]; bool first=w.arrived++==0; pthread_mutex_unlock(&t->m); return first; }
#define GS_LOOP(name,dyn) bool GOMP_loop_##name##_start(long s,long e,long i,long c,long* a,long* b) { gs::ws_enter(s,e,i,c,dyn); return gs::ws_next(a,b); } bool GOMP_loop_##name##_next(long* a,long* b) { return gs::ws_next(a,b); } \
 bool GOMP_loop_ull_##name##_start(bool,unsigned long long s,unsigned long long e,unsigned long long i,unsigned long long c,unsigned long long* a,unsigned long long* b) { gs::ws_enter((long)s,(long)e,(long)i,(long)c,dyn); return gs::ws_next((long*)a,(long*)b); } bool GOMP_loop_ull_##name##_next(unsigned long long* a,unsigned long long* b) { return gs::ws_next((long*)a,(long*)b); }
#define GS_LOOPR(name,dyn) bool GOMP_loop_##name##_start(long s,long e,long i,long* a,long* b) { gs::ws_enter(s,e,i,1,dyn); return gs::ws_next(a,b); } bool GOMP_loop_##name##_next(long* a,long* b) { return gs::ws_next(a,b); }
GS_LOOP(static,false) GS_LOOP(dynamic,true) GS_LOOP(guided,true) GS_LOOP(nonmonotonic_dynamic,true) GS_LOOP(nonmonotonic_guided,true) GS_LOOPR(runtime,true) GS_LOOPR(nonmonotonic_runtime,true) GS_LOOPR(maybe_nonmonotonic_runtime,true)
void GOMP_loop_end() { gs::barrier(); }
bool GOMP_loop_end_cancel() { gs::barrier(); return false; }
void GOMP_loop_end_nowait() { gs::jitter(); }
#define GS_PLOOP(name,dyn) void GOMP_parallel_loop_##name(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,long c,unsigned) { gs::PL* p=new gs::PL{s,e,i,c,dyn,fn,d}; gs::region([](void* q){ gs::PL* p=(gs::PL*)q; gs::ws_enter(p->s,p->e,p->i,p->c,p->d); gs::self().wsid=1; p->fn(p->data); },p,nt); delete p; }
#define GS_PLOOPR(name,dyn) void GOMP_parallel_loop_##name(void (*fn)(void*),void* d,unsigned nt,long s,long e,long i,unsigned) { gs::PL* p=new gs::PL{s,e,i,1,dyn,fn,d}; gs::region([](void* q){ gs::PL* p=(gs::PL*)q; gs::ws_enter(p->s,p->e,p->i,p->c,p->d); gs::self().wsid=1; p->fn(p->data); },p,nt); delete p; }
GS_PLOOP(static,false) GS_PLOOP(dynamic,true) GS_PLOOP(guided,true) GS_PLOOP(nonmonotonic_dynamic,true) GS_PLOOP(nonmonotonic_guided,true) GS_PLOOPR(runtime,true) GS_PLOOPR(nonmonotonic_runtime,true) GS_PLOOPR(maybe_nonmonotonic_runtime,true)
unsigned GOMP_sections_start(unsigned n) { gs::ws_enter(1,(long)n+1,1,1,true); long a,b; return gs::ws_next(&a,&b)?(unsigned)a:0; }
unsigned GOMP_sections_next() { long a,b; return gs::ws_next(&a,&b)?(unsigned)a:0; }
void GOMP_sections_end() { gs::barrier(); }
void GOMP_sections_end_nowait() { gs::jitter(); }
void GOMP_parallel_sections(void (*fn)(void*),void* d,unsigned nt,unsigned n,unsigned) { gs::PL* p=new gs::PL{1,(long)n+1,1,1,true,fn,d}; gs::region([](void* q){ gs::PL* p=(gs::PL*)q; gs::ws_enter(p->s,p->e,p->i,p->c,p->d); gs::self().wsid=1; p->fn(p->data); },p,nt); delete p; }
// tasks run at once by the thread that creates them
void GOMP_task(void (*fn)(void*),void* data,void (*cpy)(void*,void*),long sz,long al,bool,unsigned,void**,int,void*) { gs::jitter(); std::vector<char> b(sz+al+8); char* p=b.data(); p+=(al-((uintptr_t)p%(al?al:1)))%(al?al:1); if (cpy) cpy(p,data); else memcpy(p,data,sz); fn(p); }
void GOMP_taskwait() {} void GOMP_taskgroup_start() {} void GOMP_taskgroup_end() {} void GOMP_taskyield() {}
int omp_get_thread_num() noexcept { gs::jitter(); return gs::self().team?gs::self().id:0; }
int omp_get_num_threads() noexcept { gs::jitter(); return gs::self().team?gs::self().team->n:1; }
int omp_get_max_threads() noexcept { return gs::cfg().threads; }
int omp_get_num_procs() noexcept { return 8; }
int omp_in_parallel() noexcept { return gs::self().level>0&&gs::team()->n>1; }
int omp_get_level() noexcept { return gs::self().level; }
void omp_set_num_threads(int n) noexcept { gs::cfg().threads=n; }
void omp_set_dynamic(int) noexcept {} void omp_set_nested(int) noexcept {} int omp_get_dynamic() noexcept { return 0; }
int omp_get_thread_limit() noexcept { return 64; }
double omp_get_wtime() noexcept { struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+1e-9*t.tv_nsec; }
// locks: one int
typedef struct { int v; } gs_lock;
void omp_init_lock(omp_lock_t* lk) noexcept { ((gs_lock*)lk)->v=0; } void omp_destroy_lock(omp_lock_t*) noexcept {}
void omp_set_lock(omp_lock_t* lk) noexcept { gs::jitter(); int e; do { e=0; if (!__atomic_compare_exchange_n(&((gs_lock*)lk)->v,&e,1,false,__ATOMIC_ACQUIRE,__ATOMIC_RELAXED)) sched_yield(); else break; } while(1); }
void omp_unset_lock(omp_lock_t* lk) noexcept { __atomic_store_n(&((gs_lock*)lk)->v,0,__ATOMIC_RELEASE); gs::jitter(); }
int omp_test_lock(omp_lock_t* lk) noexcept { int e=0; return __atomic_compare_exchange_n(&((gs_lock*)lk)->v,&e,1,false,__ATOMIC_ACQUIRE,__ATOMIC_RELAXED); }
}
