// C06: a whole program (propagate, reflection) with the stand-in OpenMP runtime; -DTOOL names its main source file
#include "gomp_standin.h"
#include <sys/syscall.h>
#include <time.h>
#include <cstdlib>
#include <cstdio>
static std::atomic<long> vf_ticks(0);
static bool vf_fast=false;
extern "C" int clock_gettime(clockid_t id,struct timespec* t) { int r=syscall(SYS_clock_gettime,id,t); if (id==CLOCK_REALTIME && vf_fast) t->tv_sec+=100*vf_ticks.fetch_add(1,std::memory_order_relaxed); return r; }
static long vf_env(const char* n,long d) { const char* s=getenv(n); return s?atol(s):d; }
struct VfStart { VfStart() { gs::Config& g=gs::cfg(); g.threads=vf_env("VF_THREADS",1); g.seed=vf_env("VF_GSEED",1); g.jitter=vf_env("VF_JITTER",0); vf_fast=vf_env("VF_FAST",0); } ~VfStart() { fprintf(stderr,"VFREGIONS %ld VFTHREADS %ld\n",gs::regions().load(),gs::threads_run().load()); } } vf_start;
#include TOOL
