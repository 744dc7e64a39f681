/* preloaded into the simulation program: no artificial waiting, reproducible random numbers (differing from node to node),
   delays injected before the collective operations, in every second run a clock which makes the run appear to take hours
   (progress messages, memory reports), and a record of the communication */
#define _GNU_SOURCE
#include <mpi.h>
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <time.h>
#include <sys/syscall.h>
#include <unistd.h>
static uint64_t st=0; static int jit=0, init=0; static long nb=0,nbc=0,ng=0,nr=0,dl=0; static double bytes=0;
static int env(const char* n,int d) { const char* s=getenv(n); return s?atoi(s):d; }
static void setup(void) { if (init) return; init=1; st=0x9E3779B97F4A7C15ull*(1+env("VF_SEED2",1))+0x1000003ull*env("OMPI_COMM_WORLD_RANK",0); jit=env("VF_MPI_JITTER",0); }
static uint64_t rnd(void) { setup(); uint64_t z=(st+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return z^(z>>31); }
static void delay(void) { setup(); if (jit && (int)(rnd()%100)<jit) { struct timespec t={0,(long)(rnd()%3000000)}; nanosleep(&t,0); dl++; } }
/* between MPI_Init and MPI_Finalize */
static volatile int fast=0; static volatile long hops=0;
int MPI_Init(int* c,char*** v) { int r=PMPI_Init(c,v); fast=env("VF_FAST",env("VF_SEED2",1)&1); return r; }
double MPI_Wtime(void) { double t=PMPI_Wtime(); return fast ? t+40.0*__sync_add_and_fetch(&hops,1) : t+40.0*hops; }
int clock_gettime(clockid_t id,struct timespec* t) { int r=syscall(SYS_clock_gettime,id,t); if (id==CLOCK_REALTIME && fast && !r) t->tv_sec+=70*__sync_add_and_fetch(&hops,1); return r; }
int usleep(useconds_t u) { (void)u; return 0; }
/* std::random_device: a fixed sequence on node 0, another one on every other node */
static uint64_t rst=0; static int rinit=0;
unsigned int _ZNSt13random_device9_M_getvalEv(void* self) { (void)self; if (!rinit) { rinit=1; rst=77777ull*(1+env("VF_SEED2",1))+0xABCDEFull*env("OMPI_COMM_WORLD_RANK",0); } uint64_t z=(rst+=0x9E3779B97F4A7C15ull); z=(z^(z>>30))*0xBF58476D1CE4E5B9ull; z=(z^(z>>27))*0x94D049BB133111EBull; return (unsigned)(z^(z>>31)); }
int MPI_Barrier(MPI_Comm c) { delay(); nb++; return PMPI_Barrier(c); }
int MPI_Bcast(void* b,int n,MPI_Datatype t,int r,MPI_Comm c) { delay(); nbc++; bytes+=8.0*n; return PMPI_Bcast(b,n,t,r,c); }
int MPI_Allgather(const void* s,int n,MPI_Datatype t,void* r,int m,MPI_Datatype u,MPI_Comm c) { delay(); ng++; bytes+=8.0*n; return PMPI_Allgather(s,n,t,r,m,u,c); }
int MPI_Allgatherv(const void* s,int n,MPI_Datatype t,void* r,const int* m,const int* d,MPI_Datatype u,MPI_Comm c) { delay(); ng++; bytes+=8.0*n; return PMPI_Allgatherv(s,n,t,r,m,d,u,c); }
int MPI_Reduce(const void* s,void* r,int n,MPI_Datatype t,MPI_Op o,int root,MPI_Comm c) { delay(); nr++; bytes+=8.0*n; return PMPI_Reduce(s,r,n,t,o,root,c); }
int MPI_Allreduce(const void* s,void* r,int n,MPI_Datatype t,MPI_Op o,MPI_Comm c) { delay(); nr++; bytes+=8.0*n; return PMPI_Allreduce(s,r,n,t,o,c); }
int MPI_Finalize(void) { fast=0; const char* f=getenv("VF_MPILOG"); if (f) { char p[600]; snprintf(p,sizeof p,"%s.%d",f,env("OMPI_COMM_WORLD_RANK",0)); FILE* o=fopen(p,"w"); if (o) { fprintf(o,"barrier %ld\nbcast %ld\ngather %ld\nreduce %ld\ndelays %ld\nbytes %.0f\nhops %ld\n",nb,nbc,ng,nr,dl,bytes,hops); fclose(o); } } return PMPI_Finalize(); }
