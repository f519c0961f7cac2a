#ifndef COMMON_H
#define COMMON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <math.h>
#include <time.h>
#include <stdbool.h>
#include <unistd.h>
#if defined(__AVX512F__)
#define AL 64
#elif defined(__AVX__)
#define AL 32
#else
#define AL 16
#endif
static uint64_t S_ = 88172645463325252ull;
static inline uint64_t rnd64(void){ S_^=S_<<13; S_^=S_>>7; S_^=S_<<17; return S_; }
static inline int rint_(int lo, int hi){ return lo + (int)(rnd64() % (uint64_t)(hi-lo+1)); }
static inline float rfl(float lo, float hi){ return lo + (hi-lo)*(float)((rnd64()>>11)*(1.0/9007199254740992.0)); }
static inline void seed_(int argc, char **argv){ if(argc>1) S_ ^= (uint64_t)atoll(argv[1])*0x9E3779B97F4A7C15ull; for(int i=0;i<8;i++) rnd64(); }
static time_t T0_; static inline int timeup(int s){ if(!T0_) T0_=time(NULL); return time(NULL)-T0_ > s; }
#define FAIL(...) do{ printf("FAIL: "); printf(__VA_ARGS__); printf("\n"); fflush(stdout); exit(1); }while(0)
static inline int bad(double got, double want, double scale){ return !(fabs(got-want) <= 3e-4*(1e-3+fabs(want)+scale)); }
/* exact-size buffer with chosen misalignment (in floats) relative to AL; sanitizer guards both ends */
typedef struct { void *raw; float *p; } buf_t;
static inline buf_t mk(int n, int mis){ buf_t b; size_t sz=(size_t)(mis+n)*4; 
  if(posix_memalign(&b.raw, AL, sz?sz:1)) abort();
  b.p=(float*)b.raw+mis; return b; }
static inline void fillr(float *p,int n,float lo,float hi){ int sp=rint_(0,2)==0; static const float S[]={0,1,-1,0.5f,-0.5f,2,-2};
  for(int i=0;i<n;i++){ p[i]=rfl(lo,hi); if(sp&&rint_(0,3)==0){ float v=S[rint_(0,6)]; if(v>=lo&&v<=hi) p[i]=v; } } }
static inline int pick_n(int it){ if(it<140) return it; int r=rint_(0,9); if(r<7) return rint_(0,70); return rint_(0,600); }
#endif
