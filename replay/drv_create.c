#include "common.h"
#include "neuralnet.h"
#include "activation.h"
/* creation: requested network or nothing, no leak at any failing allocation; initialisation by scheme */
static long fail_at=-1, nalloc, live; static int arm, script; static int vals[64], nv, iv;
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t,size_t); extern int __real_posix_memalign(void**,size_t,size_t); extern void __real_free(void*); extern int __real_rand(void);
void *__wrap_malloc(size_t n){ if(arm && nalloc++==fail_at) return NULL; void *p=__real_malloc(n); if(arm){ live++; memset(p,0xA5,n);} return p; }
void *__wrap_calloc(size_t a,size_t b){ if(arm && nalloc++==fail_at) return NULL; if(arm) live++; return __real_calloc(a,b); }
int __wrap_posix_memalign(void **p,size_t a,size_t n){ if(arm && nalloc++==fail_at) return 12; int r=__real_posix_memalign(p,a,n); if(arm){ live++; memset(*p,0xA5,n);} return r; }
void __wrap_free(void *p){ if(arm&&p) live--; __real_free(p); }
static int last[4];
int __wrap_rand(void){ if(!script) return __real_rand(); int v = iv<nv? vals[iv] : (int)(rnd64()>>33); iv++; return v; }
static char *A[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax"};
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<2500 && !timeup(40); it++){
    int n=rint_(0,9)==0?rint_(-2,0):rint_(1,5); int sz[8]; char *ac[8]; for(int i=0;i<8;i++){ sz[i]=rint_(1,40); ac[i]=rint_(0,9)==0?NULL:A[rint_(0,8)]; }
    bool ok=n>=1; if(rint_(0,3)==0&&n>=0){ int b=rint_(0,n); sz[b]=rint_(-3,0); ok=false; }
    fail_at=rint_(0,2)==0?rint_(0,2+2*(n>0?n:1)):-1; nalloc=0; live=0; arm=1; neuralnet_t *nn=neuralnet_create(n,sz,ac); arm=0;
    bool hit=fail_at>=0&&nalloc>fail_at; if(!ok||hit){ if(nn) FAIL("network of %d layers (sizes %d %d %d ...) is not refused%s",n,sz[0],sz[1],sz[2],hit?" although memory ran out":""); if(live) FAIL("%ld blocks not released when creation of %d layers fails at allocation %ld",live,n,fail_at); continue; }
    if(!nn) FAIL("valid network of %d layers is refused",n);
    if(nn->n_layers!=n) FAIL("n_layers %d instead of %d",nn->n_layers,n); if(nn->loss) FAIL("loss function set");
    for(int i=0;i<n;i++){ if(nn->layer[i].n_input!=sz[i]||nn->layer[i].n_output!=sz[i+1]) FAIL("layer %d is %d x %d instead of %d x %d",i,nn->layer[i].n_input,nn->layer[i].n_output,sz[i],sz[i+1]);
      if(nn->layer[i].activation_func!=get_activation_func(ac[i]?ac[i]:"linear")) FAIL("layer %d has activation %s instead of %s",i,get_activation_name(nn->layer[i].activation_func),ac[i]?ac[i]:"linear");
      if(((uintptr_t)nn->layer[i].weight)%AL||((uintptr_t)nn->layer[i].bias)%AL) FAIL("parameters of layer %d not aligned",i);
      for(int k=0;k<sz[i]*sz[i+1];k++) nn->layer[i].weight[k]=NAN; for(int k=0;k<sz[i+1];k++) nn->layer[i].bias[k]=NAN; }
    /* initialise: every outcome of the generator */
    char *in[8]; int scheme[8]; bool withinit=rint_(0,2)!=0; for(int i=0;i<n;i++){ int w=rint_(0,3); in[i]=w==0?"xavier":w==1?"kaiming":w==2?"":"other"; const char *a=ac[i]?ac[i]:"linear";
      if(withinit&&w==0) scheme[i]=0; else if(withinit&&w==1) scheme[i]=1; else scheme[i]=!strcmp(a,"sigmoid")||!strcmp(a,"tanh")||!strcmp(a,"softmax")||!strcmp(a,"hard_sigmoid")||!strcmp(a,"softsign")?0:!strcmp(a,"relu")||!strcmp(a,"softplus")?1:2; }
    script=1; nv=it%4==0?rint_(0,60):0; iv=0; for(int i=0;i<nv;i++){ int w=rint_(0,5); vals[i]=w==0?0:w==1?RAND_MAX:w==2?RAND_MAX/2:w==3?RAND_MAX/2+1:w==4?RAND_MAX/2+rint_(-70,70):(int)(rnd64()>>33); if(it%8==0&&i<2) vals[i]=RAND_MAX/2+rint_(0,1); }
    neuralnet_initialize(nn, withinit?in:NULL); script=0;
    for(int i=0;i<n;i++){ int N=sz[i]*sz[i+1]; double s=0,mx=0; for(int k=0;k<sz[i+1];k++) if(nn->layer[i].bias[k]!=0) FAIL("bias %d of layer %d is %g",k,i,nn->layer[i].bias[k]);
      for(int k=0;k<N;k++){ double w=nn->layer[i].weight[k]; if(!isfinite(w)) FAIL("weight %d of layer %d is %g",k,i,w); s+=w*w; if(fabs(w)>mx) mx=fabs(w); }
      double lim=sqrt(6.0/(sz[i]+sz[i+1])), sd=scheme[i]==0?lim/sqrt(3):scheme[i]==1?sqrt(2.0/sz[i]):1.0; 
      if(scheme[i]==0&&mx>lim*1.0001) FAIL("xavier weight %g beyond %g in layer %d (%d x %d)",mx,lim,i,sz[i],sz[i+1]);
      if(mx>sd*40) FAIL("weight %g in layer %d (%d x %d), standard deviation should be %g",mx,i,sz[i],sz[i+1],sd);
      if(N>=400&&nv==0){ double r=sqrt(s/N)/sd; if(r<0.8||r>1.25) FAIL("layer %d (%d x %d, %s): standard deviation %g of the weights, should be %g",i,sz[i],sz[i+1],scheme[i]==0?"xavier":scheme[i]==1?"kaiming":"normal",sqrt(s/N),sd); } }
    arm=1; neuralnet_free(nn); arm=0; if(live) FAIL("%ld blocks not released by neuralnet_free",live); }
  neuralnet_free(NULL);
  { int big[]={65536,65536}; char *ac[]={"linear"}; /* 16 GB of weights: a network of that size or nothing */ fail_at=-1; 
    extern size_t malloc_usable_size(void*); neuralnet_t *nn=neuralnet_create(1,big,ac); if(nn){ if(malloc_usable_size(nn->layer[0].weight)<65536ull*65536*4) FAIL("weights of a 65536 x 65536 layer are %zu bytes",malloc_usable_size(nn->layer[0].weight)); neuralnet_free(nn); } }
  return 0; }
