#include "common.h"
#include "neuralnet.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "optimizer.h"
#include "SGD.h"
#include "RMSprop.h"
#include "adagrad.h"
#include "adam.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
#include <sys/wait.h>
#include <sys/mman.h>
/* objects used together behave as each alone: every combination is run in fresh child processes,
   alone and interleaved, and the traces are compared */
static char *AN[]={"linear","tanh","sigmoid","relu","softmax"};
typedef struct { int kind,L,S[5],n,bs,ne; bool shuf,nes; char *acts[5]; float lr,dec,mom; uint64_t seed; const char *loss; bool gib; int pat,mon; } cfg;
typedef struct { neuralnet_t *nn; optimizer_t *o; callback_t *cb,*mc; cfg c; int e; char fn[64]; } obj;
static void trace(float *out,int *k,double v){ out[(*k)++]=(float)v; }
static void start(obj *b,const cfg *c,int id){ b->c=*c; b->e=0; S_=c->seed; 
  b->nn=neuralnet_create(c->L,(int*)c->S,(char**)c->acts); neuralnet_set_loss(b->nn,c->loss);
  for(int l=0;l<c->L;l++){ for(int i=0;i<c->S[l]*c->S[l+1];i++) b->nn->layer[l].weight[i]=rfl(-.8,.8); for(int i=0;i<c->S[l+1];i++) b->nn->layer[l].bias[i]=rfl(-.5,.5); }
  optimizer_properties_t op=OPTIMIZER_PROPERTIES(.batchsize=c->bs,.shuffle=c->shuf,.progress=NULL,.metrics=NULL);
  switch(c->kind){ case 0: b->o=OPTIMIZER(SGD_new(b->nn,op,SGD_PROPERTIES(.learning_rate=c->lr,.decay=c->dec,.momentum=c->mom,.nesterov=c->nes))); break;
  case 1: b->o=OPTIMIZER(RMSprop_new(b->nn,op,RMSPROP_PROPERTIES(.learning_rate=c->lr,.decay=c->dec,.momentum=c->mom,.nesterov=c->nes))); break;
  case 2: b->o=OPTIMIZER(adagrad_new(b->nn,op,ADAGRAD_PROPERTIES(.learning_rate=c->lr,.decay=c->dec))); break;
  default: b->o=OPTIMIZER(adam_new(b->nn,op,ADAM_PROPERTIES(.learning_rate=c->lr))); }
  b->cb=CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS(.patience=c->pat,.greater_is_better=c->gib,.monitor_idx=c->mon)));
  sprintf(b->fn,"chk%d_%d.npz",(int)getpid(),id); unlink(b->fn);
  b->mc=CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename=b->fn,.greater_is_better=c->gib,.monitor_idx=c->mon))); }
static void step(obj *b,float *out,int *k){ const cfg *c=&b->c; S_=c->seed+977*(1+b->e++); for(int i=0;i<4;i++) rnd64();
  int nx=c->S[0],ny=c->S[c->L]; buf_t X=mk(c->n*nx,0),Y=mk(c->n*ny,0); fillr(X.p,c->n*nx,-1,1); for(int i=0;i<c->n*ny;i++) Y.p[i]=rfl(0.1,0.9);
  float res[4]={0}; optimizer_run_epoch(b->o,c->n,X.p,Y.p,0,NULL,NULL,res);
  if(c->shuf){ unsigned *p=b->o->pivot; char *s=calloc(c->n,1); for(int i=0;i<c->n;i++){ if(p[i]>=(unsigned)c->n||s[p[i]]){ printf("sample order of an optimizer is not a permutation of its %d samples\n",c->n); fflush(stdout); _exit(3);} s[p[i]]=1; } free(s); }
  else { trace(out,k,res[0]); }
  float fake[2]={rfl(-1,1),rfl(-1,1)}; if(rint_(0,2)==0) fake[0]=rint_(-2,2);
  callback_run(b->cb,b->o,fake,0); trace(out,k,earlystopping_do_stop(EARLYSTOPPING(b->cb)));
  unlink(b->fn); callback_run(b->mc,b->o,fake,0); trace(out,k,access(b->fn,F_OK)==0); unlink(b->fn);
  if(!c->shuf){ int P=0; for(int l=0;l<c->L;l++) P+=c->S[l+1]*(1+c->S[l]); float *p=malloc(4*P+4); neuralnet_get_parameters(b->nn,p); double h=0; for(int i=0;i<P;i++) h+=p[i]*(1+0.01*(i%17)); trace(out,k,h); free(p); }
  free(X.raw);free(Y.raw); }
static void finish(obj *b){ callback_free(b->cb); callback_free(b->mc); optimizer_free(b->o); neuralnet_free(b->nn); }
static float *sh; enum { MAXT=400 };
static int incase(int m,const cfg *c,const int *plan,int np){ /* m: bit mask of the objects used */
  float *o=sh; pid_t p=fork(); if(!p){ obj b[3]; int k[3]={0},st[3]={0},left[3]; for(int i=0;i<3;i++) left[i]=c[i].ne;
    for(int q=0;q<np;q++){ int i=plan[q]; if(!(m>>i&1)) continue; if(!st[i]){ start(&b[i],&c[i],i); st[i]=1; } else if(left[i]>0){ step(&b[i],o+i*MAXT+1,&k[i]); if(!--left[i]){ finish(&b[i]); st[i]=2; } } }
    for(int i=0;i<3;i++){ if(st[i]==1) finish(&b[i]); if(m>>i&1) o[i*MAXT]=k[i]; } fflush(stdout); _exit(0); }
  int s; waitpid(p,&s,0); return s; }
int main(int argc,char**argv){
  seed_(argc,argv); sh=mmap(NULL,3*MAXT*4,PROT_READ|PROT_WRITE,MAP_SHARED|MAP_ANONYMOUS,-1,0);
  for(int it=0; it<220 && !timeup(50); it++){
    cfg c[3]; memset(c,0,sizeof c); for(int i=0;i<3;i++){ c[i].kind=it<32?(it/(i?4*i:1))%4:rint_(0,3); c[i].L=rint_(1,3); for(int l=0;l<=c[i].L;l++) c[i].S[l]=rint_(1,6); for(int l=0;l<c[i].L;l++) c[i].acts[l]=AN[rint_(0,3)];
      c[i].n=rint_(1,12); c[i].bs=rint_(1,6); c[i].ne=rint_(1,6); c[i].shuf=rint_(0,3)==0; c[i].nes=rint_(0,1); c[i].lr=rfl(0.01,0.1); c[i].dec=rint_(0,1)?0.1:0; c[i].mom=rint_(0,1)?0.8:0; c[i].seed=rnd64()|1; c[i].loss=rint_(0,1)?"mean_squared_error":"mean_absolute_error"; c[i].gib=rint_(0,1); c[i].pat=rint_(0,2); c[i].mon=rint_(0,1)-1; }
    int plan[200],np=0; for(;np<60;np++) plan[np]=rint_(0,2); for(int i=0;i<3;i++) for(int q=0;q<8;q++) plan[np++]=i;
    static float alone[3*MAXT]; for(int i=0;i<3;i++){ memset(sh,0,3*MAXT*4); int s=incase(1<<i,c,plan,np); if(s) continue; memcpy(alone+i*MAXT,sh+i*MAXT,4*MAXT); }
    memset(sh,0,3*MAXT*4); int s=incase(7,c,plan,np); if(s) FAIL("three objects used together: child ended with status %#x (objects alone are fine)",s);
    for(int i=0;i<3;i++) for(int q=0;q<MAXT;q++) if(memcmp(&alone[i*MAXT+q],&sh[i*MAXT+q],4)) FAIL("object %d (optimizer kind %d) behaves differently beside two others: trace entry %d is %.9g, alone %.9g",i,c[i].kind,q,sh[i*MAXT+q],alone[i*MAXT+q]);
  }
  return 0; }
