#include "common.h"
#include <sys/mman.h>
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "evaluate.h"
#include "metrics.h"
/* batches that are large: many samples, wide layers, more numbers than an int counts */
static neuralnet_t *net(int L,int *S,char **A){ neuralnet_t *nn=neuralnet_create(L,S,A); if(!nn) FAIL("neuralnet_create refused a valid network");
  for(int l=0;l<L;l++){ float sc=1.5f/sqrtf((float)S[l]); for(size_t i=0;i<(size_t)S[l]*S[l+1];i++) nn->layer[l].weight[i]=rfl(-sc,sc); for(int i=0;i<S[l+1];i++) nn->layer[l].bias[i]=rfl(-1,1); } return nn; }
static void batch(int ns,int L,int *S,char **A){
  neuralnet_t *nn=net(L,S,A); size_t nx=(size_t)ns*S[0], ny=(size_t)ns*S[L]; buf_t X=mk(nx,0),Y=mk(ny,0),T=mk(ny,0); fillr(X.p,nx,-2,2); fillr(T.p,ny,-2,2);
  for(size_t i=0;i<ny;i++) Y.p[i]=1e9f;
  neuralnet_predict_batch(nn,ns,X.p,Y.p);
  metric_func m[2]={get_metric_func("mean_absolute_error"),NULL}; float res[1]={-1}; evaluate(nn,ns,X.p,T.p,m,res);
  double w=0; int st=ns>4000?1+ns/4000:1; buf_t y=mk(S[L],0);
  for(int s=0;s<ns;s++){ if(s%st && s<ns-3 && st>1) continue; neuralnet_predict(nn,X.p+(size_t)s*S[0],y.p);
    for(int j=0;j<S[L];j++){ float g=Y.p[(size_t)s*S[L]+j]; if(!(fabs(g-y.p[j])<=2e-3*(1e-2+fabs(y.p[j])))) FAIL("neuralnet_predict_batch, %d samples, sizes %d..%d, sample %d output %d: got %.9g want %.9g",ns,S[0],S[L],s,j,g,y.p[j]); } }
  for(int s=0;s<ns;s++) w+=m[0](S[L],Y.p+(size_t)s*S[L],T.p+(size_t)s*S[L]); w/=ns;
  if(fabs(res[0]-w)>1e-3*(1+fabs(w))*(ns>100000?50:1)) FAIL("evaluate over %d samples: got %.9g want %.9g",ns,res[0],w);
  free(X.raw);free(Y.raw);free(T.raw);free(y.raw); neuralnet_free(nn); }
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int ns=1;ns<=3;ns++) batch(ns,2,(int[]){4,70000,2},(char*[]){"relu","linear",NULL});
  batch(1,2,(int[]){4,65534,3},(char*[]){"relu","softmax",NULL}); batch(1,2,(int[]){4,65533,3},(char*[]){"relu","softmax",NULL});
  batch(2,1,(int[]){3,80000},(char*[]){"tanh",NULL});
  for(int k=0;k<6;k++){ int n=rint_(500,9000); batch(n,3,(int[]){rint_(1,9),rint_(1,40),rint_(1,33),rint_(1,9)},(char*[]){"tanh",k%2?"softmax":"relu",k%3?"sigmoid":"softmax",NULL}); }
  batch(2000001,1,(int[]){1,2},(char*[]){"sigmoid",NULL});
  { int n=1<<20, S=2052; size_t sz=(size_t)S*n*4; float *x=mmap(0,sz,PROT_READ,MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE,-1,0);
    if(x!=MAP_FAILED){ neuralnet_t *nn=net(1,(int[]){n,1},(char*[]){"linear",NULL}); float *y=malloc(4*(size_t)S); for(int i=0;i<S;i++) y[i]=9; neuralnet_predict_batch(nn,S,x,y);
      for(int i=0;i<S;i++) if(fabs(y[i]-nn->layer[0].bias[0])>1e-6) FAIL("neuralnet_predict_batch of %d samples of %d numbers, sample %d: got %.9g want %.9g",S,n,i,y[i],nn->layer[0].bias[0]);
      metric_func m[2]={get_metric_func("mean_absolute_error"),NULL}; float r[1]; evaluate(nn,S,x,y,m,r); if(fabs(r[0])>1e-6) FAIL("evaluate of %d samples of %d numbers: got %.9g want 0",S,n,r[0]);
      munmap(x,sz); neuralnet_free(nn); free(y); } }
  return 0; }
