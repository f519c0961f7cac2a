#include "common.h"
#include "neuralnet.h"
#include "neuralnet_predict_batch.h"
#include "evaluate.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
/* whole networks against layer-by-layer definitions in double precision (activation functions,
   derivatives, losses and metrics are the library's own, applied to separate aligned vectors) */
static char *AN[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax"};
static const char *LN[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error"};
static const char *MN[]={"mean_squared_error","mean_absolute_error","binary_accuracy","binary_crossentropy","categorical_accuracy","mean_absolute_percentage_error"};
static float *al(int n){ void *p; if(posix_memalign(&p,64,4*(size_t)n+64)) abort(); return p; }
#define ML 48
static int L, S[ML]; static neuralnet_t *nn;
static float *Wc[ML], *Bc[ML];
static void ref_forward(const float *x, float **a){ /* a[0..L] 64-aligned */
  memcpy(a[0],x,4*S[0]);
  for(int l=0;l<L;l++){ for(int j=0;j<S[l+1];j++){ double z=Bc[l][j]; for(int i=0;i<S[l];i++) z+=(double)Wc[l][(size_t)i*S[l+1]+j]*a[l][i]; a[l+1][j]=(float)z; }
    nn->layer[l].activation_func(S[l+1],a[l+1]); } }
static int badp(double g,double w){ return !(fabs(g-w) <= 2e-3*(1e-2+fabs(w))) ; }
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<1200 && !timeup(60); it++){
    int deep = it%9==8; L = it<8 ? 1+it%4 : deep ? rint_(6,40) : rint_(1,5);
    int big = rint_(0,9)==0;
    for(int l=0;l<=L;l++) S[l] = rint_(0,3)==0 ? 1 : rint_(1, deep?12:big?90:20);
    if(it%25==7) S[rint_(0,L)] = rint_(100,700);
    char *acts[ML]; for(int l=0;l<L;l++){ acts[l]=AN[rint_(0,8)]; if(L>2 && !strcmp(acts[l],"exponential")) acts[l]="tanh"; if(deep && l%3) acts[l]=l%2?"tanh":"softsign"; } acts[L]=NULL;
    nn=neuralnet_create(L,S,acts); if(!nn) FAIL("neuralnet_create refused a valid network");
    neuralnet_set_loss(nn,LN[rint_(0,2)]);
    long P=0; for(int l=0;l<L;l++){ int n=S[l]*S[l+1]; P+=n+S[l+1]; float sc=(deep?1.1f:1.5f)/sqrtf((float)S[l]);
      for(int i=0;i<n;i++) nn->layer[l].weight[i]=rfl(-sc,sc); for(int i=0;i<S[l+1];i++) nn->layer[l].bias[i]=rfl(-1,1);
      Wc[l]=malloc(4*n+4); memcpy(Wc[l],nn->layer[l].weight,4*n); Bc[l]=malloc(4*S[l+1]+4); memcpy(Bc[l],nn->layer[l].bias,4*S[l+1]); }
#define SAMEPAR(what) for(int l=0;l<L;l++) if(memcmp(Wc[l],nn->layer[l].weight,4*(size_t)S[l]*S[l+1])||memcmp(Bc[l],nn->layer[l].bias,4*S[l+1])) FAIL("%s changed the parameters of layer %d",what,l);
    float *a[ML+1]; for(int l=0;l<=L;l++) a[l]=al(S[l]);
    int ns=rint_(1,7);
    buf_t X=mk(ns*S[0],rint_(0,15)), T=mk(ns*S[L],rint_(0,15)), Y=mk(ns*S[L],rint_(0,15)); fillr(X.p,ns*S[0],-2,2);
    for(int i=0;i<ns*S[L];i++) T.p[i]=rint_(0,1)?rfl(0.1,1):rfl(-1,-0.1);
    float *Xo=malloc(4*ns*S[0]+4),*To=malloc(4*ns*S[L]+4); memcpy(Xo,X.p,4*ns*S[0]); memcpy(To,T.p,4*ns*S[L]);
    float *ref=malloc(4*ns*S[L]+4);
    if(neuralnet_total_n_parameters(nn)!=P) FAIL("total_n_parameters: got %u want %ld",neuralnet_total_n_parameters(nn),P);
    for(int s=0;s<ns;s++){ ref_forward(X.p+s*S[0],a); memcpy(ref+s*S[L],a[L],4*S[L]);
      for(int i=0;i<S[L];i++) Y.p[s*S[L]+i]=1e9f;
      buf_t y=mk(S[L],rint_(0,15)), x=mk(S[0],rint_(0,15)); memcpy(x.p,X.p+s*S[0],4*S[0]);
      neuralnet_predict(nn,x.p,y.p);
      for(int i=0;i<S[L];i++) if(badp(y.p[i],a[L][i])) FAIL("neuralnet_predict %d layers (%d..%d) output %d: got %.9g want %.9g",L,S[0],S[L],i,y.p[i],a[L][i]);
      if(memcmp(x.p,X.p+s*S[0],4*S[0])) FAIL("neuralnet_predict changed its input");
      free(y.raw); free(x.raw); }
    SAMEPAR("neuralnet_predict");
    neuralnet_predict_batch(nn,ns,X.p,Y.p);
    for(int i=0;i<ns*S[L];i++) if(badp(Y.p[i],ref[i])) FAIL("neuralnet_predict_batch %d samples, %d layers, sample %d output %d: got %.9g want %.9g",ns,L,i/S[L],i%S[L],Y.p[i],ref[i]);
    { /* evaluation */
      int nm=rint_(1,4); metric_func m[5]; for(int k=0;k<nm;k++) m[k]=get_metric_func(MN[rint_(0,5)]); m[nm]=NULL;
      buf_t res=mk(nm,rint_(0,3)); fillr(res.p,nm,-9,9); evaluate(nn,ns,X.p,T.p,m,res.p);
      for(int k=0;k<nm;k++){ double w=0; float *p=al(S[L]),*t=al(S[L]); for(int s=0;s<ns;s++){ memcpy(p,ref+s*S[L],4*S[L]); memcpy(t,T.p+s*S[L],4*S[L]); w+=m[k](S[L],p,t); } free(p);free(t); w/=ns;
        if(isfinite(w)&&strcmp(get_metric_name(m[k]),"binary_accuracy")&&strcmp(get_metric_name(m[k]),"categorical_accuracy")? badp(res.p[k],w) : isfinite(w)&&fabs(res.p[k]-w)>0.51) FAIL("evaluate metric %d of %d over %d samples: got %.9g want %.9g",k,nm,ns,res.p[k],w); }
      free(res.raw); }
    { /* back-propagation */
      int s=rint_(0,ns-1); ref_forward(X.p+s*S[0],a);
      buf_t G=mk(P,0), x=mk(S[0],rint_(0,15)), t=mk(S[L],rint_(0,15)); fillr(G.p,P,-9,9); memcpy(x.p,X.p+s*S[0],4*S[0]); memcpy(t.p,T.p+s*S[L],4*S[L]);
      neuralnet_backpropagation(nn,x.p,t.p,G.p);
      if(memcmp(x.p,X.p+s*S[0],4*S[0])||memcmp(t.p,T.p+s*S[L],4*S[L])) FAIL("neuralnet_backpropagation changed the sample");
      float *d[ML+1]; for(int l=0;l<L;l++) d[l]=al(S[l+1]); float *tt=al(S[L]); memcpy(tt,t.p,4*S[L]); memset(d[L-1],0,4*S[L]);
      nn->loss(S[L],a[L],tt,d[L-1]); free(tt);
      for(int l=L-1;l>=0;l--){ nn->layer[l].activation_derivative(S[l+1],a[l+1],d[l]);
        if(l) for(int i=0;i<S[l];i++){ double z=0; for(int j=0;j<S[l+1];j++) z+=(double)Wc[l][(size_t)i*S[l+1]+j]*d[l][j]; d[l-1][i]=(float)z; } }
      long o=0; double sc=0; for(int l=0;l<L;l++) for(int j=0;j<S[l+1];j++) if(fabs(d[l][j])>sc) sc=fabs(d[l][j]);
#define BADG(g,w) (isfinite(w) && !(fabs((g)-(w)) <= 1e-2*(1e-3+fabs(w)) + 1e-4*sc))
      int kink=0; for(int l=0;l<L;l++) if(!strcmp(acts[l],"relu")||!strcmp(acts[l],"hard_sigmoid")) for(int j=0;j<S[l+1];j++) if(fabs(a[l+1][j])<1e-5||fabs(a[l+1][j]-1)<1e-5) if(a[l+1][j]!=0&&a[l+1][j]!=1) kink=1;
      if(nn->loss==get_loss_func("mean_absolute_error")||nn->loss==get_loss_func("mean_absolute_percentage_error")) for(int j=0;j<S[L];j++) if(fabs(a[L][j]-T.p[s*S[L]+j])<1e-4) kink=1;
      if(isfinite(sc)&&!kink) for(int l=0;l<L;l++){
        for(int j=0;j<S[l+1];j++,o++) if(BADG(G.p[o],d[l][j])) FAIL("neuralnet_backpropagation %d layers, bias %d of layer %d: got %.9g want %.9g",L,j,l,G.p[o],d[l][j]);
        for(int i=0;i<S[l];i++) for(int j=0;j<S[l+1];j++,o++){ double w=(double)a[l][i]*d[l][j]; if(BADG(G.p[o],w)) FAIL("neuralnet_backpropagation %d layers, weight %d,%d of layer %d: got %.9g want %.9g",L,i,j,l,G.p[o],w); } }
      for(int l=0;l<L;l++) free(d[l]);
      SAMEPAR("neuralnet_backpropagation"); free(G.raw); free(x.raw); free(t.raw); }
    { /* layout */
      buf_t p=mk(P,rint_(0,15)), dl=mk(P,rint_(0,15)); fillr(p.p,P,-9,9); fillr(dl.p,P,-1,1); neuralnet_get_parameters(nn,p.p); SAMEPAR("neuralnet_get_parameters");
      long o=0; for(int l=0;l<L;l++){ for(int j=0;j<S[l+1];j++,o++) if(p.p[o]!=Bc[l][j]) FAIL("get_parameters: bias %d of layer %d",j,l);
        for(int i=0;i<S[l]*S[l+1];i++,o++) if(p.p[o]!=Wc[l][i]) FAIL("get_parameters: weight %d of layer %d",i,l); }
      neuralnet_update(nn,dl.p); o=0;
      for(int l=0;l<L;l++){ for(int j=0;j<S[l+1];j++,o++) if(nn->layer[l].bias[j]!=Bc[l][j]+dl.p[o]) FAIL("update: bias %d of layer %d: got %.9g want %.9g",j,l,nn->layer[l].bias[j],Bc[l][j]+dl.p[o]);
        for(int i=0;i<S[l]*S[l+1];i++,o++) if(nn->layer[l].weight[i]!=Wc[l][i]+dl.p[o]) FAIL("update: weight %d of layer %d: got %.9g want %.9g",i,l,nn->layer[l].weight[i],Wc[l][i]+dl.p[o]); }
      free(p.raw); free(dl.raw); }
    if(memcmp(Xo,X.p,4*ns*S[0])||memcmp(To,T.p,4*ns*S[L])) FAIL("the data set was changed");
    for(int l=0;l<=L;l++) free(a[l]); for(int l=0;l<L;l++){ free(Wc[l]); free(Bc[l]); }
    free(X.raw);free(T.raw);free(Y.raw);free(Xo);free(To);free(ref); neuralnet_free(nn);
  }
  return 0; }
