#include "common.h"
#include "neuralnet.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
#include "optimizer.h"
#include "SGD.h"
#include "RMSprop.h"
#include "adagrad.h"
#include "adam.h"
/* every optimizer against its update rule in double precision, epoch by epoch; the sample order
   is read from the optimizer after each epoch and must be a permutation of the samples */
static char *AN[]={"linear","tanh","sigmoid","softsign"};
static float *al(int n){ void *p; if(posix_memalign(&p,64,4*(size_t)n+64)) abort(); memset(p,0,4*(size_t)n+64); return p; }
typedef struct { int kind,L,S[6],P; char *acts[6]; neuralnet_t *nn,*ref; optimizer_t *o; double lr,dec,mom,rho,b1,b2,wd,p1,p2; bool nes; long it; double *th,*v,*r,*s; double sc; int *skip; int bs; bool shuf; long steps; double lr0; } job;
static neuralnet_t *mknet(job *j){ neuralnet_t *n=neuralnet_create(j->L,j->S,j->acts); if(!n) FAIL("create"); neuralnet_set_loss(n,"mean_squared_error"); return n; }
static void setpar(neuralnet_t *n,int L,const double *th){ long o=0; for(int l=0;l<L;l++){ int a=n->layer[l].n_input,b=n->layer[l].n_output; for(int i=0;i<b;i++) n->layer[l].bias[i]=(float)th[o++]; for(int i=0;i<a*b;i++) n->layer[l].weight[i]=(float)th[o++]; } }
static void init(job *j){
  memset(j,0,sizeof *j); j->kind=rint_(0,3); j->L=rint_(1,3);
  for(int l=0;l<=j->L;l++) j->S[l]=rint_(1,rint_(0,3)?7:23);
  for(int l=0;l<j->L;l++) j->acts[l]=AN[rint_(0,3)];
  j->acts[j->L]=NULL; j->nn=mknet(j); j->ref=mknet(j);
  for(int l=0;l<j->L;l++) j->P+=j->S[l+1]*(1+j->S[l]);
  int P=j->P; j->th=calloc(P,8); j->v=calloc(P,8); j->r=calloc(P,8); j->s=calloc(P,8); j->skip=calloc(P,4);
  for(int i=0;i<P;i++) j->th[i]=rfl(-.7,.7);
  for(int i=0;i<P;i++) j->th[i]=(float)j->th[i];
  setpar(j->nn,j->L,j->th);
  float lr=rfl(0.005,0.05), dec=rint_(0,1)?rfl(0.01,0.3):0, mom=rint_(0,1)?rfl(0.2,0.95):0, rho=rfl(0.5,0.99), b1=rfl(0.5,0.95), b2=rfl(0.8,0.999), wd=rint_(0,1)?rfl(0.001,0.05):0; bool nes=rint_(0,1);
  j->lr=j->lr0=lr;j->dec=dec;j->mom=mom;j->rho=rho;j->b1=b1;j->b2=b2;j->wd=wd;j->nes=nes;j->p1=j->p2=1;
  j->bs=rint_(1,9); j->shuf=rint_(0,1);
  optimizer_properties_t op=OPTIMIZER_PROPERTIES(.batchsize=j->bs,.shuffle=j->shuf,.progress=NULL,.metrics=NULL);
  if(j->kind==0) j->o=OPTIMIZER(SGD_new(j->nn,op,SGD_PROPERTIES(.learning_rate=lr,.decay=dec,.momentum=mom,.nesterov=nes)));
  if(j->kind==1) j->o=OPTIMIZER(RMSprop_new(j->nn,op,RMSPROP_PROPERTIES(.learning_rate=lr,.rho=rho,.decay=dec,.momentum=mom,.nesterov=nes)));
  if(j->kind==2) j->o=OPTIMIZER(adagrad_new(j->nn,op,ADAGRAD_PROPERTIES(.learning_rate=lr,.decay=dec)));
  if(j->kind==3) j->o=OPTIMIZER(adam_new(j->nn,op,ADAM_PROPERTIES(.learning_rate=lr,.beta_1=b1,.beta_2=b2,.weight_decay=wd)));
  if(!j->o) FAIL("optimizer not created"); }
static const char *KN[]={"SGD","RMSprop","adagrad","adam"};
static void refstep(job *j,const unsigned *ord,int n,int lo,int hi,const float *X,const float *Y){
  int P=j->P,L=j->L; double *tg=calloc(P,8); bool mom=j->kind<2&&j->mom>0;
  for(int i=0;i<P;i++) tg[i]=j->th[i]+(mom&&j->nes?j->mom*j->v[i]:0);
  setpar(j->ref,L,tg); double *g=calloc(P,8); float *gf=al(P);
  for(int b=lo;b<hi;b++){ neuralnet_backpropagation(j->ref,X+(size_t)ord[b]*j->S[0],Y+(size_t)ord[b]*j->S[L],gf); for(int i=0;i<P;i++) g[i]+=gf[i]; }
  for(int i=0;i<P;i++){ g[i]/=hi-lo; if(fabs(g[i])<2e-3 && j->kind) j->skip[i]=1; }
  if(j->kind<3){ if(j->dec>0) j->lr/=1+j->dec*j->it; j->it++; }
  if(j->kind==0) for(int i=0;i<P;i++){ if(mom){ j->v[i]=j->mom*j->v[i]-j->lr*g[i]; j->th[i]+=j->v[i]; } else j->th[i]-=j->lr*g[i]; }
  if(j->kind==1) for(int i=0;i<P;i++){ j->r[i]=j->rho*j->r[i]+(1-j->rho)*g[i]*g[i]; double d=-j->lr*g[i]/(1e-7+sqrt(j->r[i])); if(mom){ j->v[i]=j->mom*j->v[i]+d; j->th[i]+=j->v[i]; } else j->th[i]+=d; }
  if(j->kind==2) for(int i=0;i<P;i++){ j->r[i]+=g[i]*g[i]; j->th[i]-=j->lr*g[i]/(1e-7+sqrt(j->r[i])); }
  if(j->kind==3){ j->p1*=j->b1; j->p2*=j->b2; for(int i=0;i<P;i++){ j->s[i]=j->b1*j->s[i]+(1-j->b1)*g[i]; j->r[i]=j->b2*j->r[i]+(1-j->b2)*g[i]*g[i];
    double d=-j->lr*(j->s[i]/(1-j->p1))/(sqrt(j->r[i]/(1-j->p2))+1e-8); j->th[i]+=d-j->wd*j->th[i]; } }
  j->steps++; free(tg); free(g); free(gf); }
static void epoch(job *j,int n,int ep){
  int nx=j->S[0],ny=j->S[j->L]; buf_t X=mk(n*nx,rint_(0,3)),Y=mk(n*ny,rint_(0,3)); fillr(X.p,n*nx,-1,1); for(int i=0;i<n*ny;i++) Y.p[i]=rfl(-3,3);
  float res[8]; for(int i=0;i<8;i++) res[i]=-77;
  int nv=rint_(0,3); buf_t VX=mk(nv*nx,0),VY=mk(nv*ny,0); fillr(VX.p,nv*nx,-1,1); fillr(VY.p,nv*ny,-1,1);
  int mode=rint_(0,3); /* validation pointers */
  optimizer_run_epoch(j->o,n,X.p,Y.p,nv,mode==1?NULL:VX.p,mode==2?NULL:VY.p,res);
  unsigned *ord=j->o->pivot; char *seen=calloc(n,1);
  if(!ord) FAIL("no sample order after an epoch");
  for(int i=0;i<n;i++){ if(ord[i]>=(unsigned)n||seen[ord[i]]) FAIL("%s epoch %d: the order of %d samples is not a permutation (entry %d is %u)",KN[j->kind],ep,n,i,ord[i]); seen[ord[i]]=1; }
  free(seen);
  for(int lo=0;lo<n;lo+=j->bs) refstep(j,ord,n,lo,lo+j->bs<n?lo+j->bs:n,X.p,Y.p);
  float *p=al(j->P); neuralnet_get_parameters(j->nn,p);
  double lim=4e-3*j->lr0*j->steps+2e-5; int ns=0; for(int i=0;i<j->P;i++) ns+=j->skip[i];
  for(int i=0;i<j->P;i++) if(!j->skip[i] && !(fabs(p[i]-j->th[i])<=lim+1e-4*fabs(j->th[i])))
    FAIL("%s epoch %d (%d samples, batch size %d, momentum %g nesterov %d decay %g weight decay %g): parameter %d of %d is %.8g, update rule gives %.8g",KN[j->kind],ep,n,j->bs,j->mom,j->nes,j->dec,j->wd,i,j->P,p[i],j->th[i]);
  /* results */
  metric_func m=get_metric_func("mean_squared_error"); double w=0; float *y=al(ny),*t=al(ny);
  for(int s=0;s<n;s++){ neuralnet_predict(j->nn,X.p+s*nx,y); memcpy(t,Y.p+s*ny,4*ny); w+=m(ny,y,t); } w/=n;
  if(!(fabs(res[0]-w)<=1e-3*(1+fabs(w)))) FAIL("%s: training metric after the epoch is %.7g, want %.7g",KN[j->kind],res[0],w);
  if(nv>0&&mode!=1&&mode!=2){ w=0; for(int s=0;s<nv;s++){ neuralnet_predict(j->nn,VX.p+s*nx,y); memcpy(t,VY.p+s*ny,4*ny); w+=m(ny,y,t); } w/=nv;
    if(!(fabs(res[1]-w)<=1e-3*(1+fabs(w)))) FAIL("%s: validation metric is %.7g, want %.7g",KN[j->kind],res[1],w); if(res[2]!=-77) FAIL("more results than metrics"); }
  else if(res[1]!=-77) FAIL("validation result written without validation data");
  for(int i=0;i<j->P;i++){ if(j->kind==0) j->th[i]=p[i]; }   /* keep rounding from piling up where the rule has no divisions */
  if(j->kind) for(int i=0;i<j->P;i++) if(j->skip[i]) j->th[i]=p[i];
  free(p);free(y);free(t);free(X.raw);free(Y.raw);free(VX.raw);free(VY.raw); }
static void fin(job *j){ optimizer_free(j->o); neuralnet_free(j->nn); neuralnet_free(j->ref); free(j->th);free(j->v);free(j->r);free(j->s);free(j->skip); }
/* the order of many samples is a permutation as well */
static void many(unsigned n){
  neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error"); metric_func mf[2]={get_metric_func("mean_squared_error"),NULL};
  optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.batchsize=64,.shuffle=true,.metrics=mf),SGD_PROPERTIES(.learning_rate=0))); float *X=calloc(n,4),*Y=calloc(n,4),r[2]; char *seen=calloc(n,1);
  optimizer_run_epoch(o,n,X,Y,0,NULL,NULL,r);
  for(unsigned i=0;i<n;i++){ if(o->pivot[i]>=n||seen[o->pivot[i]]) FAIL("the order of %u samples is not a permutation (entry %u is %u)",n,i,o->pivot[i]); seen[o->pivot[i]]=1; }
  free(X);free(Y);free(seen);optimizer_free(o);neuralnet_free(nn); }
int main(int argc,char**argv){
  seed_(argc,argv); many(rint_(257,2000)); many(rint_(65537,140000));
  for(int it=0; it<6000 && !timeup(40); it++){
    job j; init(&j); int n=rint_(1,20),ne=rint_(1,4);
    for(int e=0;e<ne;e++){ epoch(&j,n,e); if(rint_(0,2)==0) n=rint_(1,20); }
    fin(&j); }
  return 0; }
