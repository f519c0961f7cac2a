#include "common.h"
#include "neuralnet.h"
#include "optimizer.h"
#include "SGD.h"
#include "earlystopping.h"
#include "modelcheckpoint.h"
/* early stopping and checkpoints against the definition over the whole score history */
int main(int argc,char**argv){
  seed_(argc,argv); int sz[]={2,1}; char *ac[]={"linear",NULL};
  neuralnet_t *nn=neuralnet_create(1,sz,ac); neuralnet_set_loss(nn,"mean_squared_error");
  for(int it=0; it<3000 && !timeup(40); it++){
    int M=rint_(1,3); metric_func ms[4]; for(int i=0;i<M;i++) ms[i]=get_metric_func("mean_squared_error"); ms[M]=NULL;
    optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.metrics=ms,.progress=NULL),SGD_PROPERTIES()));
    bool gib=rint_(0,1), hv=rint_(0,1); int pat=rint_(0,5), mon=rint_(-1,M*(1+hv)-1); if(rint_(0,3)==0&&mon<0) mon=-rint_(1,5);
    char name[64]; static const char *NM[]={"c%d.npz","c %d%%s.npz","c%%n%d.npz"}; snprintf(name,64,NM[rint_(0,2)],rint_(0,3)); bool def=rint_(0,5)==0; const char *fn=def?"checkpoint.npz":name;
    callback_t *es=CALLBACK(earlystopping_new(EARLYSTOPPING_SETTINGS(.patience=pat,.monitor_idx=mon,.greater_is_better=gib)));
    callback_t *mc=CALLBACK(modelcheckpoint_new(MODELCHECKPOINT_SETTINGS(.filename=def?NULL:name,.monitor_idx=mon,.greater_is_better=gib,.verbose=false)));
    if(!es||!mc) FAIL("callback not created");
    int T=rint_(1,14), since=0; bool stop=false; double best=0; int style=rint_(0,4);
    if(earlystopping_do_stop(EARLYSTOPPING(es))) FAIL("stop before the first epoch");
    for(int e=0;e<T;e++){
      float *res=malloc(4*M*(1+hv)); for(int i=0;i<M*(1+hv);i++) res[i]=rfl(-100,100);
      int idx=mon<0?(hv?M:0):mon;
      if(style==0) res[idx]=rint_(-2,2); if(style==1) res[idx]=-rfl(0,1e30); if(style==2) res[idx]=(gib?1:-1)*e+rint_(0,1); if(style==3) res[idx]=0.5f; if(style==4&&e) res[idx]=best+(gib?1:-1)*(rint_(-1,1))*1e-3;
      bool imp = e==0 || (gib? res[idx]>best : res[idx]<best); if(imp){ best=res[idx]; since=0; } else since++; if(since>pat) stop=true;
      unlink(fn); callback_run(es,o,res,hv); callback_run(mc,o,res,hv);
      if(earlystopping_do_stop(EARLYSTOPPING(es))!=stop) FAIL("early stopping (patience %d, monitor %d, greater is better %d, validation %d): epoch %d score %g best %g, %d epochs without improvement: stop=%d",pat,mon,gib,hv,e,res[idx],best,since,!stop);
      if((access(fn,F_OK)==0)!=imp) FAIL("checkpoint '%s' (monitor %d, greater is better %d, validation %d): epoch %d score %g: saved=%d but improvement=%d",fn,mon,gib,hv,e,res[idx],!imp,imp);
      unlink(fn); free(res); }
    callback_free(es); callback_free(mc); optimizer_free(o); }
  if(earlystopping_do_stop(NULL)) FAIL("stop asked for by no object");
  neuralnet_free(nn); return 0; }
