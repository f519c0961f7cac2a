#include "common.h"
#include "activation.h"
#include "loss.h"
#include "metrics.h"
typedef void (*gf)(void);
static void run(const char *w, gf (*get)(const char*), const char *(*name)(gf), const char **N, const char **alias, const char **al_to){
  gf f[32]; int n=0;
  for(;N[n];n++){ f[n]=get(N[n]); if(!f[n]) FAIL("%s \"%s\" is unknown",w,N[n]); const char *b=name(f[n]); if(!b||strcmp(b,N[n])) FAIL("%s \"%s\" reports the name \"%s\"",w,N[n],b?b:"(null)"); 
    for(int i=0;i<n;i++) if(f[i]==f[n]) FAIL("%s \"%s\" and \"%s\" are the same function",w,N[i],N[n]); }
  for(int i=0;alias[i];i++){ gf a=get(alias[i]); if(!a||a!=get(al_to[i])) FAIL("%s alias \"%s\" is not \"%s\"",w,alias[i],al_to[i]); }
  char s[64];
  for(int it=0;it<20000;it++){ /* near misses and junk */
    const char *b=N[rint_(0,n-1)]; strcpy(s,b); int l=strlen(s), k=rint_(0,6);
    if(k==0) s[rint_(0,l-1)]^=32; else if(k==1) s[l-1]=0; else if(k==2) strcat(s,"x"); else if(k==3) memmove(s,s+1,l); else if(k==4) s[rint_(0,l-1)]='_'; else if(k==5) s[rint_(0,l-1)]=0; else s[rint_(0,l-1)]=(char)rint_(33,63);
    int known=0; for(int i=0;N[i];i++) known|=!strcmp(s,N[i]); for(int i=0;alias[i];i++) known|=!strcmp(s,alias[i]);
    if(!known && !strchr(s,'@') && get(s)) FAIL("%s \"%s\" is accepted",w,s); }
}
int main(int argc,char**argv){
  seed_(argc,argv); if(!freopen("/dev/null","w",stderr)) return 0;
  const char *A[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax",0}; const char *no[]={0};
  const char *L[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","categorical_crossentropy","binary_crossentropy",0};
  const char *M[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","categorical_crossentropy","binary_crossentropy","binary_accuracy","categorical_accuracy",0};
  const char *al[]={"mse","mae","mape",0}, *to[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error",0};
  run("activation",(gf(*)(const char*))get_activation_func,(const char*(*)(gf))get_activation_name,A,no,no);
  run("loss",(gf(*)(const char*))get_loss_func,(const char*(*)(gf))get_loss_name,L,al,to);
  run("metric",(gf(*)(const char*))get_metric_func,(const char*(*)(gf))get_metric_name,M,al,to);
  for(int i=0;A[i];i++) for(int j=0;j<=i;j++){ void*a=(void*)get_activation_derivative(get_activation_func(A[i])),*b=(void*)get_activation_derivative(get_activation_func(A[j])); if(!a) FAIL("no derivative for %s",A[i]); if(i!=j&&a==b) FAIL("%s and %s share a derivative",A[i],A[j]); }
  return 0; }
