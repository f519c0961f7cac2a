#include "common.h"
#include "loss.h"
#include "metrics.h"
#include "neuralnet.h"
#include "activation.h"
static const char *L[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","categorical_crossentropy","binary_crossentropy","mse","mae","mape"};
static const char *M[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","categorical_crossentropy","binary_crossentropy","mse","mae","mape","binary_accuracy","categorical_accuracy"};
static double clip(double x){ double e=1e-7f; return x<e?e:x>1-e?1-e:x; }
/* choosing the loss: sequences of choices on networks of many depths */
static void setloss(void){
  static char *A[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax"};
  static const char *N[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","categorical_crossentropy","binary_crossentropy","mse","mae","mape","","msee","Mean_squared_error"};
  FILE *o=stdout; stdout=fopen("/dev/null","w");
  for(int it=0; it<400; it++){
    int D=it<8?1+it%4:rint_(0,9)?rint_(1,9):rint_(10,60), sz[64]; char *ac[64];
    for(int i=0;i<=D;i++) sz[i]=rint_(1,4);
    for(int i=0;i<D;i++) ac[i]=A[rint_(0,8)];
    if(rint_(0,1)) ac[D-1]=A[rint_(0,1)?2:8];
    ac[D]=NULL;
    neuralnet_t *nn=neuralnet_create(D,sz,ac); if(!nn) continue;
    activation_derivative lin=get_activation_derivative(get_activation_func("linear")), before[64];
    for(int h=0;h<5;h++){
      int k=rint_(0,10); for(int i=0;i<D;i++) before[i]=nn->layer[i].activation_derivative;
      neuralnet_set_loss(nn,N[k]);
      FILE *z=stdout; stdout=o;
      if(nn->loss!=get_loss_func(N[k])) FAIL("neuralnet_set_loss(\"%s\"): not the loss function of that name (choice %d)",N[k],h);
      if((k>=8)!=!nn->loss) FAIL("get_loss_func(\"%s\")",N[k]);
      if(nn->n_layers!=D) FAIL("neuralnet_set_loss changed the number of layers");
      for(int i=0;i<D;i++){
        activation_derivative w=k>=8?before[i]:get_activation_derivative(get_activation_func(ac[i]));
        if(i==D-1 && ((k==3&&!strcmp(ac[i],"softmax"))||(k==4&&!strcmp(ac[i],"sigmoid")))) w=lin;
        if(nn->layer[i].activation_derivative!=w) FAIL("neuralnet_set_loss(\"%s\"), %d layers, choice %d: layer %d (%s) has the wrong derivative",N[k],D,h,i,ac[i]);
        if(nn->layer[i].activation_func!=get_activation_func(ac[i])) FAIL("neuralnet_set_loss changed the activation of layer %d",i); }
      stdout=z; }
    neuralnet_free(nn); }
  fclose(stdout); stdout=o;
}
int main(int argc,char**argv){
  seed_(argc,argv);
  setloss();
  for(int it=0; it<6000 && !timeup(60); it++){
    int n=pick_n(it);
    for(int k=0;k<18;k++){
      int ismet=k>=8, kk=ismet?k-8:k, base=kk>=5&&kk<8?kk-5:kk;
      buf_t p=mk(n,rint_(0,15)), t=mk(n,rint_(0,15)), l=mk(n,rint_(0,15)); float lo=-2,hi=2;
      if(base==3||base==4||base>=8){ lo=0;hi=1; if(rint_(0,9)==0&&base!=8){lo=-0.2f;hi=1.2f;} }
      fillr(p.p,n,lo,hi); fillr(t.p,n,base==2?-2:lo<0&&base<3?lo:0,base<3?2:1);
      if(base>=3&&rint_(0,1)) for(int i=0;i<n;i++) t.p[i]=rint_(0,1);
      if(base==3&&n&&rint_(0,1)){ memset(t.p,0,4*n); t.p[rint_(0,n-1)]=1; }
      if((base==3||base==4)&&n){ if(rint_(0,2)==0) p.p[rint_(0,n-1)]=0; if(rint_(0,2)==0) p.p[rint_(0,n-1)]=1; }
      if(base==9&&n&&rint_(0,1)){ float s=rint_(0,1)?-3:0; for(int i=0;i<n;i++){ p.p[i]=s+rint_(0,4)/4.0f; t.p[i]=rint_(0,4)/4.0f; } }
      if(base==8) for(int i=0;i<n;i++){ if(fabs(p.p[i]-0.5f)<1e-3) p.p[i]=0.2f; if(fabs(t.p[i]-0.5f)<1e-3) t.p[i]=0.8f; if(rint_(0,20)==0) t.p[i]= rint_(0,1)?-3:4; }
      if(base==2&&n){ if(rint_(0,3)==0) t.p[rint_(0,n-1)]=0; if(rint_(0,3)==0){ int i=rint_(0,n-1); t.p[i]=p.p[i]; } }
      if(base==1&&n&&rint_(0,1)){ int i=rint_(0,n-1); t.p[i]=p.p[i]; }
      if(!ismet){ loss_func f=get_loss_func(L[kk]); if(!f) FAIL("no loss %s",L[kk]);
        fillr(l.p,n,-9,9); f(n,p.p,t.p,l.p);
        for(int i=0;i<n;i++){ double P=p.p[i],T=t.p[i],w=0; int sk=0; switch(base){ case 0:w=2*(P-T)/n;break; case 1: w=(P>=T?1:-1)/(double)n; break; case 2: { double e=1e-7f,d=fabs(T)<e?e:fabs(T); w=(P>=T?100:-100)/(d*n); break; }
            case 3:w=P-T;break; case 4:w=(P-T)/n;break; }
          if(!sk&&bad(l.p[i],w,0)) FAIL("%s gradient n=%d element %d pred=%.9g target=%.9g: got %.9g want %.9g",L[kk],n,i,P,T,l.p[i],w); }
      } else if(n>0){ metric_func f=get_metric_func(M[kk]); if(!f) FAIL("no metric %s",M[kk]);
        double w=0,sc=0; int bp=0,bt=0;
        for(int i=0;i<n;i++){ double P=p.p[i],T=t.p[i],x=0; switch(base){ case 0:x=(P-T)*(P-T);break; case 1:x=fabs(P-T);break; case 2:{double e=1e-7f,d=fabs(T)<e?e:fabs(T); x=100*fabs(T-P)/d;break;}
            case 3:x=-T*log(clip(P));break; case 4:x=-(T*log(clip(P))+(1-T)*log(1-clip(P)));break; case 8: x=roundf(p.p[i])==roundf(t.p[i]<0?0:t.p[i]>1?1:t.p[i]); break; case 9: if(p.p[i]>p.p[bp])bp=i; if(t.p[i]>t.p[bt])bt=i; break; }
          w+=x; sc+=fabs(x); }
        if(base==9) w = bp==bt; else w/=n, sc/=n;
        double g=f(n,p.p,t.p);
        double tol = (base==3||base==4) ? 0.05+0.02*sc : 0.0;   /* float clip near 1 */
        if(!(fabs(g-w)<=tol) && bad(g,w,0)) FAIL("metric %s n=%d: got %.9g want %.9g",M[kk],n,g,w);
      }
      free(p.raw);free(t.raw);free(l.raw);
    }
  }
  return 0; }
