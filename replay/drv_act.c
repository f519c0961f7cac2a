#include "common.h"
#include "activation.h"
static double act(int k,double x){ switch(k){ case 0:return x; case 1:return x>0?x:0; case 2:return 1/(1+exp(-x)); case 3:return tanh(x); case 4:return log1p(exp(x));
  case 5:return x/(1+fabs(x)); case 6:return x<-2.5?0:x>2.5?1:0.2*x+0.5; case 7:return exp(x);} return 0; }
static double der(int k,double a){ switch(k){ case 0:return 1; case 1:return a<=0?0:1; case 2:return a*(1-a); case 3:return 1-a*a; case 4:return 1-exp(-a); case 5:return (1-fabs(a))*(1-fabs(a));
  case 6:return a<=0?0:a>=1?0:0.2; case 7:return a; case 8:return 1;} return 0; }
static const char *nm[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax"};
/* relative accuracy of the exponential inside sigmoid and softmax over its whole range */
static void accuracy(void){
  buf_t y=mk(64,0); activation_func sg=get_activation_func("sigmoid"), sm=get_activation_func("softmax"); float in[64];
  for(int k=0;k<3000;k++){
    double x0=-86+k*(172.0/3000);
    for(int i=0;i<64;i++) in[i]=y.p[i]=(float)(x0+i*9e-4);
    sg(64,y.p);
    for(int i=0;i<64;i++){ double w=1/(1+exp(-(double)in[i])); if(!(fabs(y.p[i]-w)<=5e-6*w)) FAIL("sigmoid element %d of 64, x=%.9g: got %.9g want %.9g",i,in[i],y.p[i],w); } }
  static const float far[]={-88,-88.3762f,-88.4f,-89,-100,-1000,-1e10f,-3e38f};
  for(int k=0;k<8;k++){ for(int i=0;i<64;i++) y.p[i]=i%2?-far[k]:far[k]; sg(64,y.p);
    for(int i=0;i<64;i++) if(i%2? y.p[i]!=1 : !(y.p[i]>=0&&y.p[i]<1e-36f)) FAIL("sigmoid element %d of 64, x=%.9g: got %.9g",i,i%2?-far[k]:far[k],y.p[i]); }
  for(int k=0;k<2000;k++){
    double M=-1e30,s=0; float R=k%4==0?80:k%4==1?1:10; for(int i=0;i<64;i++){ in[i]=y.p[i]=rfl(-R,R)+(k%3==0?200:0); if(in[i]>M) M=in[i]; }
    for(int i=0;i<64;i++) s+=exp(in[i]-M);
    sm(64,y.p);
    for(int i=0;i<64;i++){ double w=exp(in[i]-M)/s; if(w>1e-36 && !(fabs(y.p[i]-w)<=2e-5*w)) FAIL("softmax element %d of 64, x=%.9g, largest %.9g: got %.9g want %.9g",i,in[i],M,y.p[i],w); } }
  free(y.raw);
}
int main(int argc,char**argv){
  seed_(argc,argv);
  accuracy();
  for(int it=0; it<4000 && !timeup(60); it++){
    int n=pick_n(it);
    for(int k=0;k<9;k++){
      activation_func f=get_activation_func(nm[k]); if(!f) FAIL("no function for %s",nm[k]);
      activation_derivative d=get_activation_derivative(f); if(!d) FAIL("no derivative for %s",nm[k]);
      if(k==8 && n==0) continue;
      float R = rint_(0,3)==0 ? 20 : rint_(0,2)==0 ? 1 : 4; if(k==8 && rint_(0,3)==0) R=300;
      buf_t y=mk(n,rint_(0,15)); float *in=malloc(4*(n+1)); double *o=malloc(8*(n+1));
      fillr(y.p,n,-R,R); if(n&&rint_(0,2)==0) y.p[rint_(0,n-1)]=0; if(k==6&&n){ y.p[rint_(0,n-1)]=2.5f; y.p[rint_(0,n-1)]=-2.5f; }
      if(k==8 && n && rint_(0,3)==0){ float sh=rfl(-300,300); for(int i=0;i<n;i++) y.p[i]+=sh; }
      memcpy(in,y.p,4*n);
      if(k<8) for(int i=0;i<n;i++) o[i]=act(k,in[i]);
      else { double M=in[0],s=0; for(int i=0;i<n;i++) if(in[i]>M) M=in[i]; for(int i=0;i<n;i++) s+=exp(in[i]-M); for(int i=0;i<n;i++) o[i]=exp(in[i]-M)/s; }
      f(n,y.p);
      for(int i=0;i<n;i++) if(bad(y.p[i],o[i],0.02)) FAIL("%s n=%d element %d x=%.9g: got %.9g want %.9g",nm[k],n,i,in[i],y.p[i],o[i]);
      /* derivative, on the activation values */
      buf_t a=mk(n,rint_(0,15)), g=mk(n,rint_(0,15)); float *g0=malloc(4*(n+1)), *a0=malloc(4*(n+1));
      for(int i=0;i<n;i++) a.p[i]=(float)o[i]; if(n&&k==1) a.p[rint_(0,n-1)]=0;
      if(n&&k==6){ a.p[rint_(0,n-1)]=0; a.p[rint_(0,n-1)]=1; }
      fillr(g.p,n,-2,2); memcpy(g0,g.p,4*n); memcpy(a0,a.p,4*n);
      d(n,a.p,g.p);
      for(int i=0;i<n;i++) if(k!=6 || (a0[i]>1e-5&&a0[i]<1-1e-5) || a0[i]==0||a0[i]==1){ double w=g0[i]*der(k,a0[i]); if(bad(g.p[i],w,0.02)) FAIL("%s_derivative n=%d element %d a=%.9g g=%.9g: got %.9g want %.9g",nm[k],n,i,a0[i],g0[i],g.p[i],w); }
      if(memcmp(a0,a.p,4*n)) FAIL("%s_derivative changed the activation vector",nm[k]);
      free(y.raw);free(in);free(o);free(a.raw);free(g.raw);free(g0);free(a0);
    }
  }
  return 0; }
