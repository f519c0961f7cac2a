SEEDS = [
dict(id='mv-avx2-tail', prop='C02', flags='-mavx2 -mfma',
 edits=[('src/matrix_operations.c', 'for (; j < ((m)-8) ; j += 8, y_ptr += 8, weight_ptr += 8){', 'for (; j < ((m)-7) ; j += 8, y_ptr += 8, weight_ptr += 8){\n                    if( j + 8 > m ) break;')],
 needs='x', breaks='x', demo='''int main(){return 0;}'''),
]
SEEDS = [
dict(id='vmm-one-shortcut', prop='C02', flags='-mavx2 -mfma',
 edits=[('src/matrix_operations.c', 'if (inp == 1.0f){', 'if (inp == 1.0f || (inp == -1.0f && m < 8)){')],
 needs='an input element that is exactly -1 and a layer with fewer than eight outputs: the "input is one" shortcut is taken and the weight row is added instead of subtracted',
 breaks='vector_matrix_multiply no longer computes bias + x^T W for inputs equal to -1 when there are fewer than 8 columns',
 demo=r'''
#include "matrix_operations.h"
#include <stdio.h>
#include <math.h>
int main(void){ static float w[5*20]; float b[20],x[5],y[20];
 for(int m=1;m<20;m++){ for(int i=0;i<5*m;i++) w[i]=i*0.37f-3; for(int j=0;j<m;j++) b[j]=j; float xs[]={0.5f,-1.0f,1.0f,0.0f,-2.0f}; for(int i=0;i<5;i++) x[i]=xs[i];
  vector_matrix_multiply(5,m,w,b,x,y);
  for(int j=0;j<m;j++){ double z=b[j]; for(int i=0;i<5;i++) z+=(double)x[i]*w[i*m+j]; if(fabs(z-y[j])>1e-3){ printf("m=%d j=%d got %g want %g\n",m,j,y[j],z); return 1; } } }
 return 0; }'''),
dict(id='softsign-deriv-neg', prop='C05', flags='-mno-avx',
 edits=[('src/activation.c', 'float x = activation[i] / (1.0f - fabsf(activation[i]));', 'float x = activation[i] / (1.0f - activation[i]);')],
 needs='a negative softsign activation value reaching the derivative',
 breaks='softsign_derivative is wrong for negative activations: 1-a is used for 1-|a|',
 demo=r'''
#include "activation.h"
#include <stdio.h>
#include <math.h>
int main(void){ activation_derivative d=get_activation_derivative(get_activation_func("softsign")); float a[4]={0.3f,-0.6f,0.0f,-0.9f},g[4]={1,1,1,1}; d(4,a,g);
 for(int i=0;i<4;i++){ double w=(1-fabs(a[i]))*(1-fabs(a[i])); if(fabs(g[i]-w)>1e-4){ printf("a=%g got %g want %g\n",a[i],g[i],w); return 1; } } return 0; }'''),
dict(id='mape-metric-sign', prop='C07', flags='-mno-avx',
 edits=[('src/metrics.c', 'clipped_y_pred[i] = fmaxf( y_pred[i], epsilon );', 'clipped_y_pred[i] = fmaxf( y_pred[i], y_real[i] > 0.5f ? epsilon : 0.0f );')], nth={'src/metrics.c':1},
 needs='a prediction of exactly 0 (or below) for a class whose target is at most 0.5',
 breaks='categorical cross-entropy takes log(0) for unclipped predictions: 0*(-inf) gives NaN',
 demo=r'''
#include "metrics.h"
#include <stdio.h>
#include <math.h>
int main(void){ metric_func f=get_metric_func("categorical_crossentropy"), g=get_metric_func("binary_crossentropy"); float p[3]={0,0.4f,0.6f},t[3]={0,0,1}; float v=f(3,p,t); if(!(fabs(v+log(0.6)/3)<1e-3)){ printf("got %g\n",v); return 1; }
 float q[1]={0.0f},s[1]={0}; v=g(1,q,s); if(!(fabs(v)<1e-3)){ printf("bce %g\n",v); return 1;} return 0; }'''),
dict(id='loss-mae-zero', prop='C06', flags='-mno-avx',
 edits=[('src/loss.c', 'loss[i] = 2.0f * (y_pred[i] - y_real[i] ) / (float) n;', 'loss[i] = 2.0f * (y_pred[i] - y_real[i] ) / (float) (n & 0xff ? n : n + 1);')],
 needs='an output vector whose length is a multiple of 256',
 breaks='the mean-squared-error gradient is scaled by n+1 instead of n when n is a multiple of 256',
 demo=r'''
#include "loss.h"
#include <stdio.h>
#include <math.h>
int main(void){ loss_func f=get_loss_func("mse"); static float p[512],t[512],l[512]; for(int i=0;i<512;i++){p[i]=i*0.01f;t[i]=1;} int ns[]={1,3,255,256,257,512}; for(int k=0;k<6;k++){ int n=ns[k]; f(n,p,t,l); for(int i=0;i<n;i++){ double w=2*(p[i]-(double)t[i])/n; if(fabs(w-l[i])>1e-6){ printf("n=%d got %g want %g\n",n,l[i],w); return 1; } } } return 0; }'''),
]
