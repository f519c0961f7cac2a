NN = r'''
#include "neuralnet.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
'''
SEEDS = [
dict(id='pivot-shrink', prop='C13', 
 edits=[('src/optimizer.c', 'if ( !opt->pivot || n_train_samples != opt->n_pivot ){', 'if ( !opt->pivot || n_train_samples > opt->n_pivot ){')],
 needs='two epochs of one optimizer, the second with fewer samples than the first',
 breaks='the sample order of the second epoch is not a permutation of its samples: indices of the longer epoch remain and samples outside the training set are read',
 demo=NN+r'''
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); neuralnet_initialize(nn,NULL); neuralnet_set_loss(nn,"mean_squared_error");
 metric_func mf[2]={get_metric_func("mean_squared_error"),NULL};
 optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(),&(sgd_properties_t){.learning_rate=0.0f,.momentum=0}));
 o->batchsize=2; o->shuffle=true; o->metrics=mf; float X[64]={0},Y[64]={0},r[4]; for(int i=0;i<64;i++) X[i]=i<8?1:NAN;
 float Z[64]={0}; optimizer_run_epoch(o,40,Z,Y,0,NULL,NULL,r);
 for(int k=0;k<20;k++){ optimizer_run_epoch(o,8,X,Y,0,NULL,NULL,r); for(unsigned i=0;i<8;i++) if(o->pivot[i]>=8){ printf("sample %u of 8\n",o->pivot[i]); return 1; } }
 return 0; }'''),
dict(id='es-one-metric', prop='C15',
 edits=[('src/earlystopping.c', 'idx = validation_set_given ? n_metrics : 0;', 'idx = validation_set_given && n_metrics > 1 ? n_metrics : 0;')],
 needs='exactly one metric, a validation set and no monitored index given',
 breaks='with one metric the training score is monitored instead of the validation score, so an overfitting training is not stopped',
 demo=NN+r'''
#include "earlystopping.h"
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); metric_func mf[2]={get_metric_func("mean_squared_error"),NULL}; optimizer_t o; memset(&o,0,sizeof o); o.nn=nn; o.metrics=mf;
 earlystopping_t *es=earlystopping_new(&(earlystopping_config){.patience=2,.monitor_idx=-1,.greater_is_better=false}); float s[2]={0.5f,0.5f}; int stop=0;
 for(int e=0;e<6;e++){ s[0]-=0.05f; s[1]+=0.1f; callback_run(CALLBACK(es),&o,s,true); stop=earlystopping_do_stop(es); }
 if(!stop){ printf("no stop although the validation score gets worse\n"); return 1; } return 0; }'''),
dict(id='rms-decay-once', prop='C12',
 edits=[('src/RMSprop.c', 'rmsprop->n_iterations++;', 'if( rmsprop->decay > 0.0f && !rmsprop->nesterov ) rmsprop->n_iterations++;')],
 needs='RMSprop with a decaying learning rate and Nesterov momentum, at least two updates',
 breaks='the iteration number stays at zero with Nesterov momentum, so the learning rate never decays',
 demo=NN+r'''

int main(void){ float w[2]; for(int k=0;k<2;k++){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=1; nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error");
 metric_func mf[2]={get_metric_func("mean_squared_error"),NULL}; optimizer_t *o=OPTIMIZER(RMSprop_new(nn,OPTIMIZER_PROPERTIES(),&(rmsprop_properties_t){.learning_rate=0.01f,.rho=0.9f,.momentum=0.5f,.nesterov=true,.decay=k?0.9f:0.0f}));
 o->batchsize=1; o->shuffle=false; o->metrics=mf; float X[8]={1,1,1,1,1,1,1,1},Y[8]={0},r[4]; optimizer_run_epoch(o,8,X,Y,0,NULL,NULL,r); w[k]=nn->layer[0].weight[0]; }
 if(fabs(w[0]-w[1])<1e-6){ printf("no decay: %g %g\n",w[0],w[1]); return 1; } return 0; }'''),
dict(id='eval-zero-slot', prop='C19',
 edits=[('src/evaluate.c', '*res++ += _error;', 'if( _error != 0.0f ) *res++ += _error;')],
 needs='more than one metric and a sample whose first metric is exactly zero',
 breaks='a metric that is exactly zero for a sample does not advance the result slot: the following metrics are added to the wrong one',
 demo=NN+r'''
#include "evaluate.h"
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,2),STR_ARRAY("linear")); nn->layer[0].weight[0]=nn->layer[0].weight[1]=1; nn->layer[0].bias[0]=nn->layer[0].bias[1]=0;
 metric_func mf[3]={get_metric_func("categorical_accuracy"),get_metric_func("mean_squared_error"),NULL}; float X[2]={1,2},Y[4]={0.5f,0.0f, 0.0f,1.0f},r[2]; nn->layer[0].bias[0]=0.5f;
 evaluate(nn,2,X,Y,mf,r); float w[2]={0,0}; for(int i=0;i<2;i++){ float p[2]; neuralnet_predict(nn,X+i,p); for(int j=0;j<2;j++) w[j]+=mf[j](2,p,Y+2*i)/2; }
 for(int j=0;j<2;j++) if(fabs(w[j]-r[j])>1e-4){ printf("metric %d: %g want %g\n",j,r[j],w[j]); return 1; } return 0; }'''),
dict(id='name-80', prop='C20',
 edits=[('npy_array/npy_array_list.c', '#define MAX_FILENAME_LEN 80', '#define MAX_FILENAME_LEN 79')],
 needs='a name of exactly 80 characters',
 breaks='a name of the longest permitted length is dropped',
 demo=r'''
#include "npy_array_list.h"
#include <stdio.h>
#include <string.h>
int main(void){ char n[81]; memset(n,'a',80); n[80]=0; npy_array_t *a=calloc(1,sizeof *a); npy_array_list_t *l=npy_array_list_append(NULL,a,"%s",n);
 if(!l||!l->filename||strcmp(l->filename,n)){ printf("name lost\n"); return 1; } return 0; }'''),
dict(id='adam-shared-power', prop='C14',
 edits=[('src/adam.c', '        adam->beta_1_corrected *= adam->beta_1;\n', '        static float beta_1_power = 1.0f;\n        if( adam->beta_1_corrected == 1.0f ) beta_1_power = 1.0f;\n        beta_1_power *= adam->beta_1;\n        adam->beta_1_corrected = beta_1_power;\n')],
 needs='two Adam optimizers that are used in turn',
 breaks='the power of beta_1 is shared between the optimizers of a process: training one changes the steps of the other',
 demo=NN+r'''

static float X[4]={1,2,3,4},Y[4]={0,1,0,1}; static metric_func mf[2];
static optimizer_t *mk(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=1; nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error");
 optimizer_t *o=OPTIMIZER(adam_new(nn,OPTIMIZER_PROPERTIES(),&(adam_properties_t){.learning_rate=0.01f,.beta_1=0.9f,.beta_2=0.999f})); o->batchsize=2; o->shuffle=false; o->metrics=mf; return o; }
int main(void){ float r[2]; mf[0]=get_metric_func("mean_squared_error"); optimizer_t *a=mk(); optimizer_run_epoch(a,4,X,Y,0,NULL,NULL,r); optimizer_run_epoch(a,4,X,Y,0,NULL,NULL,r);
 optimizer_t *b=mk(),*c=mk(); optimizer_run_epoch(b,4,X,Y,0,NULL,NULL,r); optimizer_run_epoch(c,4,X,Y,0,NULL,NULL,r); optimizer_run_epoch(b,4,X,Y,0,NULL,NULL,r); 
 optimizer_run_epoch(c,4,X,Y,0,NULL,NULL,r); if(fabs(a->nn->layer[0].weight[0]-c->nn->layer[0].weight[0])>1e-6||fabs(a->nn->layer[0].weight[0]-b->nn->layer[0].weight[0])>1e-6){ printf("%g %g %g\n",a->nn->layer[0].weight[0],b->nn->layer[0].weight[0],c->nn->layer[0].weight[0]); return 1; } return 0; }'''),
dict(id='backprop-linear-hidden', prop='C04',
 edits=[('src/neuralnet.c', '        nn->layer[layer].activation_derivative( n_out, activations[layer+1], grad_b[layer] );\n', '        if( layer == 0 || nn->layer[layer].activation_derivative != nn->layer[layer-1].activation_derivative || n_out > 1 )\n            nn->layer[layer].activation_derivative( n_out, activations[layer+1], grad_b[layer] );\n')],
 needs='a layer with one output whose activation is that of the layer before it',
 breaks='the derivative of the activation is left out for a layer with one unit when the layer before it has the same activation',
 demo=NN+r'''
int main(void){ neuralnet_t *nn=neuralnet_create(2,INT_ARRAY(2,3,1),STR_ARRAY("tanh","tanh")); srand(3); neuralnet_initialize(nn,NULL); neuralnet_set_loss(nn,"mean_squared_error");
 int n=neuralnet_total_n_parameters(nn); float *g=aligned_alloc(64,(n*sizeof(float)+127)/64*64),*d=calloc(n,4); float x[2]={0.3f,-0.7f},t[1]={2.0f},p; neuralnet_backpropagation(nn,x,t,g);
 for(int i=0;i<n;i++){ double L[2]; for(int s=0;s<2;s++){ memset(d,0,4*n); d[i]=s?1e-2f:-1e-2f; neuralnet_update(nn,d); neuralnet_predict(nn,x,&p); L[s]=(p-t[0])*(double)(p-t[0]); d[i]=-d[i]; neuralnet_update(nn,d); }
  double num=(L[1]-L[0])/2e-2; if(fabs(num-g[i])>0.05*(1+fabs(num))){ printf("parameter %d: %g want %g\n",i,g[i],num); return 1; } } return 0; }'''),
dict(id='params-bias-last', prop='C16',
 edits=[('src/neuralnet.c', '        memcpy( ptr, nn->layer[l].bias, n_out * sizeof(float) );\n        ptr += n_out;\n', '        memcpy( ptr, nn->layer[l].bias, n_out * sizeof(float) );\n        ptr += n_inp > 1 ? n_out : n_inp * n_out - 1 + 1;\n        if( n_inp == 1 && n_out == 1 && l > 0 ){ *ptr = nn->layer[l].weight[0]; ptr[-1] = nn->layer[l].weight[0]; ptr[0] = nn->layer[l].bias[0]; ptr++; continue; }\n')],
 needs='a layer, not the first, with one input and one output',
 breaks='bias and weight of a layer with one input and one output change places in the parameter vector',
 demo=NN+r'''
int main(void){ neuralnet_t *nn=neuralnet_create(2,INT_ARRAY(2,1,1),STR_ARRAY("linear","linear")); for(int l=0;l<2;l++){ nn->layer[l].bias[0]=10+l; for(int i=0;i<nn->layer[l].n_input;i++) nn->layer[l].weight[i]=l*5+i; }
 float p[16]; neuralnet_get_parameters(nn,p); float w[5]={10,0,1,11,5}; for(int i=0;i<5;i++) if(p[i]!=w[i]){ printf("parameter %d: %g want %g\n",i,p[i],w[i]); return 1; } return 0; }'''),
dict(id='npy-endian-char', prop='C09',
 edits=[('npy_array/npy_array.c', "if( m->typechar == 'S') return '|';", "if( m->typechar == 'S' && m->elem_size > 9 ) return '|';")],
 needs='an array of short strings whose byte order is not set',
 breaks='the header of a string array gets a byte order, so the array that is read back differs from the one in memory',
 demo=r'''
#include "npy_array.h"
#include <stdio.h>
#include <string.h>
int main(void){ char data[6]="abcde"; char h[2048]; memset(h,0,sizeof h); npy_array_t a={.data=data,.shape={2},.ndim=1,.typechar='S',.elem_size=3}; npy_array_save("x.npy",&a); npy_array_t *b=npy_array_load("x.npy");
 if(!b||b->endianness!='|'){ printf("byte order %c\n",b?b->endianness:'0'); return 1; } return 0; }'''),
]
