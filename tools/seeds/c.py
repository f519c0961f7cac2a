NN = r'''
#include "neuralnet.h"
#include "activation.h"
#include "optimizer.h"
#include "optimizer_implementations.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
'''
SEEDS = [
dict(id='predict-pad-one', prop='C01', nth={'src/neuralnet.c': 0},
 edits=[('src/neuralnet.c', '(nn->layer[i-1].n_output + floats_per_simd_register - 1) / floats_per_simd_register;', '(nn->layer[i-1].n_output + floats_per_simd_register - 2) / floats_per_simd_register;')],
 needs='at least three layers, and a first layer whose size is one more than a multiple of the register width',
 breaks='the work areas of two hidden layers share an element: the second overwrites the last value of the first while it is still read',
 demo=NN+r'''
int main(void){ for(int n=1;n<40;n++){ neuralnet_t *nn=neuralnet_create(3,INT_ARRAY(2,n,3,1),STR_ARRAY("linear","linear","linear")); srand(n); neuralnet_initialize(nn,STR_ARRAY("xavier","xavier","xavier"));
 for(int l=0;l<3;l++) for(int j=0;j<nn->layer[l].n_output;j++) nn->layer[l].bias[j]=0.5f+j;
 float x[2]={1.5f,-0.5f},p; neuralnet_predict(nn,x,&p); double a[64],b[64]; a[0]=x[0];a[1]=x[1];
 for(int l=0;l<3;l++){ layer_t *L=nn->layer+l; for(int j=0;j<L->n_output;j++){ b[j]=L->bias[j]; for(int i=0;i<L->n_input;i++) b[j]+=a[i]*L->weight[i*L->n_output+j]; } memcpy(a,b,sizeof a); }
 if(fabs(a[0]-p)>1e-3*(1+fabs(p))){ printf("size %d: %g want %g\n",n,p,a[0]); return 1; } } return 0; }'''),
dict(id='relu-peel', prop='C03', flags='-mavx2 -mfma -fsanitize=address',
 edits=[('src/activation.c', 'for ( ; !is_aligned( y + i ) && i < n; i++)\n        y[i] = fmaxf(0.0f, y[i]);', 'for ( ; !is_aligned( y + i ) && i < 8; i++)\n        y[i] = fmaxf(0.0f, y[i]);')],
 needs='an AVX build and a short vector that does not begin on an aligned address',
 breaks='relu reads and writes past the end of a short unaligned vector',
 demo=NN+r'''
int main(void){ activation_func f=get_activation_func("relu"); float *p=malloc(5*sizeof(float)); for(int i=0;i<5;i++) p[i]=i-2; f(4,p+1); return p[1]!=0; }'''),
dict(id='name-prefix', prop='C08',
 edits=[('src/activation.c', '        !strcmp( name, #func) ? func :', '        !strncmp( name, #func, sizeof(#func) - 1) ? func :')],
 needs='an unknown name that begins with a known one',
 breaks='names like "relu6" or "softmax_v2" are silently taken for relu and softmax',
 demo=NN+r'''
int main(void){ const char *bad[]={"relu6","linearly","sigmoid ","softmax_v2"}; for(int i=0;i<4;i++) if(get_activation_func(bad[i])){ printf("%s is accepted\n",bad[i]); return 1; } return 0; }'''),
dict(id='batch-repeat', prop='C21',
 edits=[('src/neuralnet_predict_batch.c', '    for ( int i = 0; i < n_samples; i++ )\n        neuralnet_predict( nn, inputs + (size_t) i * n_inputs, output + (size_t) i * n_output);', '    for ( int i = 0; i < n_samples; i++ ){\n        if( i && !memcmp( inputs + (size_t) i * n_inputs, inputs + (size_t) (i-1) * n_inputs, n_inputs ) ) /* same as the one before */\n            memcpy( output + (size_t) i * n_output, output + (size_t) (i-1) * n_output, n_output * sizeof(float) );\n        else\n            neuralnet_predict( nn, inputs + (size_t) i * n_inputs, output + (size_t) i * n_output);\n    }')],
 needs='two consecutive samples that agree in their first quarter',
 breaks='a sample that begins like the one before gets the output of the one before',
 demo=NN+r'''
#include "neuralnet_predict_batch.h"
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(4,1),STR_ARRAY("linear")); srand(2); neuralnet_initialize(nn,STR_ARRAY("xavier")); float X[8]={0,1,2,3,0,1,2,9},y[2],p; neuralnet_predict_batch(nn,2,X,y);
 for(int i=0;i<2;i++){ neuralnet_predict(nn,X+4*i,&p); if(fabs(p-y[i])>1e-5){ printf("sample %d: %g want %g\n",i,y[i],p); return 1; } } return 0; }'''),
dict(id='normal-origin', prop='C18',
 edits=[('src/neuralnet.c', '} while (S >= 1.0f || S == 0.0f);', '} while (S >= 1.0f);')],
 needs='two consecutive random numbers exactly in the middle of their range',
 breaks='a pair of uniform numbers that are both zero gives weights that are not a number',
 demo=NN+r'''
static int k; int rand(void){ static const int v[]={1<<30,1<<30,1500000000,1000000000}; return v[k++&3]; }
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(2,2),STR_ARRAY("relu")); neuralnet_initialize(nn,STR_ARRAY("kaiming")); for(int i=0;i<4;i++) if(!isfinite(nn->layer[0].weight[i])){ printf("weight %d: %g\n",i,nn->layer[0].weight[i]); return 1; } return 0; }'''),
dict(id='bias-oom', prop='C17', flags='-mno-avx -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=posix_memalign -Wl,--wrap=free',
 edits=[('src/neuralnet.c', '        if (NULL == (nn->layer[i].bias = simd_malloc( nn->layer[i].n_output * sizeof( float ))))\n            goto weight_alloc_error;', '        if (NULL == (nn->layer[i].bias = simd_malloc( nn->layer[i].n_output * sizeof( float ))))\n            return false;')],
 needs='memory that runs out at the allocation of a bias vector',
 breaks='the weights that are already allocated are never released when a bias vector cannot be allocated',
 demo=NN+r'''
void *__real_malloc(size_t); void *__real_calloc(size_t,size_t); int __real_posix_memalign(void**,size_t,size_t); void __real_free(void*);
static int live,left=-1; static int no(void){ return left>=0 && left--==0; }
void *__wrap_malloc(size_t n){ if(no()) return NULL; live++; return __real_malloc(n); }
void *__wrap_calloc(size_t a,size_t n){ if(no()) return NULL; live++; return __real_calloc(a,n); }
int __wrap_posix_memalign(void **p,size_t a,size_t n){ if(no()) return 12; live++; return __real_posix_memalign(p,a,n); }
void __wrap_free(void *p){ if(p) live--; __real_free(p); }
int main(void){ int sizes[3]={2,3,4}; char *names[2]={"linear","relu"}; for(int k=0;k<6;k++){ left=k; live=0; neuralnet_t *nn=neuralnet_create(2,sizes,names); left=-1; if(nn) break; if(live){ printf("allocation %d fails: %d blocks left\n",k,live); return 1; } } return 0; }'''),
dict(id='log-interleave', prop='C22',
 edits=[('src/logger.c', 'epoch_results[i + (phase * n_metrics)] );', 'epoch_results[(i << validation_set_given) + phase] );')],
 needs='a validation set and at least two metrics',
 breaks='with a validation set the values of the metrics are logged in the wrong columns',
 demo=NN+r'''
#include "logger.h"
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); metric_func mf[3]={get_metric_func("mean_squared_error"),get_metric_func("mean_absolute_error"),NULL}; optimizer_t o; memset(&o,0,sizeof o); o.nn=nn; o.metrics=mf;
 logger_t *l=logger_new(&(logger_config){.filename="log.txt",.no_stdout=true}); float s[4]={1.25f,2.25f,3.25f,4.25f}; callback_run(CALLBACK(l),&o,s,true);
 FILE *f=fopen("log.txt","r"); char b[4096]; size_t n=f?fread(b,1,4095,f):0; b[n]=0; char *a[4]; const char *w[4]={"1.25","2.25","3.25","4.25"}; char *q=b; for(int i=0;i<4;i++){ q=strstr(q,w[i]); if(!q){ printf("%s is not in its place: %s\n",w[i],b); return 1; } } return 0; }'''),
dict(id='short-data-order', prop='C10', flags='-mno-avx -fsanitize=address',
 edits=[('npy_array/npy_array.c', '        free( m->data );\n        free( m );\n        return NULL;\n', '        free( m );\n        free( m->data );\n        return NULL;\n')],
 needs='a file that ends in the middle of its data',
 breaks='the array is released before its data: the pointer to the data is read from freed memory',
 demo=r'''
#include "npy_array.h"
#include <stdio.h>
#include <string.h>
int main(void){ float d[8]={1,2,3,4,5,6,7,8}; npy_array_t a={.data=(char*)d,.shape={8},.ndim=1,.typechar='f',.elem_size=4}; npy_array_save("x.npy",&a); FILE *f=fopen("x.npy","rb"); char b[1024]; size_t n=fread(b,1,1024,f); fclose(f);
 f=fopen("y.npy","wb"); fwrite(b,1,n-5,f); fclose(f); return npy_array_load("y.npy")!=NULL; }'''),
dict(id='batch-mean-short', prop='C13',
 edits=[('src/optimizer.c', 'vector_divide_by_scalar( n_parameters, batchgrad, (float) batchsize );', 'vector_divide_by_scalar( n_parameters, batchgrad, (float) opt->batchsize );')],
 needs='a number of samples that is not a multiple of the batch size',
 breaks='the gradient of the last, shorter batch is divided by the full batch size',
 demo=NN+r'''
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=0; nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error"); metric_func mf[2]={get_metric_func("mean_squared_error"),NULL};
 optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.batchsize=8,.shuffle=false,.metrics=mf),SGD_PROPERTIES(.learning_rate=0.1f))); float X[3]={1,1,1},Y[3]={1,1,1},r[2],g[2],w; float x=1,y=1; float *gg=aligned_alloc(64,64); neuralnet_backpropagation(nn,&x,&y,gg); w=-0.1f*gg[0];
 optimizer_run_epoch(o,3,X,Y,0,NULL,NULL,r); if(fabs(nn->layer[0].bias[0]-w)>1e-5){ printf("bias %g want %g\n",nn->layer[0].bias[0],w); return 1; } return 0; }'''),
]
