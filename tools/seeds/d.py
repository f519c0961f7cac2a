NN = r'''
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <math.h>
#include "neuralnet.h"
#include "activation.h"
#include "npy_array_list.h"
'''
SEEDS = [
dict(id='save-name-width', prop='C11',
 edits=[('src/neuralnet.c', '''    for( int i = 0; i < nn->n_layers; i++ ){
        int act_name_len =  strlen(get_activation_name( nn->layer[i].activation_func ));
        if( act_name_len > longest_name )''', '''    for( int i = 0; i < nn->n_layers; i++ ){
        int act_name_len =  strlen(get_activation_name( nn->layer[i].activation_func ));
        if( act_name_len > longest_name && (i == 0 || nn->layer[i].n_output != nn->layer[i-1].n_output) )'''),
        ('src/neuralnet.c', '        int len = strlen( activation_name );\n', '        int len = strlen( activation_name );\n        len = len < longest_name ? len : longest_name;\n')],
 needs='the longest activation name in a layer that has as many outputs as the one before',
 breaks='the name of that activation is cut off in the saved file, which cannot be loaded again',
 demo=NN+r'''
int main(void){ neuralnet_t *nn=neuralnet_create(3,INT_ARRAY(2,4,4,1),STR_ARRAY("relu","hard_sigmoid","linear")); memset(nn->layer[0].weight,0,32); memset(nn->layer[1].weight,0,64); memset(nn->layer[2].weight,0,16);
 for(int i=0;i<3;i++) memset(nn->layer[i].bias,0,4*nn->layer[i].n_output);
 neuralnet_save(nn,"n.npz"); neuralnet_t *r=neuralnet_load("n.npz"); if(!r){ puts("not loaded"); return 1; } return r->layer[1].activation_func!=nn->layer[1].activation_func; }'''),
dict(id='load-bias-min', prop='C11',
 edits=[('src/neuralnet.c', 'memcpy( nn->layer[i].bias, bias->data, bias->shape[0] * sizeof(float));', 'memcpy( nn->layer[i].bias, bias->data, (bias->shape[0] & ~((size_t) i >> 3)) * sizeof(float));')],
 needs='more than eight layers, and an odd number of outputs in the ninth or a later one',
 breaks='the last bias of such a layer is not read from the file',
 demo=NN+r'''
int main(void){ int sz[12]; char *ac[11]; for(int i=0;i<12;i++) sz[i]=3; for(int i=0;i<11;i++) ac[i]="tanh"; neuralnet_t *nn=neuralnet_create(11,sz,ac);
 for(int i=0;i<11;i++){ for(int k=0;k<9;k++) nn->layer[i].weight[k]=i+k; for(int k=0;k<3;k++) nn->layer[i].bias[k]=1+i+k; }
 neuralnet_save(nn,"n.npz"); neuralnet_t *r=neuralnet_load("n.npz"); if(!r) return 1; for(int i=0;i<11;i++) if(memcmp(r->layer[i].bias,nn->layer[i].bias,12)){ printf("bias of layer %d\n",i); return 1; } return 0; }'''),
dict(id='member-name-format', prop='C11',
 edits=[('npy_array/npy_array_list.c', 'list = npy_array_list_append( list, arr, "%s", zip_get_name( zip, i, 0 ));', 'list = npy_array_list_append( list, arr, zip_get_name( zip, i, 0 ));')],
 needs='a network file with a percent sign in the name of a member',
 breaks='the member name is used as a format: a file with such a name crashes the program',
 demo=NN+r'''
#include <zip.h>
int main(void){ float w[4]={1,2,3,4}; npy_array_t *a=calloc(1,sizeof *a),*b=calloc(1,sizeof *a),*c=calloc(1,sizeof *a); a->data=malloc(16); memcpy(a->data,w,16); a->ndim=2; a->shape[0]=a->shape[1]=2; a->typechar='f'; a->elem_size=4; *b=*a; b->ndim=1; b->data=calloc(8,1); c->data=strdup("relu"); c->ndim=1; c->shape[0]=1; c->typechar='S'; c->elem_size=4;
 npy_array_list_t *l=npy_array_list_append(NULL,a,"%s","w%s%s%s%s%n%n"); l=npy_array_list_append(l,b,"b"); l=npy_array_list_append(l,c,"names"); npy_array_list_save("n.npz",l);
 neuralnet_t *r=neuralnet_load("n.npz"); if(!r) return 1; return memcmp(r->layer[0].weight,w,16)!=0; }'''),
dict(id='shuffle-short-tmp', prop='C13',
 edits=[('src/optimizer.c', '        unsigned int tmp = arr[j];\n        arr[j] = arr[i];', '        unsigned short tmp = arr[j];\n        arr[j] = arr[i];')],
 needs='more than 65536 training samples and shuffling',
 breaks='sample numbers above 65535 are cut off when they are exchanged: some samples are used twice, others never',
 demo=NN+r'''
#include "optimizer.h"
#include "loss.h"
#include "metrics.h"
#include "optimizer_implementations.h"
int main(void){ enum {N=70000}; neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=0; nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error"); metric_func mf[2]={get_metric_func("mean_squared_error"),NULL};
 optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.batchsize=64,.shuffle=true,.metrics=mf),SGD_PROPERTIES(.learning_rate=0.0f))); float *X=calloc(N,4),*Y=calloc(N,4),r[2];
 optimizer_run_epoch(o,N,X,Y,0,NULL,NULL,r); char *seen=calloc(N,1); for(int i=0;i<N;i++){ if(o->pivot[i]>=N||seen[o->pivot[i]]){ printf("sample %u is used twice\n",o->pivot[i]); return 1; } seen[o->pivot[i]]=1; } return 0; }'''),
dict(id='batch-merge-tail', prop='C13',
 edits=[('src/optimizer.c', 'remaining_samples < opt->batchsize ? remaining_samples : opt->batchsize;', 'remaining_samples <= opt->batchsize + opt->batchsize / 4 ? remaining_samples : opt->batchsize;')],
 needs='a last batch of at most a quarter of the batch size',
 breaks='the last two batches are merged into one that is larger than the batch size',
 demo=NN+r'''
#include "optimizer.h"
#include "loss.h"
#include "metrics.h"
#include "optimizer_implementations.h"
int main(void){ neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(1,1),STR_ARRAY("linear")); nn->layer[0].weight[0]=0; nn->layer[0].bias[0]=0; neuralnet_set_loss(nn,"mean_squared_error"); metric_func mf[2]={get_metric_func("mean_squared_error"),NULL};
 optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.batchsize=8,.shuffle=false,.metrics=mf),SGD_PROPERTIES(.learning_rate=0.1f))); float X[9]={0},Y[9]={1,1,1,1,1,1,1,1,1}; o->pivot=malloc(36); for(int i=0;i<9;i++) o->pivot[i]=i; o->n_pivot=9; float *bg=aligned_alloc(64,64); unsigned i=0; 
 optimizer_calc_batch_gradient(o,9,X,Y,&i,bg); if(i!=8){ printf("a batch of %u samples\n",i); return 1; } return 0; }'''),
]
