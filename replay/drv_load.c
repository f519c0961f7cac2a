#include "common.h"
#include "neuralnet.h"
#include "activation.h"
#include "npy_array_list.h"
/* a loaded network is the network of the file, or the file is refused */
static char *A[]={"linear","relu","sigmoid","tanh","softplus","softsign","hard_sigmoid","exponential","softmax"};
static npy_array_t *mka(char t,int es,int nd,size_t a,size_t b){ npy_array_t *m=calloc(1,sizeof *m); m->ndim=nd; m->shape[0]=nd?a:0; if(nd>1) m->shape[1]=b; for(int i=2;i<nd;i++) m->shape[i]=1; m->typechar=t; m->elem_size=es; size_t n=npy_array_calculate_datasize(m); m->data=malloc(n?n:1);
  if(t=='f'&&es==4) for(size_t i=0;i<n/4;i++) ((float*)m->data)[i]=rfl(-3,3); else for(size_t i=0;i<n;i++) m->data[i]=(char)rnd64(); return m; }
static void same(const neuralnet_t *a,const neuralnet_t *b,const char *how){
  if(!b) FAIL("%s: a network of %d layers is refused",how,a->n_layers); if(a->n_layers!=b->n_layers) FAIL("%s: %d layers instead of %d",how,b->n_layers,a->n_layers);
  for(int l=0;l<a->n_layers;l++){ if(a->layer[l].n_input!=b->layer[l].n_input||a->layer[l].n_output!=b->layer[l].n_output) FAIL("%s: layer %d is %d x %d instead of %d x %d",how,l,b->layer[l].n_input,b->layer[l].n_output,a->layer[l].n_input,a->layer[l].n_output);
    if(a->layer[l].activation_func!=b->layer[l].activation_func) FAIL("%s: activation of layer %d is %s instead of %s",how,l,get_activation_name(b->layer[l].activation_func),get_activation_name(a->layer[l].activation_func));
    int N=a->layer[l].n_input*a->layer[l].n_output; if(memcmp(a->layer[l].weight,b->layer[l].weight,N*4)||memcmp(a->layer[l].bias,b->layer[l].bias,4*a->layer[l].n_output)) FAIL("%s: parameters of layer %d (%d x %d) differ",how,l,a->layer[l].n_input,a->layer[l].n_output); } }
static void put_(char *d,const char *s){ memset(d,0,12); memcpy(d,s,strlen(s)); }
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<1200 && !timeup(45); it++){
    int n=rint_(1,5); if(it%100==99) n=rint_(30,60); int sz[70]; char *ac[70]; for(int i=0;i<=n;i++){ sz[i]=rint_(0,3)==0?1:rint_(1,30); ac[i]=A[rint_(0,8)]; } if(it%5==0) for(int i=0;i<=n;i++) ac[i]=A[it/5%9];
    neuralnet_t *nn=neuralnet_create(n,sz,ac); if(!nn) FAIL("no network");
    for(int l=0;l<n;l++){ int N=sz[l]*sz[l+1]; for(int k=0;k<N;k++) nn->layer[l].weight[k]=rint_(0,20)==0?NAN:rint_(0,9)==0?-0.0f:rfl(-5,5); for(int k=0;k<sz[l+1];k++) nn->layer[l].bias[k]=rint_(0,20)==0?INFINITY:rfl(-5,5); }
    unlink("n-3.npz"); unlink("n%d.npz"); 
    neuralnet_save(nn,"n-%d.npz",3); neuralnet_t *r=neuralnet_load("n-3.npz"); same(nn,r,"save and load"); neuralnet_free(r);
    /* the same network as another program would write it: longer strings in the name array, padding */
    for(int mode=0;mode<4;mode++){
      npy_array_list_t *l=NULL; npy_array_t *w[70],*b[70],*names; int es=mode==0?rint_(12,40):12; int bad=0, cnt=n; int k=rint_(0,n-1);
      for(int i=0;i<n;i++){ w[i]=mka('f',4,2,sz[i],sz[i+1]); memcpy(w[i]->data,nn->layer[i].weight,4*sz[i]*sz[i+1]); b[i]=mka('f',4,1,sz[i+1],0); memcpy(b[i]->data,nn->layer[i].bias,4*sz[i+1]); }
      names=mka('S',es,1,n,0); memset(names->data,0,n*es); for(int i=0;i<n;i++) memcpy(names->data+i*es,ac[i],strlen(ac[i]));
      int drop=-1, p=mode==0?-1:rint_(0,16), nonames=0, twice=0;
#define RE(X,...) do{ npy_array_free(X); X=mka(__VA_ARGS__); bad=1; }while(0)
      if(p==0){ RE(w[k],'f',4,2,sz[k]+rint_(1,3),sz[k+1]); bad=k>0; }
      if(p==1) RE(w[k],'f',4,2,sz[k],sz[k+1]+rint_(1,50));
      if(p==2) RE(b[k],'f',4,1,sz[k+1]+rint_(1,200),0);
      if(p==3) RE(b[k],'f',4,1,sz[k+1]-1,0);
      if(p==4) RE(w[k],'f',rint_(0,1)?8:2,2,sz[k],sz[k+1]);
      if(p==5) RE(b[k],'f',rint_(0,1)?8:2,1,sz[k+1],0);
      if(p==6) RE(w[k],'f',4,rint_(0,1)*2+1,sz[k],sz[k+1]);
      if(p==7) RE(b[k],'f',4,rint_(0,1)*2,sz[k+1],1);
      if(p==8){ w[k]->fortran_order=true; bad=1; }
      if(p==9){ nonames=1; bad=1; }
      if(p==10){ RE(names,'S',12,1,n+rint_(1,3),0); memset(names->data,0,12*names->shape[0]); for(size_t i=0;i<names->shape[0];i++) put_(names->data+12*i,ac[i%n]); }
      if(p==11){ if(n>1){ RE(names,'S',12,1,n-1,0); memset(names->data,0,12*(n-1)); for(int i=0;i<n-1;i++) put_(names->data+12*i,ac[i]); } else RE(names,'S',12,0,0,0); }
      if(p==12){ drop=rint_(0,2*n-1); bad=1; }
      if(p==13){ put_(names->data+12*k,"nosuch"); bad=1; }
      if(p==14){ RE(w[k],rint_(0,1)?'i':'u',4,2,sz[k],sz[k+1]); }
      if(p==15){ w[k]->endianness='>'; bad=1; }
      if(p==16){ twice=1; bad=1; }
      int at=rint_(0,2*n), q=0;
      for(int i=0;i<n;i++){ if(q++!=drop) l=npy_array_list_append(l,w[i],"weight_%d",i); else npy_array_free(w[i]); if(q++!=drop) l=npy_array_list_append(l,b[i],"bias_%d",i); else npy_array_free(b[i]); if(!nonames&&mode!=0&&at/2==i&&p!=12) l=npy_array_list_append(l,names,"activations"), nonames=2; }
      if(nonames==0) l=npy_array_list_append(l,names,"activations"); else if(nonames==1) npy_array_free(names);
      if(twice) l=npy_array_list_append(l,mka('S',3,1,2,0),"more");
      unlink("m.npz"); npy_array_list_save("m.npz",l); npy_array_list_free(l);
      r=neuralnet_load("m.npz"); 
      if(bad){ if(r) FAIL("a file that describes no network (change %d in layer %d of %d) is not refused",p,k,n); }
      else if(p!=0){ same(nn,r,"file of another program"); } else if(!r) FAIL("a valid file is refused");
      neuralnet_free(r); }
    neuralnet_free(nn); }
  { neuralnet_t *nn=neuralnet_create(1,INT_ARRAY(2,3),STR_ARRAY("tanh")); npy_array_t *w=mka('f',4,2,2,3),*b=mka('f',4,1,3,0),*n=mka('S',12,1,1,0); put_(n->data,"tanh"); memcpy(nn->layer[0].weight,w->data,24); memcpy(nn->layer[0].bias,b->data,12);
    npy_array_list_t *l=npy_array_list_append(NULL,w,"%s","w%s%s%s%s%s%s%n%n"); l=npy_array_list_append(l,b,"%s","b %d%%"); l=npy_array_list_append(l,n,"%s","%"); unlink("m.npz"); npy_array_list_save("m.npz",l); npy_array_list_free(l);
    neuralnet_t *r=neuralnet_load("m.npz"); same(nn,r,"percent signs in the names of the members"); neuralnet_free(r); neuralnet_free(nn); }
  { FILE *f=fopen("bad","wb"); fputs("PK\5\6 nothing",f); fclose(f); if(neuralnet_load("bad")) FAIL("no archive"); if(neuralnet_load("missing")) FAIL("no file"); }
  return 0; }
