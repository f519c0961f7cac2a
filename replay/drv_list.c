#include "common.h"
#include "npy_array.h"
#include "npy_array_list.h"
/* histories of append / prepend / length / free against a plain sequence; allocation failures; ownership */
static long fail_at=-1, nalloc; static int arm;
extern void *__real_malloc(size_t); extern void *__real_calloc(size_t,size_t); extern void *__real_realloc(void*,size_t);
void *__wrap_malloc(size_t n){ if(arm && nalloc++==fail_at) return NULL; return __real_malloc(n); }
void *__wrap_calloc(size_t a,size_t b){ if(arm && nalloc++==fail_at) return NULL; return __real_calloc(a,b); }
void *__wrap_realloc(void *p,size_t b){ if(arm && nalloc++==fail_at) return NULL; return __real_realloc(p,b); }
static npy_array_t *arr(int id){ npy_array_t *m=calloc(1,sizeof *m); m->ndim=1; m->shape[0]=1; m->typechar='i'; m->elem_size=4; m->data=malloc(4); memcpy(m->data,&id,4); return m; }
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<6000 && !timeup(40); it++){
    int n=0,cap=it<50?it%6:rint_(0,it%50==0?300:12); struct { npy_array_t *a; char nm[100]; int named; } Q[400]; npy_array_list_t *l=NULL;
    if(npy_array_list_length(NULL)!=0) FAIL("length of no list");
    int sz=0;
    while(sz<cap){
      npy_array_t *a=rint_(0,20)==0?NULL:arr(sz); char want[200]; int front=rint_(0,1), w=rint_(0,5), k=rint_(-5,100000); npy_array_list_t *r;
      fail_at=rint_(0,25)==0?rint_(0,1):-1; nalloc=0; npy_array_list_t *head=l;
#define CALL(...) (arm=1, r=front?npy_array_list_prepend(l,a,__VA_ARGS__):npy_array_list_append(l,a,__VA_ARGS__), arm=0, snprintf(want,200,__VA_ARGS__))
      char x[160]; int xl=rint_(0,3)?rint_(0,60):rint_(75,90); for(int i=0;i<xl;i++) x[i]="abcdefg/%._-"[rint_(0,11)]; x[xl]=0;
      if(w==0) CALL("weight_%d",k); else if(w==1) CALL("plain"); else if(w==2) CALL("%s",x); else if(w==3) CALL("%s_%d.npy",x,k); else if(w==4) CALL("%d%%%c",k,'z'); else CALL("%5.2f|%s",k*0.5,"q");
      if(fail_at==0){ if(r!=head) FAIL("append without memory changes the list"); if(a){ free(a->data); free(a);} continue; }
      l=r; if(!l) FAIL("list lost");
      int pos=front?0:sz; memmove(Q+pos+1,Q+pos,(sz-pos)*sizeof *Q); Q[pos].a=a; Q[pos].named=strlen(want)<=80&&fail_at!=1; strcpy(Q[pos].nm,strlen(want)<100?want:""); sz++;
      if((int)npy_array_list_length(l)!=sz) FAIL("length %zu after %d additions",npy_array_list_length(l),sz);
      if(sz<20||sz==cap){ int i=0; for(npy_array_list_t *p=l;p;p=p->next,i++){ if(i>=sz) FAIL("list too long"); if(p->array!=Q[i].a) FAIL("element %d of %d is not the array expected (last operation %s)",i,sz,front?"prepend":"append");
        if(Q[i].named&&(!p->filename||strcmp(p->filename,Q[i].nm))) FAIL("name of element %d is '%s' instead of '%s'",i,p->filename?p->filename:"(none)",Q[i].nm); } if(i!=sz) FAIL("list of %d has %d elements",sz,i); } }
    npy_array_list_free(l); }
  npy_array_list_t *l=NULL; for(int i=0;i<300000;i++) l=npy_array_list_prepend(l,arr(i),"n%d",i);
  int i=0; for(npy_array_list_t *p=l;p;p=p->next,i++) if(*(int*)p->array->data!=299999-i) FAIL("order of a long list");
  npy_array_list_free(l); npy_array_list_free(NULL); return 0; }
