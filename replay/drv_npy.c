#include "common.h"
#include "npy_array.h"
#include "npy_array_list.h"
/* arrays and archives read back identically; the header is a valid header of the format */
static void fill(npy_array_t *m,int it){
  static const char T[]="fiucbSmV"; static const int ES[]={1,2,4,8,16,32,3,7,12,100,1000};
  memset(m,0,sizeof *m); m->ndim=it<90?it%9:rint_(0,8); m->typechar=T[rint_(0,7)]; m->elem_size=ES[rint_(0,m->typechar=='S'||m->typechar=='V'?10:5)]; m->fortran_order=rint_(0,1);
  int zero=m->ndim&&rint_(0,4)==0; size_t left=zero?1:600;
  for(int i=0;i<m->ndim;i++){ size_t d=rint_(1,6); if(rint_(0,3)==0) d=1; if(rint_(0,5)==0) d=rint_(1,400); if(d>left) d=1; left/=d; m->shape[i]=d; }
  if(zero){ int big=rint_(0,1); size_t tot=1; int z=rint_(0,m->ndim-1);
    for(int i=0;i<m->ndim;i++){ if(i==z) m->shape[i]=0; else if(big) m->shape[i]=rint_(0,1)?rint_(0,2000000000):3000000000ull+rnd64()%1000; else m->shape[i]=rint_(0,5); (void)tot; }
    for(int i=0;i<z;i++) if(big) m->shape[i]=rint_(1,3); }
  size_t n=m->elem_size; for(int i=0;i<m->ndim;i++) n*=m->shape[i];
  m->data=malloc(n?n:1); for(size_t i=0;i<n;i++) m->data[i]=(char)rnd64();
  m->endianness = rint_(0,3)==0 ? (m->elem_size==1||m->typechar=='S'?'|':'<') : 0; }
static size_t bytes(const npy_array_t *m){ size_t n=m->elem_size; for(int i=0;i<m->ndim;i++) n*=m->shape[i]; return n; }
static void same(const npy_array_t *a,const npy_array_t *b,const char *how){
  char s[200]="",*p=s; for(int i=0;i<a->ndim;i++) p+=sprintf(p,"%zu,",a->shape[i]);
  if(!b) FAIL("%s: array of type %c%zu, order %d, shape (%s) is not read back",how,a->typechar,a->elem_size,a->fortran_order,s);
  if(a->ndim!=b->ndim||a->typechar!=b->typechar||a->elem_size!=b->elem_size||a->fortran_order!=b->fortran_order) FAIL("%s: %c%zu order %d ndim %d read back as %c%zu order %d ndim %d (shape %s)",how,a->typechar,a->elem_size,a->fortran_order,a->ndim,b->typechar,b->elem_size,b->fortran_order,b->ndim,s);
  for(int i=0;i<a->ndim;i++) if(a->shape[i]!=b->shape[i]) FAIL("%s: shape (%s): dimension %d read back as %zu",how,s,i,b->shape[i]);
  if(a->endianness&&b->endianness!=a->endianness) FAIL("%s: byte order %c read back as %c",how,a->endianness,b->endianness);
  if(!a->endianness&&b->endianness!=(a->elem_size==1||a->typechar=='S'?'|':'<')) FAIL("%s: array of type %c%zu without a byte order is read back with byte order '%c'",how,a->typechar,a->elem_size,b->endianness);
  if(npy_array_calculate_datasize(b)!=bytes(a)) FAIL("%s: shape (%s) type %c%zu: data size %zu instead of %zu",how,s,a->typechar,a->elem_size,npy_array_calculate_datasize(b),bytes(a));
  for(size_t i=0;i<bytes(a);i++) if(a->data[i]!=b->data[i]) FAIL("%s: type %c%zu shape (%s): byte %zu of the data differs",how,a->typechar,a->elem_size,s,i); }
static void header(const char *fn,const npy_array_t *m){
  FILE *f=fopen(fn,"rb"); if(!f) FAIL("file not written"); unsigned char h[4096]; size_t n=fread(h,1,4096,f); fseek(f,0,SEEK_END); size_t sz=ftell(f); fclose(f);
  if(n<10||memcmp(h,"\x93NUMPY\x01\x00",8)) FAIL("header: magic or version"); size_t L=h[8]+256*h[9];
  if((10+L)%64) FAIL("header: %zu bytes before the data, not a multiple of 64",10+L);
  if(n<10+L||h[10+L-1]!='\n') FAIL("header: not ended by a newline (ndim %d)",m->ndim);
  if(sz!=10+L+bytes(m)) FAIL("file size %zu, header %zu, data %zu",sz,10+L,bytes(m));
  char s[400]="",*p=s; for(int i=0;i<m->ndim;i++) p+=sprintf(p,"%zu,",m->shape[i]);
  char w[1000]; snprintf(w,1000,"%c%zu', 'fortran_order': %s, 'shape': (%s), }",m->typechar,m->elem_size,m->fortran_order?"True":"False",s);
  h[10+L-1]=0; char *q=strstr((char*)h+10,w); if(!q||memcmp(h+10,"{'descr': '",11)) FAIL("header: '%s' should describe %s",h+10,w);
  for(q+=strlen(w);*q;q++) if(*q!=' ') FAIL("header: padding is not spaces"); }
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<1500 && !timeup(40); it++){
    npy_array_t m; fill(&m,it);
    npy_array_save("a.npy",&m); header("a.npy",&m);
    npy_array_t *r=npy_array_load("a.npy"); same(&m,r,"load"); npy_array_free(r);
    r=npy_array_mmap("a.npy"); same(&m,r,"mmap"); npy_array_free(r);
    if(it%3==0){ int n=rint_(1,6); npy_array_t *a[6]; npy_array_list_t *l=NULL; char nm[6][100];
      for(int i=0;i<n;i++){ a[i]=malloc(sizeof m); fill(a[i],rint_(0,1000)); int w=rint_(0,3); snprintf(nm[i],100,w==0?"weight_%d":w==1?"a%%s%%n %d":w==2?"dir/x y%d.npy":"%dabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyzabcdefghijklmnopqrstuvwxyz",i);
        l=npy_array_list_append(l,a[i],"%s",nm[i]); }
      int comp=rint_(0,1); int c=comp?npy_array_list_save_compressed("l.npz",l,ZIP_CM_DEFLATE,1):npy_array_list_save("l.npz",l);
      if(c!=n) FAIL("archive: %d of %d arrays written",c,n);
      npy_array_list_t *q=npy_array_list_load("l.npz"),*k=q; if((int)npy_array_list_length(q)!=n) FAIL("archive: %zu of %d arrays read back",npy_array_list_length(q),n);
      for(int i=0;i<n;i++,k=k->next){ same(a[i],k->array,"archive"); if(!k->filename||strcmp(k->filename,nm[i])) FAIL("archive: member %d named '%s' instead of '%s'",i,k->filename?k->filename:"(none)",nm[i]); }
      npy_array_list_free(q); npy_array_list_free(l); }
    free(m.data); }
  return 0; }
