#include "common.h"
#include "npy_array.h"
#include "npy_array_list.h"
#include <fcntl.h>
#include <sys/wait.h>
/* arbitrary bytes: a well-formed array or nothing; never a crash */
static unsigned char F[1<<18]; static size_t N; static char what[4000];
static void put(const char *hdr,size_t L,int pad,size_t data){
  memcpy(F,"\x93NUMPY\x01\x00",8); size_t n=L; memcpy(F+10,hdr,L); while(pad&&(10+n+1)%64) F[10+n++]=' '; if(pad) F[10+n++]='\n';
  F[8]=n&255; F[9]=n>>8; N=10+n; for(size_t i=0;i<data;i++) F[N++]=(unsigned char)rnd64(); }
static const char *pick(const char **a){ int n=0; while(a[n]) n++; return a[rint_(0,n-1)]; }
static long long wantes; static int wantnd; static unsigned long long wantsh[20]; static int valid;
static void gen(int it){
  static const char *D[]={"'descr': '<f4', ","'descr': '<f4', ","'descr': '|S10', ","'descr': '>i8', ","'descr': '<f-4', ","'descr': '<f99999999999999999999', ","'descr': '<f0', ","'descr': '","'descr': '<","'descr': 'f4', ","'descr': [('a','<f4')], ","","'descr': '<f9223372036854775807', ","'descr': '|b1', ",0};
  static const char *O[]={"'fortran_order': False, ","'fortran_order': False, ","'fortran_order': True, ","'fortran_order': ","'fortran_order': Maybe, ","",0};
  static const char *S[]={"'shape': (3,4), }","'shape': (3,4), }","'shape': (2,), }","'shape': (), }","'shape': (3,4","'shape': ","","'shape': (0,), }","'shape': (3,0,5), }","'shape': (-3,4), }","'shape': (99999999999999999999999,), }","'shape': (4611686018427387904,4), }","'shape': (65536,65536,65536,65536), }","'shape': (1,1,1,1,1,1,1,2), }","'shape': (1,1,1,1,1,1,1,1,1), }","'shape': (1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1,1), }","'shape': (3), }","'shape': ( 2 , 2 ), }","'shape': (2L, 2L), }","'shape': (1000000,), }",0};
  char h[70000]; valid=0; wantnd=-1;
  int mode=rint_(0,9);
  if(it<14*20) { snprintf(h,sizeof h,"{%s%s%s",D[it%14],O[0],S[it/14]); put(h,strlen(h),rint_(0,1),rint_(0,1)?48:rint_(0,100)); }
  else if(mode<4){ snprintf(h,sizeof h,"{%s%s%s",pick(D),pick(O),pick(S)); put(h,strlen(h),rint_(0,1),rint_(0,200)); }
  else if(mode<7){ /* a valid file, any amount of padding */
    valid=1; wantnd=rint_(0,8); char s[300]="",*p=s; size_t n=1; for(int i=0;i<wantnd;i++){ wantsh[i]=rint_(0,9)==0?0:rint_(1,3); n*=wantsh[i]; p+=sprintf(p,"%llu%s",wantsh[i],wantnd==1||i<wantnd-1?", ":""); }
    wantes=rint_(0,1)?4:8; int l=snprintf(h,sizeof h,"{'descr': '<f%lld', 'fortran_order': %s, 'shape': (%s), }",wantes,rint_(0,1)?"True":"False",s);
    int pad=rint_(0,3); size_t P=pad==0?0:pad==1?rint_(0,200):pad==2?rint_(100,1000):rint_(0,65000); memset(h+l,' ',P); l+=P; h[l++]='\n';
    put(h,l,0,n*wantes+(rint_(0,2)==0?rint_(0,9000):0));
    if(rint_(0,3)==0){ size_t need=10+l+n*wantes; if(n*wantes>0){ N=need-1-rnd64()%(n*wantes); valid=2; } } }
  else { snprintf(h,sizeof h,"{%s%s%s",D[0],O[0],S[rint_(0,3)]); put(h,strlen(h),1,48);
    int k=rint_(1,6); while(k--){ int w=rint_(0,4); if(w==0&&N) F[rnd64()%N]=(unsigned char)rnd64(); if(w==1&&N) F[rnd64()%(N<12?N:12)]=(unsigned char)rnd64(); if(w==2&&N) N=rnd64()%N; if(w==3&&N>20){ size_t a=10+rnd64()%(N-10); F[a]="'(),: 0123456789\0-<>"[rint_(0,19)]; } if(w==4&&N>60) F[10+rnd64()%50]="'(),: 0123456789\0-<>"[rint_(0,19)]; } }
  if(it==0) N=0; }
static void check(npy_array_t *m,const char *how){
  if(!m){ if(valid==1) FAIL("%s: a valid file is refused: %.100s",how,F+10); return; }
  if(valid==2) FAIL("%s: a file that ends before the data is accepted",how);
  if(m->ndim<0||m->ndim>8||!m->elem_size||!m->data) FAIL("%s: array with ndim %d, element size %zu, data %p from header %.200s",how,m->ndim,m->elem_size,(void*)m->data,F+10);
  unsigned __int128 n=m->elem_size; int z=0; for(int i=0;i<m->ndim;i++) if(!m->shape[i]) z=1; if(z) n=0; else for(int i=0;i<m->ndim;i++){ n*=m->shape[i]; if(n>((unsigned __int128)1<<63)) break; }
  if(npy_array_calculate_datasize(m)!=n) FAIL("%s: data size %zu but shape and element size say %.0f: %.200s",how,npy_array_calculate_datasize(m),(double)n,F+10);
  if(n>N) FAIL("%s: %.0f bytes of data from a file of %zu: %.200s",how,(double)n,N,F+10);
  unsigned hl=F[8]+256*F[9]; if(10+hl+n>N) FAIL("%s: the data does not fit the file",how);
  for(size_t i=0;i<(size_t)n;i++) if((unsigned char)m->data[i]!=F[10+hl+i]) FAIL("%s: byte %zu of the data differs",how,i);
  if(valid){ if(m->ndim!=wantnd||(long long)m->elem_size!=wantes) FAIL("%s: ndim %d elem_size %zu",how,m->ndim,m->elem_size); for(int i=0;i<wantnd;i++) if(m->shape[i]!=wantsh[i]) FAIL("%s: dimension %d is %zu instead of %llu",how,i,m->shape[i],wantsh[i]); }
  npy_array_free(m); }
static void batch(long seed,int from,int to){
  for(int it=from; it<to; it++){
    S_=seed*0x9E3779B97F4A7C15ull+it*0xD1342543DE82EF95ull+1; for(int i=0;i<8;i++) rnd64();
    gen(it); int fd=open("f.npy",O_CREAT|O_TRUNC|O_WRONLY,0600); if(write(fd,F,N)!=(ssize_t)N) exit(0); close(fd);
    int fd2=open("cur",O_CREAT|O_TRUNC|O_WRONLY,0600); dprintf(fd2,"%d",it); close(fd2);
    check(npy_array_load("f.npy"),"load"); check(npy_array_mmap("f.npy"),"mmap");
    if(it%4==0){ zip_t *z=zip_open("f.npz",ZIP_CREATE|ZIP_TRUNCATE,NULL); unsigned char *c=malloc(N?N:1); memcpy(c,F,N); zip_source_t *s=zip_source_buffer_create(c,N,0,NULL); char name[200]; int nl=rint_(1,150); memset(name,'n',nl); name[nl]=0; if(nl>4&&rint_(0,1)) memcpy(name,"%s%n",4);
      zip_file_add(z,name,s,ZIP_FL_ENC_UTF_8); zip_close(z); free(c);
      if(rint_(0,4)==0){ FILE *f=fopen("f.npz","r+b"); fseek(f,0,SEEK_END); long sz=ftell(f); for(int k=rint_(1,4);k--;){ fseek(f,rnd64()%sz,SEEK_SET); fputc((int)rnd64()&255,f);} fclose(f);
        npy_array_list_t *l=npy_array_list_load("f.npz"); npy_array_list_free(l); }
      else { npy_array_list_t *l=npy_array_list_load("f.npz"); npy_array_list_t *rest=l; if(l){ npy_array_t *m=l->array; l->array=NULL; check(m,"archive"); if(strlen(name)<=80&&(!l->filename||strcmp(l->filename,name))) FAIL("archive: member '%s' named '%s'",name,l->filename?l->filename:"(none)"); } else check(NULL,"archive"); npy_array_list_free(rest); } } } }
int main(int argc,char**argv){
  seed_(argc,argv);
  batch(argc>1?atoll(argv[1]):1,0,4000); return 0; }
