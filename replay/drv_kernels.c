#include "common.h"
#include "matrix_operations.h"
/* vector and matrix kernels against double-precision definitions */
int main(int argc,char**argv){
  seed_(argc,argv);
  for(int it=0; it<2500 && !timeup(60); it++){
    int n=pick_n(it); float s=rfl(-3,3), b=rfl(-3,3);
    buf_t v=mk(n,0), w=mk(n,0); double *o=malloc(sizeof(double)*(n+1));
    for(int k=0;k<7;k++){
      int mis = k==2 ? rint_(0,15) : 0, mis2 = k==2 ? rint_(0,15) : 0;
      buf_t y=mk(n,mis), x=mk(n,mis2); fillr(y.p,n,-2,2); fillr(x.p,n,-2,2); float d = rfl(0.25,3)*(rint_(0,1)?1:-1);
      float *xo=malloc(4*(n+1)); memcpy(xo,x.p,4*n);
      for(int i=0;i<n;i++){ double a=y.p[i], c=x.p[i];
        o[i]= k==0? a*s : k==1? a+c : k==2? a+c : k==3? a+(double)s*c : k==4? (double)b*a+(double)s*c : k==5? c*c : a/d; }
      switch(k){ case 0: vector_scale(n,y.p,s); break; case 1: vector_accumulate(n,y.p,x.p); break; case 2: vector_accumulate_unaligned(n,y.p,x.p); break;
        case 3: vector_saxpy(n,y.p,s,x.p); break; case 4: vector_saxpby(n,y.p,s,x.p,b); break; case 5: vector_square_elements(n,y.p,x.p); break; case 6: vector_divide_by_scalar(n,y.p,d); break; }
      static const char *nm[]={"vector_scale","vector_accumulate","vector_accumulate_unaligned","vector_saxpy","vector_saxpby","vector_square_elements","vector_divide_by_scalar"};
      for(int i=0;i<n;i++) if(bad(y.p[i],o[i],2)) FAIL("%s n=%d element %d: got %.9g want %.9g",nm[k],n,i,y.p[i],o[i]);
      if(memcmp(xo,x.p,4*n)) FAIL("%s n=%d changed its source operand",nm[k],n);
      free(y.raw); free(x.raw); free(xo);
    }
    free(v.raw); free(w.raw); free(o);
    int m = it<60 ? it : rint_(0,90); int q = it<60 ? rint_(0,40) : rint_(0,150);
    if(it%7==0) { int t=m; m=q; q=t; }
    { /* matrix_vector_multiply(n rows=q, m cols) */
      buf_t W=mk(q*m,rint_(0,15)), x=mk(m,rint_(0,15)), y=mk(q,rint_(0,15)); fillr(W.p,q*m,-2,2); fillr(x.p,m,-2,2); fillr(y.p,q,-9,9);
      matrix_vector_multiply(q,m,W.p,x.p,y.p);
      for(int i=0;i<q;i++){ double z=0; for(int j=0;j<m;j++) z+=(double)W.p[(size_t)i*m+j]*x.p[j]; if(bad(y.p[i],z,m)) FAIL("matrix_vector_multiply(%d,%d) row %d: got %.9g want %.9g",q,m,i,y.p[i],z); }
      free(W.raw);free(x.raw);free(y.raw); }
    { buf_t W=mk(q*m,rint_(0,15)), bb=mk(m,rint_(0,15)), x=mk(q,rint_(0,15)), y=mk(m,rint_(0,15)); fillr(W.p,q*m,-2,2); fillr(bb.p,m,-2,2); fillr(x.p,q,-2,2); fillr(y.p,m,-9,9);
      vector_matrix_multiply(q,m,W.p,bb.p,x.p,y.p);
      for(int j=0;j<m;j++){ double z=bb.p[j]; for(int i=0;i<q;i++) z+=(double)W.p[(size_t)i*m+j]*x.p[i]; if(bad(y.p[j],z,q)) FAIL("vector_matrix_multiply(%d,%d) column %d: got %.9g want %.9g",q,m,j,y.p[j],z); }
      free(W.raw);free(bb.raw);free(x.raw);free(y.raw); }
    { buf_t W=mk(q*m,rint_(0,15)), x=mk(q,rint_(0,15)), y=mk(m,rint_(0,15)); memset(W.p,0,(size_t)q*m*4); fillr(x.p,q,-2,2); fillr(y.p,m,-2,2);
      vector_vector_outer(q,m,x.p,y.p,W.p);
      for(int i=0;i<q;i++) for(int j=0;j<m;j++) if(bad(W.p[(size_t)i*m+j],(double)x.p[i]*y.p[j],0)) FAIL("vector_vector_outer(%d,%d)[%d,%d]: got %.9g want %.9g",q,m,i,j,W.p[(size_t)i*m+j],(double)x.p[i]*y.p[j]);
      free(W.raw);free(x.raw);free(y.raw); }
  }
  return 0; }
