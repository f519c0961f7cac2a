#include "common.h"
#include "neuralnet.h"
#include "optimizer.h"
#include "SGD.h"
#include "logger.h"
#include "metrics.h"
/* the log continues after the last recorded epoch, one complete record per epoch, for any number of metrics */
static const char *N[]={"mean_squared_error","mean_absolute_error","mean_absolute_percentage_error","binary_crossentropy","categorical_crossentropy","categorical_accuracy","binary_accuracy"};
static char old[200000],txt[400000];
static size_t slurp(const char *f,char *b,size_t cap){ FILE *fp=fopen(f,"rb"); if(!fp) return 0; size_t n=fread(b,1,cap-1,fp); fclose(fp); b[n]=0; return n; }
static const char *record(const char *p,int epoch,int M,metric_func *ms,const float *res,bool hv,const char *how){
  int h,m,s,n=-1; if(sscanf(p,"[%2d:%2d:%2d] %n",&h,&m,&s,&n)!=3||n!=11) FAIL("%s: record does not start with the time: %.60s",how,p); p+=11;
  char w[100]; snprintf(w,100,"Epoch %3d ",epoch); if(strncmp(p,w,strlen(w))) FAIL("%s: record should be of epoch %d: %.60s",how,epoch,p); p+=strlen(w);
  for(int ph=0;ph<=hv;ph++) for(int i=0;i<M;i++){ snprintf(w,100,"%s%s: %5.5e ",ph?"val_":"",get_metric_name(ms[i]),res[i+ph*M]); if(strncmp(p,w,strlen(w))) FAIL("%s: metric %d of phase %d of %d should be '%s': %.60s",how,i,ph,M,w,p); p+=strlen(w); }
  if(*p!='\n') FAIL("%s: record not ended by a newline: %.60s",how,p); return p+1; }
int main(int argc,char**argv){
  seed_(argc,argv); int sz[]={2,1}; char *ac[]={"linear",NULL}; neuralnet_t *nn=neuralnet_create(1,sz,ac); neuralnet_set_loss(nn,"mean_squared_error");
  int so=dup(1);
  for(int it=0; it<1500 && !timeup(40); it++){
    int M=it%3==0?rint_(1,40):rint_(1,4); metric_func *ms=malloc((M+1)*sizeof *ms); for(int i=0;i<M;i++) ms[i]=get_metric_func(N[rint_(0,6)]); ms[M]=NULL;
    optimizer_t *o=OPTIMIZER(SGD_new(nn,OPTIMIZER_PROPERTIES(.metrics=ms,.progress=NULL),SGD_PROPERTIES())); bool hv=rint_(0,1);
    float *res=malloc(4*M*(1+hv));
    /* an earlier log */
    int style=it<40?it%8:rint_(0,7), last=-1; unlink("log"); size_t L=0; char *p=old;
    if(style==1) L=0;
    if(style>=2&&style<6){ int k=rint_(1,it%7==0?400:6), e=rint_(0,3)?0:rint_(0,200000); for(int i=0;i<k;i++){ last=e++; p+=sprintf(p,"[12:34:%02d] Epoch %3d ",i%60,last); int w=style==2?0:rint_(0,style==3?3:12); for(int q=0;q<w;q++) p+=sprintf(p,"mean_absolute_percentage_error: %5.5e ",rfl(0,9)); p+=sprintf(p,"\n"); }
      if(style==4) p+=sprintf(p,"some remark\n"); if(style==5&&rint_(0,1)) p--; L=p-old; }
    if(style==6){ L=rint_(1,600); for(size_t i=0;i<L;i++) old[i]="\n\nab \0Eph1"[rint_(0,9)]; }
    if(style==7){ static const char *T[]={"\n","E","Epoch","Epoch ","no newline","\n\n\n","[12:00:00] Epoch   7 ","Epoch x\n"}; int t=rint_(0,7); strcpy(old,T[t]); L=strlen(old); if(t==6) last=7; }
    if(style){ FILE *f=fopen("log","wb"); fwrite(old,1,L,f); fclose(f); }
    int start=rint_(0,3)==0?rint_(1,50):0; bool quiet=rint_(0,3)!=0, nofile=rint_(0,9)==0;
    callback_t *lg=CALLBACK(logger_new(LOGGER_SETTINGS(.epoch_count=start,.filename=nofile?NULL:"log",.no_stdout=quiet))); if(!lg) FAIL("no logger");
    int e=start?start:nofile?0:last+1, E=rint_(1,4); float keep[4][200]; 
    if(freopen("out","wb",stdout)==NULL) return 0;
    for(int k=0;k<E;k++){ for(int i=0;i<M*(1+hv);i++){ res[i]=rint_(0,4)==0?rfl(-1,1)*1e-30:rfl(-1e6,1e6); if(rint_(0,30)==0) res[i]=NAN; keep[k][i]=res[i]; } callback_run(lg,o,res,hv); }
    fflush(stdout); dup2(so,1); 
    size_t n=slurp("out",txt,sizeof txt); const char *q=txt; if(quiet&&n) FAIL("output although it is switched off");
    if(!quiet){ for(int k=0;k<E;k++) q=record(q,e+k,M,ms,keep[k],hv,"stdout"); if(q!=txt+n) FAIL("more output than records"); }
    n=slurp("log",txt,sizeof txt);
    if(nofile){ if(n!=L) FAIL("log file written without being asked for"); }
    else { if(n<L||memcmp(txt,old,L)) FAIL("the earlier log is not kept"); q=txt+L; for(int k=0;k<E;k++) q=record(q,e+k,M,ms,keep[k],hv,"file"); if(q!=txt+n) FAIL("more in the log than one record per epoch"); }
    callback_free(lg); optimizer_free(o); free(res); free(ms); }
  neuralnet_free(nn); return 0; }
