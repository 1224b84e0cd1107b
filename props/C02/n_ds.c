#include "njs.h"
/* random operation histories on the real dynamic strings against a plain byte-array model */
static char m[1<<22]; static unsigned ml; static char big[70000]; static char hist[4000]; 
static void chk(Jsi_DString*d,const char*op){ if(Jsi_DSLength(d)!=ml) { nv_fail("length","after %s: length %u, model %u",op,Jsi_DSLength(d),ml); return; } const char*v=Jsi_DSValue(d); if(memcmp(v,m,ml)) { unsigned i=0; while(v[i]==m[i]) i++; nv_fail("contents","after %s: byte %u of %u is %02x, model %02x",op,i,ml,(unsigned char)v[i],(unsigned char)m[i]); } else if(v[ml]) nv_fail("terminator","after %s: not terminated",op); }
static void add(const char*s,unsigned n){ memcpy(m+ml,s,n); ml+=n; }
static void hadd(const char*f,int a){ int l=strlen(hist); if(l<3900) snprintf(hist+l,60,f,a); }
static void runop(Jsi_DString*d){ char t[64]; int op=nv_below(12); unsigned n=nv_below(4)?nv_below(300):nv_below(nv_below(3)?12000:40000); if(ml>1500000) op=3;
  switch(op){
  case 0: case 1: hadd("append(%d) ",n); nv_begin("%s",hist); { unsigned o=nv_below(20000); Jsi_DSAppendLen(d,big+o,n); add(big+o,n);} break;
  case 2: hadd("appendstr(%d) ",n); nv_begin("%s",hist); { char*s=malloc(n+1); memset(s,'a'+n%26,n); s[n]=0; Jsi_DSAppend(d,s,"-",s,NULL); add(s,n); add("-",1); add(s,n); free(s);} break;
  case 3: n=ml?nv_below(ml+1):0; hadd("setlength(%d) ",n); nv_begin("%s",hist); Jsi_DSSetLength(d,n); if(n<ml) ml=n; break;
  case 4: hadd("reserve(%d) ",ml+n); nv_begin("%s",hist); Jsi_DSSetLength(d,ml+n); break;
  case 5: case 6: case 7: hadd("printf(%%s %d) ",n); nv_begin("%s",hist); { char*s=malloc(n+1); memset(s,'A'+n%26,n); s[n]=0; Jsi_DSPrintf(d,"%s<%d>",s,n); add(s,n); int l=sprintf(t,"<%d>",n); add(t,l); free(s);} break;
  case 8: hadd("set(%d) ",n); nv_begin("%s",hist); { char*s=malloc(n+1); memset(s,'0'+n%10,n); s[n]=0; Jsi_DSSet(d,s); ml=0; add(s,n); free(s);} break;
  case 9: if(nv_below(4)) break; hadd("freedup ",0); nv_begin("%s",hist); { char*r=Jsi_DSFreeDup(d); if(memcmp(r,m,ml)||r[ml]) nv_fail("freedup","copy differs"); Jsi_Free(r); ml=0; } break;
  case 10: if(nv_below(6)) break; hadd("free ",0); nv_begin("%s",hist); Jsi_DSFree(d); ml=0; break;
  case 11: hadd("appendnull ",0); nv_begin("%s",hist); Jsi_DSAppendLen(d,NULL,n); break; }
  chk(d,"last op"); nv_nontrivial++; }
static void literal(int k){ /* strings declared with an initial value */
  ml=0; hist[0]=0; if(k==0){ Jsi_DString d={"short"}; hadd("={\"short\"} ",0); add("short",5); chk(&d,"init"); for(int i=0;i<6;i++) runop(&d); Jsi_DSFree(&d); }
  else if(k==1){ Jsi_DString d={}; hadd("={} ",0); for(int i=0;i<6;i++) runop(&d); Jsi_DSFree(&d); }
  else { static char L[600]; int n=150+nv_below(400); memset(L,'L',n); L[n]=0; Jsi_DString d={0}; d.strA=L; hadd("={literal %d} ",n); add(L,n); nv_begin("%s",hist); chk(&d,"init"); for(int i=0;i<6;i++) runop(&d); Jsi_DSFree(&d); } }
static void var(void){ JSI_DSTRING_VAR(d,1000); ml=0; strcpy(hist,"VAR(1000) "); for(int i=0;i<8;i++) runop(d); Jsi_DSFree(d); }
int main(int argc,char**argv){ nv_init(argc,argv); for(unsigned i=0;i<sizeof big;i++) big[i]=nv_rand();
  { Jsi_DString d={}; ml=0; nv_begin("append past half of the allocation limit"); /* growth policy at the limit */ unsigned n=60000000; char*b=calloc(1,n+1); Jsi_DSAppendLen(&d,b,n); Jsi_DSSetLength(&d,n+100); Jsi_DSAppendLen(&d,b,200); if(Jsi_DSLength(&d)!=n+200) nv_fail("limit","append at 60 MB: length %u",Jsi_DSLength(&d)); Jsi_DSFree(&d); free(b); }
  unsigned long it=0; while(!nv_timeup()&&(nv_search||it<6000)){ it++; if(it%4==0) literal(nv_below(3)); else if(it%7==0) var(); else { Jsi_DString d; Jsi_DSInit(&d); ml=0; hist[0]=0; int k=1+nv_below(12); for(int i=0;i<k;i++) runop(&d); Jsi_DSFree(&d); } }
  nv_sample("history: %s",hist); nv_done(); return 0; }
