#include "jsiInt.h"
#include "native.h"
/* random histories of set/get/unset/enumerate/clear compared with a reference map */
#define NK 4000
static char keys[NK][24]; static int klen,kt,present[NK],val[NK],count,freed; static void*lastfreed; static Jsi_Interp*in;
static Jsi_RC fp(Jsi_Interp*i,Jsi_HashEntry*e,void*d){ (void)i;(void)e; freed++; lastfreed=d; return JSI_OK; }
static const void*kp(int i){ return kt==JSI_KEYS_ONEWORD? *(void**)keys[i] : (const void*)keys[i]; }
static int dup_key(int i,int n){ for(int j=0;j<n;j++) if(kt==JSI_KEYS_STRING? !strcmp(keys[i],keys[j]) : kt==JSI_KEYS_ONEWORD? *(void**)keys[i]==*(void**)keys[j] : kt==JSI_KEYS_STRINGKEY? 0 : !memcmp(keys[i],keys[j],kt)) return 1; return 0; }
static void mkkeys(int n){ static const char*pa[]={"aj","ba"}; for(int i=0;i<n;i++) do { memset(keys[i],0,24);
   if(kt==JSI_KEYS_STRING){ int m=nv_below(4); if(m==0){ int k=nv_below(10); for(int j=0;j<k;j++) strcat(keys[i],pa[nv_below(2)]); } else if(m==1) sprintf(keys[i],"k%u",nv_below(1000)); else { int k=nv_below(23); for(int j=0;j<k;j++) keys[i][j]=1+nv_below(255); } }
   else if(kt==JSI_KEYS_ONEWORD){ uintptr_t v=nv_below(4)==0? nv_below(3000) : nv_below(2)? (uintptr_t)nv_rand()<<32|nv_rand() : (uintptr_t)nv_below(5000)*(1ul<<(4+nv_below(20))); memcpy(keys[i],&v,8); }
   else if(kt!=JSI_KEYS_STRINGKEY){ for(int j=0;j<kt;j++) keys[i][j]=nv_below(3)?nv_below(3):nv_rand(); } } while(dup_key(i,n<500?i:(i>60?60:i))||(n>=500&&kt!=JSI_KEYS_STRINGKEY&&dup_key(i,i))); }
static void check(Jsi_Hash*t,int n){ if((int)Jsi_HashSize(t)!=count) nv_fail("size","%u != %d",Jsi_HashSize(t),count); static char seen[NK]; memset(seen,0,NK); Jsi_HashSearch s; int c=0; for(Jsi_HashEntry*e=Jsi_HashSearchFirst(t,&s);e;e=Jsi_HashSearchNext(&s)){ c++; long v=(long)Jsi_HashValueGet(e); int i=(v-1)/16; if(c>count||v<=0||i>=n||!present[i]||val[i]!=v){ nv_fail("enum","entry with value %ld",v); break; } if(seen[i]++) nv_fail("enum-dup","key %d twice",i); const void*k=Jsi_HashKeyGet(e); if(kt==JSI_KEYS_STRING? strcmp(k,keys[i]) : kt==JSI_KEYS_ONEWORD||kt==JSI_KEYS_STRINGKEY? k!=kp(i) : memcmp(k,keys[i],kt)) nv_fail("enum-key","key %d",i); } if(c!=count) nv_fail("enum","%d of %d entries enumerated",c,count);
 for(int i=0;i<n;i++){ void*g=Jsi_HashGet(t,kp(i),0); if(g!=(present[i]?(void*)(long)val[i]:NULL)) nv_fail("get","key %d: %p",i,g); } }
static void history(int n,int steps,int useproc){ memset(present,0,sizeof present); count=0; freed=0; int fexp=0; Jsi_Hash*t=Jsi_HashNew(in,kt,useproc?fp:NULL); int grow=0;
 for(int q=0;q<steps;q++){ int i=nv_below(n), op=nv_below(100); if(op<60){ long v=16*i+1+nv_below(15); bool nw=9; Jsi_HashEntry*e=Jsi_HashEntryNew(t,kp(i),&nw); if(!e||nw!=!present[i]) nv_fail("new","key %d new=%d",i,nw); if(e) Jsi_HashValueSet(e,(void*)v); if(!present[i]) count++; present[i]=1; val[i]=v; if(count>grow) grow=count; }
  else if(op<70){ long v=16*i+1; Jsi_HashSet(t,kp(i),(void*)v); if(!present[i]) count++; present[i]=1; val[i]=v; }
  else if(op<80){ void*g=Jsi_HashGet(t,kp(i),0); if(g!=(present[i]?(void*)(long)val[i]:NULL)) nv_fail("get","key %d",i); }
  else if(op<99){ int f0=freed; bool r=Jsi_HashUnset(t,kp(i)); if(r!=present[i]) nv_fail("unset","key %d",i); if(present[i]){ count--; if(useproc){ fexp++; if(freed!=f0+1||lastfreed!=(void*)(long)val[i]) nv_fail("release","key %d",i); } } else if(freed!=f0) nv_fail("release","absent key"); present[i]=0; }
  else if(nv_below(40)==0){ if(useproc) fexp+=count; Jsi_HashClear(t); memset(present,0,sizeof present); count=0; if(freed!=fexp) nv_fail("release","clear: %d of %d",freed,fexp); check(t,n); }
  if((int)Jsi_HashSize(t)!=count) nv_fail("size","%u != %d",Jsi_HashSize(t),count); if(q%257==0) check(t,n); }
 check(t,n); if(grow>48) nv_nontrivial++; if(useproc) fexp+=count; Jsi_HashDelete(t); if(freed!=fexp) nv_fail("release","delete: %d of %d",freed,fexp); }
int main(int c,char**v){ nv_init(c,v); static const int kts[]={JSI_KEYS_STRING,JSI_KEYS_STRINGKEY,JSI_KEYS_ONEWORD,4,8,12,20}; nv_watch(120);
 for(int q=0;q<(nv_search?100000:400)&&!nv_timeup();q++){ kt=kts[q%7]; int n=q%5==0?60:q%5==1?5:q%11==2?NK:700; mkkeys(n); int steps=n*(1+nv_below(6)); nv_begin("history %d keytype %d keys %d steps %d seed %s",q,kt,n,steps,c>2?v[2]:"1"); history(n,steps,q%3); nv_watch(60); }
 nv_watch(0); nv_sample("random history of set/get/unset/enumerate/clear over string keys, some colliding: %s","aj ba k17 ..."); nv_done(); return 0; }
