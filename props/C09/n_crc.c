#include "njs.h"
static uint32_t ref(uint32_t c,const unsigned char*d,int n){ c=~c; while(n--){ c^=*d++; for(int k=0;k<8;k++) c=c&1?(c>>1)^0xEDB88320u:c>>1; } return ~c; }
static void one(uint32_t c,const unsigned char*d,int n,int script){ nv_begin("crc=%08x bytes[%d]=%s",c,n,nv_hex(d,n)); nv_nontrivial+=n>0; nv_watch(20);
  unsigned char*in=malloc(n?n:1); memcpy(in,d,n);
  uint32_t e=ref(c,d,n), g=Jsi_Crc32(c,in,n); if(e!=g) nv_fail("crc","got %08x expected %08x",g,e);
  if(n>1){ int k=nv_below(n+1); uint32_t h=Jsi_Crc32(Jsi_Crc32(c,in,k),in+k,n-k); if(h!=e) nv_fail("chain","split %d got %08x expected %08x",k,h,e); }
  if(script){ nj_set("cin",d,n); nj_setnum("c0",c); double r=nj_evalnum("Util.crc32(cin,c0)"); if(r!=(double)e) nv_fail("script","got %.0f expected %u",r,e); if(c==0){ r=nj_evalnum("Util.crc32(cin)"); if(r!=(double)e) nv_fail("script","got %.0f expected %u",r,e);} }
  free(in); nv_watch(0); }
int main(int argc,char**argv){ nv_init(argc,argv); nj_init(); static unsigned char d[70000]; int i,j;
  for(i=0;i<256;i++){ d[0]=i; one(0,d,1,1); one(nv_rand(),d,1,1); for(j=0;j<256;j++){ d[1]=j; one(0,d,2,0);} }
  for(i=0;i<2000;i++){ int n=nv_below(i<1000?40:600); for(j=0;j<n;j++) d[j]=nv_below(5)?nv_rand():(nv_below(2)?0:255); one(nv_below(2)?0:nv_rand(),d,n,i%4==0);} 
  for(j=0;j<70000;j++) d[j]=nv_rand(); one(0,d,65536,1); one(0,d,70000,1); one(0,d,65535,0);
  while(nv_search && !nv_timeup()){ int n=nv_below(3000); for(j=0;j<n;j++) d[j]=nv_rand(); one(nv_rand(),d,n,nv_below(2)); }
  nv_sample("%s",nv_case); nv_done(); return 0; }
