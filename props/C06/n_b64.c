#include "njs.h"
static const char ev[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int ref_enc(const unsigned char*d,int n,char*o){ int w=0,col=0; for(int i=0;i<n;i+=3){ unsigned a=d[i],b=i+1<n?d[i+1]:0,c=i+2<n?d[i+2]:0;
  o[w++]=ev[a>>2]; o[w++]=ev[(a&3)<<4|b>>4]; o[w++]=i+1<n?ev[(b&15)<<2|c>>6]:'='; o[w++]=i+2<n?ev[c&63]:'='; col+=4; if(col==72){o[w++]='\n';col=0;} } o[w]=0; return w; }
static char eb[400000]; 
static void one(const unsigned char*d,int n,int script){
  nv_begin("bytes[%d]=%s",n,nv_hex(d,n)); if(n%3) nv_nontrivial++;
  unsigned char*in=(unsigned char*)malloc(n+1); memcpy(in,d,n); in[n]=0;   /* exact-size copy: over-reads are caught */
  int el=ref_enc(d,n,eb); Jsi_DString ds; Jsi_DSInit(&ds); nv_watch(10);
  if(!script||n==0) { Jsi_Base64((char*)in,n,&ds,0);
  if((int)Jsi_DSLength(&ds)!=el || memcmp(Jsi_DSValue(&ds),eb,el)) nv_fail("encode","got [%.80s] expected [%.80s]",Jsi_DSValue(&ds),eb);
  char *t=(char*)malloc(el+1); memcpy(t,eb,el+1); Jsi_DSFree(&ds); Jsi_Base64(t,el,&ds,1);
  if((int)Jsi_DSLength(&ds)!=n || memcmp(Jsi_DSValue(&ds),d,n)) nv_fail("decode","decoded %u bytes %s",Jsi_DSLength(&ds),nv_hex(Jsi_DSValue(&ds),Jsi_DSLength(&ds)));
  /* same text without line breaks, and with CRLF / other break positions */
  int w=0; for(int i=0;i<el;i++) if(eb[i]!='\n') t[w++]=eb[i]; t[w]=0; Jsi_DSFree(&ds); Jsi_Base64(t,w,&ds,1);
  if((int)Jsi_DSLength(&ds)!=n || memcmp(Jsi_DSValue(&ds),d,n)) nv_fail("decode-unwrapped","decoded %u bytes %s",Jsi_DSLength(&ds),nv_hex(Jsi_DSValue(&ds),Jsi_DSLength(&ds)));
  if(n<300){ char*t2=(char*)malloc(3*el+10); int k=1+nv_below(9),z=0; for(int i=0;i<w;i++){ t2[z++]=t[i]; if((i+1)%k==0){ if(nv_below(2)) t2[z++]='\r'; t2[z++]='\n'; } } t2[z]=0; Jsi_DSFree(&ds); Jsi_Base64(t2,z,&ds,1);
   if((int)Jsi_DSLength(&ds)!=n || memcmp(Jsi_DSValue(&ds),d,n)) nv_fail("decode-rewrapped","k=%d decoded %u bytes %s",k,Jsi_DSLength(&ds),nv_hex(Jsi_DSValue(&ds),Jsi_DSLength(&ds))); free(t2);}
  free(t); }
  else { int l; nj_set("b64in",d,n); const char*s=nj_eval("Util.base64(b64in)",&l); if(!s||l!=el||memcmp(s,eb,el)) nv_fail("script-encode","got %d [%.80s] expected %d [%.80s]",l,s?s:"(error)",el,eb);
   nj_set("b64in",eb,el); s=nj_eval("Util.base64(b64in,true)",&l); if(!s||l!=n||memcmp(s,d,n)) nv_fail("script-decode","got %d bytes %s",l,s?nv_hex(s,l):"(error)"); }
  Jsi_DSFree(&ds); free(in); nv_watch(0); }
int main(int argc,char**argv){ nv_init(argc,argv); nj_init(); static unsigned char d[300000]; int i,j;
  for(i=0;i<256;i++){ d[0]=i; one(d,1,0); for(j=0;j<256;j++){ d[1]=j; one(d,2,0);} }
  for(i=0;i<3000;i++){ for(j=0;j<3;j++) d[j]=nv_rand(); one(d,3,0);} 
  for(i=0;i<700;i++){ for(j=0;j<i;j++) d[j]=nv_rand(); one(d,i,0); one(d,i,1);}
  for(i=54*4;i<54*40;i+=54) for(int k=-3;k<=3;k++){ for(j=0;j<i+k;j++) d[j]=nv_rand()%3?nv_rand():0xff; one(d,i+k,0); }
  for(i=0;i<300000;i++) d[i]=nv_rand(); for(int k=0;k<4;k++){ one(d,65535+k,0); one(d,200000+k,0);} one(d,32768,0); one(d,16384*3,1);
  int max=nv_search?200000:300; while(nv_search? !nv_timeup(): max-->0){ int n=nv_below(nv_below(4)?200:5000); for(j=0;j<n;j++) d[j]=nv_below(4)?nv_rand():(nv_below(2)?0:255); one(d,n,nv_below(3)==0);} 
  /* arbitrary text: the decoder must stay inside its input and terminate */
  for(i=0;i<(nv_search?20000:3000);i++){ int n=nv_below(40); char*t=(char*)malloc(n+1); for(j=0;j<n;j++) t[j]=nv_below(3)?ev[nv_below(64)]:(char)nv_rand(); t[n]=0; nv_begin("decode text[%d]=%s",n,nv_hex(t,n)); Jsi_DString ds; Jsi_DSInit(&ds); nv_watch(10); Jsi_Base64(t,n,&ds,1); if(Jsi_DSLength(&ds)>(unsigned)n) nv_fail("decode-length","decoded %u bytes from %d",Jsi_DSLength(&ds),n); Jsi_DSFree(&ds); nv_watch(0); free(t);} 
  nv_sample("bytes \"Man\" -> [%s]",(one((unsigned char*)"Man",3,0),eb));
  nv_done(); return 0; }
