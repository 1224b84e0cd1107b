#include "njs.h"
/* reference: RFC 3629 */
static int enc(unsigned u,char*b){ if(u<0x80){b[0]=u;return 1;} if(u<0x800){b[0]=0xc0|u>>6;b[1]=0x80|(u&63);return 2;} if(u<0x10000){b[0]=0xe0|u>>12;b[1]=0x80|(u>>6&63);b[2]=0x80|(u&63);return 3;} b[0]=0xf0|u>>18;b[1]=0x80|(u>>12&63);b[2]=0x80|(u>>6&63);b[3]=0x80|(u&63);return 4; }
static unsigned cps[600]; static int off[601]; static char buf[2500]; static int n,L;
static unsigned rcp(void){ switch(nv_below(6)){ case 0: case 1: return 1+nv_below(0x7f); case 2: return 0x80+nv_below(0x780); case 3: { unsigned u=0x800+nv_below(0xf800); return u>=0xd800&&u<0xe000?0x4e2d:u; } case 4: return 0x10000+nv_below(0x100000); default: { static const unsigned e[]={0x7f,0x80,0x7ff,0x800,0xffff,0x10000,0x10ffff,'a','z','A','Z',0xe9,0x20ac,0x1f600}; return e[nv_below(14)]; } } }
static void mk(int k){ n=k; L=0; for(int i=0;i<k;i++){ cps[i]=rcp(); off[i]=L; L+=enc(cps[i],buf+L); } off[n]=L; buf[L]=0; }
static void chk(const char*key,const char*got,int gl,int a,int b){ if(a<0)a=0; if(a>n)a=n; if(b>n)b=n; if(b<a)b=a; if(!got||gl!=off[b]-off[a]||memcmp(got,buf+off[a],gl)) nv_fail(key,"got [%s] expected [%s]",got?nv_hex(got,gl):"(error)",nv_hex(buf+off[a],off[b]-off[a])); }
static void clevel(void){ nv_begin("text=%s",nv_hex(buf,L)); if(L>n) nv_nontrivial++; char*t=malloc(L+1); memcpy(t,buf,L+1);
  if((int)Jsi_NumUtfChars(t,-1)!=n) nv_fail("count","%u != %d",Jsi_NumUtfChars(t,-1),n); char*u=malloc(L?L:1); memcpy(u,buf,L); if(L&&(int)Jsi_NumUtfChars(u,L)!=n) nv_fail("count-len","%u != %d",Jsi_NumUtfChars(u,L),n); free(u);
  for(int q=0;q<12;q++){ int i=nv_below(n+3), l=nv_below(n+3); int o=Jsi_UtfIndexToOffset(t,i); if(o!=off[i>n?n:i]) nv_fail("offset","index %d: %d",i,o); const char*p=Jsi_UtfAtIndex(t,i); if(i<=n? p!=t+off[i]:p!=NULL) nv_fail("atindex","index %d",i);
   char c[5]; if(i<n){ int r=Jsi_UtfGetIndex(t,i,c); if(r!=off[i+1]-off[i]||memcmp(c,buf+off[i],r)||c[r]) nv_fail("getindex","index %d",i); }
   Jsi_DString d; Jsi_DSInit(&d); Jsi_UtfSubstr(t,L,i,l,&d); chk("substr",Jsi_DSValue(&d),Jsi_DSLength(&d),i,i+l); Jsi_DSFree(&d); Jsi_UtfSubstr(t,L,i,-1,&d); chk("substr-rest",Jsi_DSValue(&d),Jsi_DSLength(&d),i,n); Jsi_DSFree(&d);
   if(n){ int g=-1-(int)nv_below(n); Jsi_UtfSubstr(t,L,g,l,&d); chk("substr-neg",Jsi_DSValue(&d),Jsi_DSLength(&d),n+g,n+g+l); Jsi_DSFree(&d);} }
  char*jsi_utf_tocase(const char*,int,int,Jsi_DString*); for(int up=0;up<2;up++){ Jsi_DString d; Jsi_DSInit(&d); jsi_utf_tocase(t,L,up,&d); const char*s=Jsi_DSValue(&d); int ok=(int)Jsi_DSLength(&d)==L; for(int i=0;ok&&i<L;i++){ char e=buf[i]; if(up&&e>='a'&&e<='z') e-=32; if(!up&&e>='A'&&e<='Z') e+=32; if(s[i]!=e) ok=0; } if(!ok) nv_fail("case","up=%d got [%s]",up,nv_hex(s,Jsi_DSLength(&d))); Jsi_DSFree(&d); }
  free(t); }
static void script(void){ nv_begin("script text=%s",nv_hex(buf,L)); int l; char e[200]; nj_set("us",buf,L); nv_nontrivial++; if(nj_evalnum("us.length")!=n) nv_fail("s-length","%g != %d",nj_evalnum("us.length"),n);
  for(int q=0;q<4;q++){ int i=nv_below(n+2),k=1+nv_below(n+2); const char*s; sprintf(e,"us.charAt(%d)",i); s=nj_eval(e,&l); chk("s-charAt",s,l,i,i+1); if(i<n){ sprintf(e,"us[%d]",i); s=nj_eval(e,&l); chk("s-index",s,l,i,i+1); sprintf(e,"us.charCodeAt(%d)",i); double c=nj_evalnum(e); if(c!=cps[i]) nv_fail("s-charCodeAt","%g != %u",c,cps[i]); sprintf(e,"String.fromCharCode(%u)",cps[i]); s=nj_eval(e,&l); chk("s-fromCharCode",s,l,i,i+1); }
   sprintf(e,"us.substr(%d,%d)",i,k); s=nj_eval(e,&l); chk("s-substr",s,l,i,i+k); sprintf(e,"us.substr(%d)",i); s=nj_eval(e,&l); chk("s-substr",s,l,i,n); if(n){ int g=1+nv_below(n); sprintf(e,"us.substr(-%d,%d)",g,k); s=nj_eval(e,&l); chk("s-substr-neg",s,l,n-g,n-g+k);} }
  const char*s=nj_eval("var r='';for(var i=0;i<us.length;i++) r+=us[i]; r",&l); chk("s-concat",s,l,0,n); }
int main(int c,char**v){ nv_init(c,v); nj_init(); char b[6]; 
  for(unsigned u=0;u<0x200000;u+=(u<0x3000||(u>0xd000&&u<0x10100))?1:1+nv_below(40)){ memset(b,0,6); char r[6]={0}; int l=enc(u,r); nv_begin("code point %x",u); if(u>127) nv_nontrivial++; if((int)Jsi_UniCharToUtf(u,b)!=l||memcmp(b,r,l)) nv_fail("encode","%x",u); Jsi_UniChar w=-1; if((int)Jsi_UtfToUniChar(b,&w)!=l||w!=(int)u) nv_fail("decode","%x",u); if((int)Jsi_NumUtfBytes(b[0])!=l) nv_fail("numbytes","%x",u); 
   if(u<0x10000){ char e[8],d[5]={0},x[8]; if((int)Jsi_UtfEncode(b,e)!=l) nv_fail("esc-len","%x",u); sprintf(x,"\\u%04x",u); if(strcmp(x,e)) nv_fail("esc","%x -> %s",u,e); if((int)Jsi_UtfDecode(x+2,d)!=l||memcmp(d,b,l)) nv_fail("unesc","%x",u); sprintf(x,"\\u%04X",u); if((int)Jsi_UtfDecode(x+2,d)!=l||memcmp(d,b,l)) nv_fail("unesc","%x",u);} }
  nv_watch(120); for(int k=0;k<4;k++){ mk(k); clevel(); script(); }
  for(int q=0;q<(nv_search?2000000:6000)&&!nv_timeup();q++){ mk(nv_below(5)?nv_below(30):nv_below(600)); clevel(); if(q%4==0) script(); if(q%64==0) nv_watch(60); }
  /* arbitrary bytes: stay inside the text, keep every byte */
  for(int q=0;q<3000;q++){ n=nv_below(12); char*t=malloc(n+1); for(int i=0;i<n;i++) do t[i]=nv_below(2)?nv_rand():0xe0|nv_rand(); while(!t[i]); t[n]=0; nv_begin("bytes=%s",nv_hex(t,n)); int tot=0,i=0,o; while((o=Jsi_UtfIndexToOffset(t,i))<n&&i<=n){ if(i&&o<=tot) nv_fail("bytes-offset","index %d",i); tot=o; i++; } if(o!=n) nv_fail("bytes-offset","end %d",o); char*jsi_utf_tocase(const char*,int,int,Jsi_DString*); Jsi_DString d; Jsi_DSInit(&d); jsi_utf_tocase(t,n,1,&d); if((int)Jsi_DSLength(&d)!=n) nv_fail("bytes-case","length %u of %d",Jsi_DSLength(&d),n); Jsi_DSFree(&d); free(t); }
  nv_watch(0); mk(5); nv_sample("random text of 5 characters: %s",nv_hex(buf,L)); nv_done(); return 0; }
