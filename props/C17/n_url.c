#include "njs.h"
static int unres(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||(c&&strchr("-_.!~*'()",c)); }
static int res(int c){ return c&&strchr(";,/?:@&=+$#",c)!=0; }
static int enc(const unsigned char*s,int n,int comp,char*o){ int w=0; for(int i=0;i<n;i++){ int c=s[i]; if(c>=0x80||unres(c)||(!comp&&res(c))) o[w++]=c; else if(comp&&c==' ') o[w++]='+'; else w+=sprintf(o+w,"%%%02x",c); } o[w]=0; return w; }
static char eb[20000];
static void one(const unsigned char*d,int n){ static const char*E[2]={"encodeURI(us)","encodeURIComponent(us)"},*D[2]={"decodeURI(us)","decodeURIComponent(us)"};
 for(int k=0;k<2;k++){ nv_begin("%s of %s",E[k],nv_hex(d,n)); nv_watch(10); int w=enc(d,n,k,eb),l; if(w!=n) nv_nontrivial++; nj_set("us",d,n); const char*s=nj_eval(E[k],&l); if(!s||l!=w||memcmp(s,eb,w)) nv_fail("url-encode","got %d [%.60s] expected [%.60s]",l,s?s:"(error)",eb);
  nj_set("us",eb,w); s=nj_eval(D[k],&l); if(!s||l!=n||memcmp(s,d,n)) nv_fail("url-roundtrip","decoded %s",s?nv_hex(s,l):"(error)"); } 
 nv_begin("hex of %s",nv_hex(d,n)); if(n==0) return; int l; char*h=(char*)malloc(2*n+1); for(int i=0;i<n;i++) sprintf(h+2*i,"%02x",d[i]); nj_set("us",d,n); const char*s=nj_eval("Util.hexStr(us)",&l); if(!s||l!=2*n||memcmp(s,h,2*n)) nv_fail("hex-encode","got %d [%.60s]",l,s?s:"(error)"); 
 if(nv_below(2)) for(int i=0;i<2*n;i++) if(h[i]>='a') h[i]-=32; nj_set("us",h,2*n); s=nj_eval("Util.hexStr(us,true)",&l); if(!s||l!=n||memcmp(s,d,n)) nv_fail("hex-decode","got %s",s?nv_hex(s,l):"(error)");
 int k=nv_below(2*n); h[k]="gGxX@`:/ -"[nv_below(10)]; nj_set("us",h,2*n); s=nj_eval("Util.hexStr(us,true)",&l); if(s) nv_fail("hex-accepts","accepted [%.60s]",h); nj_set("us",h,2*n-1); if(nj_eval("Util.hexStr(us,true)",&l)) nv_fail("hex-odd","accepted odd length"); free(h); }
int main(int c,char**v){ nv_init(c,v); nj_init(); unsigned char d[4000]; for(int i=1;i<256;i++){ d[0]=i; one(d,1); for(int j=0;j<3;j++){ d[1]="2%+"[j]; d[2]="5B4"[j]; d[3]=0; one(d,3);} }
 int max=nv_search?200000:1500; while(nv_search?!nv_timeup():max-->0){ int n=nv_below(nv_below(8)?20:1200); for(int i=0;i<n;i++){ switch(nv_below(4)){case 0:d[i]=1+nv_below(255);break;case 1:d[i]="% +&2Bb5=;"[nv_below(10)];break;default:d[i]=32+nv_below(95);} } one(d,n); }
/* escapes of every byte value, zero included, wherever they stand */
 for(int q=0;q<(nv_search?20000:1500)&&!(nv_search&&nv_timeup());q++){ unsigned char o[200]; char t[700]; int n=nv_below(q%4?6:150),w=0; for(int i=0;i<n;i++){ int c=nv_below(3)?nv_below(256):nv_below(2)?0:'a'+nv_below(26); if(nv_below(4)&&isalnum(c)) t[w++]=c; else w+=sprintf(t+w,nv_below(2)?"%%%02x":"%%%02X",c); o[i]=c; } t[w]=0; nv_begin("decode component %.300s",t); nj_set("us",t,w); int l; const char*s=nj_eval("decodeURIComponent(us)",&l); if(!s||l!=n||memcmp(s,o,n)) nv_fail("decode","got %s",s?nv_hex(s,l):"(error)"); }
 /* arbitrary text: decoding stays inside and ends */
 for(int i=0;i<1500;i++){ int n=nv_below(12); for(int j=0;j<n;j++) d[j]="%%%+2bGz\xe9 "[nv_below(10)]; nv_begin("decode %s",nv_hex(d,n)); nj_set("us",d,n); int l; nj_eval("decodeURI(us)",&l); if(l>n) nv_fail("longer","%d",l); nj_eval("decodeURIComponent(us)",&l); if(l>n) nv_fail("longer","%d",l); }
 nv_sample("encodeURIComponent('a b%%') = a+b%%25; hexStr('abz') = 61627a"); nv_done(); return 0; }
