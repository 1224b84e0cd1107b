/* C13: strings in JSON.  E(c): how a character is written; D: how a token of a
   string literal is read.  One arbitrary iteration of each loop (cut point) for
   text of any length; D(E(c)) = c is a lemma over the two definitions. */
#include "jsv.h"
static char *gT; static long gn,gL,k0,gw; static _Bool cut; static unsigned char out[40]; static int on,gq;
static int hexv(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
static int hx(int v){ return v<10?'0'+v:'a'+v-10; }
/* definition of E: bytes written for the character c of l bytes at u */
static int E(const unsigned char*u,uint l,int c,int json,int nl,unsigned char*o){ int b=u[0]; o[0]='\\';
  if(b=='\\'||b=='"'||(b=='\''&&!json)){ o[1]=b; return 2; }
  if(b=='\n'&&!nl){ o[1]='n'; return 2; } if(b=='\r'){ o[1]='r'; return 2; } if(b=='\t'){ o[1]='t'; return 2; } if(b=='\f'){ o[1]='f'; return 2; } if(b=='\b'){ o[1]='b'; return 2; }
  if((b>=32&&b<127)||!json){ o[0]=b; return 1; }
  if(l>3){ for(int i=0;i<4;i++) o[i]=u[i]; return 4; }
  o[1]='u'; for(int i=0;i<4;i++) o[2+i]=hx((c>>(12-4*i))&15); return 6; }
/* definition of D: bytes meant by the token at u (valid escapes); *k its length */
static int u8(int c,unsigned char*o){ if(c<0x80){ o[0]=c; return 1; } if(c<0x800){ o[0]=0xc0|c>>6; o[1]=0x80|(c&63); return 2; } if(c<0x10000){ o[0]=0xe0|c>>12; o[1]=0x80|((c>>6)&63); o[2]=0x80|(c&63); return 3; } o[0]=0xf0|c>>18; o[1]=0x80|((c>>12)&63); o[2]=0x80|((c>>6)&63); o[3]=0x80|(c&63); return 4; }
static int h4(const unsigned char*u){ int r=0; for(int i=0;i<4;i++){ int v=hexv(u[i]); if(v<0) return -1; r=r<<4|v; } return r; }
static int D(const unsigned char*u,long rest,unsigned char*o,int*k){ if(u[0]!='\\'){ *k=1; o[0]=u[0]; return 1; } *k=2;
  switch(u[1]){ case 'b': o[0]=8; return 1; case 'n': o[0]=10; return 1; case 'r': o[0]=13; return 1; case 'f': o[0]=12; return 1; case 't': o[0]=9; return 1; case '"': case '\\': case '/': o[0]=u[1]; return 1; }
  int c=h4(u+2); *k=6; if(c>=0xD800&&c<0xDC00&&rest>=12&&u[6]=='\\'&&u[7]=='u'){ int d=h4(u+8); if(d>=0xDC00&&d<0xE000){ *k=12; c=0x10000+((c&0x3ff)<<10)+(d&0x3ff); } } return u8(c,o); }
static _Bool valid(const unsigned char*u,long rest){ if(u[0]!='\\') return 1; if(rest<2) return 0; int e=u[1]; if(e=='b'||e=='n'||e=='r'||e=='f'||e=='t'||e=='"'||e=='\\'||e=='/') return 1; if(e!='u'||rest<6) return 0; return h4(u+2)>=0; }
#ifdef U_JQ
char *Jsi_DSValue(Jsi_DString*d){ return 0; }
#endif
#ifdef U_ENC
static void put(const char*s,int n){ JSV_LEMMA(n>=0&&n<=8,"short pieces"); for(int i=0;i<8;i++) if(i<n&&on<16) out[on++]=s[i]; }
char *Jsi_DSAppendLen(Jsi_DString *d,const char*s,int len){ int n=len; if(len<0) for(n=0;n<8&&s[n];n++); put(s,n); return 0; }
char *Jsi_DSAppend(Jsi_DString *d,const char*s,...){ int n; for(n=0;n<8&&s[n];n++); put(s,n); return 0; }
static void step(long k1){ unsigned char e[8]; int c; uint l=Jsi_UtfToUniChar(gT+k0,&c); _Bool json=gq; int b=(unsigned char)gT[k0]; int m=E((unsigned char*)gT+k0,l,c,json,0,e);
  long adv=(json&&m!=1&&m!=2)?l:1; JSV_LEMMA(k1==k0+adv,"moves on by the character written"); JSV_LEMMA(on==m,"length of what is written"); for(int i=0;i<6;i++) if(i<m) JSV_LEMMA(out[i]==e[i],"the character is written as defined"); if(m==6) JSV_REACH("escape"); if(m==4) JSV_REACH("raw"); if(m==1) JSV_REACH("plain"); }
static _Bool ended;
#define JSV_GHOST_qs_head { if(cut){ JSV_LEMMA(str-gT==(long)i-1,"position"); step(str-gT); JSV_ASSUME(0);} JSV_LEMMA(on==1&&out[0]=='"'&&str==gT&&i==1,"starts with a quote at the first character"); cut=1; k0=jsv_nd_long(); JSV_ASSUME(0<=k0&&k0<gn); str=gT+k0; i=(int)k0+1; on=0; }
#define JSV_GHOST_qs_end { if(cut){ JSV_LEMMA(str-gT==(long)i-1&&str-gT>=gn,"whole text written"); step(str-gT); } else JSV_LEMMA(gn==0&&on==1,"empty text"); on=0; ended=1; }
#define JSV_GHOST_jq_head { if(cut){ step(cp-gT); JSV_ASSUME(0);} JSV_LEMMA(on==1&&out[0]=='"'&&cp==gT,"starts with a quote at the first character"); cut=1; k0=jsv_nd_long(); JSV_ASSUME(0<=k0&&k0<gn); cp=gT+k0; JSV_ASSUME(*cp!=0); on=0; }
#define JSV_GHOST_jq_end { JSV_LEMMA(*cp==0||cp-gT>=gn,"ends at the end of the text"); if(cut) step(cp-gT); else JSV_LEMMA((gn==0||gT[0]==0)&&on==1,"empty text"); on=0; ended=1; }
#endif
#ifdef U_DEC
static char *gB; static long d0; static unsigned char bw; static _Bool fl; static unsigned char fw,ft[4]; static long flen; static _Bool ended; static long elen;
char *Jsi_DSAppendLen(Jsi_DString *d,const char*s,int len){ JSV_LEMMA(s==gB&&len>=0&&len<=100,"pending bytes are appended"); if(ended){ elen=len; return 0; } JSV_LEMMA(!fl,"once"); fl=1; flen=len; fw=s[gw]; for(int i=0;i<4;i++) ft[i]=s[d0+i]; return 0; }
static void step(char*buf,char*dp,long k1){ unsigned char e[4]; int k; int m=D((unsigned char*)gT+k0,gn-k0,e,&k); JSV_LEMMA(k1==k0+k,"moves on by one token"); long n=fl?flen:dp-buf; if(fl) JSV_LEMMA(dp==buf,"buffer emptied"); JSV_LEMMA(n==d0+m,"length of what is read"); for(int i=0;i<4;i++) if(i<m) JSV_LEMMA((fl?ft[i]:(unsigned char)buf[d0+i])==e[i],"the token is read as defined"); if(gw<d0) JSV_LEMMA((fl?fw:(unsigned char)buf[gw])==bw,"earlier bytes stay"); JSV_LEMMA(dp-buf<=90,"room for the next token"); if(k==12) JSV_REACH("pair"); if(k==6) JSV_REACH("u"); if(k==2) JSV_REACH("esc"); }
#define JSV_GHOST_jd_head { if(cut){ step(buf,dp,cp-gT); JSV_ASSUME(0);} JSV_LEMMA(cp==gT&&dp==buf,"starts at the first byte"); cut=1; gB=buf; __CPROVER_havoc_object(buf); k0=jsv_nd_long(); d0=jsv_nd_long(); JSV_ASSUME(0<=k0&&k0<gn&&0<=d0&&d0<=90); JSV_ASSUME(valid((unsigned char*)gT+k0,gn-k0)); if(gT[k0]=='\\'&&gT[k0+1]=='u'&&k0+6<gn) JSV_ASSUME(valid((unsigned char*)gT+k0+6,gn-k0-6)); cp=gT+k0; dp=buf+d0; bw=buf[gw]; }
#define JSV_GHOST_jd_end { gB=buf; if(cut){ JSV_LEMMA(cp-gT==gn,"whole literal read"); step(buf,dp,cp-gT);} else JSV_LEMMA(gn==0,"empty"); ended=1; elen=-1; flen=dp-buf; }
#endif
#include "jsv_defaults.h"
#ifdef U_QUOTE
#include "jsiUtils.c"
#else
#include "jsiUtils.c"
#include "jsiJSON.c"
#endif
#include "jsiUtf8.c"
static void setup(void){ gn=jsv_nd_long(); long m=jsv_nd_long(); JSV_ASSUME(0<=gn&&gn<(1L<<30)&&0<=m&&m<64); gL=gn+m; gT=malloc(gL+1); JSV_ASSUME(gT!=0); gT[gL]=0; gw=jsv_nd_long(); JSV_ASSUME(0<=gw&&gw<100); }
#ifdef U_QUOTE
void h_quote(void){ setup(); gq=jsv_nd_int(); JSV_ASSUME(gq==0||gq==JSI_OUTPUT_JSON); int q=gq; gq=q!=0; Jsi_DString d; jsiQuoteString(&d,gT,(int)gn,q|(jsv_nd_bool()&&q?JSI_JSON_STRICT|JSI_JSON_FORMAT:0)); JSV_LEMMA(ended&&on==1&&out[0]=='"',"ends with a quote"); JSV_REACH("end"); }
#endif
#ifdef U_JQ
void h_jquote(void){ setup(); gq=1; Jsi_DString d; if(gL!=gn) {} Jsi_JSONQuote(0,gT,(int)gn,&d); JSV_LEMMA(ended&&on==1&&out[0]=='"',"ends with a quote"); JSV_REACH("end"); }
#endif
#ifdef U_DEC
void h_dec(void){ setup(); JSV_ASSUME(gL>gn); gT[gn]='"'; Jsi_DString d; jsonNewDString(0,&d,gT,(int)gn); JSV_LEMMA(elen==flen,"the pending bytes are appended at the end"); JSV_REACH("end"); }
#endif
#ifdef U_INV
/* D undoes E for every character of well-formed text */
void h_inv(void){ int c=jsv_nd_int(); JSV_ASSUME(c>0&&c<=0x10ffff&&!(c>=0xd800&&c<0xe000)); unsigned char u[4]={0},e[16]={0},o[4]; int l=u8(c,u); int m=E(u,l,c,1,jsv_nd_bool(),e); int p=0,n=0,k; unsigned char r[8]; 
  for(int t=0;t<4;t++) if(p<m){ JSV_LEMMA(valid(e+p,m-p),"what is written is a valid literal"); JSV_LEMMA(e[p]!='"',"no bare quote is written"); int q=D(e+p,m-p,o,&k); for(int i=0;i<4;i++) if(i<q&&n<8) r[n++]=o[i]; p+=k; }
  JSV_LEMMA(p==m&&n==l,"as many bytes come back"); for(int i=0;i<4;i++) if(i<l) JSV_LEMMA(r[i]==u[i],"the same character comes back"); JSV_REACH("end"); }
#endif
