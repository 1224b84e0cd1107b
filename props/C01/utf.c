/* C01: UTF-8 codec.  The specification (RFC 3629 bit layout) is seqlen()/code()
   over the text array S[0..N], S[N]==0.  "Valid" below is: a well-formed
   sequence (lead byte, right number of continuation bytes inside the text) at
   every character boundary - assumed at the boundary being visited. */
#include "jsv.h"
static const char *S; static long N, g_off, g_cnt, g_p; static int g_idx0;
#define B(i) ((unsigned char)S[i])
#define CONT(b) (((b)&0xc0)==0x80)
#define SEQ(b) ((b)<0x80?1:(b)<0xe0?2:(b)<0xf0?3:4)
#define VALID(o) ((o)>=0 && (o)<N && B(o)!=0 && (B(o)<0x80 || (B(o)>=0xc0 && B(o)<0xf8 && (o)+SEQ(B(o))<=N && CONT(B((o)+1)) && (SEQ(B(o))<3||CONT(B((o)+2))) && (SEQ(B(o))<4||CONT(B((o)+3))))))
#define JSV_LOOP_utf_i2o __CPROVER_assigns(index,s,g_off,g_cnt) \
 __CPROVER_loop_invariant(0<=g_off && g_off<=N && s==S+g_off && 0<=index && index<=g_idx0 && g_cnt==g_idx0-index && g_cnt<=g_off) __CPROVER_decreases(index)
/* any text: a byte that does not start a well-formed sequence is a character of its own */
#define STEP(o) (VALID(o)?SEQ(B(o)):1)
#define JSV_GHOST_utf_i2o { g_off+=STEP(g_off); g_cnt++; }
#define JSV_LOOP_utf_at JSV_LOOP_utf_i2o
#define JSV_GHOST_utf_at JSV_GHOST_utf_i2o
/* counting: every position is either a boundary (start of a valid sequence) or inside one */
#define INSIDE(p) ((p)<=g_off && g_off<=N && g_off-(p)<=3 && ((p)>=g_off||CONT(B(p))) && ((p)+1>=g_off||CONT(B((p)+1))) && ((p)+2>=g_off||CONT(B((p)+2))))
#define JSV_LOOP_utf_cnt __CPROVER_assigns(s,i,g_off,g_cnt,g_p) \
 __CPROVER_loop_invariant(0<=g_p && g_p<N && s==S+g_p && i==g_cnt && g_cnt>=0 && g_cnt<=g_p && INSIDE(g_p)) __CPROVER_decreases(N-g_p)
#define JSV_GHOST_utf_cnt if(g_p++==g_off){ JSV_ASSUME(VALID(g_off)); g_off+=SEQ(B(g_off)); g_cnt++; }
/* unknown length: stops at the terminator */
#define JSV_LOOP_utf_cnt0 __CPROVER_assigns(s,i,g_off,g_cnt,g_p) \
 __CPROVER_loop_invariant(0<=g_p && g_p<=N && s==S+g_p && i==g_cnt && g_cnt>=0 && g_cnt<=g_p && INSIDE(g_p)) __CPROVER_decreases(N-g_p)
#define JSV_GHOST_utf_cnt0 JSV_GHOST_utf_cnt
#define JSV_LOOP_utf_neg __CPROVER_assigns(n) __CPROVER_loop_invariant(n<lenofa && n>=g_idx0 && (n==g_idx0 || n>=g_idx0+lenofa) && (g_idx0< -lenofa || n==g_idx0 || n==g_idx0+lenofa)) __CPROVER_decreases(-(long)n)
#define JSV_LOOP_utf_case __CPROVER_assigns(m,cp,upper,g_off,g_cnt,__CPROVER_object_whole(unibuf)) \
 __CPROVER_loop_invariant(0<=m && m<=N && cp==S+m && g_off==m && g_cnt==m && (upper==0||upper==1||(upper==2&&m==0)) && (g_idx0==1?upper==1:g_idx0==0?upper==0:(m==0?upper==2:upper==0))) __CPROVER_decreases(N-m)
#define JSV_GHOST_utf_case g_off+=STEP(g_off);
#include "jsv_defaults.h"
#include "jsiUtf8.c"
#ifdef U_UTILS
#include "jsiUtils.c"
#endif
static void text(void){ N=jsv_nd_long(); JSV_ASSUME(N>=0 && N<=0x7ffffff0); char*p=malloc(N+1); JSV_ASSUME(p!=0); p[N]=0; S=p; }
void h_i2o(void){ text(); g_off=g_cnt=g_p=0; g_idx0=jsv_nd_int(); JSV_ASSUME(g_idx0>=0); int r=Jsi_UtfIndexToOffset(S,g_idx0);
  JSV_LEMMA(r==g_off,"offset of the character boundary reached"); JSV_LEMMA(g_cnt==g_idx0||(g_cnt<g_idx0&&B(g_off)==0),"after exactly index characters, or at the end"); JSV_REACH("i2o"); }
void h_at(void){ text(); g_off=g_cnt=g_p=0; g_idx0=jsv_nd_int(); JSV_ASSUME(g_idx0>=0); const char*r=Jsi_UtfAtIndex(S,g_idx0);
  if(r) JSV_LEMMA(r==S+g_off&&g_cnt==g_idx0,"pointer to the character"); else JSV_LEMMA(g_cnt<g_idx0&&B(g_off)==0,"null only past the end"); JSV_REACH("at"); }
void h_cnt(void){ text(); g_off=g_cnt=g_p=0; JSV_ASSUME(N>0); uint r=Jsi_NumUtfChars(S,(int)N); JSV_LEMMA(g_off==N,"whole text covered"); JSV_LEMMA(r==g_cnt,"number of characters"); JSV_REACH("cnt"); }
/* only bytes [0,length) are read */
void h_cntbytes(void){ N=jsv_nd_long(); JSV_ASSUME(N>0&&N<=0x7ffffff0); char*p=malloc(N); JSV_ASSUME(p!=0); S=p; g_off=g_cnt=g_p=0; uint r=Jsi_NumUtfChars(S,(int)N); JSV_LEMMA(r<=N,"at most one per byte"); JSV_REACH("cntbytes"); }
void h_cnt0(void){ text(); g_off=g_cnt=g_p=0; uint r=Jsi_NumUtfChars(S,-1); JSV_LEMMA(B(g_p)==0&&g_off==g_p,"whole text covered"); JSV_LEMMA(r==g_cnt,"number of characters"); JSV_LEMMA(Jsi_NumUtfChars(S,0)==0&&Jsi_NumUtfChars(0,5)==0,"empty"); JSV_REACH("cnt0"); }
static unsigned code(const unsigned char*s,int l){ return l==1?s[0]:l==2?(s[0]&31u)<<6|(s[1]&63):l==3?(s[0]&15u)<<12|(s[1]&63u)<<6|(s[2]&63):(s[0]&7u)<<18|(s[1]&63u)<<12|(s[2]&63u)<<6|(s[3]&63); }
void h_codec(void){ unsigned u=jsv_nd_uint(); JSV_ASSUME(u<=0x1fffff); char b[5]; b[4]='x'; unsigned l=Jsi_UniCharToUtf(u,b); unsigned char*s=(unsigned char*)b;
  JSV_LEMMA(l==(u<0x80?1:u<0x800?2:u<0x10000?3:4),"shortest form"); JSV_LEMMA(code(s,l)==u,"encodes the code point"); JSV_LEMMA(l==1?s[0]<0x80:(l==2?(s[0]&0xe0)==0xc0:l==3?(s[0]&0xf0)==0xe0:(s[0]&0xf8)==0xf0),"lead byte announces the length");
  for(int k=1;k<4;k++) if(k<l) JSV_LEMMA(CONT(s[k]),"continuation bytes"); if(l<4) b[l]=0; b[4]=0; Jsi_UniChar v=0; JSV_LEMMA(Jsi_UtfToUniChar(b,&v)==l&&v==u,"decode inverts encode"); JSV_LEMMA(Jsi_NumUtfBytes(b[0])==l,"length from the lead byte"); JSV_REACH("codec"); }
void h_decode(void){ unsigned char b[5]; b[4]=0; for(int k=0;k<4;k++) b[k]=jsv_nd_uchar(); Jsi_UniChar v; unsigned l=Jsi_UtfToUniChar((char*)b,&v);
  JSV_LEMMA(l>=1&&l<=4,"consumes one to four bytes"); for(int k=0;k<4;k++) if(k<l&&l>1) JSV_LEMMA(b[k]!=0,"never crosses the terminator"); JSV_LEMMA(l>1?v==code(b,l):v==b[0],"value of the sequence, or the byte itself");
  _Bool ok=b[0]>=0xc0&&b[0]<0xf8&&CONT(b[1])&&(SEQ(b[0])<3||CONT(b[2]))&&(SEQ(b[0])<4||CONT(b[3])); JSV_LEMMA(l==(ok?SEQ(b[0]):1),"a well-formed sequence is consumed whole, anything else one byte");
  Jsi_UniChar w; unsigned m=Jsi_UtfToUniCharCase((char*)b,&w,1); JSV_LEMMA(m==l&&(v>=0x80?w==v:w==(v>='a'&&v<='z'?v-32:v)),"upper-casing decode");
  char e[5]; if(ok&&v>(l==2?0x7f:l==3?0x7ff:0xffff)){ JSV_LEMMA(Jsi_UniCharToUtf(v,e)==l,"encode inverts decode (length)"); for(int k=0;k<4;k++) if(k<l) JSV_LEMMA((unsigned char)e[k]==b[k],"encode inverts decode"); } JSV_REACH("decode"); }
/* \uNNNN form */
void h_hex(void){ unsigned u=jsv_nd_uint(); JSV_ASSUME(u<=0xffff); char b[5],e[8],d[5]; unsigned l=Jsi_UniCharToUtf(u,b); if(l<4) b[l]=0; unsigned n=Jsi_UtfEncode(b,e); JSV_LEMMA(n==l&&e[0]=='\\'&&e[1]=='u'&&e[6]==0,"escape form, whole character consumed");
  unsigned m=Jsi_UtfDecode(e+2,d); JSV_LEMMA(m==l,"same length back"); for(int k=0;k<4;k++) if(k<l) JSV_LEMMA(d[k]==b[k],"same character back"); JSV_REACH("hex"); }
#define HX(c) ((c)>='0'&&(c)<='9'?(c)-'0':(c)>='a'&&(c)<='f'?(c)-'a'+10:(c)>='A'&&(c)<='F'?(c)-'A'+10:-1)
void h_hexdec(void){ char e[5],d[5]; e[4]=0; for(int k=0;k<4;k++) e[k]=jsv_nd_char(); unsigned m=Jsi_UtfDecode(e,d); _Bool ok=HX(e[0])>=0&&HX(e[1])>=0&&HX(e[2])>=0&&HX(e[3])>=0;
  JSV_LEMMA((m>0)==ok,"accepts exactly four hex digits"); if(ok) JSV_LEMMA(code((unsigned char*)d,m)==(unsigned)(HX(e[0])<<12|HX(e[1])<<8|HX(e[2])<<4|HX(e[3])),"code point of the digits"); JSV_REACH("hexdec"); }
/* substring: callee offsets by their contract (units i2o, cnt0) */
static int g_m,g_e,g_call,g_tot,g_len; static long g_app,g_applen; static unsigned g_apps;
int s_i2o(const char*str,int index){ JSV_LEMMA(index>=0,"index to offset: not negative"); if(g_call++==0){ JSV_LEMMA(str==S,"first offset from the start"); g_idx0=index; return g_m; } JSV_LEMMA(g_call==2&&str==S+g_m&&index==g_len,"second offset counts from the first"); return g_e; }
uint s_cnt(const char*s,int l){ JSV_LEMMA(s==S&&l<0,"character count"); return g_tot; }
uint s_len(const char*s){ JSV_LEMMA(__CPROVER_same_object(s,S),"strlen"); return N-(s-S); }
char *s_app(Jsi_DString*d,const char*s,int n){ JSV_LEMMA(__CPROVER_same_object(s,S),"appends part of the text"); g_apps++; g_app=s-S; g_applen=n; return 0; }
char *s_val(Jsi_DString*d){ return 0; }
void h_substr(void){ text(); g_call=0; g_apps=0; int n=jsv_nd_int(); int n0=n; g_len=jsv_nd_int(); int bl=(int)N; g_m=jsv_nd_int(); g_e=jsv_nd_int(); g_tot=jsv_nd_int(); JSV_ASSUME(g_m>=0&&g_m<=N&&g_e>=0&&g_e<=N-g_m&&g_tot>=0&&g_tot<=N); g_idx0=n; Jsi_DString d;
  Jsi_UtfSubstr(S,bl,n,g_len,&d);
  if(n0<0&&g_tot==0){ JSV_LEMMA(g_apps==0,"nothing from an empty text"); } else { JSV_LEMMA(n0<0?(g_idx0>=0&&g_idx0<g_tot):g_idx0==n0,"start position in range"); if(n0<0&&n0>=-g_tot) JSV_LEMMA(g_idx0==n0+g_tot,"negative start counts from the end");
   JSV_LEMMA(g_apps==1&&g_app==g_m,"starts at the character"); JSV_LEMMA(g_applen==(g_len<0?N-g_m:g_e),"exactly len characters, or the rest"); } JSV_REACH("substr"); }
const char *s_at(const char*str,int index){ JSV_LEMMA(str==S,"text"); if(g_m<0) return 0; JSV_ASSUME(g_m<=N&&(g_m==N||VALID(g_m))); return S+g_m; }
char *Jsi_Strncpy(char *str1, const char *str2, int len){ JSV_LEMMA(len>=1&&len<=5,"at most four bytes"); str1[len-1]=0; _Bool end=0; for(int k=0;k<4;k++) if(k<len-1){ char c=end?0:str2[k]; str1[k]=c; if(!c) end=1; } return str1; }
void h_get(void){ text(); g_m=jsv_nd_int(); char c[5]; for(int k=0;k<5;k++) c[k]=jsv_nd_char(); int r=Jsi_UtfGetIndex(S,jsv_nd_int(),c); if(g_m<0||g_m>=N){ JSV_LEMMA(c[0]==0,"empty past the end"); } else { JSV_LEMMA(r==SEQ(B(g_m))&&c[r]==0,"the whole character, terminated"); for(int k=0;k<4;k++) if(k<r) JSV_LEMMA(c[k]==S[g_m+k],"its bytes"); } JSV_REACH("get"); }
