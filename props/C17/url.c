/* C17: URL percent-encoding and hexadecimal text.  Loops are verified by cut points:
   an arbitrary iteration from an arbitrary state satisfying the invariant. */
#include "jsv.h"
static char *gS; static long gLen, gO, gP, gB0; static int gIt; static _Bool gComp; static unsigned char gC;
static int gtokn; static char gtok[3]; static char *gE,*gBuf;
#define HX "0123456789abcdef"
/* the documented encoding of one character */
static int isunres(int c){ return (c>='a'&&c<='z')||(c>='A'&&c<='Z')||(c>='0'&&c<='9')||c=='-'||c=='_'||c=='.'||c=='!'||c=='~'||c=='*'||c=='\''||c=='('||c==')'; }
static int isres(int c){ return c==';'||c==','||c=='/'||c=='?'||c==':'||c=='@'||c=='&'||c=='='||c=='+'||c=='$'||c=='#'; }
static void tok(unsigned char c){ /* c!=0 */ if(c>=0x80||isunres(c)||(!gComp&&isres(c))){ gtokn=1; gtok[0]=c; } else if(gComp&&c==' '){ gtokn=1; gtok[0]='+'; } else { gtokn=3; gtok[0]='%'; gtok[1]=HX[c>>4]; gtok[2]=HX[c&15]; } }
#ifdef U_ENC
#define JSV_GHOST_urlenc { if(gIt==0){ JSV_LEMMA(pstr==gS&&pbuf==buf,"starts at the beginning"); gO=jsv_nd_long(); gP=jsv_nd_long(); JSV_ASSUME(gO>=0&&gO<gLen&&gP>=0&&gP<=3*gO); pstr=gS+gO; gC=*pstr; JSV_ASSUME(gC!=0); pbuf=buf+gP; gBuf=buf; gIt=1; } \
 else { JSV_LEMMA(pstr==gS+gO+1,"one character consumed"); tok(gC); JSV_LEMMA(pbuf==buf+gP+gtokn,"length of the encoding of the character"); JSV_LEMMA(buf[gP]==gtok[0]&&(gtokn==1||(buf[gP+1]==gtok[1]&&buf[gP+2]==gtok[2])),"encoding of the character"); gIt=2; JSV_ASSUME(0); } }
#endif
#ifdef U_DEC
/* the text at the read position starts with the encoding of gC (proved units) or is arbitrary (safety) */
#define JSV_GHOST_urldec { if(gIt==0){ JSV_LEMMA(pstr==gS&&pbuf==buf,"starts at the beginning"); gO=jsv_nd_long(); gP=jsv_nd_long(); JSV_ASSUME(gO>=0&&gO<gLen&&gP>=0&&gP<=gO); pstr=gS+gO; pbuf=buf+gP; gBuf=buf; gIt=1; JSV_ASSUME(*pstr!=0); if(gE){ gC=jsv_nd_uchar(); JSV_ASSUME(gC!=0); tok(gC); JSV_ASSUME(gO+gtokn<=gLen&&pstr[0]==gtok[0]&&(gtokn==1||(pstr[1]==gtok[1]&&pstr[2]==gtok[2]))); } } \
 else { JSV_LEMMA(pstr>gS+gO&&pstr<=gS+gLen&&pbuf>=buf&&pbuf-buf<=pstr-gS,"consumes input, never produces more than it consumes"); if(gE){ JSV_LEMMA(pstr==gS+gO+gtokn,"consumes exactly the encoding of the character"); JSV_LEMMA(pbuf==buf+gP+1&&(unsigned char)buf[gP]==gC,"restores the character"); } JSV_ASSUME(0); } }
#endif
#ifdef U_TOHEX
#define JSV_GHOST_tohex { if(gIt==0){ JSV_LEMMA(i==0&&n==0,"start"); i=jsv_nd_int(); JSV_ASSUME(i>=0&&i<dlen); n=2*i; gO=i; gIt=1; } else { JSV_LEMMA(i==gO+1&&n==2*i,"two digits per byte"); JSV_LEMMA(out[2*gO]==HX[indata[gO]>>4]&&out[2*gO+1]==HX[indata[gO]&15],"digits of the byte"); JSV_ASSUME(0); } }
#endif
#ifdef U_FROMHEX
#define JSV_GHOST_fromhex { if(gIt==0){ JSV_LEMMA(n==0&&in==gS,"start"); gO=jsv_nd_int(); JSV_ASSUME(gO>=0&&gO<len/2); n=gO; in=gS+2*gO; gIt=1; } else { JSV_LEMMA(n==gO+1&&in==gS+2*n,"one byte per two digits"); JSV_LEMMA(hv(gS[2*gO])>=0&&hv(gS[2*gO+1])>=0&&outdata[gO]==hv(gS[2*gO])*16+hv(gS[2*gO+1]),"value of the digits"); JSV_ASSUME(0); } }
static int hv(int c){ return c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; }
#endif
#include "jsv_defaults.h"
#if defined(U_ENC)||defined(U_DEC)
#include "jsiCmds.c"
#ifndef JSV_UTIL_STUB
/* contracts of the two digit helpers (proved in unit digit) */
char jsi_fromHexChar(char ch){ return ch>='0'&&ch<='9'?ch-'0':ch>='a'&&ch<='f'?ch-'a'+10:ch>='A'&&ch<='F'?ch-'A'+10:(char)jsv_nd_char(); }
char jsi_toHexChar(char code){ return HX[code&15]; }
#endif
unsigned Jsi_Strlen(const char*s){ JSV_LEMMA(s==gS,"length of the text"); return gLen; }
char *Jsi_Strchr(const char*s,int c){ for(int i=0;i<16;i++){ if(s[i]==(char)c) return (char*)s+i; if(!s[i]) return 0; } return 0; }
void *Jsi_Malloc(unsigned n){ char*p=malloc(n); JSV_ASSUME(p!=0); gBuf=p; return p; }
static void env(void){ gLen=jsv_nd_long(); JSV_ASSUME(gLen>=0&&gLen<=(1l<<29)); gS=malloc(gLen+1); JSV_ASSUME(gS!=0); JSV_ASSUME(gS[gLen]==0); gIt=0; gComp=jsv_nd_bool(); gE=0; }
#endif
#ifdef U_ENC
void h_enc(void){ env(); if(gLen>0) JSV_ASSUME(gS[0]!=0); char*r=url_encode(gS,gComp); if(gIt==0) JSV_LEMMA(gLen==0&&r[0]==0,"the empty text has the empty encoding"); else { tok(gC); JSV_LEMMA(gO+1==gLen||gS[gO+1]==0,"stops at the end of the text"); JSV_LEMMA(r==gBuf&&r[gP+gtokn]==0&&r[gP]==gtok[0]&&(gtokn==1||(r[gP+1]==gtok[1]&&r[gP+2]==gtok[2])),"last character and terminator"); } JSV_REACH("enc"); }
#endif
#ifdef U_DEC
void h_dec(void){ env(); gE=jsv_nd_bool()?gS:0; int len; if(gLen>0) JSV_ASSUME(gS[0]!=0); char*r=url_decode(gS,&len,gComp); if(gIt==0) JSV_LEMMA(gLen==0&&len==0&&r[0]==0,"the empty text decodes to itself"); else { JSV_LEMMA(r[len]==0&&len>=gP&&len<=gLen,"terminated"); if(gE) JSV_LEMMA(len==gP+1&&(unsigned char)r[gP]==gC,"last character restored"); } JSV_REACH("dec"); }
#endif
#if defined(U_TOHEX)||defined(U_FROMHEX)||defined(U_DIGIT)||defined(U_HEXSTR)
#include "jsiUtils.c"
#endif
#ifdef U_TOHEX
void h_tohex(void){ int n=jsv_nd_int(); JSV_ASSUME(n>=0&&n<=(1<<29)); unsigned char*d=malloc(n+1); char*o=malloc(2l*n+1); JSV_ASSUME(d&&o); gIt=0; jsi_ToHexStr(d,n,o); JSV_LEMMA(o[2l*n]==0,"terminated"); if(gIt==0) JSV_LEMMA(n==0,"empty"); else JSV_LEMMA(n==gO+1&&o[2*gO]==HX[d[gO]>>4]&&o[2*gO+1]==HX[d[gO]&15],"last digits"); JSV_REACH("tohex"); }
#endif
#ifdef U_FROMHEX
void h_fromhex(void){ int n=jsv_nd_int(); JSV_ASSUME(n>=0&&n<=(1<<29)); gS=malloc(n+1); unsigned char*o=malloc(n/2+1); JSV_ASSUME(gS&&o); gIt=0; int r=jsi_FromHexStr(gS,n,o); if(n&1) JSV_LEMMA(r==-1,"odd length refused"); else if(r<0) JSV_LEMMA(gIt==1&&(hv(gS[2*gO])<0||hv(gS[2*gO+1])<0),"refused only for a non-digit"); else { JSV_LEMMA(r==n/2,"one byte per two digits"); if(gIt==0) JSV_LEMMA(n==0,"empty text"); else JSV_LEMMA(r==gO+1&&hv(gS[2*gO])>=0&&hv(gS[2*gO+1])>=0&&o[gO]==hv(gS[2*gO])*16+hv(gS[2*gO+1]),"last byte"); } JSV_REACH("fromhex"); }
#endif
#ifdef U_DIGIT
void h_digit(void){ int c=jsv_nd_int(); JSV_ASSUME(c>=0&&c<256); int v=c>='0'&&c<='9'?c-'0':c>='a'&&c<='f'?c-'a'+10:c>='A'&&c<='F'?c-'A'+10:-1; if(v>=0) JSV_LEMMA(jsi_fromHexChar(c)==v,"value of a digit"); JSV_LEMMA(jsi_toHexChar(c)==HX[c&15],"digit of a value"); JSV_REACH("digit"); }
#endif
#ifdef U_HEXSTR
static Jsi_DString gd; static char *gbuf; static unsigned gcap; static int glen,gret,gk; static unsigned char gdata[4];
unsigned Jsi_DSSetLength(Jsi_DString*d,unsigned n){ JSV_LEMMA(d==&gd,"dstring"); gcap=n; gbuf=malloc(n+1); JSV_ASSUME(gbuf!=0); return n; }
char *Jsi_DSValue(Jsi_DString*d){ return gbuf; }
void s_tohex(const unsigned char*in,int n,char*out){ JSV_LEMMA(in==gdata&&n==glen&&out==gbuf&&2l*n+1<=gcap+1l,"room for the digits"); gk=1; out[2*n]=0; }
int s_fromhex(const char*in,int n,unsigned char*out){ JSV_LEMMA((void*)in==gdata&&n==glen&&(char*)out==gbuf&&n/2<=(int)gcap,"room for the bytes"); gk=2; return gret; }
void h_hexstr(void){ glen=jsv_nd_int(); JSV_ASSUME(glen>=0&&glen<=(1<<20)); gret=jsv_nd_bool()?-1:glen/2; gk=0; gd.len=0; _Bool dec=jsv_nd_bool(); int r=Jsi_HexStr(gdata,glen,&gd,dec); JSV_LEMMA(gk==(dec?2:1),"decodes exactly when asked to"); int w=dec?gret:2*glen; JSV_LEMMA(r==w,"length or -1"); JSV_LEMMA(gd.len==(w<0?0:w)&&gbuf[gd.len]==0,"the result holds exactly that many bytes"); JSV_REACH("hexstr"); }
#endif
