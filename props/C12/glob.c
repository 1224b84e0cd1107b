/* C12: glob matching.  M(p,s): "pattern p matches string s".  The real loop is
   verified by a cut point: from an arbitrary position (p0,s0) of a pattern and
   a string of arbitrary length, one iteration either returns what the
   definition of M says or moves on to (p1,s1) with M(p0,s0)=M(p1,s1).
   The recursive call is used by contract (it returns M of its arguments). */
#include "jsv.h"
static const char *gP,*gS; static long gpl,gsl; /* buffers and lengths (NUL at the end) */
static long p0,s0,p1,s1; static int gl; static int gc0=-1, gpc0=-1; static _Bool cut,star,next,tail,rec,cls,clsend; static long clsp; static _Bool gnc; static int recp, nrec; static _Bool recres; static long gw;
#define PI(x) ((x)-gP)
#define SI(x) ((x)-gS)
static int up(int c){ return c>='a'&&c<='z'?c-32:c; }
#ifdef U_GLOB
/* contract of the UTF-8 decoder (C01): one code point, of 1..4 bytes inside the text; ASCII is itself */
static long sl_at=-1; static int sl_c; static uint sl_l; static long pl_at=-1; static int pl_c; static uint pl_l;
static uint dec(const char *u,int *c,_Bool upc){ _Bool ins=__CPROVER_same_object(u,gS); long i=ins?SI(u):PI(u), e=ins?gsl:gpl; JSV_LEMMA(0<=i&&i<=e,"decodes inside the text");
  uint l; int ch; if(ins&&i==sl_at){ l=sl_l; ch=sl_c; } else if(!ins&&i==pl_at){ l=pl_l; ch=pl_c; } else {
  unsigned char b=*(const unsigned char*)u; if(b<0x80){ l=1; ch=b; } else { l=jsv_nd_uint(); ch=jsv_nd_int(); JSV_ASSUME(1<=l&&l<=4&&i+(long)l<=e&&ch>=0x80&&ch<0x200000); }
  if(ins){ sl_at=i; sl_l=l; sl_c=ch; } else { pl_at=i; pl_l=l; pl_c=ch; } }
  *c=upc?up(ch):ch; return l; }
uint s_dec(const char *u,int *c){ return dec(u,c,0); }
uint s_deccase(const char *u,int *c,int upc){ return dec(u,c,upc!=0); }
const char *s_cls(const char *p,int c,int f){ JSV_LEMMA(cut&&PI(p)==p0+1&&gP[p0]=='[',"class starts after ["); JSV_LEMMA(c==sl_c&&sl_at==s0,"class asked for the next character"); JSV_LEMMA(f==(gnc?JSI_CMP_NOCASE:0),"case folding passed on"); cls=1; if(jsv_nd_bool()) return 0; clsp=jsv_nd_long(); JSV_ASSUME(p0<clsp&&clsp<=gpl&&(gP[clsp]==']'||clsp==gpl)); return gP+clsp; }
bool s_glob(const char *p,const char *s,int nc){ JSV_LEMMA(star&&PI(p)==recp&&SI(s)==s1&&(nc!=0)==gnc,"recursion on the rest of the pattern and the current rest of the string"); rec=1; recres=jsv_nd_bool(); return recres; }
#define JSV_GHOST_glob_step { if(cut){ JSV_LEMMA(next&&PI(pattern)==p1&&SI(string)==s1,"the next iteration continues from there"); JSV_ASSUME(0);} cut=1; p0=jsv_nd_long(); s0=jsv_nd_long(); JSV_ASSUME(0<=p0&&p0<gpl&&0<=s0&&s0<=gsl); pattern=gP+p0; string=gS+s0; JSV_ASSUME(*pattern!=0); gcut=1; }
static _Bool gcut,c2; static long st;
#define JSV_GHOST_glob_stars { JSV_LEMMA(*pattern=='*'&&PI(pattern)<gpl,"star run"); if(c2) JSV_ASSUME(0); c2=1; st=jsv_nd_long(); JSV_ASSUME(p0<=st&&st<gpl-1&&gP[st]=='*'&&gP[st+1]=='*'&&(gw<p0||gw>st||gP[gw]=='*')); pattern=gP+st; }
#define JSV_GHOST_glob_star { if(!star){ star=1; recp=PI(pattern); JSV_LEMMA(SI(string)==s0,"suffixes from the current one on"); JSV_LEMMA(p0<recp&&recp<gpl&&gP[recp]!='*'&&gP[recp]!=0&&(gw<p0||gw>=recp||gP[gw]=='*'),"pattern continues after all its stars"); s1=jsv_nd_long(); JSV_ASSUME(s0<=s1&&s1<gsl); string=gS+s1; JSV_ASSUME(*string!=0); } else { JSV_LEMMA(rec&&!recres&&PI(pattern)==recp&&SI(string)==s1+sl_l&&sl_at==s1,"the next suffix is one character shorter"); JSV_ASSUME(0); } }
#define JSV_GHOST_glob_next { next=1; p1=PI(pattern); s1=SI(string); unsigned char k=gP[p0]; \
  JSV_LEMMA(k!='*',"a star does not consume here"); JSV_LEMMA(gS[s0]!=0,"an empty rest matches no character"); JSV_LEMMA(sl_at==s0&&s1==s0+(long)sl_l,"exactly one character of the string is consumed"); \
  if(k=='?') JSV_LEMMA(p1==p0+1,"? consumes one pattern byte"); \
  else if(k=='[') JSV_LEMMA(cls&&gP[clsp]==']'&&p1==clsp+1,"continues after the class"); \
  else { long q=p0+(k=='\\'&&gP[p0+1]!=0?1:0); JSV_LEMMA(pl_at==q&&p1==q+(long)pl_l,"continues after the literal character"); JSV_LEMMA(gnc?up(pl_c)==up(sl_c):pl_c==sl_c,"literal characters are equal"); } }
#define JSV_GHOST_glob_tail { JSV_LEMMA(p1<=PI(pattern)&&PI(pattern)<gpl&&*pattern=='*'&&(gw<p1||gw>PI(pattern)||gP[gw]=='*'),"trailing stars"); if(tail) JSV_ASSUME(0); tail=1; st=jsv_nd_long(); JSV_ASSUME(p1<=st&&st<gpl&&gP[st]=='*'&&(gw<p1||gw>st||gP[gw]=='*')); pattern=gP+st; }
#endif
#ifdef U_CLS
/* JsiCharsetMatch: one arbitrary item of a class (cut point); the decoder's
   answers are remembered per position */
static _Bool ccut,m0; static long c0; static int gcc; static long rp[4]; static uint rl[4]; static int rc_[4], rn; static _Bool ginot; static const char *gend; static int gmatch;
static uint c_dec(const char *u,int *c,_Bool upc){ long i=PI(u); JSV_LEMMA(0<=i&&i<=gpl,"decodes inside the pattern"); for(int k=0;k<4;k++) if(k<rn&&rp[k]==i){ *c=upc?up(rc_[k]):rc_[k]; return rl[k]; }
  unsigned char b=*(const unsigned char*)u; uint l=1; int ch=b; if(b>=0x80){ l=jsv_nd_uint(); ch=jsv_nd_int(); JSV_ASSUME(1<=l&&l<=4&&i+(long)l<=gpl&&ch>=0x80&&ch<0x200000); } if(rn<4){ rp[rn]=i; rl[rn]=l; rc_[rn]=ch; rn++; } *c=upc?up(ch):ch; return l; }
uint s_dec(const char *u,int *c){ return c_dec(u,c,0); }
uint s_deccase(const char *u,int *c,int upc){ return c_dec(u,c,upc!=0); }
static int look(long i){ for(int k=0;k<4;k++) if(k<rn&&rp[k]==i) return k; return -1; }
#define FOLD(c) (gnc?up(c):(c))
static void chk(long at,int match){ int k=look(c0); JSV_LEMMA(k>=0,"the item is read"); if(k<0) return; long q=c0+rl[k]; int a=FOLD(rc_[k]); _Bool it; long nx;
  if(gP[c0]!='\\'&&gP[q]=='-'&&q<gpl&&gP[q+1]!=0){ int e=look(q+1); JSV_LEMMA(e>=0,"the end of the range is read"); if(e<0) return; int b=FOLD(rc_[e]); nx=q+1+rl[e]; it=(a<=gcc&&gcc<=b)||(b<=gcc&&gcc<=a); JSV_REACH("range"); }
  else { nx=q; it=a==gcc; JSV_REACH("single"); }
  JSV_LEMMA(at==nx,"the next item starts where this one ends"); JSV_LEMMA((match!=0)==(m0||it),"the class matches if any of its items does"); }
#define JSV_GHOST_cs_item { JSV_LEMMA(0<=PI(pattern)&&PI(pattern)<gpl&&*pattern!=0&&*pattern!=']',"item starts inside the class"); if(ccut){ chk(PI(pattern),match); JSV_ASSUME(0);} ccut=1; JSV_LEMMA(c==gcc&&(nocase!=0)==gnc,"character folded like the class"); c0=jsv_nd_long(); JSV_ASSUME(0<=c0&&c0<gpl); pattern=gP+c0; JSV_ASSUME(*pattern!=0&&*pattern!=']'); match=m0=jsv_nd_bool(); rn=0; }
#define JSV_GHOST_cs_end { gend=pattern; gmatch=match; ginot=inot!=0; JSV_LEMMA(*pattern==0||*pattern==']',"the class ends at ] or the end of the pattern"); if(ccut) chk(PI(pattern),match); }
#endif
#include "jsv_defaults.h"
#include "jsiUtils.c"
#ifdef U_GLOB
bool jsv_real(const char*,const char*,int);
void h_glob(void){ gpl=jsv_nd_long(); gsl=jsv_nd_long(); JSV_ASSUME(0<=gpl&&gpl<(1L<<30)&&0<=gsl&&gsl<(1L<<30)); char *P=malloc(gpl+1),*S=malloc(gsl+1); JSV_ASSUME(P!=0&&S!=0); P[gpl]=0; S[gsl]=0; gP=P; gS=S; gw=jsv_nd_long(); JSV_ASSUME(0<=gw&&gw<gpl); gnc=jsv_nd_bool();
  /* no NUL inside, at the observed positions */
  bool r=jsv_real(P,S,gnc); 
  if(!cut){ JSV_LEMMA(gP[0]==0,"ends only at the end of the pattern"); JSV_LEMMA(r==(gS[0]==0),"an empty pattern matches only an empty string"); }
  else if(next){ if(gS[s1]!=0) { JSV_LEMMA(gP[p1]==0&&!r,"the pattern ended before the string: no match"); } else { long e_=tail?st+1:p1; JSV_LEMMA(gP[e_]!='*'&&r==(gP[e_]==0)&&(gw<p1||gw>=e_||gP[gw]=='*'),"an empty rest is matched by stars only"); JSV_REACH("consumed"); } }
  else if(gP[p0]=='*'){ if(star) { JSV_LEMMA(rec,"tried"); if(r) JSV_LEMMA(recres,"star: some rest matches"); else JSV_LEMMA(!recres&&gS[s1+sl_l]==0,"star: no rest matches"); JSV_REACH("star"); } else { if(!r) JSV_LEMMA(s0<=gsl&&gS[s0]==0,"star: refused at once only at the end of the string"); } }
  else if(gP[p0]=='?') { JSV_LEMMA(!r&&gS[s0]==0,"? needs a character"); }
  else if(gP[p0]=='[') { if(!cls) JSV_LEMMA(!r&&gS[s0]==0,"a class needs a character"); else if(clsp==0||gP[clsp]!=0||1) { if(r) JSV_LEMMA(clsp==gpl&&gS[s0+sl_l]==0,"unterminated class at the end of both"); } }
  else { long q=p0+(gP[p0]=='\\'&&gP[p0+1]!=0?1:0); JSV_LEMMA(!r,"refused"); JSV_LEMMA(gS[s0]==0||(sl_at==s0&&pl_at==q&&(gnc?up(pl_c)!=up(sl_c):pl_c!=sl_c)),"only for different characters"); JSV_REACH("literal"); }
}
#endif

#ifdef U_CLS
void h_cls(void){ gpl=jsv_nd_long(); JSV_ASSUME(0<=gpl&&gpl<(1L<<30)); char *P=malloc(gpl+1); JSV_ASSUME(P!=0); P[gpl]=0; gP=P; int f=jsv_nd_int(); gnc=(f&JSI_CMP_NOCASE)!=0; JSV_ASSUME(!(f&JSI_CMP_CHARSET_SCAN)); int c=jsv_nd_int(); JSV_ASSUME(0<=c&&c<0x200000); gcc=gnc?up(c):c;
  const char *r=JsiCharsetMatch(P,c,f); JSV_LEMMA(!ginot,"no negation in globs"); if(!ccut) JSV_LEMMA(r==0,"an empty class matches nothing"); else JSV_LEMMA(gmatch? r==gend: r==0,"returns the end of the class on a match"); }
#endif
