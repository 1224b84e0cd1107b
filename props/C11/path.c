/* C11: Jsi_NormalPath.  The loop over components is verified by a cut point:
   one arbitrary component of a path of arbitrary length, from an arbitrary
   state satisfying the invariant.  Buffer gB holds the absolute path of gL
   bytes; gw is an arbitrary output position (canonical form at gw), gj an
   arbitrary byte of the component, gx an arbitrary byte of the output so far. */
#include "jsv.h"
static char *gB; static long gL, gw, gj, gx, gop0, gc, gn, gk; static char gcj, gxv; static _Bool gmid, cutA, cutB, cutC, cutD; static long ghead; static long gsl=-1; static int gkind;
#define IDX(p) ((p)-gB)
/* canonical form of the output gB[0..e) at position gw (the buffer is padded) */
static char a0,a1,a2,a3;
#define LD { a0=gB[gw]; a1=gB[gw+1]; a2=gB[gw+2]; a3=gB[gw+3]; }
#define CAN(e) (gw>=(e)||a0!='/'||(gw+1<(e)&&a1!='/'&&!(a1=='.'&&(gw+2==(e)||a2=='/'))&&!(gw+2<(e)&&a1=='.'&&a2=='.'&&(gw+3==(e)||a3=='/'))))
#define INV(cp,op) (gB==IDX(gB)+gB&&0<=IDX(op)&&IDX(op)<=IDX(cp)&&IDX(cp)<=gL&&(gB[IDX(cp)]=='/'||gB[IDX(cp)]==0)&&(IDX(op)==0||gB[0]=='/')&&gB[gL]==0)
#ifndef P_CAN
#undef CAN
#define CAN(e) 1
#undef LD
#define LD
#endif
#ifdef P_SAFE
#define STEP(op)
#elif defined P_CAN
#define STEP(op) if(gmid){ LD JSV_LEMMA(CAN(IDX(op)),"canonical form"); }
#else
#define STEP(op) if(gmid) { long e_=IDX(op); \
  if(gn==0||(gn==1&&gkind==1)) JSV_LEMMA(e_==gop0,"empty component and . leave the result unchanged"); \
  else if(gn==2&&gkind==2) { JSV_LEMMA(0<=e_&&e_<=gop0,".. removes"); JSV_LEMMA(e_==gop0? gop0==0: gB[e_]=='/',".. removes from a separator on (nothing at the root)"); JSV_LEMMA(!(e_<gk&&gk<gop0)||gB[gk]!='/',".. removes exactly one component"); } \
  else { JSV_LEMMA(e_==gop0+1+gn&&gB[gop0]=='/',"other components are appended after a separator"); JSV_LEMMA(gj>=gn||gB[gop0+1+gj]==gcj,"component appended unchanged"); } \
  JSV_LEMMA(!(gx<e_&&gx<gop0)||gB[gx]==gxv,"the result before is unchanged"); \
}
#endif
#ifdef U_NORM
#define JSV_GHOST_norm_comp { STEP(op) JSV_LEMMA(INV(cp,op)&&start==gB&&*cp!=0,"loop invariant"); if(!cutA) { JSV_LEMMA(op==gB&&cp==gB,"starts empty"); cutA=1; \
  __CPROVER_havoc_object(gB); gB[gL]=0; gop0=jsv_nd_long(); long c_=jsv_nd_long(); JSV_ASSUME(0<=gop0&&gop0<=c_&&c_<gL); op=gB+gop0; cp=gB+c_; ghead=c_; cutB=cutC=cutD=0; gB[c_]='/'; JSV_ASSUME(gop0==0||(gB[0]=='/'&&gB[gop0-1]!='/'&&(gop0==1||gB[1]!='/'))); LD JSV_ASSUME(CAN(gop0)); gx=jsv_nd_long(); JSV_ASSUME(0<=gx&&gx<gL); gxv=gB[gx]; gmid=1; } else JSV_ASSUME(0); }
#define JSV_GHOST_norm_skip { JSV_LEMMA(ghead<=IDX(cp)&&IDX(cp)<gL,"loop invariant"); if(!cutB){ cutB=1; long i_=jsv_nd_long(); JSV_ASSUME(ghead<=i_&&i_<gL); cp=gB+i_; JSV_ASSUME(*cp=='/'); } else JSV_ASSUME(0); }
/* bytes of the component that end up under the observed output positions are no separators */
#define SRC(t) ((t)-(gop0+1)+IDX(cp))
#ifndef P_CAN
#define NS(t) 1
#else
#define NS(t) (SRC(t)<IDX(cp)||SRC(t)>IDX(ss)||(gB[SRC(t)]!='/'&&gB[SRC(t)]!=0))
#endif
#define JSV_GHOST_norm_scan { JSV_LEMMA(IDX(cp)<=IDX(ss)&&IDX(ss)<gL&&NS(gw)&&NS(gw+1)&&NS(gw+2)&&NS(gw+3)&&*cp!='/'&&*cp!=0,"loop invariant"); if(!cutC){ cutC=1; long i_=jsv_nd_long(); JSV_ASSUME(IDX(cp)<=i_&&i_<gL); ss=gB+i_; JSV_ASSUME(*ss!=0&&*ss!='/'&&NS(gw)&&NS(gw+1)&&NS(gw+2)&&NS(gw+3)); } else JSV_ASSUME(0); }
#define JSV_GHOST_norm_scanned { gc=IDX(cp); gn=ss-cp;  gcj=gj<gn?gB[gc+gj]:0; gkind=gn==1&&gB[gc]=='.'?1:gn==2&&gB[gc]=='.'&&gB[gc+1]=='.'?2:0; \
  JSV_LEMMA(gc+gn<=gL&&(gB[gc+gn]==0||gB[gc+gn]=='/'),"component ends at a separator or the end"); gk=jsv_nd_long(); JSV_ASSUME(0<=gk&&gk<gL); }
#define JSV_GHOST_norm_pop { JSV_LEMMA(0<=IDX(op)&&IDX(op)<gop0&&(!(IDX(op)<=gk&&gk<gop0)||gB[gk]!='/')&&*op!='/',"loop invariant"); if(!cutD){ cutD=1; long i_=jsv_nd_long(); JSV_ASSUME(0<=i_&&i_<gop0); op=gB+i_; JSV_ASSUME(*op!='/'&&(!(i_<=gk&&gk<gop0)||gB[gk]!='/')); } else JSV_ASSUME(0); }
void *s_memmove(void *d,const void *s,size_t n){ long D=IDX((char*)d), S=IDX((const char*)s); JSV_LEMMA(D>=0&&S>=0&&D+(long)n<=gL&&S+(long)n<=gL,"memmove inside the buffer");
  char v0=0,v1=0,v2=0,v3=0,vj=0; 
#ifdef P_SAFE
  return d; }
#else
#define RD(v,t) if(D<=(t)&&(t)<D+(long)n) v=gB[S+(t)-D];
#define WR(v,t) if(D<=(t)&&(t)<D+(long)n) gB[t]=v;
#ifdef P_CAN
  RD(v0,gw) RD(v1,gw+1) RD(v2,gw+2) RD(v3,gw+3) WR(v0,gw) WR(v1,gw+1) WR(v2,gw+2) WR(v3,gw+3)
#else
  RD(vj,D+gj) WR(vj,D+gj)
#endif
  return d; }
#endif
char* s_dsappend(Jsi_DString *d,const char *s,...){ return gB; }
char* s_dsvalue(Jsi_DString *d){ return gB; }
void s_dsinit(Jsi_DString *d){ }
char *s_getcwd(char *b,size_t n){ return jsv_nd_bool()?b:0; }
const char *s_tilde(Jsi_Interp *i,const char *p,Jsi_DString *d){ return gB; }
static char *gres;
uint s_setlen(Jsi_DString *d,uint n){ char *op=gB+n; JSV_LEMMA(n>=1&&(long)n<=gL,"result is not empty and fits");
  char *e=n==1?gB:op; /* only the root is one byte long: nothing was left */ STEP(e)
  JSV_LEMMA(gB[0]=='/',"result is absolute"); JSV_LEMMA((n==1&&gw==0)||CAN((long)n),"result is canonical"); gsl=n; return n; }
void h_norm(void){ Jsi_Interp in; Jsi_DString ds; gL=jsv_nd_long(); JSV_ASSUME(0<=gL&&gL<(1L<<30)); gB=malloc(gL+5); JSV_ASSUME(gB!=0); gB[gL]=0; gw=jsv_nd_long(); JSV_ASSUME(0<=gw&&gw<gL+1);
  char p[3]; JSV_ASSUME(gL==0||gB[0]!=0); _Bool np=jsv_nd_bool();
  char *r=Jsi_NormalPath(&in,np?(char*)0:(char*)p,&ds);
  if(!np&&p[0]&&gL>0&&gB[0]=='/') { JSV_LEMMA(gsl>=1&&r==gB,"an absolute path is normalised"); JSV_REACH("norm"); } else JSV_LEMMA(gsl<0,"otherwise left alone"); }
#include "jsv_defaults.h"
#include "jsiFilesys.c"
#endif
#ifdef U_NAMES
/* File.dirname/tail/rootname/extension: the parts named by the last '/' and the last '.' */
#include <string.h>
static char S[64]; static long sl, dot; static int kind; static const char *rs; static long rl; static Jsi_Value V, *rv;
enum { K_NONE, K_SUB, K_KEY, K_DUP };
char *s_str(Jsi_Interp *i,Jsi_Value *v,int *l){ return v==&V? (char*)S: (char*)0; }
Jsi_Value *s_idx(Jsi_Interp *i,Jsi_Value *a,int n){ return n==0&&jsv_nd_bool()?&V:0; }
char *s_strrchr(const char *p,int c){ JSV_LEMMA(p==S&&(c=='/'||c=='.'),"searches the path"); long k=c=='/'?sl:dot; return k<0?0:S+k; }
char *s_sub(const char *a,int al,int st,int len,int *ol){ JSV_LEMMA(a==S&&al==-1&&st==0&&len>=0,"leading part of the path"); *ol=len; rs=S; rl=len; return S; }
Jsi_Value* s_blob(Jsi_Interp *i,Jsi_Value **r,unsigned char *s,int l){ JSV_LEMMA(s==(unsigned char*)S&&l==rl,"leading part returned"); kind=K_SUB; return *r; }
Jsi_Value* s_key(Jsi_Interp *i,Jsi_Value **r,const char *s){ kind=K_KEY; rs=s; return *r; }
char *Jsi_Strdup(const char *s){ return (char*)s; }
Jsi_Value* s_dup(Jsi_Interp *i,Jsi_Value **r,const char *s){ kind=K_DUP; rs=s; return *r; }
#include "jsv_defaults.h"
#include "jsiFileCmds.c"
void h_names(void){ Jsi_Interp in; Jsi_Value *r=&V; sl=jsv_nd_long(); dot=jsv_nd_long(); JSV_ASSUME(-1<=sl&&sl<60&&-1<=dot&&dot<60&&(sl!=dot||sl<0)); if(sl>=0) S[sl]='/'; if(dot>=0) S[dot]='.'; S[63]=0;
  kind=K_NONE; Jsi_RC rc=FileDirnameCmd(&in,&V,0,&r,0);
  if(rc==JSI_OK) { if(sl<0) JSV_LEMMA(kind==K_KEY&&rs[0]=='.'&&(rs[1]==0||(rs[1]=='.'&&rs[2]==0&&S[0]=='.'&&S[1]=='.'&&S[2]==0)),"no directory part: . or ..");
    else if(sl==0) JSV_LEMMA(kind==K_KEY&&rs[0]=='/'&&rs[1]==0,"directory of an entry of the root");
    else JSV_LEMMA(kind==K_SUB&&rl==sl,"directory part is everything before the last separator"); JSV_REACH("dirname"); }
  kind=K_NONE; rc=FileTailCmd(&in,&V,0,&r,0); if(rc==JSI_OK) JSV_LEMMA(kind==K_DUP&&rs==S+sl+1,"tail is everything after the last separator");
  kind=K_NONE; rc=FileRootnameCmd(&in,&V,0,&r,0); long root=-1;
  if(rc==JSI_OK) { if(dot>sl) JSV_LEMMA(kind==K_SUB&&rl==dot,"root name ends before the last dot"); else if(dot<=sl) JSV_LEMMA(kind==K_DUP&&rs==S,"no extension: whole path"); }
  kind=K_NONE; rc=FileExtensionCmd(&in,&V,0,&r,0);
  if(rc==JSI_OK) { if(dot>sl) JSV_LEMMA(kind==K_DUP&&rs==S+dot,"extension starts at the last dot: root name and extension make up the path"); else JSV_LEMMA(kind==K_DUP&&rs[0]==0,"no extension"); JSV_REACH("ext"); } }
#endif
