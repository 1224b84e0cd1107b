/* C10: the layer below the commands: the access decision itself, channel
   opening, access(2) and chdir. */
#include "jsv.h"
#include <dirent.h>
static Jsi_Interp *I; static Jsi_Value V[3], DV, EL;
#ifdef U_ACC
/* Jsi_InterpAccess: an arbitrary list of directories (gargc entries; the cut
   point takes an arbitrary one), arbitrary resolved path P, arbitrary entry E. */
static char P[PATH_MAX], *E; static int gm, gargc, gw, gi=-1; static _Bool gres, gexact, gpre, acut; static Jsi_Value RV,WV;
char *s_real(Jsi_Interp *i,Jsi_Value *v,char *b){ JSV_LEMMA(i==I&&v==&V[0],"the resolved form of the resource decides"); if(jsv_nd_bool()) return 0; gres=1; return P; }
int s_len(Jsi_Interp *i,Jsi_Value *v){ JSV_LEMMA(v==&RV||v==&WV,"length of a directory list"); return gargc; }
static Jsi_Value *glist;
Jsi_Value *s_idx(Jsi_Interp *i,Jsi_Value *a,int n){ JSV_LEMMA(a==glist,"entries of the list that governs this kind of access"); gi=n; gexact=gpre=0; return jsv_nd_bool()?&EL:0; }
char *s_str(Jsi_Interp *i,Jsi_Value *v,int *l){ JSV_LEMMA(v==&EL,"text of the entry"); if(jsv_nd_bool()) return 0; *l=gm; return E; }
int s_strcmp(const char *a,const char *b){ JSV_LEMMA((a==E&&b==P)||(a==P&&b==E),"entry compared with the resolved path"); if(jsv_nd_bool()) return 1; JSV_ASSUME(gm<PATH_MAX&&P[gm]==0&&(gw>=gm||E[gw]==P[gw])&&E[gm-1]==P[gm-1]); gexact=1; return 0; }
int s_strncmp(const char *a,const char *b,int n){ JSV_LEMMA(((a==E&&b==P)||(a==P&&b==E))&&n==gm,"whole entry compared with the start of the resolved path"); if(jsv_nd_bool()) return 1; JSV_ASSUME(gm<PATH_MAX&&(gw>=gm||(E[gw]==P[gw]&&P[gw]!=0))&&P[gm-1]==E[gm-1]); gpre=1; return 0; }
#define JSV_GHOST_acc_dirs { JSV_LEMMA(0<=i&&i<argc,"loop invariant"); if(acut++) JSV_ASSUME(0); i=jsv_nd_int(); JSV_ASSUME(0<=i&&i<gargc); }
void jsv_main(void);
#include "jsv_defaults.h"
#include "jsiInterp.c"
void h_acc(void){ I=malloc(sizeof *I); JSV_ASSUME(I!=0); gargc=jsv_nd_int(); JSV_ASSUME(0<=gargc); gm=jsv_nd_int(); JSV_ASSUME(0<=gm&&gm<(1<<30)); E=malloc((long)gm+1); JSV_ASSUME(E!=0); E[gm]=0; gw=jsv_nd_int(); JSV_ASSUME(0<=gw&&gw<PATH_MAX);
  if(gw<gm) JSV_ASSUME(E[gw]!=0); if(gm>0) JSV_ASSUME(E[gm-1]!=0); __CPROVER_havoc_object(P); P[PATH_MAX-1]=0;
  _Bool nr=jsv_nd_bool(); I->safeReadDirs=jsv_nd_bool()?&RV:0; I->safeWriteDirs=jsv_nd_bool()?&WV:0; int fl=jsv_nd_int(); glist=fl==JSI_INTACCESS_WRITE?&WV:&RV; I->parent=jsv_nd_bool()?I:0;
  Jsi_RC rc=Jsi_InterpAccess(I,nr?&V[0]:0,fl);
  if(rc==JSI_OK) { 
    if(fl==JSI_INTACCESS_NETWORK) JSV_LEMMA(!I->noNetwork,"network only where allowed");
    else if(fl==JSI_INTACCESS_CREATE) JSV_LEMMA(!(I->isSafe&&I->safeMode==jsi_safe_Lockdown),"lockdown forbids creation");
    else if(fl==JSI_INTACCESS_MAININTERP) JSV_LEMMA(!I->parent,"main interp only");
    else if(fl!=JSI_INTACCESS_SETSSL) { JSV_LEMMA(fl==JSI_INTACCESS_READ||fl==JSI_INTACCESS_WRITE,"unknown kinds of access are denied"); JSV_LEMMA(nr,"a resource is needed");
      if(I->isSafe) { JSV_LEMMA((fl==JSI_INTACCESS_WRITE?I->safeWriteDirs:I->safeReadDirs)!=0&&gi>=0&&gi<gargc,"safe mode: granted only by an entry of the list");
        JSV_LEMMA(gres,"safe mode: decided on the resolved path"); JSV_LEMMA(gexact||gpre,"entry is the path or a prefix of it"); JSV_LEMMA(gm>0&&gm<PATH_MAX&&(gw>=gm||E[gw]==P[gw]),"the entry's bytes start the path"); JSV_LEMMA(P[gm]==0||P[gm]=='/'||(gm>1&&P[gm-1]=='/'),"prefix ends at a component boundary"); JSV_REACH("granted"); } } }
  else if(nr&&!I->isSafe&&(fl==JSI_INTACCESS_READ||fl==JSI_INTACCESS_WRITE)) JSV_LEMMA(0,"unrestricted interpreters are granted access"); }
#endif
#ifdef U_FS
/* V[0]: the path argument; V[1]: its resolved form.  Both name the same file,
   so they share one permission.  rd/wr/cr: the answers of Jsi_InterpAccess. */
#include <stdio.h>
static char S0[4], RP[4], AV[4], EX[4]; static _Bool rd,wr,cr,isargv,isexec,hasreal; static int st0,st1; static Jsi_Filesystem other; static _Bool fopened; static Jsi_Value NV; static char gmode[40]; static _Bool inz;
Jsi_Filesystem *gfs;
#define ID(p) ((p)==&V[0]||(p)==&NV)
char *s_str(Jsi_Interp *i,Jsi_Value *v,int *l){ JSV_LEMMA(v==&V[0],"text of the path"); if(jsv_nd_bool()) return 0; if(l) *l=jsv_nd_int(); return S0; }
const char *s_tostr(Jsi_Interp *i,Jsi_Value *v,int *l){ JSV_LEMMA(v==&V[0],"text of the path"); return S0; }
Jsi_RC s_acc(Jsi_Interp *i,Jsi_Value *v,int f){ JSV_LEMMA(i==I&&ID(v),"access asked for the path"); return (f==JSI_INTACCESS_READ?rd:f==JSI_INTACCESS_WRITE?wr:f==JSI_INTACCESS_CREATE?cr:0)?JSI_OK:JSI_ERROR; }
Jsi_Filesystem *s_fsp(Jsi_Interp *i,Jsi_Value *v,void **d){ return gfs; }
int s_stat(Jsi_Interp *i,Jsi_Value *v,Jsi_StatBuf *b){ b->st_mode=jsv_nd_uint(); return v==&V[0]?st0:st1; }
char *s_frp(Jsi_Interp *i,Jsi_Value *v,char *n){ JSV_LEMMA(v==&V[0],"resolved form of the path"); return hasreal?(char*)RP:(char*)0; }
char *s_frs(Jsi_Interp *i,const char *p,char *n){ JSV_LEMMA(p==AV,"resolved name of the main script"); return jsv_nd_bool()?(char*)AV:(char*)0; }
Jsi_Value *s_newstr(Jsi_Interp *i,const char *s,int n){ JSV_LEMMA(s==RP,"value of the resolved path"); return &NV; }
int s_strcmp(const char *a,const char *b){ if(b==AV) return a==RP||a==S0? !isargv: 1; if(b==EX) return a==RP||a==S0? !isexec:1; return jsv_nd_bool(); }
static Jsi_Filesystem zfs; Jsi_Filesystem *s_find(const char *n){ return jsv_nd_bool()?&zfs:0; }
Jsi_Chan *z_open(Jsi_Interp *i,Jsi_Value *f,const char *m){ JSV_LEMMA(f==&V[0]||f==&NV,"compressed files go through their own open (which uses Jsi_Open)"); static Jsi_Chan c; return jsv_nd_bool()?&c:0; }
FILE *fopen(const char *n,const char *m){ _Bool w=0; for(int i=0;i<JSI_FSMODESIZE&&m[i];i++) if(m[i]!='r'&&m[i]!='b') w=1;
  JSV_LEMMA(n==S0||n==RP,"opens the path or its resolved form");
  if(I->isSafe){ if(w) JSV_LEMMA(wr,"opened for writing only where writing is allowed"); else JSV_LEMMA(rd||isargv||isexec,"opened for reading only where reading is allowed (or the main script / executable)");
    if(w&&(n==RP?(st0!=0&&st1!=0):st0!=0)) JSV_LEMMA(cr,"created only where creation is allowed"); }
  static FILE *F; fopened=1; 
#ifdef H_OPEN
 JSV_REACH("fopen");
#endif
 F=malloc(1); return F; }
int chdir(const char *p){ JSV_LEMMA(p==S0,"changes to the path given"); if(I->isSafe) JSV_LEMMA(rd,"chdir only into readable directories");
#ifdef H_CHDIR
 JSV_REACH("chdir");
#endif
 return jsv_nd_int(); }
void Jsi_Free(void *p){} int Jsi_DecrRefCount(Jsi_Interp *i,Jsi_Value *v){ return 1; } int Jsi_IncrRefCount(Jsi_Interp *i,Jsi_Value *v){ return 1; }
uint Jsi_DSSetLength(Jsi_DString *d,uint n){ return n; } char *Jsi_DSAppendLen(Jsi_DString *d,const char *s,int n){ return S0; } char *Jsi_DSValue(Jsi_DString *d){ return S0; }
void *Jsi_Calloc(unsigned int n,unsigned int s){ void *p=calloc(n,s); JSV_ASSUME(p!=0); return p; }
char *Jsi_Strchr(const char *s,int c){ for(int i=0;i<JSI_FSMODESIZE+1;i++){ if(s[i]==(char)c) return (char*)s+i; if(!s[i]) break; } return 0; }
char *Jsi_Strcpy(char *d,const char *s){ int i=0; for(;;i++){ d[i]=s[i]; if(!s[i]) break; } return d; }
uint Jsi_Strlen(const char *s){ uint n=0; while(n<JSI_FSMODESIZE+1&&s[n]) n++; return n; }
#include "jsv_defaults.h"
#include "jsiFilesys.c"
int jsv_acc_n; int n_access(Jsi_Interp *i,Jsi_Value *v,int m){ if(I->isSafe&&gfs==&jsiFilesystem) JSV_LEMMA(m&W_OK?wr:rd,"access(2) only where access is allowed"); 
#ifdef H_ACCESS
 JSV_REACH("access");
#endif
 return jsv_nd_int(); }
void h_fs(void){ I=malloc(sizeof *I); JSV_ASSUME(I!=0); rd=jsv_nd_bool(); wr=jsv_nd_bool(); cr=jsv_nd_bool(); isargv=jsv_nd_bool(); isexec=jsv_nd_bool(); hasreal=jsv_nd_bool(); st0=jsv_nd_int(); st1=jsv_nd_int(); S0[3]=0;
  static char *av[1]; jsiIntData.execName=EX; av[0]=jsv_nd_bool()?(char*)AV:(char*)0; I->opts.argv=jsv_nd_bool()?av:(char**)0;
  int w=jsv_nd_int(); gfs=w==0?(Jsi_Filesystem*)0:w==1?&other:&jsiFilesystem; other.openProc=z_open; zfs.openProc=z_open; other.accessProc=n_access; jsiFilesystem.accessProc=n_access;
  for(int i=0;i<39;i++) gmode[i]=jsv_nd_char(); gmode[39]=0;
#ifdef H_OPEN
  Jsi_Channel c=Jsi_Open(I,&V[0],gmode);
#elif defined H_ACCESS
  Jsi_Access(I,&V[0],jsv_nd_int());
#else
  jsiIntData.cwdFsPtr=0; int rc=Jsi_Chdir(I,&V[0]); if(I->isSafe&&!rd) JSV_LEMMA(rc!=0,"refused"); 
#endif
}
#endif
#ifdef U_RES
/* ResolveUnixPath: one arbitrary component of the rest of a path, from an
   arbitrary state satisfying the invariant (cut point).  gw: an arbitrary
   position of the result (canonical form there). */
#include <sys/stat.h>
static char *gO,*gR; static int gol, ge, goff, gw, gtl, gn, gkind, gl; static _Bool mid, cutA, cutB, cutC, grp, gln, glst, gapp; static char t0,t1,t2,t3;
#define LD(b) { t0=(b)[gw]; t1=(b)[gw+1]; t2=(b)[gw+2]; t3=(b)[gw+3]; }
#define CAN(e) (gw>=(e)||t0!='/'||(gw+1<(e)&&t1!='/'&&!(t1=='.'&&(gw+2==(e)||t2=='/'))&&!(gw+2<(e)&&t1=='.'&&t2=='.'&&(gw+3==(e)||t3=='/'))))
#ifdef P_SAFE
#undef LD
#undef CAN
#define LD(b)
#define CAN(e) 1
#define NS(t) 1
#endif
#define JSV_GHOST_res_end if(mid){ STEP }
#define END ((gkind==0)?gol:gkind==2?(int)olen:gln?(out[0]?gol:0):grp?(int)m:(int)(olen+n+1))
#ifdef P_SAFE
#define CK(a,b)
#else
#define CK JSV_LEMMA
#endif
#define STEP { int e_=END; LD(out) JSV_LEMMA(0<=e_&&e_<PATH_MAX,"the resolved part ends inside the buffer"); CK(out[e_]==0,"the resolved part ends there"); CK(e_==0||out[0]=='/',"the resolved part is absolute"); JSV_LEMMA(CAN(e_),"the resolved part is canonical"); \
  if(gkind==1&&!grp&&!gln) JSV_LEMMA(glst,"a component is kept as it is only if it is no link"); }
#define JSV_GHOST_res_comp { JSV_LEMMA(0<=path-rest&&path-rest<PATH_MAX&&*path,"path inside its buffer"); if(cutA){ STEP JSV_LEMMA(links>=0&&links<=40,"link count"); JSV_ASSUME(0); } cutA=1; JSV_LEMMA(links==0,"starts without links"); gO=out; gR=rest; \
  __CPROVER_havoc_object(rest); __CPROVER_havoc_object(out); gol=jsv_nd_int(); ge=jsv_nd_int(); goff=jsv_nd_int(); JSV_ASSUME(0<=gol&&gol<PATH_MAX&&0<=goff&&goff<ge&&ge<PATH_MAX); rest[ge]=0; out[gol]=0; rest[PATH_MAX-1]=0; path=rest+goff; JSV_ASSUME(*path); links=jsv_nd_int(); JSV_ASSUME(0<=links&&links<=40); JSV_ASSUME(gol==0? out[0]==0: out[0]=='/'&&out[gol-1]!='/'); LD(out) JSV_ASSUME(CAN(gol)); mid=1; }
#define SRC(t) ((t)-gol-1)
#ifndef P_SAFE
#define NS(t) (SRC(t)<0||SRC(t)>(int)n||(path[SRC(t)]!='/'&&path[SRC(t)]!=0))
#endif
#define JSV_GHOST_res_scan { JSV_LEMMA(goff+(int)n<ge&&NS(gw)&&NS(gw+1)&&NS(gw+2)&&NS(gw+3),"component scan"); if(cutB) JSV_ASSUME(0); cutB=1; n=jsv_nd_int(); JSV_ASSUME(n<PATH_MAX&&goff+(int)n<ge&&path[n]!=0&&path[n]!='/'&&path[0]!='/'&&path[0]!=0&&NS(gw)&&NS(gw+1)&&NS(gw+2)&&NS(gw+3)); }
#define JSV_GHOST_res_scanned { gn=n; JSV_LEMMA(goff+gn<=ge&&(path[n]==0||path[n]=='/'),"component ends at a separator or the end"); gkind=(n==0||(n==1&&path[0]=='.'))?0:(n==2&&path[0]=='.'&&path[1]=='.')?2:1; KSEL }
#if P_KIND==1
#define KSEL JSV_ASSUME(gkind!=1);
#elif P_KIND==2
#define KSEL JSV_ASSUME(gkind==1);
#define RSEL 1
#elif P_KIND==3
#define KSEL JSV_ASSUME(gkind==1);
#define RSEL 0
#else
#define KSEL
#endif
#ifndef RSEL
#define RSEL jsv_nd_bool()
#endif
#define JSV_GHOST_res_pop { JSV_LEMMA(olen<(size_t)gol&&out[olen]!='/',"pop"); if(cutC) JSV_ASSUME(0); cutC=1; olen=jsv_nd_int(); JSV_ASSUME(olen<(size_t)gol&&out[olen]!='/'); }
static char *gT,*gP;
uint s_strlen(const char *s){ if(gO&&s==gO) return gol; if(gT&&s==gT) return gtl; if(gR&&__CPROVER_same_object(s,gR)) return ge-(s-gR); uint r=jsv_nd_uint(); JSV_ASSUME(r<PATH_MAX||(r<(1u<<30)&&s==gP)); return r; }
void s_copy(void *d,const void *s,size_t n){ if(!mid) return; JSV_LEMMA(n==0||(__CPROVER_w_ok(d,n)&&__CPROVER_r_ok(s,n)),"copy inside the buffers"); long D=__CPROVER_POINTER_OFFSET(d);
  
#ifndef P_SAFE
 char v0=0,v1=0,v2=0,v3=0,vz=0,vl=0; const char *S=s; char *B=(char*)d-D;
#define RDV(v,t) if(D<=(t)&&(t)<D+(long)n) v=S[(t)-D];
#define WRV(v,t) if(D<=(t)&&(t)<D+(long)n) B[t]=v;
  RDV(vz,0) RDV(v0,gw) RDV(v1,gw+1) RDV(v2,gw+2) RDV(v3,gw+3) RDV(vl,D+(long)n-1) WRV(vz,0) WRV(v0,gw) WRV(v1,gw+1) WRV(v2,gw+2) WRV(v3,gw+3) WRV(vl,D+(long)n-1)
#endif
}
void *s_memcpy(void *d,const void *s,size_t n){ s_copy(d,s,n); return d; }
void *s_memmove(void *d,const void *s,size_t n){ s_copy(d,s,n); return d; }
char *s_realpath(const char *p,char *t){ if(!mid||!RSEL) return 0; gT=t; __CPROVER_havoc_object(t); gtl=jsv_nd_int(); JSV_ASSUME(1<=gtl&&gtl<PATH_MAX); t[gtl]=0; JSV_ASSUME(t[0]=='/'&&(gtl==1||t[1]!=0)); LD(t) JSV_ASSUME(gtl==1||CAN(gtl)); grp=1; return t; }
int s_lstat(const char *p,struct stat *b){ b->st_mode=jsv_nd_uint(); int r=jsv_nd_bool()?0:-1; glst=r!=0||!S_ISLNK(b->st_mode); return r; }
ssize_t s_readlink(const char *p,char *t,size_t n){ JSV_LEMMA(n<PATH_MAX,"room for the target"); __CPROVER_havoc_object(t); gl=jsv_nd_int(); JSV_ASSUME(-1<=gl&&gl<=(int)n); gln=1; return gl; }
char *s_getcwd(Jsi_Interp *i,Jsi_DString *d){ static char C[PATH_MAX]; return C; }
void s_dsfree(Jsi_DString *d){}
#include "jsv_defaults.h"
#include "jsiFilesys.c"
void h_res(void){ Jsi_Interp in; char *o=malloc(PATH_MAX); JSV_ASSUME(o!=0); static char P[PATH_MAX]; gP=P; gw=jsv_nd_int(); JSV_ASSUME(0<=gw&&gw<PATH_MAX-4);
  char *r=ResolveUnixPath(&in,P,o); if(r&&mid){ CK(r==o&&o[0]=='/',"result is absolute"); JSV_REACH("resolved"); } }
#endif
