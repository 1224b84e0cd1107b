/* C10: every File command performs its effect only on a path the safe-mode
   check granted.  V[i] is the i-th argument, S[i] its text.  Jsi_InterpAccess
   is used by contract: an arbitrary but fixed permission table (rd/wr per
   path, create per interpreter).  Every effect asserts its permission. */
#include "jsv.h"
#include <dirent.h>
static Jsi_Value V[4], TV[2]; static char S[4][6]; static int topath[2]; static _Bool rd[4], wr[4], cr; static Jsi_Interp *I; static int gchan[2]; static struct Jsi_Chan CH[2]; static int nopen, wlen=-1;
#define ORIG(p) ((p)==&V[0]?0:(p)==&V[1]?1:(p)==&V[2]?2:(p)==&V[3]?3:(p)==&TV[0]?topath[0]:(p)==&TV[1]?topath[1]:-1)
#define SORIG(p) ((p)==S[0]?0:(p)==S[1]?1:(p)==S[2]?2:(p)==S[3]?3:-1)
static _Bool eff, isnum[4]; /* an effect happened */
#define NEED(c,txt) { eff=1; JSV_LEMMA(c,txt); }
static _Bool dw[4]; Jsi_RC s_link(Jsi_Interp *i,Jsi_Value *v){ int k=ORIG(v); JSV_LEMMA(i==I&&k>=0,"access asked for a path argument"); return dw[k]?JSI_OK:JSI_ERROR; }

Jsi_Value *s_idx(Jsi_Interp *i,Jsi_Value *a,int n){ if(n>=3||(n>=MINA&&jsv_nd_bool())) return 0; return &V[n]; }
char *s_str(Jsi_Interp *i,Jsi_Value *v,int *l){ int k=ORIG(v); if(k<0||isnum[k]) return 0; return S[k]; }
Jsi_RC s_acc(Jsi_Interp *i,Jsi_Value *v,int f){ int k=ORIG(v); JSV_LEMMA(i==I&&k>=0,"access asked for a path argument"); if(f==JSI_INTACCESS_READ) return rd[k]?JSI_OK:JSI_ERROR; if(f==JSI_INTACCESS_WRITE) return wr[k]?JSI_OK:JSI_ERROR; if(f==JSI_INTACCESS_CREATE) return cr?JSI_OK:JSI_ERROR; JSV_LEMMA(0,"file access flag"); return JSI_ERROR; }
/* effects */
int Jsi_Stat(Jsi_Interp *i,Jsi_Value *p,Jsi_StatBuf *b){ 
#ifdef U_GLOB
 b->st_mode=jsv_nd_uint(); return jsv_nd_int(); /* type of a link's target only */
#endif
 int k=ORIG(p); NEED(k>=0&&(rd[k]||wr[k]),"stat only of an accessible path") b->st_mode=jsv_nd_uint(); return jsv_nd_int(); }
int Jsi_Lstat(Jsi_Interp *i,Jsi_Value *p,Jsi_StatBuf *b){ int k=ORIG(p); NEED(k>=0&&(rd[k]||wr[k]),"lstat only of an accessible path") return jsv_nd_int(); }
int Jsi_Access(Jsi_Interp *i,Jsi_Value *p,int m){ int k=ORIG(p); if(k<0||((m&W_OK)?!wr[k]:!rd[k])) return -1; return jsv_nd_int(); } /* by its own contract (unit access) */
int Jsi_Chmod(Jsi_Interp *i,Jsi_Value *p,int m){ int k=ORIG(p); NEED(k>=0&&wr[k],"chmod only of a writable path") return jsv_nd_int(); }
int Jsi_Remove(Jsi_Interp *i,Jsi_Value *p,int f){ int k=ORIG(p); NEED(k>=0&&wr[k]&&dw[k],"remove only of a writable path (a link: in a writable directory)") return jsv_nd_int(); }
int Jsi_Rename(Jsi_Interp *i,Jsi_Value *a,Jsi_Value *b){ int k=ORIG(a),l=ORIG(b); NEED(k>=0&&l>=0&&k!=l&&wr[k]&&wr[l]&&cr&&dw[k]&&dw[l],"rename only between writable paths, creation allowed (links: in writable directories)") return jsv_nd_int(); }
int Jsi_Link(Jsi_Interp *i,Jsi_Value *a,Jsi_Value *b,int t){ int k=ORIG(a),l=ORIG(b); NEED(k>=0&&l>=0&&wr[k]&&wr[l]&&cr,"link only between writable paths, creation allowed") return jsv_nd_int(); }
int Jsi_Readlink(Jsi_Interp *i,Jsi_Value *p,char *r,int n){ int k=ORIG(p); NEED(k>=0&&rd[k],"readlink only of a readable path") int x=jsv_nd_int(); JSV_ASSUME(-1<=x&&x<=n); return x; }
/* by contract (unit open): a channel is returned only if its mode is permitted */
Jsi_Channel Jsi_Open(Jsi_Interp *i,Jsi_Value *p,const char *m){ int k=ORIG(p); eff=1; if(jsv_nd_bool()||k<0) return 0; _Bool w=0,known=m&&(SORIG(m)<0); if(!known) w=jsv_nd_bool(); else for(int j=0;j<4&&m[j];j++) if(m[j]=='w'||m[j]=='a'||m[j]=='+') w=1; if(w?!wr[k]:!rd[k]) return 0; int c=nopen++; JSV_ASSUME(c<2); gchan[c]=w?k:-1; return &CH[c]; }
int Jsi_Close(Jsi_Interp *i,Jsi_Channel c){ return 0; }
int Jsi_Read(Jsi_Interp *i,Jsi_Channel c,char *b,int n){ JSV_LEMMA(c!=0,"open channel"); int x=jsv_nd_int(); JSV_ASSUME(x<=n); return x; }
int Jsi_Write(Jsi_Interp *i,Jsi_Channel c,const char *b,int n){ JSV_LEMMA(c!=0,"open channel"); if(wlen>=0) JSV_LEMMA(b==S[1]+(wlen-n)&&0<n&&n<=wlen,"File.write passes on the rest of the data"); int x=jsv_nd_int(); JSV_ASSUME(x<=n); return x; }
int Jsi_Truncate(Jsi_Interp *i,Jsi_Channel c,unsigned int n){ JSV_LEMMA(c!=0&&gchan[c-CH]>=0,"channel opened for writing on a writable path"); return jsv_nd_int(); }
int mkdir(const char *p,mode_t m){ int k=SORIG(p); NEED(k>=0&&wr[k]&&cr,"mkdir only of a writable path, creation allowed") return jsv_nd_int(); }
int mknod(const char *p,mode_t m,dev_t d){ int k=SORIG(p); NEED(p==0||(k>=0&&wr[k]&&cr),"mknod only of a writable path, creation allowed") return jsv_nd_int(); }
int mkstemp(char *p){ int k=SORIG(p)<0?3:SORIG(p); NEED((k>=0&&wr[k]&&cr)||!I->isSafe,"mkstemp only of a writable path, creation allowed") return jsv_nd_int(); }
int close(int f){ return 0; }
Jsi_RC s_rmdirall(Jsi_Interp *i,Jsi_Value *p,int f){ int k=ORIG(p); NEED(k>=0&&wr[k],"recursive delete only of a writable path") return jsv_nd_int(); }
int s_mkdirall(Jsi_Interp *i,Jsi_Value *p){ int k=ORIG(p); NEED(k>=0&&wr[k]&&cr,"mkdir only of a writable path, creation allowed") return jsv_nd_int(); }
/* the rest has no file-system effect */
Jsi_Value *Jsi_ValueNew1(Jsi_Interp *i){ return &TV[0]; }
Jsi_Value *Jsi_ValueNewStringDup(Jsi_Interp *i,const char *s){ topath[1]=SORIG(s); return &TV[1]; }
Jsi_Value *Jsi_ValueNewStringConst(Jsi_Interp *i,const char *s,int n){
#ifdef U_GLOB
 return &TV[1];
#endif
 topath[0]=SORIG(s)<0?3:SORIG(s); return &TV[0]; }
void Jsi_ValueFree(Jsi_Interp *i,Jsi_Value *v){}
int Jsi_DecrRefCount(Jsi_Interp *i,Jsi_Value *v){ return 1; } int Jsi_IncrRefCount(Jsi_Interp *i,Jsi_Value *v){ return 1; }
char *Jsi_Strdup(const char *s){ return (char*)s; } void Jsi_Free(void *p){} void *Jsi_Malloc(unsigned int n){ void *p=malloc(n); JSV_ASSUME(p!=0); return p; }
char *Jsi_NormalPath(Jsi_Interp *i,const char *p,Jsi_DString *d){ return (char*)p; }
char *Jsi_DSValue(Jsi_DString *d){ return S[3]; } void Jsi_DSFree(Jsi_DString *d){} char *Jsi_DSAppend(Jsi_DString *d,const char *s,...){ return S[3]; } char *Jsi_DSAppendLen(Jsi_DString *d,const char *s,int n){ return S[3]; }
bool Jsi_ValueIsBoolean(Jsi_Interp *i,Jsi_Value *v){ return jsv_nd_bool(); } Jsi_RC Jsi_GetNumberFromValue(Jsi_Interp *i,Jsi_Value *v,Jsi_Number *n){ *n=3; return jsv_nd_bool()?JSI_OK:JSI_ERROR; }
char *Jsi_ValueGetStringLen(Jsi_Interp *i,Jsi_Value *v,int *l){ *l=jsv_nd_int(); JSV_ASSUME(0<=*l&&*l<6); wlen=*l; return jsv_nd_bool()?(char*)0:(char*)S[1]; }
bool Jsi_InterpSafe(Jsi_Interp *i){ return i->isSafe; }
Jsi_Value *Jsi_ValueMakeNumber(Jsi_Interp *i,Jsi_Value **r,Jsi_Number n){ return &TV[0]; } Jsi_Value *Jsi_ValueMakeBool(Jsi_Interp *i,Jsi_Value **r,int n){ return &TV[0]; }
Jsi_Value *Jsi_ValueMakeString(Jsi_Interp *i,Jsi_Value **r,const char *s){ return &TV[0]; } Jsi_Value *Jsi_ValueMakeStringKey(Jsi_Interp *i,Jsi_Value **r,const char *s){ return &TV[0]; } Jsi_Value *Jsi_ValueMakeDStringObject(Jsi_Interp *i,Jsi_Value **r,Jsi_DString *d){ return &TV[0]; }
Jsi_Value *Jsi_ValueMakeObject(Jsi_Interp *i,Jsi_Value **v,Jsi_Obj *o){ return &TV[0]; } Jsi_Obj *Jsi_ObjNew(Jsi_Interp *i){ return 0; } Jsi_RC Jsi_ObjInsert(Jsi_Interp *i,Jsi_Obj *o,const char *k,Jsi_Value *v,int f){ return JSI_OK; } 
void Jsi_ValueDup2(Jsi_Interp *i,Jsi_Value **r,Jsi_Value *v){}
char *strerror(int e){ return S[3]; } uid_t geteuid(void){ return 0; } int *__errno_location(void){ static int e; e=jsv_nd_int(); return &e; }
int Jsi_Strcmp(const char *a,const char *b){ return jsv_nd_int(); }
static int copyv;
#define JSV_GHOST_read_chunk { if(copyv++) JSV_ASSUME(0); cnt=jsv_nd_int(); sum=jsv_nd_int(); JSV_ASSUME(cnt>0&&cnt<MAX_LOOP_COUNT&&sum>=0&&sum<100000000); }
#define JSV_GHOST_write_chunk { if(copyv++){ JSV_LEMMA(n>0&&n<=len&&sum+len==wlen,"File.write: what is left is the tail of the data"); JSV_ASSUME(0);} cnt=jsv_nd_int(); sum=jsv_nd_int(); len=jsv_nd_int(); n=jsv_nd_int(); JSV_ASSUME(cnt>0&&cnt<MAX_LOOP_COUNT-1&&sum>=0&&sum<=wlen&&len==wlen-sum&&0<n&&n<=len); }
#define JSV_GHOST_copy_chunk { if(copyv++){ JSV_LEMMA(ich==&CH[0]&&och==&CH[1]&&gchan[1]>=0,"copy loop: the channels stay the ones opened"); JSV_ASSUME(0); } }
#include "jsv_defaults.h"
#include "jsiFileCmds.c"
#define CMD(f) { eff=0; nopen=0; Jsi_RC rc=f(I,&V[3],0,&r,0); if(eff) JSV_REACH(#f); }
#ifdef U_LINK
/* jsi_LinkAccess: the path's text is arbitrary (sl: its last separator) */
static char SP[8]; static int sl; static _Bool isl, made, asked; static Jsi_Value PV,DVv; static _Bool dwr;
const char *k_str(Jsi_Interp *i,Jsi_Value *v){ return SP; }
char *k_rchr(const char *s,int c){ JSV_LEMMA(s==SP&&c=='/',"last separator of the path"); return sl<0?0:SP+sl; }
char *k_dsl(Jsi_DString *d,const char *s,int n){ JSV_LEMMA(sl>=0&&s==SP&&n==sl+1,"directory part of the path"); made=1; return SP; }
char *k_ds(Jsi_DString *d,const char *s,...){ JSV_LEMMA(sl<0&&s[0]=='.'&&s[1]==0,"no directory part: current directory"); made=1; return SP; }
Jsi_Value *k_new(Jsi_Interp *i,const char *s){ JSV_LEMMA(made,"value of the directory part"); return &DVv; }
Jsi_RC k_acc(Jsi_Interp *i,Jsi_Value *v,bool w,bool c){ JSV_LEMMA(v==&DVv&&w,"write access to the directory"); asked=1; return dwr?JSI_OK:JSI_ERROR; }
int k_lstat(Jsi_Interp *i,Jsi_Value *v,Jsi_StatBuf *b){ JSV_LEMMA(v==&PV,"the path itself is looked at"); b->st_mode=isl?S_IFLNK:jsv_nd_uint()&~S_IFMT; return isl?0:jsv_nd_int(); }
void h_link(void){ I=malloc(sizeof *I); JSV_ASSUME(I!=0); sl=jsv_nd_int(); JSV_ASSUME(-1<=sl&&sl<7); isl=jsv_nd_bool(); dwr=jsv_nd_bool(); Jsi_RC r=jsi_LinkAccess(I,&PV); if(I->isSafe&&isl) { JSV_LEMMA(asked&&(r==JSI_OK)==dwr,"a link needs a writable directory"); JSV_REACH("link"); } else JSV_LEMMA(r==JSI_OK,"otherwise no further condition"); }
#endif
#ifdef U_GLOB
bool Jsi_GlobMatch(const char *a,const char *b,int n){ return jsv_nd_bool(); } int snprintf(char *b,size_t n,const char *f,...){ return 0; }
bool Jsi_ValueIsFunction(Jsi_Interp *i,Jsi_Value *v){ return jsv_nd_bool(); } int Jsi_FunctionInvokeBool(Jsi_Interp *i,Jsi_Value *f,Jsi_Value *a,Jsi_Value *t){ return jsv_nd_bool(); } bool Jsi_InterpGone(Jsi_Interp *i){ return jsv_nd_bool(); }
uint Jsi_DSSetLength(Jsi_DString *d,uint n){ return n; } Jsi_RC Jsi_ObjArrayAdd(Jsi_Interp *i,Jsi_Obj *o,Jsi_Value *v){ return JSI_OK; }
static struct dirent **DL;
#define DE (*DL[0])
int Jsi_Scandir(Jsi_Interp *i,Jsi_Value *p,Jsi_Dirent ***nl,int (*f)(const Jsi_Dirent*),int (*c)(const Jsi_Dirent**,const Jsi_Dirent**)){ int k=ORIG(p); NEED(k>=0&&rd[k],"a directory is listed only if readable") int n=jsv_nd_int(); JSV_ASSUME(-1<=n&&n<=1); *nl=DL; return n; }
char *Jsi_Strchr(const char *s,int c){ for(int i=0;i<5;i++){ if(s[i]==(char)c) return (char*)s+i; if(!s[i]) break; } return 0; }
char *Jsi_Strrchr(const char *s,int c){ char *r=0; for(int i=0;i<5;i++){ if(s[i]==(char)c) r=(char*)s+i; if(!s[i]) break; } return r; }
uint Jsi_Strlen(const char *s){ uint n=0; while(n<5&&s[n]) n++; return n; }
static Jsi_RC s_subglob(Jsi_Interp *i,Jsi_Obj *o,Jsi_Value *r,const char *z,const char *p,GlobData *g,int d,int c,Jsi_Value *t){ return jsv_nd_bool()?JSI_OK:JSI_ERROR; }
int jsv_real(void*,void*,void*,const char*,const char*,void*,int,int,void*);
void h_glob(void){ I=malloc(sizeof *I); JSV_ASSUME(I!=0); I->isSafe=1; for(int i=0;i<4;i++) rd[i]=jsv_nd_bool(); topath[0]=3; static GlobData g; __CPROVER_havoc_object(&g); g.types=g.noTypes=0; g.filter=g.dirFilter=0; g.prefix=0; static char p[4],zp[4]; for(int i=0;i<3;i++){ p[i]=jsv_nd_char(); S[3][i]=jsv_nd_char(); }
 DL=malloc(sizeof *DL); JSV_ASSUME(DL!=0); DL[0]=malloc(sizeof(struct dirent)); JSV_ASSUME(DL[0]!=0);
 for(int i=0;i<3;i++) DE.d_name[i]=jsv_nd_char(); DE.d_type=jsv_nd_char();
 jsv_real(I,(Jsi_Obj*)0,(Jsi_Value*)0,zp,p,&g,jsv_nd_int(),jsv_nd_int(),0); if(eff) JSV_REACH("glob"); }
#endif
void h_cmds(void){ Jsi_Value *r=0; I=malloc(sizeof *I); JSV_ASSUME(I!=0); I->isSafe=1; cr=I->safeMode!=jsi_safe_Lockdown; for(int i=0;i<4;i++){ rd[i]=jsv_nd_bool(); wr[i]=jsv_nd_bool(); isnum[i]=jsv_nd_bool(); dw[i]=jsv_nd_bool(); } for(int i=0;i<3;i++){ S[i][5]=0; V[i].d.val=jsv_nd_int(); } S[0][0]=jsv_nd_char(); S[1][0]=jsv_nd_char();
  UCMD }
