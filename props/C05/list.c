/* C05: doubly linked lists and pointer stacks.
   A list is seen through a window of up to five nodes in order; every link that
   does not touch the operated node is either direct or leads to a part of the
   list the operation must not look at (pointers FARN/FARP, dereferencing them
   is an error).  Lists of any length are covered: only neighbours matter. */
#include "jsv.h"
#define MAXN 5
static Jsi_ListEntry *s[MAXN+1]; static int m; static _Bool far[MAXN]; static Jsi_List *L; static char fn[MAXN],fp[MAXN]; static int N0;
#define FARN(i) ((Jsi_ListEntry*)&fn[i])
#define FARP(i) ((Jsi_ListEntry*)&fp[i])
static Jsi_ListEntry *node(void){ Jsi_ListEntry*e=malloc(sizeof*e); JSV_ASSUME(e!=0); e->sig=JSI_SIG_LISTENTRY; e->list=L; return e; }
static void build(int x){ L=malloc(sizeof*L); JSV_ASSUME(L!=0); L->sig=JSI_SIG_LIST; m=jsv_nd_int(); JSV_ASSUME(0<=m&&m<=MAXN); _Bool any=0;
  for(int i=0;i<MAXN;i++) s[i]=node();
  for(int i=0;i<MAXN-1;i++){ far[i]=jsv_nd_bool(); if(i>=m-1) far[i]=0; any|=far[i]; }
  for(int i=0;i<MAXN;i++) if(i<m){ s[i]->prev= i==0?0: far[i-1]?FARP(i-1): s[i-1]; s[i]->next= i==m-1?0: far[i]?FARN(i): s[i+1]; }
  L->head=m?s[0]:0; L->tail=m?s[m-1]:0; N0=jsv_nd_int(); JSV_ASSUME(any? N0>m&&N0<(1<<30): N0==m); L->numEntries=N0; }
/* the list is exactly the window o[0..k) with the far links in place */
static void is(Jsi_ListEntry**o,int k,_Bool*f,int*fi,int n,const char*t){ JSV_LEMMA(L->numEntries==n,"number of entries"); JSV_LEMMA(L->head==(k?o[0]:0),"first entry"); JSV_LEMMA(L->tail==(k?o[k-1]:0),"last entry");
  for(int i=0;i<MAXN+1;i++) if(i<k){ JSV_LEMMA(o[i]->prev==(i==0?0: f[i-1]?FARP(fi[i-1]): o[i-1]),"links to the entry before"); JSV_LEMMA(o[i]->next==(i==k-1?0: f[i]?FARN(fi[i]): o[i+1]),"links to the entry behind"); JSV_LEMMA(o[i]->list==L,"entries know their list"); } }
static Jsi_ListEntry *o[MAXN+2]; static _Bool f2[MAXN+2]; static int fi[MAXN+2];
/* sequence without s[x] */
static void without(int x){ int k=0; for(int i=0;i<MAXN;i++) if(i<m&&i!=x){ o[k]=s[i]; f2[k]=far[i]; fi[k]=i; if(i+1==x){ f2[k]=0; } k++; } is(o,m-1,f2,fi,N0-1,""); }
static void with(Jsi_ListEntry*e,int at){ int k=0; for(int i=0;i<=MAXN;i++){ if(i==at){ o[k]=e; f2[k]=0; fi[k]=0; k++; } if(i<m&&i<MAXN){ o[k]=s[i]; f2[k]=far[i]; fi[k]=i; if(i+1==at) f2[k]=0; k++; } } is(o,m+1,f2,fi,N0+1,""); }
static int gdel,gval,freed; static Jsi_ListEntry *ge; static void *gev; static _Bool cut;
void s_free(void*p){ JSV_LEMMA(p==ge,"the entry itself is released"); freed++; free(p); }
void *s_calloc(uint n,uint z){ JSV_LEMMA(n*z==sizeof(Jsi_ListEntry),"an entry"); void*p=calloc(1,sizeof(Jsi_ListEntry)); JSV_ASSUME(p!=0); return p; }
#ifdef U_CLEAR
static Jsi_ListEntry *A,*B; static int cb; static Jsi_ListEntry *cbe;
static Jsi_RC s_cb(Jsi_Interp*i,Jsi_ListEntry*h,void*v){ JSV_LEMMA(cut&&h==A&&v==gev&&v!=0&&!freed,"the value of the entry is handed over before it is released"); cb++; return JSI_OK; }
static void cstep(void){ JSV_LEMMA(freed==1,"the entry is released once"); JSV_LEMMA(cb==(gev!=0&&L->opts.freeListProc!=0),"its value once"); JSV_LEMMA(L->head==B,"on to the next entry"); }
#define JSV_GHOST_list_clear { if(cut){ cstep(); JSV_LEMMA(0||L->head==B,"next"); JSV_ASSUME(0);} cut=1; A=node(); B=jsv_nd_bool()?0:node(); A->next=B; A->prev=jsv_nd_bool()?0:(Jsi_ListEntry*)&fp[0]; if(B) { B->prev=A; B->next=(Jsi_ListEntry*)&fn[0]; } gev=A->value; list->head=A; ge=A; }
#endif
#ifdef U_STACK
static int gl,gi; static void **gv; static int calls; static void *cbd;
static Jsi_RC s_del(Jsi_Interp*i,void*d){ JSV_LEMMA(cut&&d==gv[gi],"each element is handed over"); calls++; return JSI_OK; }
#define JSV_GHOST_stack_free { if(cut){ JSV_LEMMA(calls==1&&i==gi+1,"one by one"); JSV_ASSUME(0);} JSV_LEMMA(i==0,"from the first"); cut=1; gi=jsv_nd_int(); JSV_ASSUME(0<=gi&&gi<gl); i=gi; }
static long gwk; static void *wold; static size_t need;
void *s_realloc(void*p,uint n){ JSV_LEMMA(p==(void*)gv&&n%sizeof(void*)==0&&n>gl*sizeof(void*),"grown"); need=n/sizeof(void*); void **q=malloc(sizeof(void*)*need); JSV_ASSUME(q!=0); if(gwk<gl) q[gwk]=wold; free(p); return q; }
static void *s_move(void*d,const void*sr,size_t n){ JSV_LEMMA(d==(void*)gv&&sr==(void*)(gv+1)&&n==sizeof(void*)*(size_t)(gl-1),"the others move down by one"); __CPROVER_havoc_object(gv); if(gwk>0&&gwk<gl) gv[gwk-1]=wold; return d; }
#define memmove s_move
#endif
#include "jsv_defaults.h"
#include "jsiUtils.c"
void h_pop(void){ build(0); int x=jsv_nd_int(); JSV_ASSUME(0<=x&&x<m&&(x==0||!far[x-1])&&!far[x]); Jsi_ListEntry*r=Jsi_ListPop(L,s[x]); JSV_LEMMA(r==s[x]&&r->next==0&&r->prev==0,"the entry is taken out"); without(x); JSV_REACH("end"); }
void h_del(void){ build(0); int x=jsv_nd_int(); JSV_ASSUME(0<=x&&x<m&&(x==0||!far[x-1])&&!far[x]); ge=s[x]; Jsi_ListEntryDelete(s[x]); JSV_LEMMA(freed==1,"released once"); without(x); JSV_REACH("end"); }
void h_deld(void){ build(0); Jsi_ListEntry*e=node(); e->next=e->prev=0; ge=e; Jsi_ListEntryDelete(e); JSV_LEMMA(freed==1,"released once"); for(int i=0;i<MAXN;i++){ f2[i]=far[i]; fi[i]=i; } is(s,m,f2,fi,N0,""); JSV_REACH("end"); }
static int before(void){ int b=jsv_nd_int(); JSV_ASSUME(-1<=b&&b<m&&(b<=0||!far[b-1])); return b; }
void h_push(void){ build(0); Jsi_ListEntry*e=node(); e->next=e->prev=0; e->list=jsv_nd_bool()?L:0; int b=before(); Jsi_ListEntry*r=Jsi_ListPush(L,e,b<0?0:s[b]); JSV_LEMMA(r==e,"the entry"); with(e,b<0?m:b); JSV_REACH("end"); }
void h_new(void){ build(0); int b=before(); int v; Jsi_ListEntry*r=Jsi_ListEntryNew(L,&v,b<0?0:s[b]); JSV_LEMMA(r!=0&&r->value==&v&&r->sig==JSI_SIG_LISTENTRY,"a new entry with the value"); with(r,b<0?m:b); JSV_REACH("end"); }
void h_mov(void){ build(0); int x=jsv_nd_int(); JSV_ASSUME(0<=x&&x<m&&(x==0||!far[x-1])&&!far[x]); int b=before(); JSV_ASSUME(b!=x); if(b<0&&m>1){ } Jsi_ListPush(L,s[x],b<0?0:s[b]); int k=0,at=b<0?m:b; for(int i=0;i<=MAXN;i++){ if(i==at){ o[k]=s[x]; f2[k]=0; k++; } if(i<m&&i<MAXN&&i!=x){ o[k]=s[i]; f2[k]=far[i]; fi[k]=i; if(i+1==x||i+1==at) f2[k]=0; k++; } } is(o,m,f2,fi,N0,""); JSV_REACH("end"); }
void h_search(void){ build(0); Jsi_ListSearch q; int fl=jsv_nd_bool()?JSI_LIST_REVERSE:0; if(m>0) JSV_ASSUME(1); Jsi_ListEntry*r=Jsi_ListSearchFirst(L,&q,fl); JSV_LEMMA(r==(m?(fl?s[m-1]:s[0]):0),"starts at the end asked for"); JSV_LEMMA(q.nextEntryPtr==(m?(fl?s[m-1]->prev:s[0]->next):0),"continues with its neighbour");
  int x=jsv_nd_int(); JSV_ASSUME(-1<=x&&x<m); q.nextEntryPtr=x<0?0:s[x]; q.flags=fl; r=Jsi_ListSearchNext(&q); JSV_LEMMA(r==(x<0?0:s[x]),"visits the entry"); JSV_LEMMA(q.nextEntryPtr==(x<0?0:fl?s[x]->prev:s[x]->next),"then its neighbour"); JSV_LEMMA(Jsi_ListSize(L)==N0,"size"); JSV_REACH("end"); }
#ifdef U_CLEAR
void h_clear(void){ L=malloc(sizeof*L); JSV_ASSUME(L!=0); L->sig=JSI_SIG_LIST; L->numEntries=jsv_nd_int(); L->head=jsv_nd_bool()?node():0; L->tail=jsv_nd_bool()?L->head:(Jsi_ListEntry*)&fn[0]; L->opts.freeListProc=jsv_nd_bool()?s_cb:0; Jsi_ListEntry*h0=L->head; Jsi_ListClear(L); JSV_LEMMA(L->head==0&&L->tail==0&&L->numEntries==0,"empty afterwards"); if(cut) { cstep(); JSV_REACH("last"); } else JSV_LEMMA(h0==0,"nothing to do"); }
#endif
#ifdef U_STACK
static Jsi_Stack S;
static void sbuild(void){ gl=jsv_nd_int(); int mx=jsv_nd_int(); JSV_ASSUME(0<=gl&&gl<=mx&&mx<(1<<26)); S.len=gl; S.maxlen=mx; gv=S.vector= mx?malloc(sizeof(void*)*(size_t)mx):0; JSV_ASSUME(mx==0||gv!=0); gwk=jsv_nd_long(); JSV_ASSUME(0<=gwk&&gwk<(1<<26)); if(gwk<gl) wold=gv[gwk]; }
void h_spush(void){ sbuild(); int e; Jsi_StackPush(&S,&e); JSV_LEMMA(S.len==gl+1&&S.len<=S.maxlen&&S.vector[gl]==(void*)&e,"the element is on top"); JSV_LEMMA(__CPROVER_OBJECT_SIZE(S.vector)>=sizeof(void*)*(size_t)S.maxlen,"room as recorded"); if(gwk<gl) JSV_LEMMA(S.vector[gwk]==wold,"the others stay"); if(need) JSV_REACH("grown"); }
void h_spop(void){ sbuild(); void*t=gl?gv[gl-1]:0,*h=gl?gv[0]:0; JSV_LEMMA(Jsi_StackPeek(&S)==t&&Jsi_StackHead(&S)==h&&Jsi_StackSize(&S)==gl,"top and bottom"); JSV_LEMMA(Jsi_StackPop(&S)==t,"the top element"); JSV_LEMMA(S.len==(gl?gl-1:0)&&S.vector==gv,"one less"); if(gwk<S.len) JSV_LEMMA(S.vector[gwk]==wold,"the others stay"); JSV_REACH("end"); }
void h_sshift(void){ sbuild(); void*h=gl?gv[0]:0; JSV_LEMMA(Jsi_StackUnshift(&S)==h,"the bottom element"); JSV_LEMMA(S.len==(gl?gl-1:0),"one less"); if(gwk>0&&gwk<gl) JSV_LEMMA(S.vector[gwk-1]==wold,"the others move down"); JSV_REACH("end"); }
void h_sfree(void){ sbuild(); Jsi_StackFreeElements(0,&S,s_del); JSV_LEMMA(S.len==0,"empty"); if(cut) { JSV_LEMMA(calls==1&&gi==gl-1,"up to the last"); JSV_REACH("end"); } else JSV_LEMMA(gl==0,"nothing to do"); }
#endif
