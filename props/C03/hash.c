/* C03: the hash table is a finite map.  Chains of unbounded length are
   unfolded lazily: gN is the summary of "the node being visited" - its
   contents are arbitrary at every iteration (havocked by the loop contract),
   constrained only by the node invariant (hval is the hash of its key, it is
   in the bucket of its key).  isK says whether the visited node carries the
   key K looked for. */
#include "jsv.h"
static Jsi_HashEntry *gN; static const char *K; static long nk, g_i, g_d; static _Bool isK, gPass; static uintptr_t gH, gr; static int ktype;
static long gb,gob,gW,gidx; static Jsi_HashEntry *gohead,*gnext,*gwold,**gold; static Jsi_Hash *T; static _Bool gmid,cutA,cutB,seen;
/* Cut points: at a loop head the invariant is asserted on entry and after one
   arbitrary iteration (ghost code inside the loop, no bound). */
#define CUT(f,inv,hav) { JSV_LEMMA(inv,"loop invariant"); if(!f){ f=1; hav } else JSV_ASSUME(0); }
#define INDEX_OK(h) { gidx=(h); JSV_LEMMA((h)<=T->mask&&T->mask==T->numBuckets-1,"bucket index in range"); T->buckets[gidx]=jsv_nd_bool()?gN:0; gohead=T->buckets[gidx]; gwold=T->buckets[gW]; }
#ifdef U_ONE
#define JSV_GHOST_hash_idx { JSV_LEMMA(key==(void*)K&&tablePtr==T&&hindex==(size_t)(RANDOM_INDEX(tablePtr,key)),"bucket index is the one of the key"); INDEX_OK(hindex) }
#define NODE_K (isK==(gN->key.oneWordValue==(void*)K))
#else
#define JSV_GHOST_hash_idx { JSV_LEMMA(hindex==(gH&T->mask),"bucket index is the one of the key"); INDEX_OK(hindex) }
#define NODE_K (!isK||gN->hval==gH)
#endif
#define JSV_GHOST_hash_chain { CUT(cutA,hPtr==gN&&!isK,hPtr=gN;) isK=jsv_nd_bool(); cutB=0; g_d=jsv_nd_long(); JSV_ASSUME(0<=g_d&&g_d<=nk); gN->nextPtr=jsv_nd_bool()?gN:0; JSV_ASSUME(NODE_K); }
#ifdef U_STR
/* equal keys agree at every position; different keys first differ at g_d, at or before the end of K */
#define JSV_GHOST_hash_cmp { if(!cutB) g_i=0; CUT(cutB,hPtr==gN&&gN->hval==gH&&0<=g_i&&g_i<=(isK?nk:g_d)&&p1==K+g_i&&p2==gN->key.string+g_i, g_i=jsv_nd_long(); JSV_ASSUME(0<=g_i&&g_i<=(isK?nk:g_d)); p1=K+g_i; p2=gN->key.string+g_i;) \
 if(isK) JSV_ASSUME(*p2==*p1&&(g_i==nk||*p1!=0)); else if(g_i==g_d) JSV_ASSUME(*p2!=*p1); else JSV_ASSUME(*p1==*p2&&*p1!=0); g_i++; }
#endif
#ifdef U_HSTR
#define JSV_LOOP_hash_str __CPROVER_assigns(c,string,result,g_i,gr) __CPROVER_loop_invariant(0<=g_i&&g_i<=nk&&string==K+g_i&&result==gr) __CPROVER_decreases(nk-g_i)
#define JSV_GHOST_hash_str { gr+=(gr<<3)+(uintptr_t)K[g_i]; g_i++; }
#endif
#ifdef U_HARR
#define JSV_LOOP_hash_arr __CPROVER_assigns(i,result,gr) __CPROVER_loop_invariant(0<=i&&i<=nk&&result==gr) __CPROVER_decreases(nk-i)
#define JSV_GHOST_hash_arr { gr=(unsigned)(gr+(unsigned)(gr<<3)+(unsigned char)K[i]); }
#endif
#ifdef U_RB
/* every old bucket in turn; every node of its chain consed onto the bucket its key belongs to, the other buckets untouched */
#define STEP { if(gmid){ JSV_LEMMA(T->buckets[gidx]==gN&&gN->nextPtr==gohead,"node consed onto the bucket of its key"); JSV_LEMMA(gW==gidx||T->buckets[gW]==gwold,"other buckets untouched"); } }
#define JSV_GHOST_hash_rb { STEP if(gmid) JSV_LEMMA(gnext==0,"chain walked to its end"); gmid=0; CUT(cutA,oldChainPtr==gold+(seen?gb+1:0), gb=jsv_nd_long(); JSV_ASSUME(0<=gb&&gb<gob); oldChainPtr=gold+gb; seen=1; gnewb[gW]=jsv_nd_ptr();) cutB=0; *oldChainPtr=jsv_nd_bool()?gN:0; }
#ifdef U_ONE
#define IDXOK JSV_LEMMA(hindex==(size_t)(RANDOM_INDEX(tablePtr,hPtr->key.oneWordValue)),"bucket index is the one of the key");
#else
#define IDXOK JSV_LEMMA(hindex==(hPtr->hval&T->mask),"bucket index is the one of the key");
#endif
#define JSV_GHOST_hash_rbc { STEP CUT(cutB,hPtr==gN&&(!gmid?hPtr==gold[gb]:hPtr==gnext), gnewb[gW]=jsv_nd_ptr(); hPtr=gN;) gN->nextPtr=jsv_nd_bool()?gN:0; gnext=gN->nextPtr; gwold=gnewb[gW]; }
#define JSV_GHOST_hash_rbi { IDXOK JSV_LEMMA(hindex<=T->mask&&T->mask==T->numBuckets-1,"bucket index in range"); gmid=1; gidx=hindex; gohead=T->buckets[gidx]; }
static Jsi_HashEntry **gnewb;
#endif
#ifdef U_DEL
static Jsi_HashEntry *gE;
/* E is in the chain, after the visited node */
#define JSV_GHOST_hash_del { CUT(cutA,prevPtr==gN&&cnt==0,prevPtr=gN;) gN->nextPtr=jsv_nd_bool()?gN:gE; seen=1; }
#ifdef U_ONE
#define JSV_GHOST_hash_didx { JSV_LEMMA(tablePtr==T&&hindex==(size_t)(RANDOM_INDEX(tablePtr,(const void*)entryPtr->hval)),"bucket index is the one of the key"); DIDX }
#else
#define JSV_GHOST_hash_didx { JSV_LEMMA(hindex==(entryPtr->hval&T->mask),"bucket index is the one of the key"); DIDX }
#endif
#define DIDX { gidx=hindex; JSV_LEMMA(gidx<=T->mask,"bucket index in range"); T->buckets[gidx]=jsv_nd_bool()?gE:gN; gohead=T->buckets[gidx]; gwold=T->buckets[gW]; }
#endif
#ifdef U_NEXT
#define JSV_LOOP_hash_next __CPROVER_assigns(searchPtr->nextEntryPtr,searchPtr->nextIndex,locked) \
 __CPROVER_loop_invariant(gob<=searchPtr->nextIndex && searchPtr->nextIndex<=T->numBuckets && (gwold!=0 ? searchPtr->nextEntryPtr==gwold&&searchPtr->nextIndex==gob : ((gW>=searchPtr->nextIndex||T->buckets[gW]==0||(gW==searchPtr->nextIndex-1&&searchPtr->nextEntryPtr==T->buckets[gW])) && (searchPtr->nextEntryPtr==0 || (searchPtr->nextEntryPtr==gN && searchPtr->nextIndex>gob && searchPtr->nextEntryPtr==T->buckets[searchPtr->nextIndex-1]))))) __CPROVER_decreases(T->numBuckets-searchPtr->nextIndex)
#define JSV_GHOST_hash_next { if(searchPtr->nextIndex<T->numBuckets) JSV_ASSUME(T->buckets[searchPtr->nextIndex]==0||T->buckets[searchPtr->nextIndex]==gN); }
#endif
#ifdef U_CLR
static long gfree,gfp; static _Bool gcd;
#define STEP { if(gmid){ JSV_LEMMA(gfree==1,"visited node released exactly once"); JSV_LEMMA(gfp==gcd,"its value released exactly once"); } }
#define JSV_GHOST_hash_clr { STEP if(gmid) JSV_LEMMA(gnext==0,"chain walked to its end"); CUT(cutA,i==(seen?gb+1:0)&&T->buckets==gold&&(gW>=(long)i||gold[gW]==0), gb=jsv_nd_long(); JSV_ASSUME(0<=gb&&gb<gob); i=gb; seen=1; gold[gW]=jsv_nd_ptr(); JSV_ASSUME(gW>=(long)i||gold[gW]==0);) gmid=0; cutB=0; gold[i]=jsv_nd_bool()?gN:0; }
#define JSV_GHOST_hash_clrc { STEP CUT(cutB,hPtr==gN&&gold[i]==hPtr&&(!gmid||hPtr==gnext)&&(gW>=(long)i||gold[gW]==0),hPtr=gN;) gN->nextPtr=jsv_nd_bool()?gN:0; gnext=gN->nextPtr; gcd=gN->clientData!=0; gfree=gfp=0; gmid=1; }
#endif
#include "jsv_defaults.h"
#include "jsiHash.c"
#ifdef U_ONE
#define KEYTYPE JSI_KEYS_ONEWORD
#endif
uint s_strlen(const char*s){ JSV_LEMMA(s==K,"length of the key"); return nk; }
uintptr_t s_hash(const char*s){ JSV_LEMMA(s==K,"hash of the key looked up"); return gH; }
uintptr_t s_hasharr(const void*s,size_t n){ JSV_LEMMA(s==K&&n==ktype,"hash of the whole key"); return gH; }
int s_memcmp(const void*a,const void*b,size_t n){ JSV_LEMMA(a==gN->key.string&&b==K&&n==ktype,"compares the whole key of the node"); return isK?0:1; }
static void *gnew; static size_t gnewsz; static int ncalloc,nrb; static long gcp;
void *s_calloc(uint n,uint sz){ JSV_LEMMA(n==1,"one entry"); ncalloc++; gnewsz=sz; gnew=malloc(sz); JSV_ASSUME(gnew!=0); return gnew; }
char *s_strcpy(char*d,const char*s){ JSV_LEMMA(s==K&&d==((Jsi_HashEntry*)gnew)->key.string&&__CPROVER_w_ok(d,nk+1),"key copied into the new entry, inside it"); gcp=nk+1; return d; }
void *s_memcpy(void*d,const void*s,size_t n){ JSV_LEMMA(s==K&&d==((Jsi_HashEntry*)gnew)->key.string&&n==ktype&&__CPROVER_w_ok(d,n),"key copied into the new entry, inside it"); gcp=n; return d; }
void s_rebuild(Jsi_Hash*t){ JSV_LEMMA(t==T,"this table grows"); nrb++; }
static void table(void){ T=malloc(sizeof(Jsi_Hash)); JSV_ASSUME(T!=0); long nb=jsv_nd_long(); JSV_ASSUME(nb>=16&&nb<=(1l<<24)&&(nb&(nb-1))==0); T->numBuckets=nb; T->mask=nb-1; JSV_ASSUME(T->downShift<=28&&T->downShift>=2); JSV_ASSUME(T->numEntries>=0&&T->numEntries<(1<<30)); T->buckets=malloc(nb*8); JSV_ASSUME(T->buckets!=0); ktype=T->keyType; T->opts.lockHashProc=0; T->opts.freeHashProc=0; T->opts.interp=0; T->typ=JSI_MAP_HASH; }
static void key(void){ nk=jsv_nd_long(); JSV_ASSUME(nk>=0&&nk<=(1l<<28)); char*p=malloc(nk+1); JSV_ASSUME(p!=0); p[nk]=0; K=p; gH=jsv_nd_ulong(); gN=malloc(sizeof(Jsi_HashEntry)+nk+1); JSV_ASSUME(gN!=0); isK=0; }
#if defined(U_STR)||defined(U_ONE)||defined(U_ARR)
#ifdef U_STR
#define FIND HashStringFind
#define CREATE HashStringCreate
#elif defined(U_ONE)
#define FIND HashOneWordFind
#define CREATE HashOneWordCreate
#else
#define FIND jsi_HashArrayFind
#define CREATE jsi_HashArrayCreate
#endif
static void env(void){ table(); key();
#ifdef U_ONE
 T->keyType=jsv_nd_bool()?JSI_KEYS_ONEWORD:JSI_KEYS_STRINGKEY; K=jsv_nd_ptr();
#elif defined(U_ARR)
 JSV_ASSUME(T->keyType>=JSI_KEYS_STRUCT_MINSIZE&&T->keyType<=nk);
#else
 T->keyType=JSI_KEYS_STRING;
#endif
 ktype=T->keyType; cutA=cutB=0; gidx=-1; gW=jsv_nd_long(); JSV_ASSUME(0<=gW&&gW<T->numBuckets); }
void h_find(void){ env(); Jsi_HashEntry*r=FIND(T,K); if(r) JSV_LEMMA(r==gN&&isK,"an entry is returned only for the key looked up"); else JSV_LEMMA(!isK,"no entry with the key is passed over"); JSV_REACH("find"); }
void h_create(void){ env(); int n0=T->numEntries; _Bool nw=jsv_nd_bool(); ncalloc=nrb=0; gcp=0; gnew=0;
 Jsi_HashEntry*r=CREATE(T,K,jsv_nd_bool()?&nw:0); JSV_LEMMA(r!=0,"an entry results");
 if(!ncalloc){ JSV_LEMMA(r==gN&&isK,"existing entry of this key"); JSV_LEMMA(T->numEntries==n0&&T->buckets[gW]==gwold&&nrb==0,"table unchanged"); }
 else { JSV_LEMMA(r==gnew&&ncalloc==1&&!isK,"new entry only when the key is absent"); JSV_LEMMA(T->buckets[gidx]==r&&r->nextPtr==gohead,"in front of the chain of its bucket"); JSV_LEMMA(gW==gidx||T->buckets[gW]==gwold,"other buckets unchanged"); JSV_LEMMA(T->numEntries==n0+1,"count"); JSV_LEMMA(r->clientData==0&&r->tablePtr==T&&r->typ==JSI_MAP_HASH,"entry initialised"); JSV_LEMMA(nrb==(n0+1>=T->rebuildSize),"grows at the threshold");
#ifdef U_ONE
  JSV_LEMMA(r->key.oneWordValue==(void*)K&&r->hval==(uintptr_t)K,"key and hash stored");
#else
  JSV_LEMMA(r->hval==gH&&gcp==(ktype?ktype:nk+1),"key and hash stored");
#endif
 } JSV_REACH("create"); }
void h_createnew(void){ env(); _Bool nw=jsv_nd_bool(); ncalloc=nrb=0; Jsi_HashEntry*r=CREATE(T,K,&nw); JSV_LEMMA(nw==(ncalloc==1),"newness reported"); JSV_REACH("createnew"); }
#endif
#ifdef U_HSTR
void h_hstr(void){ key(); g_i=0; gr=0; uintptr_t r=HashString(K); JSV_LEMMA(r==gr,"hash is a function of the characters"); JSV_LEMMA(K[g_i]==0,"up to the terminator"); JSV_REACH("hstr"); }
#endif
#ifdef U_HARR
void h_harr(void){ nk=jsv_nd_long(); JSV_ASSUME(nk>=0&&nk<=0x7fffffff); char*p=malloc(nk); JSV_ASSUME(p!=0); K=p; gr=0; uintptr_t r=jsi_HashArray(K,nk); JSV_LEMMA(r==gr,"hash is a function of the bytes"); JSV_REACH("harr"); }
#endif
#ifdef U_RB
static int nfree;
void *s_callocb(uint n,uint sz){ JSV_LEMMA(n==T->numBuckets&&sz==sizeof(void*),"bucket array"); gnewb=malloc((size_t)n*sz); JSV_ASSUME(gnewb!=0); gnewb[gW]=0; return gnewb; }
void s_freeb(void*p){ JSV_LEMMA(p==gold&&p!=T->staticBuckets,"old array freed"); nfree++; }
void h_rb(void){ T=malloc(sizeof(Jsi_Hash)); JSV_ASSUME(T!=0); gob=jsv_nd_long(); JSV_ASSUME(gob>=16&&gob<=(1l<<20)&&(gob&(gob-1))==0); T->numBuckets=gob; T->mask=gob-1; JSV_ASSUME(T->downShift<=28&&T->downShift>=4); gN=malloc(sizeof(Jsi_HashEntry)); JSV_ASSUME(gN!=0);
 gW=jsv_nd_long(); JSV_ASSUME(0<=gW&&gW<4*gob); nfree=0; JSV_ASSUME(T->rebuildSize>0&&T->rebuildSize<=(1<<28)); int rs=T->rebuildSize; unsigned ds=T->downShift; cutA=cutB=gmid=seen=0;
#ifdef U_ONE
 T->keyType=jsv_nd_bool()?JSI_KEYS_ONEWORD:JSI_KEYS_STRINGKEY;
#else
 JSV_ASSUME(T->keyType==JSI_KEYS_STRING||T->keyType>=JSI_KEYS_STRUCT_MINSIZE);
#endif
 if(U_RB==1){ JSV_ASSUME(gob==16); T->buckets=gold=T->staticBuckets; } else { gold=malloc(gob*8); JSV_ASSUME(gold!=0); T->buckets=gold; }
 RebuildTable(T); STEP if(gmid) JSV_LEMMA(gnext==0,"chain walked to its end"); JSV_LEMMA(seen&&gb==gob-1,"every old bucket is moved"); JSV_LEMMA(T->numBuckets==4*gob&&T->mask==4*gob-1&&T->buckets==gnewb,"four times the buckets"); JSV_LEMMA(T->rebuildSize==4*rs&&T->downShift==ds-2,"threshold and shift follow"); JSV_LEMMA(nfree==(U_RB==1?0:1),"old array released"); JSV_REACH("rb"); }
#endif
#ifdef U_DEL
static int nfree,nfp; void s_free(void*p){ JSV_LEMMA(p==gE,"only the entry is released"); nfree++; }
int Jsi_fp(Jsi_Interp*i,Jsi_HashEntry*e,void*d){ JSV_LEMMA(e==gE&&d!=0,"value of the entry released"); nfp++; return 0; }
void h_del(void){ table(); nk=0; gN=malloc(sizeof(Jsi_HashEntry)); gE=malloc(sizeof(Jsi_HashEntry)); JSV_ASSUME(gN!=0&&gE!=0); gE->tablePtr=T; cutA=0; seen=0; 
#ifdef U_ONE
 T->keyType=jsv_nd_bool()?JSI_KEYS_ONEWORD:JSI_KEYS_STRINGKEY; gE->hval=(uintptr_t)gE->key.oneWordValue;
#else
 JSV_ASSUME(T->keyType==JSI_KEYS_STRING||T->keyType>=JSI_KEYS_STRUCT_MINSIZE);
#endif
 gW=jsv_nd_long(); JSV_ASSUME(0<=gW&&gW<T->numBuckets); Jsi_HashEntry*nx=gE->nextPtr; int n0=T->numEntries; _Bool fp=jsv_nd_bool(); if(fp) T->opts.freeHashProc=(Jsi_HashDeleteProc*)Jsi_fp; _Bool cd=gE->clientData!=0; nfree=nfp=0;
 int r=Jsi_HashEntryDelete(gE); JSV_LEMMA(r==1&&nfree==1,"one entry removed"); JSV_LEMMA(nfp==(fp&&cd),"value released exactly once"); JSV_LEMMA(gohead==gE?T->buckets[gidx]==nx:(T->buckets[gidx]==gN&&gN->nextPtr==nx),"unlinked from its chain, the rest kept"); if(gW!=gidx) JSV_LEMMA(T->buckets[gW]==gwold,"other buckets unchanged"); JSV_LEMMA(T->numEntries==n0-1,"count"); JSV_REACH("del"); }
#endif
#ifdef U_NEXT
void h_next(void){ table(); Jsi_HashSearch S; S.tablePtr=T; gN=malloc(sizeof(Jsi_HashEntry)); JSV_ASSUME(gN!=0); gwold=jsv_nd_bool()?gN:0; S.nextEntryPtr=gwold; JSV_ASSUME(S.nextIndex<=T->numBuckets); gob=S.nextIndex; gW=jsv_nd_long(); JSV_ASSUME(gob<=gW&&gW<T->numBuckets); _Bool we=T->buckets[gW]==0;
 /* summary: non-empty buckets start with gN */ JSV_ASSUME(T->buckets[gW]==0||T->buckets[gW]==gN); long any=jsv_nd_long();
 Jsi_HashEntry*r; { extern Jsi_HashEntry*h_searchnext(Jsi_HashSearch*); r=Jsi_HashSearchNext(&S); }
 if(!r){ JSV_LEMMA(gwold==0,"pending entry is not lost"); JSV_LEMMA(S.nextIndex==T->numBuckets,"ends only after the last bucket"); JSV_LEMMA(we,"a skipped bucket is empty"); }
 else { if(gwold) JSV_LEMMA(r==gwold&&S.nextIndex==gob,"continues the current chain"); else { JSV_LEMMA(S.nextIndex>gob&&r==T->buckets[S.nextIndex-1],"first entry of the next bucket"); JSV_LEMMA(gW>=S.nextIndex-1||we,"a skipped bucket is empty"); } }
 JSV_REACH("next"); }
void h_first(void){ table(); Jsi_HashSearch S; gob=0; gwold=0; gN=malloc(sizeof(Jsi_HashEntry)); JSV_ASSUME(gN!=0); gW=jsv_nd_long(); JSV_ASSUME(0<=gW&&gW<T->numBuckets); _Bool we=T->buckets[gW]==0; Jsi_HashEntry*r=Jsi_HashSearchFirst(T,&S); JSV_LEMMA(S.tablePtr==T,"search of this table"); if(!r) JSV_LEMMA(we,"empty only if every bucket is empty"); JSV_REACH("first"); }
#endif
#ifdef U_CLR
static int nfb; void s_freec(void*p){ if(p==gN){ gfree++; } else { JSV_LEMMA(p==gold&&gold!=T->staticBuckets,"bucket array released once"); nfb++; } }
int Jsi_fpc(Jsi_Interp*i,Jsi_HashEntry*e,void*d){ JSV_LEMMA(e==gN&&gcd,"value of the visited entry"); gfp++; return 0; }
void h_clr(void){ table(); nk=0; gN=malloc(sizeof(Jsi_HashEntry)); JSV_ASSUME(gN!=0); gob=T->numBuckets; gold=T->buckets; T->opts.freeHashProc=(Jsi_HashDeleteProc*)Jsi_fpc; gfree=gfp=0; nfb=0; cutA=cutB=gmid=seen=0; gW=jsv_nd_long(); JSV_ASSUME(0<=gW&&gW<gob); _Bool st=U_CLR; if(st){ JSV_ASSUME(gob==16&&T->downShift==28&&T->rebuildSize==48); T->buckets=gold=T->staticBuckets; } 
 Jsi_HashClear(T); STEP if(gmid) JSV_LEMMA(gnext==0,"chain walked to its end"); JSV_LEMMA(seen&&gb==gob-1,"every bucket is emptied"); JSV_LEMMA(nfb==(st?0:1),"bucket array released exactly once"); JSV_LEMMA(T->numEntries==0&&T->buckets==T->staticBuckets&&T->numBuckets==16&&T->mask==15&&T->rebuildSize==48&&T->downShift==28,"empty table again"); if(gW<16) JSV_LEMMA(T->buckets[gW]==0,"no entry left"); JSV_REACH("clr"); }
#endif
#ifdef U_API
static Jsi_HashEntry E; static int nf,nc,nd; static _Bool present,wasnew;
Jsi_HashEntry *s_findp(Jsi_Hash*t,const void*k){ JSV_LEMMA(t==T&&k==K,"find"); nf++; return present?&E:0; }
Jsi_HashEntry *s_createp(Jsi_Hash*t,const void*k,bool*n){ JSV_LEMMA(t==T&&k==K,"create"); nc++; if(n) *n=!present; if(!present) E.clientData=0; return &E; }
int s_delete(Jsi_HashEntry*e){ JSV_LEMMA(e==&E,"delete the entry found"); nd++; return 1; }
void h_api(void){ table(); key(); T->findProc=s_findp; T->createProc=s_createp; present=jsv_nd_bool(); void*v=jsv_nd_ptr(),*v0=jsv_nd_ptr(); E.clientData=v0; E.tablePtr=T; nf=nc=nd=0;
 JSV_LEMMA(Jsi_HashGet(T,K,0)==(present?v0:0),"get returns the value of the key"); _Bool pr=present; _Bool ru=Jsi_HashUnset(T,K); JSV_LEMMA(ru==pr,"unset reports presence"); JSV_LEMMA(nd==(present?1:0),"unset removes the key if present"); Jsi_HashEntry*e=Jsi_HashSet(T,K,v); JSV_LEMMA(e==&E&&Jsi_HashValueGet(e)==v&&nc==1,"set stores the value"); present=1; JSV_LEMMA(Jsi_HashGet(T,K,0)==v,"get after set"); JSV_LEMMA(Jsi_HashSize(T)==T->numEntries,"size"); JSV_REACH("api"); }
#endif
#ifdef U_NEW
void Jsi_Free(void*p){ free(p); }
void *s_calloct(uint n,uint sz){ JSV_LEMMA(n==1&&sz==sizeof(Jsi_Hash),"table"); Jsi_Hash*t=calloc(1,sizeof(Jsi_Hash)); JSV_ASSUME(t!=0); return t; }
void h_new(void){ unsigned kt=jsv_nd_uint(); JSV_ASSUME(kt<0x7fffffff); void*ip=jsv_nd_ptr(); Jsi_Hash*t=Jsi_HashNew(ip,kt,0); if(kt==3){ JSV_LEMMA(t==0,"reserved key type refused"); } else { JSV_LEMMA(t->buckets==t->staticBuckets&&t->numBuckets==16&&t->mask==15&&t->numEntries==0&&t->rebuildSize==48&&t->downShift==28&&t->keyType==kt&&t->opts.interp==ip,"empty table"); for(int i=0;i<16;i++) JSV_LEMMA(t->buckets[i]==0,"no entries");
  JSV_LEMMA(kt==JSI_KEYS_STRING?(t->findProc==HashStringFind&&t->createProc==HashStringCreate):kt<=2?(t->findProc==HashOneWordFind&&t->createProc==HashOneWordCreate):(t->findProc==jsi_HashArrayFind&&t->createProc==jsi_HashArrayCreate),"operations of the key type"); } JSV_REACH("new"); }
#endif
