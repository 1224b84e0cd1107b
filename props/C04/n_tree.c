#include "jsiInt.h"
#include "native.h"
/* random histories of tree operations compared with a reference map */
#define NK 1500
static char keys[NK][24]; static int kt,present[NK],val[NK],flg[NK],count,freed; static void*lastfreed; static Jsi_Tree*T; static int N; static unsigned char seen[NK];
static Jsi_RC fp(Jsi_Interp*i,Jsi_TreeEntry*e,void*d){ (void)i;(void)e; freed++; lastfreed=d; return JSI_OK; }
static const void*kp(int i){ return kt==JSI_KEYS_ONEWORD? *(void**)keys[i] : (const void*)keys[i]; }
static int same(int i,int j){ return kt==JSI_KEYS_STRING||kt==JSI_KEYS_STRINGKEY? !strcmp(keys[i],keys[j]) : kt==JSI_KEYS_ONEWORD? *(void**)keys[i]==*(void**)keys[j] : !memcmp(keys[i],keys[j],kt); }
static int dupk(int i){ for(int j=0;j<i;j++) if(same(i,j)) return 1; return 0; }
static void mkkeys(int n){ static const char*al="aAbBzZ_[0019,. ~"; int style=nv_below(4); for(int i=0;i<n;i++) do { memset(keys[i],0,24);
   if(kt==JSI_KEYS_STRING||kt==JSI_KEYS_STRINGKEY){ if(style==0) sprintf(keys[i],"k%u",nv_below(4*n)); else if(style==1){ int k=nv_below(8); for(int j=0;j<k;j++) keys[i][j]=al[nv_below(16)]; } else { int k=nv_below(20); for(int j=0;j<k;j++) keys[i][j]=style==2?1+nv_below(255):'a'+nv_below(26); } }
   else if(kt==JSI_KEYS_ONEWORD){ uintptr_t v=style==0? i : style==1? (uintptr_t)nv_rand()<<32|nv_rand() : style==2? (uintptr_t)nv_below(4*n)<<(nv_below(8)*8%60) : nv_below(4*n); memcpy(keys[i],&v,8); }
   else for(int j=0;j<kt;j++) keys[i][j]=nv_below(3)?nv_below(3):nv_rand(); } while(dupk(i)); }
static int idx(Jsi_TreeEntry*e){ long v=(long)Jsi_TreeValueGet(e); int i=(int)((v-1)/16); if(v<=0||i>=N||!present[i]||val[i]!=v){ nv_fail("entry","entry with value %ld",v); return -1; } return i; }
static int nodes;
static int shape(Jsi_TreeEntry*e,Jsi_TreeEntry*par){ if(!e) return 1; if(++nodes>NK+5) return -1; if(e->parent!=par){ nv_fail("parent","wrong parent link"); return -1; } if(e->treePtr!=T) nv_fail("tree","wrong tree"); if(!e->f.bits.color&&((e->left&&!e->left->f.bits.color)||(e->right&&!e->right->f.bits.color))) nv_fail("red","red node with red child"); int l=shape(e->left,e),r=shape(e->right,e); if(l<0||r<0) return -1; if(l!=r){ nv_fail("black","black heights %d %d",l,r); return -1; } return l+e->f.bits.color; }
static int last; static void visit(const char*w,Jsi_TreeEntry*e,int c,int inorder){ int i=idx(e); if(i<0) return; if(seen[i]++) nv_fail(w,"key %d twice",i); const void*k=Jsi_TreeKeyGet(e); if(kt==JSI_KEYS_ONEWORD||kt==JSI_KEYS_STRINGKEY? k!=kp(i) : kt==JSI_KEYS_STRING? strcmp(k,keys[i]) : memcmp(k,keys[i],kt)) nv_fail("enum-key","key %d",i); if((e->f.flags&~0x80)!=flg[i]) nv_fail("flags","key %d has flags %x not %x",i,e->f.flags&~0x80,flg[i]);
 if(inorder&&last>=0){ int c; if(kt==JSI_KEYS_STRINGKEY) c=strcmp(keys[last],keys[i]); else if(kt==JSI_KEYS_ONEWORD){ uintptr_t a=*(uintptr_t*)keys[last],b=*(uintptr_t*)keys[i]; c=a<b?-1:a>b; } else if(kt==JSI_KEYS_STRING) c=-1; else c=memcmp(keys[last],keys[i],kt); if(c>=0) nv_fail("order","keys out of order (%d,%d)",last,i); } last=i; (void)c; }
static int wc; static int word; static Jsi_RC wk(Jsi_Tree*t,Jsi_TreeEntry*e,void*d){ (void)t;(void)d; wc++; visit("walk",e,wc,word==JSI_TREE_ORDER_IN); return JSI_OK; }
static void check(void){ if((int)T->numEntries!=count) nv_fail("size","%u != %d",T->numEntries,count); nodes=0; if(T->root&&!T->root->f.bits.color) nv_fail("root","red root"); shape(T->root,NULL); if(nodes!=count) nv_fail("nodes","%d nodes, %d keys",nodes,count);
 static const int ords[]={JSI_TREE_ORDER_IN,JSI_TREE_ORDER_PRE,JSI_TREE_ORDER_POST,JSI_TREE_ORDER_LEVEL}; static const char*on[]={"search-in","search-pre","search-post","search-level"};
 for(int o=0;o<4;o++){ memset(seen,0,NK); int c=0; last=-1; Jsi_TreeSearch s; for(Jsi_TreeEntry*e=Jsi_TreeSearchFirst(T,&s,ords[o],NULL);e;e=Jsi_TreeSearchNext(&s)){ if(++c>count){ nv_fail(on[o],"more entries than keys"); break; } visit(on[o],e,c,o==0); } Jsi_TreeSearchDone(&s); if(c<count) nv_fail(on[o],"%d of %d entries enumerated",c,count);
  memset(seen,0,NK); wc=0; last=-1; word=ords[o]; if(Jsi_TreeWalk(T,wk,NULL,ords[o])!=JSI_OK||wc!=count) nv_fail("walk","order %d: %d of %d",o,wc,count); }
 for(int i=0;i<N;i++){ void*g=Jsi_TreeGet(T,(void*)kp(i),0); if(g!=(present[i]?(void*)(long)val[i]:NULL)) nv_fail("get","key %d: %p",i,g); } }
static void history(int n,int steps,int useproc,int clear){ N=n; memset(present,0,sizeof present); count=0; freed=0; int fexp=0; T=Jsi_TreeNew(NULL,kt,useproc?fp:NULL); int every=n>200?997:n>20?97:7;
 for(int q=0;q<steps;q++){ int i=nv_below(n), op=nv_below(100); int grow=(q/(2*n+1))%2==0; if(op<(grow?70:30)){ long v=16*i+1+nv_below(15); bool nw=9; Jsi_TreeEntry*e=Jsi_TreeEntryNew(T,kp(i),&nw); if(!e||nw!=!present[i]) nv_fail("new","key %d new=%d",i,nw); if(e){ Jsi_TreeValueSet(e,(void*)v); if(!present[i]){ e->f.bits.readonly=nv_below(2); e->f.bits.dontenum=nv_below(2); e->f.bits.user0=nv_below(256); flg[i]=e->f.flags&~0x80; } } if(!present[i]) count++; present[i]=1; val[i]=v; }
  else if(op<75){ void*g=Jsi_TreeGet(T,(void*)kp(i),0); if(g!=(present[i]?(void*)(long)val[i]:NULL)) nv_fail("get","key %d",i); }
  else { int f0=freed; bool r=Jsi_TreeUnset(T,(void*)kp(i)); if(r!=present[i]) nv_fail("unset","key %d",i); if(present[i]){ count--; if(useproc){ fexp++; if(freed!=f0+1||lastfreed!=(void*)(long)val[i]) nv_fail("release","key %d",i); } } else if(freed!=f0) nv_fail("release","absent key"); present[i]=0; }
  if(clear&&nv_below(5*n)==0){ if(useproc) fexp+=count; Jsi_TreeClear(T); memset(present,0,sizeof present); count=0; if(freed!=fexp) nv_fail("clear","%d of %d values released",freed,fexp); freed=fexp; check(); }
  if(q%every==0) check(); }
 check(); if(count>5) nv_nontrivial++; if(useproc) fexp+=count; Jsi_TreeDelete(T); if(freed!=fexp) nv_fail("release","delete: %d of %d",freed,fexp); }
int main(int c,char**v){ nv_init(c,v); static const int kts[]={JSI_KEYS_STRING,JSI_KEYS_STRINGKEY,JSI_KEYS_ONEWORD,4,8,12,20}; nv_watch(120);
 for(int q=0;q<(nv_search?100000:350)&&!nv_timeup();q++){ kt=kts[q%7]; int n=q%5==0?60:q%5==1?6:q%50==2?NK:q%3?20:150; mkkeys(n); int steps=n*(2+nv_below(8)); nv_begin("history %d keytype %d keys %d steps %d seed %s",q,kt,n,steps,c>2?v[2]:"1"); history(n,steps,q%3,q%2); nv_watch(60); }
 nv_watch(0); nv_sample("random history of %d keys of set/get/unset/enumerate(4 orders)/walk(4 orders)/clear",60); nv_done(); return 0; }
