/* C04: ordered (red-black) tree.  Local shapes: explicit nodes are the static
   pool X[], subtrees hanging off them are summary nodes S[] with arbitrary
   colour and ghost black height.  Recursive calls and callees are replaced by
   their specification (asserted precondition). */
#include "jsv.h"
static Jsi_Tree *T; static Jsi_TreeEntry *gN,*gL,*gR; static int grc; static _Bool cutA; static long gseen;
#define CUT(f,inv,hav) { JSV_LEMMA(inv,"loop invariant"); if(!f){ f=1; hav } else JSV_ASSUME(0); }
#ifdef U_FIND
#define STEPF JSV_LEMMA(!cutA||(hPtr==(grc<0?gL:gR)&&grc!=0),"search goes into the subtree that may hold the key");
#define JSV_GHOST_tree_find { STEPF CUT(cutA,hPtr==gN,hPtr=gN;) gL=jsv_nd_bool()?gN:0; gR=jsv_nd_bool()?gN:0; gN->left=gL; gN->right=gR; }
#endif
#ifdef U_INS
/* the search for the insertion point: the new node is attached at the free place its key belongs to */
#define JSV_GHOST_tree_ins { JSV_LEMMA(!cutA||n==(grc<0?gL:gR),"descends into the subtree of the key"); CUT(cutA,n==gN,n=gN;) gL=jsv_nd_bool()?gN:0; gR=jsv_nd_bool()?gN:0; gN->left=gL; gN->right=gR; }
#endif
#ifdef U_MAX
#define JSV_GHOST_tree_max { CUT(cutA,n==gN,n=gN;) gN->right=jsv_nd_bool()?gN:gR; gseen=1; }
#endif
#include "jsv_defaults.h"
#include "jsiTree.c"
enum { RED=0, BLACK=1 };
#define NX 6
#define NS 8
static Jsi_TreeEntry X[NX],S[NS]; static int SH[NS]; static char SC[NS]; static int nx; static _Bool gdef; static Jsi_TreeEntry *gn;
static int isS(Jsi_TreeEntry*e){ return e&&__CPROVER_same_object(e,S); }
/* Shapes are enumerated completely: the bits of CF select orientation, presence of
   each subtree and (where the code looks at them) colours, one branch per value; black
   heights and the remaining colours stay symbolic. */
static unsigned CF; static unsigned b1(void){ unsigned r=CF&1; CF>>=1; return r; }
#ifndef TOPK
#define TOPK 0
#endif
#ifndef SPL
#define SPL 0
#define SPLN 1
#endif
static Jsi_Tree TT;
#define ALLCFG(bits,run) { unsigned cfg=jsv_nd_uint(); for(unsigned i=0;i<(1u<<(bits));i++) if(cfg==i){ CF=i*SPLN+SPL; run(); JSV_ASSUME(0); } }
static Jsi_TreeEntry *subc(int i,int c){ SH[i]=jsv_nd_int(); JSV_ASSUME(SH[i]>=0&&SH[i]<1000); SC[i]=c; S[i].f.bits.color=c; S[i].treePtr=T; return &S[i]; }
static Jsi_TreeEntry *sub(int i){ /* an arbitrary subtree or NULL */ if(b1()) return 0; return subc(i,jsv_nd_bool()); }
static int col(Jsi_TreeEntry*e){ return e?e->f.bits.color:BLACK; }
/* black height, or -1000 if the red-black rules are violated below e; gn counts one more while gdef */
static int bh(Jsi_TreeEntry*e,int d){ if(!e) return 0; if(isS(e)){ int i=e-S; if(SC[i]==BLACK&&col(e)==RED) return -1000; return SH[i]+(col(e)==BLACK)+(gdef&&e==gn); }
 if(d==0) return -1000; int l=bh(e->left,d-1),r=bh(e->right,d-1); if(l<0||r<0||l!=r) return -1000; if(col(e)==RED&&((col(e->left)==RED&&!(gdef&&e->left==gn))||(col(e->right)==RED&&!(gdef&&e->right==gn)))) return -1000; return l+(col(e)==BLACK); }
#define D 5
static Jsi_TreeEntry *seq[2][16]; static int sl[2];
static void inord(Jsi_TreeEntry*e,int k,int d){ if(!e||d==0||sl[k]>=14) return; if(isS(e)){ seq[k][sl[k]++]=e; return; } inord(e->left,k,d-1); seq[k][sl[k]++]=e; inord(e->right,k,d-1); }
static _Bool links(Jsi_TreeEntry*e,Jsi_TreeEntry*p,int d){ if(!e) return 1; if(e->parent!=p) return 0; if(isS(e)) return 1; if(d==0) return 0; return links(e->left,e,d-1)&&links(e->right,e,d-1); }
static void L(Jsi_TreeEntry*e,Jsi_TreeEntry*l,Jsi_TreeEntry*r){ e->left=l; e->right=r; if(l) l->parent=e; if(r) r->parent=e; e->treePtr=T; }
static Jsi_TreeEntry *TOP; /* X[0] stands for the rest of the tree above (or NULL: local root is the tree root) */
static Jsi_TreeEntry *top(void){ return TOP? (gseen?TOP->left:TOP->right) : T->root; }
static void mktop(Jsi_TreeEntry*r){ T=&TT; TOP=TOPK?&X[0]:0; gseen=TOPK==1; }
static void settop(Jsi_TreeEntry*r){  JSV_ASSUME(CF==0); if(TOP){ TOP->left=gseen?r:0; TOP->right=gseen?0:r; TOP->parent=0; TOP->treePtr=T; T->root=TOP; r->parent=TOP; } else { T->root=r; r->parent=0; } }
#define SAME_ORDER { JSV_LEMMA(sl[0]==sl[1],"same nodes"); for(int i=0;i<14;i++) if(i<sl[0]) JSV_LEMMA(seq[0][i]==seq[1][i],"in-order sequence unchanged"); }
#define BEFORE(r) { sl[0]=sl[1]=0; inord(r,0,D); }
#define AFTER { inord(top(),1,D); SAME_ORDER JSV_LEMMA(links(top(),TOP,D),"parent links"); if(TOP) JSV_LEMMA((gseen?TOP->right:TOP->left)==0&&T->root==TOP,"rest of the tree untouched"); }
#ifdef U_ROT
static void run(void){ mktop(0); Jsi_TreeEntry*n=&X[1],*c=&X[2]; _Bool left=b1(); Jsi_TreeEntry*a=sub(0),*b=sub(1),*d=sub(2); if(left){ L(c,b,d); L(n,a,c); } else { L(c,a,b); L(n,c,d); } settop(n); BEFORE(n) if(left) rotate_left(n); else rotate_right(n); AFTER JSV_LEMMA(top()==c&&(left?c->left:c->right)==n,"child takes the place of the node"); JSV_REACH("rot"); }
void h_rot(void) ALLCFG(4,run)
#endif
#ifdef U_SWAP
static void run(void){ mktop(0); Jsi_TreeEntry*n=&X[1],*m=&X[2]; n->f.bits.color=jsv_nd_bool(); m->f.bits.color=jsv_nd_bool(); int cn=col(n),cm=col(m); int k=b1()+2*b1(); Jsi_TreeEntry*a=sub(0),*b=sub(1),*c=sub(2),*d=sub(3); Jsi_TreeEntry*p=&X[3];
 /* m below n: directly on either side, or deeper (its parent p stands for the path between) */
 if(k==0){ L(m,a,b); L(n,m,c); } else if(k==1){ L(m,a,b); L(n,c,m); } else { L(m,a,b); if(b1()) L(p,d,m); else L(p,m,d); if(k==2) L(n,p,c); else L(n,c,p); }
 settop(n); BEFORE(n) SwapNodes(n,m); inord(top(),1,D); JSV_LEMMA(sl[0]==sl[1],"same nodes"); for(int i=0;i<14;i++) if(i<sl[0]) JSV_LEMMA(seq[1][i]==(seq[0][i]==n?m:seq[0][i]==m?n:seq[0][i]),"the two nodes change places, everything else stays"); JSV_LEMMA(links(top(),TOP,D),"parent links"); if(TOP) JSV_LEMMA((gseen?TOP->right:TOP->left)==0&&T->root==TOP,"rest untouched"); JSV_LEMMA(top()==m&&col(m)==cn&&col(n)==cm,"places keep their colours"); JSV_REACH("swapn"); }
void h_swapn(void) ALLCFG(7,run)
#endif
#ifdef U_ICASE
static int ncall; static Jsi_TreeEntry*gg; static int gb0;
void s_icase1(Jsi_TreeEntry*g){ ncall++; JSV_LEMMA(g==gg&&g==top(),"continues at the grandparent"); JSV_LEMMA(col(g)==RED&&bh(g,D)==gb0,"subtree valid, red root, black height kept"); }
static void run(void){ mktop(0); Jsi_TreeEntry*g=&X[1],*p=&X[2],*n=&X[3],*u,*a=sub(0),*b=sub(1),*c=sub(2); u=b1()?0:subc(3,b1()); g->f.bits.color=BLACK; p->f.bits.color=b1(); n->f.bits.color=RED; gdef=0; L(n,a,b); if(b1()) L(p,n,c); else L(p,c,n); if(b1()) L(g,p,u); else L(g,u,p); if(col(p)==BLACK) g->f.bits.color=jsv_nd_bool(); settop(g); gg=g; ncall=0;
 JSV_ASSUME(col(a)==BLACK&&col(b)==BLACK&&bh(a,D)==bh(b,D)); if(col(p)==RED) JSV_ASSUME(col(c)==BLACK); JSV_ASSUME(bh(c,D)==bh(n,D)); if(col(g)==RED) JSV_ASSUME(col(u)==BLACK&&col(p)==BLACK); int hp=bh(n,D)+(col(p)==BLACK); JSV_ASSUME(bh(u,D)==hp); gb0=hp+(col(g)==BLACK); int cg=col(g);
 BEFORE(g) insert_case2(n); AFTER if(!ncall){ JSV_LEMMA(bh(top(),D)==gb0,"valid red-black subtree of the same black height"); JSV_LEMMA(col(top())==cg,"colour of the subtree root kept"); } JSV_REACH("icase"); }
void h_icase(void) ALLCFG(8,run)
void h_iroot(void){ T=&TT; Jsi_TreeEntry*n=&X[1]; n->parent=0; n->f.bits.color=RED; L(n,sub(0),sub(1)); insert_case1(n); JSV_LEMMA(col(n)==BLACK,"root is black"); JSV_REACH("iroot"); }
/* the parent is the root (no grandparent): the root is black */
void h_iroot2(void){ T=&TT; Jsi_TreeEntry*n=&X[1],*p=&X[2]; p->parent=0; p->f.bits.color=BLACK; n->f.bits.color=RED; L(n,sub(0),sub(1)); L(p,n,sub(2)); insert_case1(n); JSV_LEMMA(col(n)==RED&&col(p)==BLACK&&p->left==n&&n->parent==p,"nothing to repair"); JSV_REACH("iroot2"); }
#endif
#ifdef U_DCASE
static int ncall; static int gb0,gcp; static Jsi_TreeEntry *P;
/* D-state at n: everything valid when n counts one more black than it has */
#define ST() (&X[2])
#define DSTATE(pre) dstate(); JSV_ASSUME(pre); dstate2();
static void dstate(void){ P=&X[1]; Jsi_TreeEntry*s=&X[2],*l,*r; gn=subc(0,jsv_nd_bool()); P->f.bits.color=b1(); s->f.bits.color=b1();
 /* each nephew: none, a subtree, or a node with its own subtrees */
 if(b1()) l=b1()?0:subc(3,b1()); else { l=&X[3]; L(l,sub(1),sub(2)); l->f.bits.color=b1(); }
 if(b1()) r=b1()?0:subc(4,b1()); else { r=&X[4]; L(r,sub(5),sub(6)); r->f.bits.color=b1(); }
 L(s,l,r); if(b1()) L(P,gn,s); else L(P,s,gn); settop(P); }
static void dstate2(void){ gdef=1; gb0=bh(P,D); JSV_ASSUME(gb0>=0); gcp=col(P); ncall=0; }
static Jsi_TreeEntry *sibl(void){ return gn->parent->left==gn?gn->parent->right:gn->parent->left; }
/* specifications of the callees: D-state at their node */
void s_dcase1(Jsi_TreeEntry*x){ ncall++; JSV_LEMMA(x==P&&x==top(),"continues at the parent"); gdef=0; JSV_LEMMA(bh(x,D)==gb0-1,"parent's subtree valid, one black short"); gdef=1; }
static void s_dc(Jsi_TreeEntry*x,int want){ ncall++; JSV_LEMMA(x==gn,"same node"); gdef=1; JSV_LEMMA(bh(top(),D)==gb0,"deficit state kept"); JSV_LEMMA(gn->parent==P&&sibl()!=0,"sibling exists"); if(want>=3) JSV_LEMMA(col(sibl())==BLACK,"sibling is black"); JSV_LEMMA(TOP?1:col(top())==BLACK||gcp==RED,"root black"); if(col(top())==RED) JSV_LEMMA(gcp==RED,"no new red root of the subtree");
 if(want>=4) JSV_LEMMA(!(col(P)==BLACK&&col(sibl()->left)==BLACK&&col(sibl()->right)==BLACK),"case 3 excluded"); if(want>=5) JSV_LEMMA(col(sibl()->left)==RED||col(sibl()->right)==RED,"sibling has a red child"); if(want>=6) JSV_LEMMA(P->left==gn?col(sibl()->right)==RED:col(sibl()->left)==RED,"outer nephew is red"); }
void s_dcase3(Jsi_TreeEntry*x){ s_dc(x,3); } void s_dcase4(Jsi_TreeEntry*x){ s_dc(x,4); } void s_dcase5(Jsi_TreeEntry*x){ s_dc(x,5); } void s_dcase6(Jsi_TreeEntry*x){ s_dc(x,6); }
#define DONE if(!ncall){ gdef=0; JSV_LEMMA(bh(top(),D)==gb0,"deficit repaired, black height kept"); JSV_LEMMA(col(top())==gcp||col(top())==BLACK,"no new red root"); if(col(gn)==RED) JSV_LEMMA(col(gn->parent)==BLACK,"no red parent"); }
static void run2(void){ mktop(0); Jsi_TreeEntry*s=&X[2]; DSTATE(col(s)==BLACK||(s->left&&s->right&&!isS(s->left)&&!isS(s->right))) BEFORE(P) delete_case2(gn); AFTER JSV_LEMMA(ncall==1,"continues"); JSV_REACH("d2"); }
void h_d2(void) ALLCFG(9,run2)
static void run3(void){ mktop(0); DSTATE(col(&X[2])==BLACK) BEFORE(P) delete_case3(gn); AFTER JSV_LEMMA(ncall==1,"continues"); JSV_REACH("d3"); }
void h_d3(void) ALLCFG(9,run3)
static void run4(void){ mktop(0); DSTATE(col(&X[2])==BLACK&&!(col(P)==BLACK&&col(X[2].left)==BLACK&&col(X[2].right)==BLACK)) BEFORE(P) delete_case4(gn); AFTER DONE JSV_REACH("d4"); }
void h_d4(void) ALLCFG(9,run4)
static void run5(void){ mktop(0); DSTATE(col(&X[2])==BLACK&&(col(X[2].left)==RED||col(X[2].right)==RED)) if(P->left==gn) JSV_ASSUME(!X[2].left||!isS(X[2].left)); else JSV_ASSUME(!X[2].right||!isS(X[2].right)); BEFORE(P) delete_case5(gn); AFTER DONE JSV_REACH("d5"); }
void h_d5(void) ALLCFG(9,run5)
static void run6(void){ mktop(0); DSTATE(col(&X[2])==BLACK&&(P->left==gn?col(X[2].right)==RED:col(X[2].left)==RED)) BEFORE(P) delete_case6(gn); AFTER DONE JSV_REACH("d6"); }
void h_d6(void) ALLCFG(9,run6)
#endif
#ifdef U_DEL1
static int ncall; static Jsi_TreeEntry*gc; static int c0;
void s_dcase1(Jsi_TreeEntry*x){ ncall++; JSV_LEMMA(x==&X[1],"at the node"); JSV_LEMMA(c0==BLACK,"only when a black node goes"); JSV_LEMMA(col(x)==col(gc),"node carries the colour of what replaces it"); }
static void run(void){ mktop(0); Jsi_TreeEntry*n=&X[1]; gc=b1()?0:subc(0,b1()); n->f.bits.color=b1(); _Bool r=b1(); L(n,r?0:gc,r?gc:0); settop(n); gdef=0; JSV_ASSUME(bh(n,D)>=0); ncall=0; c0=col(n); delete_one_child(n); JSV_LEMMA(ncall==(c0==BLACK),"rebalanced exactly when a black node goes"); JSV_LEMMA(top()==gc&&(!gc||gc->parent==TOP),"the only subtree takes its place"); if(!TOP) JSV_LEMMA(col(T->root)==BLACK,"root black"); JSV_REACH("del1"); }
void h_del1(void) ALLCFG(4,run)
#endif
#ifdef U_CMP
void h_cmp(void){ const void*a=jsv_nd_ptr(),*b=jsv_nd_ptr(),*c=jsv_nd_ptr(); int ab=OneWordCompare(0,a,b),ba=OneWordCompare(0,b,a),bc=OneWordCompare(0,b,c),ac=OneWordCompare(0,a,c); JSV_LEMMA((ab==0)==(a==b),"zero only for equal keys"); JSV_LEMMA((ab<0)==(ba>0),"antisymmetric"); if(ab<0&&bc<0) JSV_LEMMA(ac<0,"transitive"); JSV_REACH("cmp"); }
#endif
#if defined(U_FIND)||defined(U_INS)
static const void*K; static int ncre,nfix; static Jsi_TreeEntry *gnew; static _Bool gisn;
int s_cmp(Jsi_Tree*t,const void*a,const void*b){ JSV_LEMMA(t==T&&a==(void*)&gN&&b==K,"compares the key of the node with the key wanted"); grc=jsv_nd_int();
#ifdef U_INS
 JSV_ASSUME(grc!=0); /* the key is not in the tree: createProc looked first */
#endif
 return grc; }
void *s_key(Jsi_TreeEntry*e){ JSV_LEMMA(e==gN,"key of the visited node"); return (void*)&gN; }
Jsi_TreeEntry *s_create(Jsi_Tree*t,const void*k,bool*n){ JSV_LEMMA(t==T&&k==K,"create"); ncre++; *n=gisn; return gisn?gnew:gN; }
void s_fix(Jsi_TreeEntry*e){ nfix++; JSV_LEMMA(e==gnew&&e->f.bits.color==RED,"rebalance from the new red node"); }
static void env(void){ T=malloc(sizeof(*T)); JSV_ASSUME(T!=0); K=jsv_nd_ptr(); gN=malloc(sizeof(*gN)); JSV_ASSUME(gN!=0); T->root=jsv_nd_bool()?gN:0; T->opts.compareTreeProc=s_cmp; T->opts.lockTreeProc=0; T->createProc=s_create; T->flags.internstr=0; cutA=0; grc=1; }
#endif
#ifdef U_FIND
void h_find(void){ env(); T->flags.destroyed=0; Jsi_TreeEntry*r=Jsi_TreeEntryFind(T,K); if(r) JSV_LEMMA(r==gN&&grc==0,"an entry is returned only for an equal key"); else JSV_LEMMA(T->root==0||(cutA&&grc!=0&&(grc<0?gL:gR)==0),"nothing found only where the key would have to be"); JSV_REACH("find"); }
#endif
#ifdef U_INS
void h_ins(void){ env(); T->flags.destroyed=0; T->flags.nonredblack=0; gnew=calloc(1,sizeof(*gnew)); JSV_ASSUME(gnew!=0); gisn=jsv_nd_bool(); unsigned ep=T->epoch; _Bool isn; ncre=nfix=0; Jsi_TreeEntry*root=T->root; if(!gisn) JSV_ASSUME(root!=0); Jsi_TreeEntry*l0=gN->left,*r0=gN->right; Jsi_TreeEntry*r=Jsi_TreeEntryNew(T,K,&isn); JSV_LEMMA(ncre==1&&isn==gisn,"newness reported"); JSV_LEMMA(!T->flags.inserting,"not inserting any more");
 if(!gisn) JSV_LEMMA(r==gN&&T->root==root&&nfix==0&&gN->left==l0&&gN->right==r0,"tree unchanged"); else { JSV_LEMMA(r==gnew&&nfix==1&&T->epoch==ep+1,"new entry"); if(!root) JSV_LEMMA(T->root==gnew&&gnew->parent==0,"first entry is the root"); else { JSV_LEMMA(T->root==root&&gnew->parent==gN,"attached below the visited node"); JSV_LEMMA(grc<0?(gL==0&&gN->left==gnew&&gN->right==gR):(gR==0&&gN->right==gnew&&gN->left==gL),"at the free place its key belongs to"); } } JSV_REACH("ins"); }
#endif
#ifdef U_MAX
void h_max(void){ gN=malloc(sizeof(*gN)); gR=malloc(sizeof(*gR)); JSV_ASSUME(gN&&gR); gN->right=jsv_nd_bool()?gN:gR; gR->right=0; cutA=0; Jsi_TreeEntry*r=maximum_node(jsv_nd_bool()?gN:gR); JSV_LEMMA(r==gR&&r->right==0,"last node of the right spine"); JSV_REACH("max"); }
#endif
#ifdef U_DEL
static int nswap,nd1,nfree,nfp; static Jsi_TreeEntry *E,*M; static _Bool two;
void s_swap(Jsi_TreeEntry*a,Jsi_TreeEntry*b){ JSV_LEMMA(a==E&&b==M&&nd1==0,"changes places with its predecessor"); nswap++; E->right=0; }
Jsi_TreeEntry*s_max(Jsi_TreeEntry*a){ JSV_LEMMA(a==E->left,"predecessor is in the left subtree"); return M; }
void s_del1(Jsi_TreeEntry*a){ JSV_LEMMA(a==E&&nfree==0&&(E->left==0||E->right==0),"unlinks the entry, which has at most one child"); nd1++; }
void s_free(void*p){ JSV_LEMMA(p==E,"releases the entry"); nfree++; }
Jsi_RC s_fp(Jsi_Interp*i,Jsi_TreeEntry*e,void*d){ JSV_LEMMA(e==E&&d!=0&&nfree==0,"releases the value before the entry"); nfp++; return 0; }
#ifndef FP
#define FP 0
#endif
void h_del(void){ T=malloc(sizeof(*T)); E=malloc(sizeof(*E)); M=malloc(sizeof(*M)); JSV_ASSUME(T&&E&&M); E->treePtr=T; T->opts.lockTreeProc=0; T->opts.freeTreeProc=FP?(Jsi_TreeDeleteProc*)s_fp:0; _Bool fp=T->opts.freeTreeProc!=0; E->left=jsv_nd_bool()?M:0; E->right=jsv_nd_bool()?M:0; two=E->left&&E->right; nswap=nd1=nfree=nfp=0; _Bool v=E->value!=0; unsigned ne=T->numEntries,ep=T->epoch; _Bool raw=T->flags.destroyed||T->flags.nonredblack==1; int r=Jsi_TreeEntryDelete(E); JSV_LEMMA(nfree==1&&nfp==(v&&fp),"entry and value released exactly once"); JSV_LEMMA(T->numEntries==ne-1,"count"); if(!raw) JSV_LEMMA(nd1==1&&nswap==(two?1:0)&&T->epoch==ep+1&&r==1,"unlinked once"); else JSV_LEMMA(nd1==0&&nswap==0,"left to the caller"); JSV_REACH("del"); }
#endif
#ifdef U_DESTROY
static int k,st; static Jsi_TreeEntry *E,*A,*B;
void s_destroy(Jsi_Interp*i,Jsi_TreeEntry*e){ JSV_LEMMA(!(st&4),"children first"); if(e==A){ JSV_LEMMA(!(st&1),"once"); st|=1; } else { JSV_LEMMA(e==B&&!(st&2),"once"); st|=2; } }
int s_edel(Jsi_TreeEntry*e){ JSV_LEMMA(e==E&&!(st&4)&&e->left==0&&e->right==0,"then the node itself, unlinked"); st|=4; return 0; }
void jsv_real(Jsi_Interp*,Jsi_TreeEntry*);
void h_destroy(void){ E=malloc(sizeof(*E)); A=malloc(sizeof(*A)); B=malloc(sizeof(*B)); JSV_ASSUME(E&&A&&B); E->left=jsv_nd_bool()?A:0; E->right=jsv_nd_bool()?B:0; st=0; int want=4|(E->left?1:0)|(E->right?2:0); jsv_real(0,E); JSV_LEMMA(st==want,"every node of the subtree exactly once"); JSV_REACH("destroy"); }
#endif
#ifdef U_CLEAR
static int nd; void s_destroy(Jsi_Interp*i,Jsi_TreeEntry*e){ nd++; JSV_LEMMA(e==gN&&T->flags.destroyed,"walks the whole tree without re-balancing"); }
void h_clear(void){ T=malloc(sizeof(*T)); JSV_ASSUME(T!=0); gN=malloc(sizeof(*gN)); T->opts.lockTreeProc=0; T->root=gN; T->flags.destroyed=0; nd=0; T->sig=JSI_SIG_TREE; unsigned ep=T->epoch; Jsi_TreeClear(T); JSV_LEMMA(nd==1&&T->root==0&&!T->flags.destroyed,"empty and usable again"); JSV_LEMMA(T->epoch!=ep,"running searches notice"); JSV_REACH("clear"); }
#endif
#ifdef U_WALK
static int seqn; static Jsi_TreeEntry *E,*A,*B,*ev[4]; static _Bool stop; 
Jsi_RC s_cb(Jsi_Tree*t,Jsi_TreeEntry*e,void*d){ JSV_LEMMA(t==T&&e==E&&d==(void*)&seqn,"callback"); if(seqn<4) ev[seqn]=e; seqn++; return JSI_OK; }
Jsi_RC s_walk(Jsi_Tree*t,Jsi_TreeEntry*e,Jsi_TreeWalkProc*cb,void*d){ JSV_LEMMA(t==T&&cb==s_cb&&d==(void*)&seqn,"same walk"); if(seqn<4) ev[seqn]=e; seqn++; return JSI_OK; }
Jsi_RC jsv_real(Jsi_Tree*,Jsi_TreeEntry*,Jsi_TreeWalkProc*,void*); void *keepw=U_WALK;
void h_walk(void){ T=malloc(sizeof(*T)); E=malloc(sizeof(*E)); A=malloc(sizeof(*A)); B=malloc(sizeof(*B)); JSV_ASSUME(T&&E&&A&&B); E->treePtr=T; E->left=jsv_nd_bool()?A:0; E->right=jsv_nd_bool()?B:0; seqn=0; Jsi_RC rc; rc=jsv_real(T,E,s_cb,&seqn); JSV_LEMMA(rc==JSI_OK,"completes"); Jsi_TreeEntry*w[3]; int n=0;
#define PUSH(x) if(x) w[n++]=x;
 if(W_KIND==0){ PUSH(E->right) PUSH(E) PUSH(E->left) } else if(W_KIND==1){ PUSH(E) PUSH(E->right) PUSH(E->left) } else { PUSH(E->right) PUSH(E->left) PUSH(E) }
 JSV_LEMMA(seqn==n,"subtrees and node exactly once"); for(int i=0;i<3;i++) if(i<n) JSV_LEMMA(ev[i]==w[i],"in the order asked for"); JSV_REACH("walk"); }
#endif
#ifdef U_CREATE
static const char*K; static long nk; static Jsi_TreeEntry*gnew; static size_t gsz; static int nc; static long cp; static _Bool pres;
unsigned s_strlen(const char*s){ JSV_LEMMA(s==K,"length of the key"); return nk; }
void *s_calloc(unsigned n,unsigned sz){ JSV_LEMMA(n==1,"one entry"); nc++; gnew=calloc(1,sz); JSV_ASSUME(gnew!=0); return gnew; }
char *s_strcpy(char*d,const char*s){ JSV_LEMMA(s==K&&d==gnew->key.string&&__CPROVER_w_ok(d,nk+1),"key copied into the entry, inside it"); cp=nk+1; return d; }
void *s_memcpy(void*d,const void*s,size_t n){ JSV_LEMMA(s==K&&d==gnew->key.string&&n==T->keyType&&__CPROVER_w_ok(d,n),"key copied into the entry, inside it"); cp=n; return d; }
Jsi_TreeEntry *s_find(Jsi_Tree*t,const void*k){ JSV_LEMMA(t==T&&k==K&&nc==0,"looked up first"); return pres?gN:0; }
void h_create(void){ T=malloc(sizeof(*T)); JSV_ASSUME(T!=0); nk=jsv_nd_long(); JSV_ASSUME(nk>=0&&nk<=(1l<<28)); char*p=malloc(nk+1); JSV_ASSUME(p!=0); K=p; gN=malloc(sizeof(*gN)); JSV_ASSUME(gN!=0); JSV_ASSUME(T->keyType<=nk); pres=jsv_nd_bool(); nc=0; cp=-1; _Bool nw; int n0=T->numEntries; JSV_ASSUME(n0>=0&&n0<(1<<30)); Jsi_TreeEntry*r=U_CREATE(T,K,jsv_nd_bool()?&nw:0); if(pres) JSV_LEMMA(r==gN&&nc==0&&T->numEntries==n0,"existing entry"); else { JSV_LEMMA(r==gnew&&nc==1&&T->numEntries==n0+1,"new entry counted"); JSV_LEMMA(r->treePtr==T&&r->value==0&&r->left==0&&r->right==0&&r->parent==0&&r->f.bits.readonly==0,"entry initialised"); JSV_LEMMA(C_KIND==0?cp==nk+1:C_KIND==1?cp==T->keyType:r->key.oneWordValue==(void*)K,"key stored"); } JSV_REACH("create"); }
void h_createnew(void){ T=malloc(sizeof(*T)); JSV_ASSUME(T!=0); nk=5; K=malloc(6); gN=malloc(sizeof(*gN)); JSV_ASSUME(K!=0&&gN!=0&&T->keyType<=5); pres=jsv_nd_bool(); nc=0; bool nw; U_CREATE(T,K,&nw); JSV_LEMMA((nw!=0)==!pres,"newness"); JSV_REACH("createnew"); }
#endif
#ifdef U_SPACE
static Jsi_TreeSearch Q; static Jsi_TreeEntry **newp; static long W; static int nr; static Jsi_TreeEntry*w0;
void *s_calloc(unsigned n,unsigned sz){ JSV_LEMMA(sz==8&&n==Q.max,"array"); newp=malloc((size_t)n*8); JSV_ASSUME(newp!=0); return newp; }
void *s_realloc(void*p,unsigned sz){ JSV_LEMMA(p==Q.Ptrs&&p!=Q.staticPtrs&&sz==Q.max*8u,"array grows"); newp=malloc(sz); JSV_ASSUME(newp!=0); if(W>=0) newp[W]=Q.Ptrs[W]; return newp; }
void *s_memcpy(void*d,const void*s,size_t n){ JSV_LEMMA(d==newp&&s==Q.staticPtrs&&__CPROVER_w_ok(d,n)&&__CPROVER_r_ok(s,n),"copy inside both arrays"); if(W>=0&&W*8<(long)n) newp[W]=((Jsi_TreeEntry**)s)[W]; return d; }
void h_space(void){ _Bool st=jsv_nd_bool(); if(st){ Q.max=200; Q.Ptrs=Q.staticPtrs; } else { Q.max=jsv_nd_int(); JSV_ASSUME(Q.max>=400&&Q.max<=(1<<26)); Q.Ptrs=malloc(Q.max*8l); JSV_ASSUME(Q.Ptrs!=0); } Q.top=jsv_nd_int(); JSV_ASSUME(Q.top>=0&&Q.top<=Q.max); W=jsv_nd_long(); JSV_ASSUME(W>=-1&&W<Q.top); if(W>=0) w0=Q.Ptrs[W]; int t0=Q.top; int n=jsv_nd_int(); JSV_ASSUME(n>=0&&n<=2); searchSpace(&Q,n); JSV_LEMMA(Q.top==t0&&Q.top+n<=Q.max,"room for the next entries"); JSV_LEMMA(__CPROVER_w_ok(Q.Ptrs,Q.max*8l),"array as large as recorded"); if(W>=0) JSV_LEMMA(Q.Ptrs[W]==w0,"pending entries kept"); JSV_REACH("space"); }
#endif
