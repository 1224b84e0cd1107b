#include "jsiInt.h"
#include "native.h"
/* random histories over two lists, a list map and a stack, compared with arrays */
#define MX 4000
static Jsi_List*L[2]; static Jsi_ListEntry*a[2][MX]; static void*av[2][MX]; static int n[2]; static int freed; static void*lastv; static int mapmode;
static Jsi_RC fp(Jsi_Interp*i,Jsi_HashEntry*h,void*d){ (void)i;(void)h; freed++; lastv=d; return JSI_OK; }
static long ctr=1; static void*val(void){ return nv_below(20)?(void*)(ctr++*16+8):NULL; }
static void ins(int q,int at,Jsi_ListEntry*e,void*v){ memmove(a[q]+at+1,a[q]+at,(n[q]-at)*sizeof(void*)); memmove(av[q]+at+1,av[q]+at,(n[q]-at)*sizeof(void*)); a[q][at]=e; av[q][at]=v; n[q]++; }
static void del(int q,int at){ memmove(a[q]+at,a[q]+at+1,(n[q]-at-1)*sizeof(void*)); memmove(av[q]+at,av[q]+at+1,(n[q]-at-1)*sizeof(void*)); n[q]--; }
static void chk(int q){ Jsi_List*l=L[q]; if((int)Jsi_ListSize(l)!=n[q]) nv_fail("size","%u != %d",Jsi_ListSize(l),n[q]);
 if(Jsi_ListGetFront(l)!=(n[q]?a[q][0]:NULL)) nv_fail("front","wrong first entry of %d",n[q]); if(Jsi_ListGetBack(l)!=(n[q]?a[q][n[q]-1]:NULL)) nv_fail("back","wrong last entry of %d",n[q]); if(nv_fails) return;
 for(int d=0;d<2;d++){ Jsi_ListSearch s; int i=0; for(Jsi_ListEntry*e=Jsi_ListSearchFirst(l,&s,d?JSI_LIST_REVERSE:0);e;e=Jsi_ListSearchNext(&s),i++){ if(i>=n[q]){ nv_fail(d?"reverse":"forward","more than %d entries",n[q]); return; } int k=d?n[q]-1-i:i; if(e!=a[q][k]||Jsi_ListValueGet(e)!=av[q][k]){ nv_fail(d?"reverse":"forward","position %d of %d holds another entry",k,n[q]); return; } if(e->list!=l) nv_fail("owner","entry %d",k); } if(i!=n[q]) nv_fail(d?"reverse":"forward","%d of %d entries",i,n[q]); } }
static void lists(int steps,int proc){ for(int q=0;q<2;q++){ L[q]=Jsi_ListNew(NULL,0,proc?fp:NULL); n[q]=0; } freed=0; int bias=40+nv_below(45), every=1+nv_below(20);
 for(int s=0;s<steps;s++){ int q=nv_below(2),op=nv_below(100); Jsi_List*l=L[q]; if(n[q]>=MX-2) op=99;
  if(op<bias){ void*v=val(); int at=nv_below(3)?n[q]:nv_below(n[q]+1); Jsi_ListEntry*e; if(at==n[q]&&nv_below(2)) e=Jsi_ListPushBackNew(l,v); else if(at==0&&n[q]&&nv_below(2)) e=Jsi_ListPushFrontNew(l,v); else e=Jsi_ListEntryNew(l,v,at==n[q]?NULL:a[q][at]); ins(q,at,e,v); }
  else if(op<bias+8&&n[q]){ int i=nv_below(n[q]); Jsi_ListEntry*e=a[q][i]; void*v=av[q][i]; int t=nv_below(2); if(nv_below(2)){ if(Jsi_ListPop(l,e)!=e) nv_fail("pop","another entry"); del(q,i); int f0=freed; chk(q); if(freed!=f0) nv_fail("pop","released"); } else { del(q,i); } int at=nv_below(n[t]+1); Jsi_ListEntry*b=at==n[t]?NULL:a[t][at]; Jsi_ListPush(L[t],e,b); ins(t,at,e,v); }
  else if(op<bias+10&&n[q]){ int i=nv_below(n[q]); av[q][i]=val(); Jsi_ListValueSet(a[q][i],av[q][i]); }
  else if(op<97){ if(n[q]){ int i=nv_below(4)?nv_below(n[q]):nv_below(2)?0:n[q]-1; if(nv_below(3)==0) Jsi_ListPop(l,a[q][i]); Jsi_ListEntryDelete(a[q][i]); del(q,i); } }
  else if(nv_below(10)==0){ int ex=0; for(int i=0;i<n[q];i++) ex+=av[q][i]!=NULL; int f0=freed; Jsi_ListClear(l); if(proc&&freed!=f0+ex) nv_fail("clear","%d of %d values released",freed-f0,ex); n[q]=0; chk(q); }
  if(s%every==0){ chk(q); } if(nv_fails) return; if(n[q]>3) nv_nontrivial++; }
 for(int q=0;q<2;q++){ chk(q); int ex=0; for(int i=0;i<n[q];i++) ex+=av[q][i]!=NULL; int f0=freed; Jsi_ListDelete(L[q]); if(proc&&freed!=f0+ex) nv_fail("delete","%d of %d values released",freed-f0,ex); } }
static void maps(int steps){ Jsi_Map*M=Jsi_MapNew(NULL,JSI_MAP_LIST,0,NULL); n[0]=0; L[0]=M->v.list; for(int s=0;s<steps;s++){ int op=nv_below(10); if(n[0]>=MX-2) op=9; if(op<6){ int fr=nv_below(2); void*v=val(); bool nw=0; Jsi_MapEntry*e; if(nv_below(2)) e=Jsi_MapSet(M,fr?(void*)1:NULL,v); else { e=Jsi_MapEntryNew(M,fr?(void*)1:NULL,&nw); if(!nw) nv_fail("map-new","not new"); Jsi_MapValueSet(e,v); } ins(0,fr?0:n[0],(Jsi_ListEntry*)e,v); } else if(op<9&&n[0]){ int i=nv_below(n[0]); Jsi_MapEntryDelete((Jsi_MapEntry*)a[0][i]); del(0,i); } else if(nv_below(20)==0){ Jsi_MapClear(M); n[0]=0; }
  chk(0); if((int)Jsi_MapSize(M)!=n[0]) nv_fail("map-size","%u",Jsi_MapSize(M)); if(n[0]){ if(Jsi_MapGet(M,NULL,0)!=av[0][0]||Jsi_MapGet(M,(void*)1,0)!=av[0][n[0]-1]) nv_fail("map-ends","first or last value"); if(Jsi_MapEntryFind(M,NULL)!=(Jsi_MapEntry*)a[0][0]) nv_fail("map-find","first"); }
  Jsi_MapSearch ms; int i=0; for(Jsi_MapEntry*e=Jsi_MapSearchFirst(M,&ms,0);e;e=Jsi_MapSearchNext(&ms),i++) if(i>=n[0]||e!=(Jsi_MapEntry*)a[0][i]||Jsi_MapValueGet(e)!=av[0][i]){ nv_fail("map-search","position %d",i); break; } if(i!=n[0]) nv_fail("map-search","%d of %d",i,n[0]); if(nv_fails) return; }
 Jsi_MapDelete(M); }
static int sf; static Jsi_RC sfree(Jsi_Interp*i,void*d){ (void)i; if(d!=av[1][sf]) nv_fail("stack-free","element %d",sf); sf++; return JSI_OK; }
static void stacks(int steps){ Jsi_Stack*S=Jsi_StackNew(); int k=0; int grow=40+nv_below(40); for(int s=0;s<steps;s++){ int op=nv_below(100); if(op<grow&&k<MX-1){ void*v=val(); Jsi_StackPush(S,v); av[1][k++]=v; } else if(op<90){ void*g=Jsi_StackPop(S); if(g!=(k?av[1][k-1]:NULL)) nv_fail("stack-pop","of %d",k); if(k) k--; } else if(op<98){ void*g=Jsi_StackUnshift(S); if(g!=(k?av[1][0]:NULL)) nv_fail("stack-unshift","of %d",k); if(k){ k--; memmove(av[1],av[1]+1,k*sizeof(void*)); } } else if(nv_below(20)==0){ sf=0; Jsi_StackFreeElements(NULL,S,sfree); if(sf!=k) nv_fail("stack-free","%d of %d",sf,k); k=0; }
  if(Jsi_StackSize(S)!=k||Jsi_StackPeek(S)!=(k?av[1][k-1]:NULL)||Jsi_StackHead(S)!=(k?av[1][0]:NULL)) nv_fail("stack","size %d of %d, top or bottom",Jsi_StackSize(S),k); if(nv_fails) return; }
 while(k) if(Jsi_StackPop(S)!=av[1][--k]){ nv_fail("stack-pop","order at %d",k); return; } Jsi_StackFree(S); }
int main(int c,char**v){ nv_init(c,v); nv_watch(100);
 for(int q=0;q<(nv_search?1000000:6000)&&!nv_timeup()&&!nv_fails;q++){ int st=q%3==0?10:q%3==1?60:800; nv_begin("history %d steps %d seed %s",q,st,c>2?v[2]:"1"); lists(st,q%2); nv_begin("map history %d steps %d",q,st); maps(st>100?200:st); nv_begin("stack history %d",q); stacks(st); nv_watch(60); }
 nv_watch(0); nv_sample("random history of insert before/behind/at, move between lists, delete, clear, both directions",60); nv_done(); return 0; }
