#include "njs.h"
/* reference: decode both texts into code points, then the definition with memo */
static int dec(const char*s,int*o){ int n=0; while(*s){ Jsi_UniChar c; s+=Jsi_UtfToUniChar(s,&c); o[n++]=c; } return n; }
static int P[400],S[400],pn,sn,nc; static signed char memo[401][401];
static int up(int c){ return nc&&c>='a'&&c<='z'?c-32:c; }
static int cls(int i,int c,int*e){ int m=0; while(i<pn&&P[i]!=']'){ if(P[i]!='\\'&&i+2<pn&&P[i+1]=='-'){ int a=up(P[i]),b=up(P[i+2]); if((a<=c&&c<=b)||(b<=c&&c<=a)) m=1; i+=3; } else { if(up(P[i])==c) m=1; i++; } } *e=i; return m; }
static int M(int p,int s){ if(p>=pn) return s>=sn; signed char*m=&memo[p][s]; if(*m>=0) return *m; int r=0; 
 if(P[p]=='*') r= M(p+1,s)||(s<sn&&M(p,s+1)); else if(s>=sn) r=0; else if(P[p]=='?') r=M(p+1,s+1);
 else if(P[p]=='['){ int e; if(cls(p+1,up(S[s]),&e)) r= e<pn? M(e+1,s+1): s+1>=sn; }
 else { int q=p; if(P[p]=='\\'&&p+1<pn) q++; r= up(P[q])==up(S[s])&&M(q+1,s+1); } return *m=r; }
static void one(const char*p,const char*s,int n){ char*a=strdup(p),*b=strdup(s); nc=n; nv_begin("pattern %s string %s nocase %d (hex)",nv_hex(p,strlen(p)),nv_hex(s,strlen(s)),n); nv_watch(20); pn=dec(a,P); sn=dec(b,S); memset(memo,-1,sizeof memo); int e=M(0,0); if(e) nv_nontrivial++; int g=Jsi_GlobMatch(a,b,n); if(!!g!=e) nv_fail("match","got %d expected %d",g,e); free(a); free(b); }
static void gen(char*o,const char*al[],int na,int n){ *o=0; while(n--) strcat(o,al[nv_below(na)]); }
int main(int c,char**v){ nv_init(c,v); nj_init(); static const char*PA[]={"*","?","a","b","[ab]","[a-c]","[c-a]","\\*","\\?","[","]","\xc3\xa9","[\xc3\xa0-\xc3\xbf]","A","\\","-","[\\]","*a","[b-]","[a*]","**","\xe2\x82\xac","[A-C]"}; static const char*SA[]={"a","b","c","*","?","\xc3\xa9","A","B","[","]","\\","-","\xe2\x82\xac","aa"};
 static const char*K[][2]={{"",""},{"?",""},{"*",""},{"[a]",""},{"**",""},{"?*",""},{"*?",""},{"a?","a"},{"*a*b","aab"},{"a\\","a"},{"a\\","a\\"},{"[a","a"},{"[","["},{"*[b]","aab"},{"\\*","*"},{"\\*","a"},{"a*","a"},{"*.js","x.js"},{"*.js","x.jsx"}};
 for(unsigned i=0;i<sizeof K/sizeof*K;i++) { one(K[i][0],K[i][1],0); one(K[i][0],K[i][1],1); }
 int max=nv_search?10000000:200000; char p[400],s[400]; while(nv_search?!nv_timeup():max-->0){ if(!nv_search&&nv_timeup()) break; gen(p,PA,23,nv_below(nv_below(9)?6:14)); gen(s,SA,14,nv_below(nv_below(9)?6:20)); one(p,s,nv_below(2)); }
 nv_sample("[a-c]*\\* matches bxx*"); nv_done(); return 0; }
