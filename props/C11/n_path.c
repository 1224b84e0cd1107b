#include "njs.h"
#include <limits.h>
/* reference: list of components */
static void ref(const char*abs,char*out){ static char c[3000][300]; int n=0; const char*p=abs; while(*p){ while(*p=='/')p++; const char*e=p; while(*e&&*e!='/')e++; int l=e-p; if(l==2&&p[0]=='.'&&p[1]=='.'){ if(n)n--; } else if(l&&!(l==1&&*p=='.')){ memcpy(c[n],p,l); c[n][l]=0; n++; } p=e; } char*o=out; for(int i=0;i<n;i++) o+=sprintf(o,"/%s",c[i]); if(!n) strcpy(out,"/"); }
static char cwd[PATH_MAX], ab[70000], ex[70000];
static void one(const char*p){ int n=strlen(p),l; const char*s; if(!n) return; nv_begin("File.normalize of %s",nv_hex(p,n)); nv_watch(10);
 if(*p!='~'){ if(*p=='/') strcpy(ab,p); else sprintf(ab,"%s/%s",cwd,p); ref(ab,ex); if(strcmp(ab,ex)) nv_nontrivial++;
  nj_set("us",p,n); s=nj_eval("File.normalize(us)",&l); if(!s||strcmp(s,ex)) nv_fail("normalize","got %.200s expected %.200s",s?s:"(error)",ex);
  else { nj_set("us",ex,strlen(ex)); s=nj_eval("File.normalize(us)",&l); if(!s||strcmp(s,ex)) nv_fail("idempotent","%.200s -> %.200s",ex,s?s:"(error)"); } }
 nj_set("us",p,n); nv_begin("parts of %s",nv_hex(p,n)); const char*sl=strrchr(p,'/'),*d=strrchr(p,'.'); if(d&&sl&&d<sl) d=0; char b[70000];
 if(!sl) strcpy(b,!strcmp(p,"..")?"..":"."); else if(sl==p) strcpy(b,"/"); else { memcpy(b,p,sl-p); b[sl-p]=0; }
 s=nj_eval("File.dirname(us)",&l); if(!s||strcmp(s,b)) nv_fail("dirname","got %.100s expected %.100s",s?s:"(error)",b);
 s=nj_eval("File.tail(us)",&l); if(!s||strcmp(s,sl?sl+1:p)) nv_fail("tail","got %.100s",s?s:"(error)");
 s=nj_eval("File.extension(us)",&l); if(!s||strcmp(s,d?d:"")) nv_fail("extension","got %.100s",s?s:"(error)");
 s=nj_eval("File.rootname(us)+File.extension(us)",&l); if(!s||strcmp(s,p)) nv_fail("rootname","rootname+extension %.100s",s?s:"(error)"); }
int main(int c,char**v){ nv_init(c,v); nj_init(); if(!getcwd(cwd,sizeof cwd)) return 1;
 static const char*K[]={"/","/..","/.","/../..","/../a","//","/a//b","/a/./b","/a/../b","/a/../../b","/a/b/..","/a/b/.","/a/","..","../..","a","a/..","./a","a/./..//b/","/a/.../b","/..a/b","/a../.b/..","/.a/..",".","../x.y/z","/a/b/c/../../../../d","x.tar.gz","/a.b/c",".x","/.x","\xc3\xa9/b","/\xc3\xa9/../c\xff"};
 for(unsigned i=0;i<sizeof K/sizeof*K;i++) one(K[i]);
 int max=nv_search?100000:4000; char p[60000]; while(nv_search?!nv_timeup():max-->0){ if(!nv_search&&nv_timeup()) break; int n=nv_below(nv_below(50)?14:2500),o=0; if(nv_below(2)) p[o++]='/'; for(int i=0;i<n&&o<20000;i++){ switch(nv_below(7)){ case 0:case 1: o+=sprintf(p+o,".."); break; case 2: p[o++]='.'; break; case 3: break; case 4: o+=sprintf(p+o,"...%c",97+nv_below(3)); break; default: { int k=1+nv_below(nv_below(9)?3:200); while(k--) p[o++]="abx.\xe9"[nv_below(5)]; } } if(i<n-1||nv_below(2)) p[o++]='/'; if(!nv_below(9)) p[o++]='/'; } p[o]=0; if(p[0]!='~') one(p); }
 nv_sample("File.normalize('/a/../../b//c/./d/..') = /b/c"); nv_done(); return 0; }
