#include "njs.h"
#include <limits.h>
#include <sys/wait.h>
#include <sys/stat.h>
#include <dirent.h>
/* Safe mode natively.  The parent creates a scratch directory and forks; the
   child becomes an unprivileged user (so that nothing but the scratch directory
   can be changed) and runs the real code with a safe sub-interpreter allowed to
   read and write only <scratch>/safe (and read <scratch>/ro).  <scratch>/out
   must never change and its secret must never be returned. */
static char T[64];
static void rmtree(const char*d){ DIR*D=opendir(d); struct dirent*e; char p[PATH_MAX]; if(D){ while((e=readdir(D))) if(strcmp(e->d_name,".")&&strcmp(e->d_name,"..")){ snprintf(p,sizeof p,"%s/%s",d,e->d_name); if(e->d_type==DT_DIR) rmtree(p); else unlink(p); } closedir(D); } rmdir(d); }
static void wr(const char*f,const char*s){ char p[PATH_MAX]; sprintf(p,"%s/%s",T,f); FILE*o=fopen(p,"w"); if(o){ fputs(s,o); fclose(o); chmod(p,0666); } }
static void md(const char*f){ char p[PATH_MAX]; sprintf(p,"%s/%s",T,f); mkdir(p,0777); chmod(p,0777); }
static void ln(const char*t,const char*f){ char p[PATH_MAX]; sprintf(p,"%s/%s",T,f); unlink(p); if(symlink(t,p)){} }
static void lnt(const char*t,const char*f){ char p[PATH_MAX]; sprintf(p,"%s/%s",T,t); ln(p,f); }
static void scene(void){ md("safe");md("safe/d");md("safe/d/e");md("ro");md("out");md("out/sub");md("safe2"); wr("safe/f","inside");wr("safe/d/g","inside2");wr("ro/r","readonly");wr("out/secret","SECRETDATA");wr("out/sub/x","SECRETDATA");wr("safe2/y","SECRETDATA");
 lnt("out","safe/ld");lnt("out/secret","safe/lf");lnt("out/newfile","safe/dang");lnt("out/newdir/x","safe/dang2");ln("../out/secret","safe/rl");ln("../out","safe/d/up");ln("dang","safe/chain");ln("d","safe/ind");lnt("safe","out/back"); }
/* fingerprint of everything outside safe/ */
static unsigned fpd(const char*d,unsigned h){ struct dirent**L; int n=scandir(d,&L,0,alphasort); char p[PATH_MAX]; for(int i=0;i<n;i++){ struct stat s; if(strcmp(L[i]->d_name,".")&&strcmp(L[i]->d_name,"..")){ snprintf(p,sizeof p,"%s/%s",d,L[i]->d_name); if(!lstat(p,&s)){ for(char*c=L[i]->d_name;*c;c++) h=h*31+*c; h=h*31+s.st_mode; if(S_ISREG(s.st_mode)){ h=h*31+s.st_size; FILE*f=fopen(p,"r"); int c; if(f){ while((c=getc(f))!=EOF) h=h*31+c; fclose(f);} } else if(S_ISDIR(s.st_mode)) h=fpd(p,h); } } free(L[i]); } if(n>=0) free(L); return h*7+1; }
static unsigned fp(void){ unsigned h=1; char p[PATH_MAX]; static const char*D[]={"out","ro","safe2"}; for(int i=0;i<3;i++){ sprintf(p,"%s/%s",T,D[i]); struct stat s; h=h*31+(lstat(p,&s)?1:s.st_mode); h=fpd(p,h); } return h; }
static unsigned fp0; static char js[PATH_MAX*4];
static int cnt_ok;
static void tryjs(const char*code){ int l; nv_begin("safe interp: %.300s",code); nv_watch(20); nj_set("us",code,strlen(code)); const char*s=nj_eval("var rr='';try{rr=''+SI.eval(us);}catch(ee){rr='E:'+ee;} rr",&l);
 if(!s) { nj_eval("rr=''",&l); } else { if(strncmp(s,"E:",2)&&strcmp(s,"false")) { nv_nontrivial++; cnt_ok++; } if(strstr(s,"SECRETDATA")) nv_fail("leak","content of an outside file was returned"); }
 unsigned f=fp(); if(f!=fp0){ nv_fail("escape","a file outside the allowed directories was created, changed or removed"); fp0=f; } }
static void pathgen(char*o){ static const char*R[]={"safe/f","safe/d/g","safe/nx","safe/ld/secret","safe/ld/new","safe/lf","safe/dang","safe/dang2","safe/chain","safe/rl","safe/d/up/secret","safe/d/up/new2","out/secret","out/new3","out/sub","ro/r","ro/new","safe/../out/secret","safe/d/../../out/new4","safe/ind/../f","safe/ind/g","safe2/y","safe2","safe/./ld/../new5","out/back/f","safe/nx/../../out/n6","safe//ld//secret","safe/d/e/../../../out/n7","safe/ld","safe/d","out","safe","safe/d/up","."};
 const char*r=R[nv_below(sizeof R/sizeof*R)]; switch(nv_below(8)){ case 0: sprintf(o,"%s",r); break; case 1: sprintf(o,"/../..%s/%s",T,r); break; case 2: sprintf(o,"%s/out/../%s",T,r); break; case 3: sprintf(o,"%s/safe/d/e/../../../%s",T,r); break; case 4: { char x[200]; sprintf(x,"%s/safe/ind/e/../../../%s",T,r); strcpy(o,x); break; } default: sprintf(o,"%s/%s",T,r); } }
static void child(void){ int l; nj_init(); char c[PATH_MAX*2]; sprintf(c,"%s",T); if(chdir(c)) return;
 sprintf(js,"var SI=new Interp({isSafe:true,safeMode:'none',safeReadDirs:['%s/safe','%s/ro'],safeWriteDirs:['%s/safe'],noSubInterps:false}); 1",T,T,T); if(!nj_eval(js,&l)) { sprintf(js,"var SI=new Interp({isSafe:true,safeReadDirs:['%s/safe','%s/ro'],safeWriteDirs:['%s/safe']}); 1",T,T,T); if(!nj_eval(js,&l)) { nv_fail("setup","safe interp could not be created"); return; } }
 fp0=fp(); char p[PATH_MAX],q[PATH_MAX];
 /* control: what is allowed works */
 sprintf(js,"File.write('%s/safe/ctl','abc'); File.read('%s/safe/ctl')",T,T); nj_set("us",js,strlen(js)); nv_begin("allowed write/read"); const char*s=nj_eval("var rr;try{rr=''+SI.eval(us);}catch(ee){rr='E:'+ee;} rr",&l); if(!s||strcmp(s,"abc")) nv_fail("allowed","write and read inside the allowed directory: %s",s?s:"error");
 tryjs("exec('touch out/x')"); tryjs("exec('cat out/secret')"); tryjs("getenv('HOME')"); 
 sprintf(js,"var j=new Interp({isSafe:false}); j.eval(\"File.read('%s/out/secret')\")",T); tryjs(js); sprintf(js,"var j=new Interp({isSafe:true,safeReadDirs:['/'],safeWriteDirs:['/']}); j.eval(\"File.write('%s/out/secret','x')\")",T); tryjs(js); sprintf(js,"var j=new Interp({safeReadDirs:['/']}); j.eval(\"File.read('%s/out/secret')\")",T); tryjs(js);
 sprintf(js,"Interp.conf({isSafe:false}); File.read('%s/out/secret')",T); tryjs(js); sprintf(js,"Interp.conf({safeReadDirs:['/']}); File.read('%s/out/secret')",T); tryjs(js); sprintf(js,"info.interp().conf({safeWriteDirs:['/']}); File.write('%s/out/n','x')",T); tryjs(js);
 { /* a link outside that points inside */ sprintf(js,"%s/out/l2",T); lnt("safe/f","out/l2"); fp0=fp(); char q2[PATH_MAX]; strcpy(q2,js); nv_begin("File.remove of an outside link that points inside"); sprintf(js,"File.remove('%s')",q2); nj_set("us",js,strlen(js)); nj_eval("var rr='';try{rr=''+SI.eval(us);}catch(ee){rr='E:'+ee;} rr",&l); struct stat sb; if(lstat(q2,&sb)) nv_fail("remove-outside-link","a link in an outside directory whose target is inside was removed"); unlink(q2);
  lnt("safe/f","out/l2"); nv_begin("File.rename of an outside link that points inside"); sprintf(js,"File.rename('%s','%s/safe/moved')",q2,T); nj_set("us",js,strlen(js)); nj_eval("var rr='';try{rr=''+SI.eval(us);}catch(ee){rr='E:'+ee;} rr",&l); if(lstat(q2,&sb)) nv_fail("rename-outside-link","a link in an outside directory whose target is inside was moved away"); unlink(q2); fp0=fp(); }
 int max=nv_search?200000:2500; while(nv_search?!nv_timeup():max-->0){ if(!nv_search&&nv_timeup()) break; pathgen(p); pathgen(q); static const char*M[]={"r","w","a","r+","w+","rb","wb","a+","rb+","-w"}; const char*m=M[nv_below(10)];
  switch(nv_below(24)){ case 0: sprintf(js,"File.read('%s')",p); break; case 1: sprintf(js,"File.read('%s','%s')",p,m); break; case 2: sprintf(js,"File.write('%s','evil')",p); break; case 3: sprintf(js,"File.write('%s','evil','%s')",p,m); break; case 4: sprintf(js,"File.copy('%s','%s',true);File.read('%s')",p,q,q); break; case 5: sprintf(js,"File.rename('%s','%s',true)",p,q); break; case 6: sprintf(js,"File.link('%s','%s',%s);File.read('%s')",p,q,nv_below(2)?"true":"false",q); break; case 7: sprintf(js,"File.remove('%s',%s)",p,nv_below(2)?"true":"false"); break; case 8: sprintf(js,"File.mkdir('%s',%s)",p,nv_below(2)?"true":"false"); break; case 9: sprintf(js,"File.truncate('%s',1)",p); break; case 10: sprintf(js,"File.chmod('%s',0)",p); break; case 11: sprintf(js,"var f=new Channel('%s','%s'); var z=''; try{ z=f.gets(); }catch(e){}; try{f.write('evil')}catch(e){}; f.close(); z",p,m); break; case 12: sprintf(js,"File.glob('*',{dir:'%s',recurse:true})",p); break; case 13: sprintf(js,"File.glob('%s/*')",p); break; case 14: sprintf(js,"File.exists('%s')",p); break; case 15: sprintf(js,"File.stat('%s').size",p); break; case 16: sprintf(js,"File.tempfile('%sXXXXXX')",p); break; case 17: sprintf(js,"File.chdir('%s');File.read('secret')",p); break; case 18: sprintf(js,"source('%s')",p); break; case 19: sprintf(js,"File.mknod('%s',0100666,0)",p); break; case 20: sprintf(js,"File.chdir('%s/safe/ind')",T); break; case 21: sprintf(js,"File.read('%sz','rz')",p); break; case 22: sprintf(js,"File.write('%s','evil','wz')",p); break; default: sprintf(js,"File.size('%s')",p); }
  /* information about outside objects */
  tryjs(js); if(!nv_below(20)) { scene(); nv_begin("scene"); sprintf(js,"File.chdir('%s/safe')",T); tryjs(js); } }
 nv_sample("write through <safe>/dang -> <out>/newfile (missing) is refused; %d requests were granted",cnt_ok); nv_done(); }
int main(int c,char**v){ nv_init(c,v); strcpy(T,"/tmp/jsvsafeXXXXXX"); if(!mkdtemp(T)) return 1; chmod(T,0755); umask(0); scene(); int st=0;
 { char p[PATH_MAX]; DIR*D; sprintf(p,"%s/out",T); D=opendir(p); if(D) closedir(D); }
 pid_t k=fork(); if(!k){ if(getuid()==0){ char p[PATH_MAX]; struct dirent*e; DIR*D; (void)e;(void)D;(void)p; if(setgid(65534)||setuid(65534)) _exit(3); } umask(0); child(); exit(0); }
 waitpid(k,&st,0); rmtree(T); return WIFEXITED(st)?WEXITSTATUS(st):128+WTERMSIG(st); }
