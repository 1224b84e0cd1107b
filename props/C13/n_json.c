#include "njs.h"
/* reference values, writer and reader */
typedef struct V { int t; double n; char*s; int sn; struct V**a; char**k; int*kn; int c; } V; /* 0 null 1 false 2 true 3 number 4 string 5 array 6 object */
static char O[1<<20]; static int on; static void oc(int c){ if(on<(int)sizeof O-1) O[on++]=c; O[on]=0; } static void os(const char*s){ while(*s) oc(*s++); }
static int u8(int c,char*o){ if(c<0x80){ o[0]=c; return 1;} if(c<0x800){ o[0]=0xc0|c>>6; o[1]=0x80|(c&63); return 2;} if(c<0x10000){ o[0]=0xe0|c>>12; o[1]=0x80|((c>>6)&63); o[2]=0x80|(c&63); return 3;} o[0]=0xf0|c>>18; o[1]=0x80|((c>>12)&63); o[2]=0x80|((c>>6)&63); o[3]=0x80|(c&63); return 4; }
static int rchar(void){ static const int sp[]={'"','\\','/','\b','\f','\n','\r','\t','\'',1,31,127,128,0x7ff,0x800,0xd7ff,0xe000,0xffff,0x10000,0x1f600,0x10ffff,'u','0','{','}','[',']',',',':',' '}; int r=nv_below(4); if(r==0) return 'a'+nv_below(26); if(r<3) return sp[nv_below(sizeof sp/sizeof*sp)]; int c; do c=1+nv_below(nv_below(2)?0x3000:0x10fffe); while(c>=0xd800&&c<0xe000); return c; }
static int nul; /* values may contain \u0000, keys may not */
static char*rstr(int max,int*n){ char b[4000]; int m=0,k=nv_below(max+1); while(k--) m+=u8(nul&&nv_below(15)==0?0:rchar(),b+m); b[m]=0; *n=m; char*r=malloc(m+1); memcpy(r,b,m+1); return r; }
static V*gen(int d){ V*v=calloc(1,sizeof*v); v->t= d<=0? nv_below(5): nv_below(7); if(d>=5&&nv_below(3)) v->t=5+nv_below(2);
 switch(v->t){ case 3: { static const double N[]={0,1,-1,0.5,-2.25,1e21,1e-7,123456789012345.,4503599627370496.,9007199254740991.,-9007199254740991.,2147483647,2147483648.,-2147483648.,-2147483649.,4294967295.,4294967296.,1e300,1e-300,0.1,100,1e15,1e16,123456.789}; v->n= nv_below(2)? N[nv_below(24)]: (double)(int)nv_rand()/(1<<nv_below(8)); break; }
 case 4: nul=nv_below(3)==0; v->s=rstr(nv_below(9)?8:300,&v->sn); nul=0; break;
 case 5: case 6: v->c=nv_below(nv_below(30)?5:200); v->a=calloc(v->c+1,sizeof(V*)); v->k=calloc(v->c+1,sizeof(char*)); v->kn=calloc(v->c+1,sizeof(int)); for(int i=0;i<v->c;i++){ v->a[i]=gen(v->c>20?0:d-1); if(v->t==6){ again: if(v->k[i]) free(v->k[i]); v->k[i]=rstr(6,&v->kn[i]); for(int j=0;j<i;j++) if(!strcmp(v->k[j],v->k[i])) goto again; } } }
 return v; }
static void fre(V*v){ if(v->t==4) free(v->s); if(v->t>=5){ for(int i=0;i<v->c;i++){ fre(v->a[i]); free(v->k[i]); } free(v->a); free(v->k); free(v->kn);} free(v); }
static void ws(void){ if(nv_below(3)==0) for(int k=nv_below(3);k--;) oc(" \t\r\n"[nv_below(4)]); }
static void hex4(int c){ char b[8]; sprintf(b,nv_below(2)?"\\u%04x":"\\u%04X",c); os(b); }
static void wstr(const char*s,int n){ oc('"'); for(int i=0;i<n;){ int c=(unsigned char)s[i],l=1; if(c>=0xf0){ c=(c&7)<<18|(s[i+1]&63)<<12|(s[i+2]&63)<<6|(s[i+3]&63); l=4; } else if(c>=0xe0){ c=(c&15)<<12|(s[i+1]&63)<<6|(s[i+2]&63); l=3; } else if(c>=0xc0){ c=(c&31)<<6|(s[i+1]&63); l=2; }
 const char*q="\b\f\n\r\t\"\\/",*p=c&&c<128?strchr(q,c):0; int m=nv_below(4);
 if(m==0||(c<32&&!p)){ if(c>0xffff){ hex4(0xd800+((c-0x10000)>>10)); hex4(0xdc00+((c-0x10000)&0x3ff)); } else hex4(c); } else if(p&&(c!='/'||m==1)){ oc('\\'); oc("bfnrt\"\\/"[p-q]); } else for(int j=0;j<l;j++) oc(s[i+j]); i+=l; } oc('"'); }
static void wr(V*v){ ws(); char b[64]; switch(v->t){ case 0: os("null"); break; case 1: os("false"); break; case 2: os("true"); break; case 3: sprintf(b,"%.17g",v->n); os(b); break; case 4: wstr(v->s,v->sn); break;
 case 5: oc('['); for(int i=0;i<v->c;i++){ if(i) oc(','); wr(v->a[i]); } ws(); oc(']'); break; case 6: oc('{'); for(int i=0;i<v->c;i++){ if(i) oc(','); ws(); wstr(v->k[i],v->kn[i]); ws(); oc(':'); wr(v->a[i]); } ws(); oc('}'); } ws(); }
/* reference reader of strict JSON: compares the text with v; keys in any order */
static const char*R; static void rws(void){ while(*R&&strchr(" \t\r\n",*R)) R++; }
static int rdstr(char*o){ if(*R!='"') return -1; R++; int n=0; while(*R!='"'){ unsigned char c=*R; if(c<32) return -1; if(c!='\\'){ o[n++]=c; R++; continue; } R++; const char*q="bfnrt\"\\/",*p=*R?strchr(q,*R):0; if(p){ o[n++]="\b\f\n\r\t\"\\/"[p-q]; R++; continue; } if(*R!='u') return -1; unsigned h; if(sscanf(R+1,"%4x",&h)!=1) return -1; R+=5; if(h>=0xd800&&h<0xdc00&&R[0]=='\\'&&R[1]=='u'){ unsigned l; sscanf(R+2,"%4x",&l); if(l>=0xdc00&&l<0xe000){ h=0x10000+((h&0x3ff)<<10)+(l&0x3ff); R+=6; } } n+=u8(h,o+n); } R++; o[n]=0; return n; }
static char RB[1<<16];
static int rd(V*v){ rws(); switch(v->t){ case 0: if(strncmp(R,"null",4)) return 0; R+=4; break; case 1: if(strncmp(R,"false",5)) return 0; R+=5; break; case 2: if(strncmp(R,"true",4)) return 0; R+=4; break;
 case 3: { if(!(*R=='-'||(*R>='0'&&*R<='9'))) return 0; char*e; double d=strtod(R,&e); char x[40],y[40]; sprintf(x,"%.15g",d); sprintf(y,"%.15g",v->n); if(strcmp(x,y)&&d!=v->n) return 0; R=e; break; }
 case 4: { int n=rdstr(RB); if(n!=v->sn||memcmp(RB,v->s,n)) return 0; break; }
 case 5: if(*R++!='[') return 0; for(int i=0;i<v->c;i++){ if(i){ rws(); if(*R++!=',') return 0; } if(!rd(v->a[i])) return 0; } rws(); if(*R++!=']') return 0; break;
 case 6: { if(*R++!='{') return 0; int seen=0; for(int i=0;i<v->c;i++){ rws(); if(i&&*R++!=',') return 0; rws(); int n=rdstr(RB); if(n<0) return 0; int j; for(j=0;j<v->c;j++) if(v->kn[j]==n&&!memcmp(v->k[j],RB,n)) break; if(j==v->c) return 0; rws(); if(*R++!=':') return 0; if(!rd(v->a[j])) return 0; seen++; } rws(); if(*R++!='}') return 0; } }
 rws(); return 1; }
/* the real value against the reference */
static int same(Jsi_Value*x,V*v){ if(!x) return 0; bool b; double d; int n; const char*s; switch(v->t){ case 0: return Jsi_ValueIsNull(nj,x); case 1: case 2: return Jsi_ValueIsBoolean(nj,x)&&Jsi_ValueGetBoolean(nj,x,&b)==JSI_OK&&b==(v->t==2); case 3: return Jsi_ValueIsNumber(nj,x)&&Jsi_ValueGetNumber(nj,x,&d)==JSI_OK&&d==v->n;
 case 4: s=Jsi_ValueString(nj,x,&n); return s&&n==v->sn&&!memcmp(s,v->s,n); case 5: if(!Jsi_ValueIsArray(nj,x)||Jsi_ValueGetLength(nj,x)!=v->c) return 0; for(int i=0;i<v->c;i++) if(!same(Jsi_ValueArrayIndex(nj,x,i),v->a[i])) return 0; return 1;
 default: if(!Jsi_ValueIsObjType(nj,x,JSI_OT_OBJECT)||Jsi_ValueIsArray(nj,x)) return 0; if((int)Jsi_TreeSize(x->d.obj->tree)!=v->c) return 0; for(int i=0;i<v->c;i++){ Jsi_TreeEntry*e=Jsi_TreeEntryFind(x->d.obj->tree,v->k[i]); if(!e||!same((Jsi_Value*)Jsi_TreeValueGet(e),v->a[i])) return 0; } return 1; } }
static Jsi_Value*parse(const char*t,int strict,int*ok){ Jsi_Value*r=Jsi_ValueNew1(nj); char*c=strdup(t); *ok=Jsi_JSONParse(nj,c,&r,strict)==JSI_OK; free(c); return r; }
static void rt(V*v){ on=0; wr(v); char*t=strdup(O); nv_begin("text %.3000s",t); nv_watch(30); if(v->t>=5&&v->c) nv_nontrivial++; int ok; Jsi_Value*x=parse(t,1,&ok); if(!ok) nv_fail("rejected","a JSON text is rejected"); else { if(!same(x,v)) nv_fail("parse","the value read differs from the text"); else for(int q=0;q<3;q++){ Jsi_DString d; Jsi_DSInit(&d); const char*s=jsiValueGetDString(nj,x,&d,JSI_OUTPUT_JSON|(q!=1?JSI_JSON_STRICT:0)|(q==2?JSI_JSON_FORMAT:0),nv_below(5)); R=s?s:""; if(!s) nv_fail("stringify","failed"); else if(q!=1){ if(!rd(v)||*R) nv_fail("stringify","written text is not JSON for the value: %.400s",s); } if(s&&q==0){ int ok2; char*c=strdup(s); Jsi_Value*y=parse(c,1,&ok2); if(!ok2) nv_fail("roundtrip","own output rejected: %.400s",s); else { Jsi_DString e; Jsi_DSInit(&e); const char*z=jsiValueGetDString(nj,y,&e,JSI_OUTPUT_JSON|JSI_JSON_STRICT,2); if(!z||strcmp(z,c)) nv_fail("roundtrip","written again differs"); Jsi_DSFree(&e); } Jsi_DecrRefCount(nj,y); free(c); } Jsi_DSFree(&d); } }
 Jsi_DecrRefCount(nj,x); free(t); }
/* broken texts: unclosed or mismatched brackets, open strings, bad escapes must be refused */
static void bad(V*v){ on=0; wr(v); char*t=strdup(O); int n=strlen(t); if(n>2000||v->t<5){ free(t); return; } /* positions outside strings */ char in[2001]; int q=0; for(int i=0;i<n;i++){ in[i]=q; if(q&&t[i]=='\\'){ in[++i]=2; continue; } if(t[i]=='"'){ q=!q; if(q) in[i]=3; } }
 int k=nv_below(n), j; for(j=0;j<n;j++,k=(k+1)%n) if(!in[k]&&strchr("[]{}",t[k])) break; int ok; Jsi_Value*x; if(j<n){ char c=t[k]; nv_begin("bracket at %d of %.2000s",k,t); t[k]= c=='['?'{':c=='{'?'[':c==']'?'}':']'; x=parse(t,1,&ok); if(ok) nv_fail("mismatch","accepted with a mismatched bracket"); Jsi_DecrRefCount(nj,x); t[k]=' '; x=parse(t,1,&ok); if(ok&&(c=='['||c=='{'||k>0)) nv_fail("unclosed","accepted with a bracket missing"); Jsi_DecrRefCount(nj,x); t[k]=c; }
 for(j=0;j<n;j++,k=(k+1)%n) if(in[k]==3) break; if(j<n){ char*b=malloc(n+3); memcpy(b,t,k+1); b[k+1]='\\'; b[k+2]="xvaU019"[nv_below(7)]; memcpy(b+k+3,t+k+1,n-k-1); char*c=malloc(n+4); memcpy(c,b,n+2); c[n+2]=0; free(b); nv_begin("bad escape at %d %.2000s",k,c); x=parse(c,1,&ok); if(ok) nv_fail("escape","accepted with an invalid escape"); Jsi_DecrRefCount(nj,x); free(c); }
 for(j=n;j>0&&strchr(" \t\r\n",t[j-1]);j--); for(k=nv_below(j);k>=0;k--){ t[k]=0; if(k<1) break; nv_begin("prefix %.2000s",t); int e; x=parse(t,1,&ok); int st=0; for(e=0;t[e]&&strchr(" \t\r\n",t[e]);e++); if(ok&&t[e]) nv_fail("prefix","a proper prefix of a container is accepted"); Jsi_DecrRefCount(nj,x); (void)st; if(nv_below(2)) break; k-=nv_below(4); }
 free(t); }
static void junk(void){ static const char*P[]={"{","}","[","]",",",":","\"","\\","\"a\"","1","-","true","tru","null"," ","\\u00","\\ud83d","e","0x","\xc3\xa9","'"}; char b[400]; *b=0; int k=nv_below(14); while(k--) strcat(b,P[nv_below(21)]); for(int s=0;s<2;s++){ nv_begin("junk strict=%d %s",s,b); nv_watch(30); int ok; Jsi_Value*x=parse(b,s,&ok); if(ok){ Jsi_DString d; Jsi_DSInit(&d); jsiValueGetDString(nj,x,&d,JSI_OUTPUT_JSON,2); Jsi_DSFree(&d); } Jsi_DecrRefCount(nj,x); } }
static void quote(void){ int n; char*s=rstr(20,&n); nv_begin("quote %s (hex)",nv_hex(s,n)); Jsi_DString d; Jsi_DSInit(&d); Jsi_JSONQuote(nj,s,nv_below(2)?-1:n,&d); R=Jsi_DSValue(&d); int m=rdstr(RB); if(m!=n||memcmp(RB,s,n)||*R) nv_fail("quote","%s",Jsi_DSValue(&d)); Jsi_DSFree(&d);
 if(n){ int c=nv_below(n+1); while(c<n&&(s[c]&0xc0)==0x80) c++; Jsi_DSInit(&d); Jsi_JSONQuote(nj,s,c,&d); R=Jsi_DSValue(&d); m=rdstr(RB); if(m!=c||memcmp(RB,s,c)) nv_fail("quotelen","first %d bytes: %s",c,Jsi_DSValue(&d)); Jsi_DSFree(&d); } free(s); }
int main(int c,char**v){ nv_init(c,v); nj_init();
 static const char*S[][2]={{"JSON.stringify(JSON.parse('true '))","true"},{"JSON.stringify(JSON.parse(' null\\n'))","null"},{"JSON.stringify({a:undefined,b:1})","{ \"b\":1 }"},{"JSON.stringify(JSON.parse('[]'))","[]"},{"JSON.stringify({})","{}"},{"JSON.check('[1}')","false"},{"JSON.check('{\"a\":[1,2]}')","true"},{"JSON.stringify({\"a\\\"b\":1})","{ \"a\\\"b\":1 }"},{"JSON.parse('[1,[2,3]]')[1][1]","3"},{"JSON.stringify(1e-310)","9.99999999999997e-311"},{"JSON.stringify([null,true,false])","[ null, true, false ]"}};
 for(unsigned i=0;i<sizeof S/sizeof*S;i++){ nv_begin("%s",S[i][0]); int n; const char*r=nj_eval(S[i][0],&n); if(!r||strcmp(r,S[i][1])) nv_fail("script","got %s expected %s",r?r:"error",S[i][1]); }
 int max=nv_search?100000000:20000; while(max-->0&&!nv_timeup()){ V*x=gen(1+nv_below(5)); rt(x); bad(x); fre(x); junk(); quote(); }
 nv_sample("{\"a\":[1,\"\\ud83d\\ude00\"]} read, written, read"); nv_done(); return 0; }
