#include "jsv.h"
#include "jsv_defaults.h"
#include "jsiDString.c"
#undef Jsi_Realloc
#define MAXB JSI_MAX_ALLOC_BUF
static Jsi_DString D; static unsigned gW; static char gB; static unsigned gk; static char gkC; static unsigned glen; /* witness index/byte in the string; witness index/byte in the appended text */
static const char *gsrc; static unsigned gsl;
static inline char *val(void){ return D.strA?(char*)D.strA:D.Str; }
static inline _Bool inv0(void){ if(D.staticSize!=sizeof(D.Str)) return 0;
  if(!D.strA) return D.spaceAvl<=D.staticSize && D.len<=D.spaceAvl && D.len<D.staticSize;
  return __CPROVER_POINTER_OFFSET(D.strA)==0 && D.spaceAvl<MAXB && D.len<=D.spaceAvl && __CPROVER_OBJECT_SIZE(D.strA)>D.spaceAvl && __CPROVER_OBJECT_SIZE(D.strA)>D.len && __CPROVER_rw_ok(D.strA,(unsigned long)D.len+1); }
static inline _Bool inv(void){ return inv0() && val()[D.len]==0; }
void *s_memcpy(void*dv,const void*sv,size_t n){ char*d=dv; const char*s=sv; JSV_LEMMA(n==0||(__CPROVER_w_ok(d,n)&&__CPROVER_r_ok(s,n)),"memcpy stays inside both buffers");
  /* exact at the tracked cells (witness, terminator, appended witness); no other cell is ever read */
  unsigned long so=__CPROVER_same_object(d,&D)?(unsigned long)(d-D.Str):__CPROVER_POINTER_OFFSET(d); unsigned long t[3]; char v[3]; t[0]=gW; t[1]=D.len; t[2]=(unsigned long)D.len+gk;
  if(t[0]>=so&&t[0]-so<n) v[0]=s[t[0]-so]; if(t[1]>=so&&t[1]-so<n) v[1]=s[t[1]-so]; if(t[2]>=so&&t[2]-so<n) v[2]=s[t[2]-so];
  if(t[0]>=so&&t[0]-so<n) d[t[0]-so]=v[0]; if(t[1]>=so&&t[1]-so<n) d[t[1]-so]=v[1]; if(t[2]>=so&&t[2]-so<n) d[t[2]-so]=v[2]; return dv; }
void *s_realloc(void*p,unsigned n){ char*q=malloc(n); JSV_ASSUME(q!=0); if(p){ char*c=p; JSV_LEMMA(__CPROVER_POINTER_OFFSET(p)==0,"realloc of a heap block"); unsigned long os=__CPROVER_OBJECT_SIZE(p); if(gW<n&&gW<os) q[gW]=c[gW]; if(D.len<n&&D.len<os) q[D.len]=c[D.len]; } return q; }
uint s_strlen(const char*s){ if(s==gsrc) return gsl; JSV_LEMMA(s==val(),"length of a known string"); return glen; }
static int gfreed; void s_free(void*p){ JSV_LEMMA(p!=0&&p==(void*)D.strA,"only the owned block is freed"); gfreed++; }
char *s_strduplen(const char*s,int n){ JSV_LEMMA(s==D.Str&&n==(int)D.len,"duplicate of the whole string"); char*q=malloc((size_t)n+1); JSV_ASSUME(q!=0); if(gW<(unsigned)n) q[gW]=s[gW]; q[n]=0; return q; }
/* Jsi_DSSetLength by its contract (proved by unit setlen) */
uint s_setlength(Jsi_DString*d,uint n){ JSV_LEMMA(d==&D&&inv0(),"representation invariant at call"); unsigned c=n>=MAXB?MAXB-1:n;
  if(c>=D.spaceAvl){ if(!D.strA&&c<D.staticSize&&jsv_nd_bool()) D.spaceAvl=c; else { unsigned long cap=jsv_nd_ulong(); JSV_ASSUME(cap>c&&cap>D.len&&cap<=MAXB+1ul); char*q=malloc(cap); JSV_ASSUME(q!=0); if(gW<D.len) q[gW]=gB; q[D.len]=val()[D.len]; D.strA=q; D.spaceAvl=jsv_nd_uint(); JSV_ASSUME(D.spaceAvl>=c&&D.spaceAvl>=D.len&&D.spaceAvl<cap&&D.spaceAvl<MAXB); } }
  if(c<D.len){ val()[c]=0; D.len=c; } return D.spaceAvl; }
/* an arbitrary well-formed string */
static void any(void){ Jsi_DString t; D=t; D.staticSize=sizeof(D.Str); if(jsv_nd_bool()){ D.strA=0; JSV_ASSUME(D.spaceAvl<=D.staticSize&&D.len<=D.spaceAvl&&D.len<D.staticSize); D.Str[D.len]=0; }
  else { JSV_ASSUME(D.spaceAvl<MAXB&&D.len<=D.spaceAvl); unsigned long cap=jsv_nd_ulong(); JSV_ASSUME(cap>D.len&&cap>D.spaceAvl&&cap<=MAXB+1ul); char*p=malloc(cap); JSV_ASSUME(p!=0); p[D.len]=0; D.strA=p; }
  glen=D.len; gW=jsv_nd_uint(); JSV_ASSUME(gW<glen||glen==0); gB=glen?val()[gW]:0; gk=jsv_nd_uint(); JSV_ASSUME(inv()); }
static void src(void){ gsl=jsv_nd_uint(); JSV_ASSUME(gsl<(1u<<30)); char*s=malloc((size_t)gsl+1); JSV_ASSUME(s!=0); s[gsl]=0; gsrc=s; JSV_ASSUME(gk<gsl||gsl==0); gkC=gsl?s[gk]:0; }
#define KEPT JSV_LEMMA(inv(),"representation invariant"); JSV_LEMMA(glen==0||val()[gW]==gB,"previous contents kept")
void h_append(void){ any(); src(); int n=jsv_nd_int(); JSV_ASSUME(n<=(int)gsl); unsigned e=n<0?gsl:(unsigned)n; JSV_ASSUME(gk<e||e==0); if(gk<e) gkC=gsrc[gk]; _Bool fits=(unsigned long)glen+e+1<MAXB;
  char*r=Jsi_DSAppendLen(&D,gsrc,n); JSV_LEMMA(r==val(),"returns the string"); KEPT; JSV_LEMMA(D.len==(fits?glen+e:glen)||(!fits&&D.len==glen+e),"length is the sum of the lengths"); if(D.len==glen+e&&e) JSV_LEMMA(val()[glen+gk]==gkC,"appended bytes follow the old contents"); JSV_REACH("append"); }
void h_appendnull(void){ any(); char*r=Jsi_DSAppendLen(&D,0,jsv_nd_int()); JSV_LEMMA(r==val()&&D.len==glen,"null append is a no-op"); KEPT; JSV_REACH("appendnull"); }
void h_setlen(void){ any(); char T=jsv_nd_char(); val()[glen]=T; unsigned n=jsv_nd_uint(); uint r=Jsi_DSSetLength(&D,n); unsigned c=n>=MAXB?MAXB-1:n; JSV_LEMMA(inv0(),"representation invariant"); JSV_LEMMA(D.len==(c<glen?c:glen),"truncates or keeps"); if(gW<D.len) JSV_LEMMA(val()[gW]==gB,"prefix kept");
  if(D.strA) JSV_LEMMA(__CPROVER_OBJECT_SIZE(D.strA)>c||c<D.spaceAvl,"space for the requested length"); else JSV_LEMMA(c<D.staticSize,"space for the requested length"); JSV_LEMMA(r==D.spaceAvl && r>=c,"reports the allocated space"); JSV_LEMMA(c<glen?val()[c]==0:val()[glen]==T,"terminated"); JSV_REACH("setlen"); }
void h_set(void){ any(); src(); char*r=Jsi_DSSet(&D,gsrc); JSV_LEMMA(inv()&&r==val(),"representation invariant"); if((unsigned long)gsl+1<MAXB) { JSV_LEMMA(D.len==gsl,"length is the new text's"); if(gsl) JSV_LEMMA(val()[gk]==gkC,"contents are the new text"); } JSV_REACH("set"); }
void h_freedup(void){ any(); char*r=Jsi_DSFreeDup(&D); JSV_LEMMA(inv()&&D.len==0&&!D.strA,"reset to empty"); JSV_LEMMA(r!=D.Str&&r[glen]==0,"terminated copy"); if(gW<glen) JSV_LEMMA(r[gW]==gB,"copy has the contents"); JSV_REACH("freedup"); }
void h_free(void){ any(); _Bool heap=D.strA!=0; if(heap) JSV_ASSUME(D.spaceAvl>0); gfreed=0; Jsi_DSFree(&D); JSV_LEMMA(gfreed==(heap?1:0),"owned block freed exactly once"); if(heap) JSV_LEMMA(D.len==0&&!D.strA&&inv(),"reset to empty"); JSV_REACH("free"); }
void h_init(void){ Jsi_DString t; D=t; Jsi_DSInit(&D); JSV_LEMMA(inv()&&D.len==0&&Jsi_DSValue(&D)==D.Str&&Jsi_DSLength(&D)==0,"initialised empty"); JSV_REACH("init"); }
void h_zero(void){ Jsi_DString z={0}; D=z; gsrc="q"; glen=0; D.Str[0]=0; JSV_LEMMA(Jsi_DSLength(&D)==0&&Jsi_DSValue(&D)==D.Str&&inv(),"zero-initialised string is empty"); JSV_REACH("zero"); }
char *s_strdup(const char*s){ char*q=malloc((size_t)gsl+1); JSV_ASSUME(q!=0); if(gk<gsl) q[gk]=s[gk]; q[gsl]=0; return q; }
char *s_strcpy(char*d,const char*s){ JSV_LEMMA(d==D.Str&&gsl<sizeof(D.Str),"literal fits the static buffer"); if(gk<gsl) d[gk]=s[gk]; d[gsl]=0; return d; }
void h_literal(void){ Jsi_DString z={0}; D=z; gk=jsv_nd_uint(); src(); JSV_ASSUME(gsl<MAXB); D.strA=gsrc; uint l=Jsi_DSLength(&D); JSV_LEMMA(inv(),"representation invariant"); JSV_LEMMA(l==gsl&&D.strA!=gsrc,"own copy of the literal"); if(gsl) JSV_LEMMA(val()[gk]==gkC,"contents are the literal"); JSV_REACH("literal"); }
static int gseq; static const char*ga[3]; char*s_append(Jsi_DString*d,const char*s,int n){ JSV_LEMMA(d==&D&&n==-1&&gseq<3&&s==ga[gseq],"pieces appended whole and in order"); gseq++; return val(); }
void h_appendv(void){ any(); char x[2],y[2],z[2]; ga[0]=x; ga[1]=y; ga[2]=z; char*r=Jsi_DSAppend(&D,x,y,z,NULL); JSV_LEMMA(gseq==3,"all pieces appended"); JSV_LEMMA(r==val(),"value"); gseq=0; Jsi_DSAppend(&D,NULL); JSV_LEMMA(gseq==0,"empty list"); JSV_REACH("appendv"); }
/* vsnprintf by contract: formatted text of length gN, witness byte gkC at gk; writes at most siz bytes, always terminated */
static int gN; static char gterm;
int s_vsnprintf(char*p,size_t siz,const char*fmt,va_list ap){ JSV_LEMMA(siz>0&&__CPROVER_w_ok(p,siz),"vsnprintf buffer"); JSV_ASSUME(1); if(gN<0){ p[0]=jsv_nd_char(); return -1; } size_t w=(size_t)gN<siz-1?(size_t)gN:siz-1; p[w]=0; if(gk<w) p[gk]=gkC; return gN; }
int s_fprintf(FILE*f,const char*fmt,...){ return 0; }
void h_printf(void){ any(); gsrc="q"; gN=jsv_nd_int(); gkC=jsv_nd_char(); JSV_ASSUME(gN<=0||gk<(unsigned)gN); char*r=Jsi_DSPrintf(&D,"x"); JSV_LEMMA(r==val(),"value"); KEPT; if(gN>=0&&(unsigned long)glen+gN+1<MAXB){ JSV_LEMMA(D.len==glen+gN,"length grows by the formatted length"); if(gN) JSV_LEMMA(val()[glen+gk]==gkC,"formatted text appended"); } else JSV_LEMMA(D.len==glen||D.len==glen+gN,"length unchanged on failure"); JSV_REACH("printf"); }
