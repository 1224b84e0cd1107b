#include "jsv.h"
/* XXTEA: the encoder performs, in order, the steps (r=1..R, p=0..n-1):
     v[p] += MX(v[p+1 mod n], v[p-1 mod n], r*DELTA, p);
   the decoder performs exactly the inverse steps in exactly the reverse order. */
#define DELTA_ 0x9e3779b9u
static unsigned *gv, gn, gW, gvW, gR, gr, gp, gexp; static const unsigned *gkey; static int fo, fi;
#define MXS(y,z,sum,p) (((((z)>>5)^((y)<<2)) + (((y)>>3)^((z)<<4))) ^ (((sum)^(y)) + (gkey[((p)&7)^(((sum)>>2)&7)]^(z))))
#define RNEXT(p) ((p)==gn-1?gv[0]:gv[(p)+1])
#define RPREV(p) ((p)==0?gv[gn-1]:gv[(p)-1])
#define HAVOC_V { __CPROVER_havoc_slice(gv,4ul*gn); gvW=gv[gW]; y=jsv_nd_uint(); z=jsv_nd_uint(); }
#define INV_O_E (rounds>=1 && rounds+gr==gR && sum==gr*DELTA_ && z==gv[gn-1] && gv[gW]==gvW && gp==0)
#define INV_I_E (p<gn-1 && gp==p && gr<gR && rounds+gr==gR && sum==(gr+1)*DELTA_ && e==((sum>>2)&7) && z==RPREV(p) && gv[gW]==gvW)
#define JSV_GHOST_btea_eo JSV_LEMMA(INV_O_E,"encoder round invariant"); if(fo==0){ fo=1; HAVOC_V rounds=jsv_nd_uint(); gr=jsv_nd_uint(); sum=jsv_nd_uint(); JSV_ASSUME(gr<gR && INV_O_E); } else JSV_ASSUME(0);
#define JSV_GHOST_btea_ei JSV_LEMMA(INV_I_E,"encoder step invariant"); if(fi==0){ fi=1; HAVOC_V p=gp=jsv_nd_uint(); JSV_ASSUME(INV_I_E); } else JSV_ASSUME(0); gexp=gv[p]+MXS(gv[p+1],RPREV(p),sum,p);
#define JSV_GHOST_btea_ei2 JSV_LEMMA(gv[p]==gexp,"encoder step p adds MX of its neighbours"); if(gW==p) gvW=gexp; JSV_LEMMA(gv[gW]==gvW,"encoder step changes only word p"); gp++;
#define JSV_GHOST_btea_el JSV_LEMMA(gp==gn-1,"all words but the last done"); gexp=gv[gn-1]+MXS(gv[0],gv[gn-2],sum,gn-1);
#define JSV_GHOST_btea_el2 JSV_LEMMA(gv[gn-1]==gexp,"encoder last step adds MX of its neighbours"); if(gW==gn-1) gvW=gexp; JSV_LEMMA(gv[gW]==gvW,"encoder step changes only the last word"); gp=0; gr++;
/* decoder: gr counts rounds still to undo, gp the next position + 1 */
#define INV_O_D (rounds>=1 && rounds==gr && sum==gr*DELTA_ && y==gv[0] && gv[gW]==gvW && gp==gn)
#define INV_I_D (p>0 && p<gn && gp==p+1 && gr>=1 && rounds==gr && sum==gr*DELTA_ && e==((sum>>2)&7) && y==RNEXT(p) && gv[gW]==gvW)
#define JSV_GHOST_btea_do JSV_LEMMA(INV_O_D,"decoder round invariant"); if(fo==0){ fo=1; HAVOC_V rounds=jsv_nd_uint(); gr=rounds; sum=jsv_nd_uint(); JSV_ASSUME(gr<=gR && INV_O_D); } else JSV_ASSUME(0);
#define JSV_GHOST_btea_di JSV_LEMMA(INV_I_D,"decoder step invariant"); if(fi==0){ fi=1; HAVOC_V p=jsv_nd_uint(); gp=p+1; JSV_ASSUME(INV_I_D); } else JSV_ASSUME(0); gexp=gv[p]-MXS(RNEXT(p),gv[p-1],sum,p);
#define JSV_GHOST_btea_di2 JSV_LEMMA(gv[p]==gexp,"decoder step p subtracts MX of its neighbours"); if(gW==p) gvW=gexp; JSV_LEMMA(gv[gW]==gvW,"decoder step changes only word p"); gp--;
#define JSV_GHOST_btea_dl JSV_LEMMA(gp==1,"all words but the first done"); gexp=gv[0]-MXS(gv[1],gv[gn-1],sum,0u);
#define JSV_GHOST_btea_dl2 JSV_LEMMA(gv[0]==gexp,"decoder last step subtracts MX of its neighbours"); if(gW==0) gvW=gexp; JSV_LEMMA(gv[gW]==gvW,"decoder step changes only word 0"); gp=gn; gr--;
#include "jsv_defaults.h"
#include "jsiCrypto.c"
static unsigned key_[8];
static void setup(void){ gn=jsv_nd_uint(); JSV_ASSUME(gn>=2 && gn<=(1u<<24)); gv=malloc(4ul*gn); JSV_ASSUME(gv!=0); gW=jsv_nd_uint(); JSV_ASSUME(gW<gn); gvW=gv[gW]; for(int i=0;i<8;i++) key_[i]=jsv_nd_uint(); gkey=key_; gR=6+52/gn; }
void h_enc(void){ setup(); gr=0; gp=0; jsi_btea(gv,(int)gn,key_); JSV_LEMMA(gr==gR&&gp==0,"all rounds performed"); JSV_LEMMA(gv[gW]==gvW,"result is the step sequence"); JSV_REACH("enc"); }
void h_dec(void){ setup(); gr=gR; gp=gn; jsi_btea(gv,-(int)gn,key_); JSV_LEMMA(gr==0&&gp==gn,"all rounds undone"); JSV_LEMMA(gv[gW]==gvW,"result is the inverse step sequence"); JSV_REACH("dec"); }
/* one step is undone by one inverse step: MX of position p does not read v[p] */
void h_stepinv(void){ gn=jsv_nd_uint(); JSV_ASSUME(gn>=2&&gn<=(1u<<24)); gv=malloc(4ul*gn); JSV_ASSUME(gv!=0); for(int i=0;i<8;i++) key_[i]=jsv_nd_uint(); gkey=key_; unsigned p=jsv_nd_uint(), w=jsv_nd_uint(), sum=jsv_nd_uint(); JSV_ASSUME(p<gn&&w<gn); unsigned o=gv[w];
  gv[p]=gv[p]+MXS(RNEXT(p),RPREV(p),sum,p); gv[p]=gv[p]-MXS(RNEXT(p),RPREV(p),sum,p); JSV_LEMMA(gv[w]==o,"inverse step restores every word"); JSV_REACH("stepinv"); }
/* a single word is left alone, in both directions */
void h_short(void){ unsigned v=jsv_nd_uint(),o=v; int n=jsv_nd_int(); JSV_ASSUME(n>=-1&&n<=1); jsi_btea(&v,n,key_); JSV_LEMMA(v==o,"short input unchanged"); JSV_REACH("short"); }

#ifdef JSV_UNIT_wrap
/* Jsi_Encrypt: padding protocol. The string is a ghost buffer; the cipher is its contract (an injective map with inverse). */
static char *gb; static unsigned glen, gcap; static unsigned long W1,W2; static unsigned char gP,gC; static int gmode, gwords; static unsigned long gkd[4];
#define KEQ(k) ((k)[0]==gkd[0]&&(k)[1]==gkd[1]&&(k)[2]==gkd[2]&&(k)[3]==gkd[3])
#define KSET(k) ((k)[0]=gkd[0],(k)[1]=gkd[1],(k)[2]=gkd[2],(k)[3]=gkd[3])
 static unsigned gplen;
char *g_DSValue(Jsi_DString*d){ return gb; } uint g_DSLength(Jsi_DString*d){ return glen; }
char *g_DSAppendLen(Jsi_DString*d,const char*s,int n){ JSV_LEMMA(n==1,"single byte append"); JSV_LEMMA(glen<gcap,"room"); gb[glen]=s[0]; glen++; return gb; }
uint g_DSSetLength(Jsi_DString*d,uint n){ JSV_LEMMA(n<=glen,"never longer than the data it holds"); glen=n; return n; }
int g_sha256(unsigned char*d,const char*s,int l){ unsigned long*u=(unsigned long*)d; KSET(u); return 32; }
void g_btea(uint32_t*v,int n,uint32_t const key[8]){ JSV_LEMMA((char*)v==gb,"whole text is processed"); JSV_LEMMA(KEQ((unsigned long*)key),"same key");
  if(gmode==0){ JSV_LEMMA(n>0&&(unsigned)n*4==glen,"all words encrypted"); gwords=n; JSV_LEMMA((unsigned char)gb[W1]==(W1<gplen?gP:0),"plain text then zero padding"); __CPROVER_havoc_slice(gb,glen); gC=gb[W2]; gmode=1; }
  else { JSV_LEMMA(n==-gwords&&(unsigned)gwords*4==glen,"all words decrypted"); JSV_LEMMA((unsigned char)gb[W2]==gC,"cipher text handed on unchanged"); __CPROVER_havoc_slice(gb,glen); JSV_ASSUME((unsigned char)gb[W1]==(W1<gplen?gP:0)); gmode=2; } }
void h_wrap(void){ unsigned n=jsv_nd_uint(); JSV_ASSUME(n>=2&&n<=(1u<<24)); gcap=n+8; gb=malloc(gcap); JSV_ASSUME(gb!=0); glen=n; gplen=n; unsigned r=(n+3)/4*4; W1=jsv_nd_ulong(); W2=jsv_nd_ulong(); JSV_ASSUME(W1<r&&W2<r); gP=W1<n?gb[W1]:0; int i; for(i=0;i<4;i++) gkd[i]=jsv_nd_ulong();
  unsigned kl=jsv_nd_uint(); JSV_ASSUME(kl<=64); unsigned long key8[8]; char*key=(char*)key8; if(kl==32) KSET(key8);
  Jsi_DString ds; Jsi_Interp*ip=0; Jsi_RC rc=Jsi_Encrypt(ip,&ds,key,kl,0); JSV_LEMMA(rc==JSI_OK,"encryption succeeds"); JSV_LEMMA(gmode==1&&glen==r+1&&gb[r]==(char)(r-n),"pad count byte follows the cipher text");
  rc=Jsi_Encrypt(ip,&ds,key,kl,1); JSV_LEMMA(rc==JSI_OK,"decryption succeeds"); JSV_LEMMA(gmode==2,"deciphered"); JSV_LEMMA(glen==n,"original length restored"); if(W1<n) JSV_LEMMA((unsigned char)gb[W1]==gP,"original text restored"); JSV_REACH("wrap"); }
/* decrypting arbitrary bytes: only bytes of the deciphered text are ever exposed */
void g_btea2(uint32_t*v,int n,uint32_t const key[8]){ JSV_LEMMA((char*)v==gb&&n<=0&&(unsigned)(-n)*4==glen,"all words decrypted"); if(glen) __CPROVER_havoc_slice(gb,glen); }
#endif
#ifdef U_JUNK
static char *gb; static unsigned glen, gcap; 
char *g_DSValue(Jsi_DString*d){ return gb; } uint g_DSLength(Jsi_DString*d){ return glen; }
char *g_DSAppendLen(Jsi_DString*d,const char*s,int n){ JSV_LEMMA(0,"decryption never appends"); return gb; }
uint g_DSSetLength(Jsi_DString*d,uint n){ JSV_LEMMA(n<=glen,"never longer than the data it holds"); glen=n; return n; }
int g_sha256(unsigned char*d,const char*s,int l){ return 32; }

void g_btea(uint32_t*v,int n,uint32_t const key[8]){ JSV_LEMMA((char*)v==gb&&n<=0&&(unsigned)(-n)*4==glen,"all words decrypted"); if(glen) __CPROVER_havoc_slice(gb,glen); }
void h_junk(void){ unsigned n=jsv_nd_uint(); JSV_ASSUME(n<=(1u<<24)); gcap=n+8; gb=malloc(gcap); JSV_ASSUME(gb!=0); glen=n; char key[32]; Jsi_DString ds; Jsi_RC rc=Jsi_Encrypt(0,&ds,key,32,1); JSV_LEMMA(glen<=n,"no longer than the input"); JSV_REACH("junk"); }
#endif
