/* C06: contracts for the Base64 encoder and decoder of jsiCmds.c.

   Abstract view of Base64 text: a text position is a pair (base,col): `base` is the
   number of data bytes encoded by the preceding full lines (54 per line; the text
   offset of the line is g_pos0 = 73*base/54) and col in 0..72 is the column, 72 being
   the line break.  The destination string is seen through an append position and one
   arbitrary witness position, so a statement about the witness is a statement about
   every byte, for every length. */
#include "jsv.h"
#define MAXN 100000000
static const char g_ev[]="ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
/* ---------------- ghost state ---------------- */
int g_base, g_col;            /* encoder: append position; decoder: read position */
int g_pos0;                   /* decoder: text offset of the line start */
int g_line, gL, gB, gC; unsigned char g_out, g_sp;   /* encoder witness position, captured byte, expected byte */
int g_n, gK, g_len, g_L; const unsigned char *g_D;   /* data, decoder witness index, decoded length, text length */
static unsigned char g_b(int j){ return j<g_n ? g_D[j] : 0; }
/* RFC 4648 sextet / character at (base,col) */
static int enc_sextet(int base,int col){
  int b=base+(col>>2)*3, r=col&3;
  return r==0? g_b(b)>>2 : r==1? ((g_b(b)&3)<<4)|(g_b(b+1)>>4) : r==2? ((g_b(b+1)&15)<<2)|(g_b(b+2)>>6) : g_b(b+2)&63;
}
static unsigned char enc_char(int base, int col) {
  if (col==72) return '\n';
  if (base+(col>>2)*3+(col&3)>g_n) return '=';
  return g_ev[enc_sextet(base,col)];
}
#ifdef U_ENC
char *Jsi_DSAppendLen(Jsi_DString *ds, const char *s, int length)
__CPROVER_requires(length>=0 && length<=73 && __CPROVER_r_ok(s,length))
__CPROVER_assigns(g_out, g_base, g_line, g_col)
__CPROVER_ensures(g_line==__CPROVER_old(g_line)+(__CPROVER_old(g_col)+length>=73))
__CPROVER_ensures(g_base==__CPROVER_old(g_base)+(__CPROVER_old(g_col)+length>=73?54:0) && g_col==__CPROVER_old(g_col)+length-(__CPROVER_old(g_col)+length>=73?73:0))
__CPROVER_ensures(g_out == (gL==__CPROVER_old(g_line) && gC>=__CPROVER_old(g_col) && gC<__CPROVER_old(g_col)+length ? (unsigned char)s[gC-__CPROVER_old(g_col)] :
   gL==__CPROVER_old(g_line)+1 && gC+73>=__CPROVER_old(g_col) && gC+73<__CPROVER_old(g_col)+length ? (unsigned char)s[gC+73-__CPROVER_old(g_col)] : __CPROVER_old(g_out)))
;
static Jsi_RC B64EncodeDStr(const char *ib, int ilen, Jsi_DString *dStr)
__CPROVER_requires(ilen>=0 && ilen<=MAXN && __CPROVER_r_ok(ib,ilen+1) && ib[ilen]==0)
__CPROVER_requires(g_base==0 && g_line==0 && g_col==0)
__CPROVER_assigns(g_out, g_base, g_line, g_col)
/* the text ends exactly after the last (padded) group of the data */
__CPROVER_ensures((g_col&3)==0 && g_col<72 && g_base+(g_col>>2)*3>=ilen && g_base+(g_col>>2)*3<ilen+3)
/* every character of the text is the RFC 4648 character */
__CPROVER_ensures((gL<g_line || (gL==g_line && gC<g_col)) ==> g_out==g_sp)
;
#define JSV_LOOP_b64enc \
 __CPROVER_assigns(i,pos,__CPROVER_object_whole(c),g_out,g_base,g_line,g_col) \
 __CPROVER_loop_invariant(pos>=0 && pos<=ilen+2 && i>=0 && i<72 && g_col==0 && (i&3)==0) \
 __CPROVER_loop_invariant(g_line>=0 && g_line<=2000000 && g_base==54*g_line && pos==g_base+(i>>2)*3)\
 __CPROVER_loop_invariant(gL<g_line ==> g_out==g_sp) \
 __CPROVER_loop_invariant((gL==g_line && gC<i) ==> (unsigned char)c[gC]==g_sp) \
 __CPROVER_decreases(ilen-pos)
#endif
#if defined(U_DEC) || defined(U_GETIDX)
static int atend;
/* instance, at position (pos0,base,col), of the quantified precondition "in[0..g_L) is the encoding of D[0..g_n)" */
static void text_at(const char *in, int pos0, int base, int col) {
  int p=pos0+col, ended=(col!=72 && (col&3)==0 && base+(col>>2)*3>=g_n);
  __CPROVER_assume((p==g_L)==ended); __CPROVER_assume(p<=g_L);
#ifdef U_DEC
  if (in)   /* the stub of b64getidx needs no character of the text, only where it ends */
#endif
  if (!ended) __CPROVER_assume((unsigned char)in[p]==enc_char(base,col));
}
/* contract of b64getidx on encoded text: delivers the next sextet and moves on; -1 at padding and at the end */
int spec_getidx(const char *buffer, int len, int *posn) {
  __CPROVER_assert(len==g_L && __CPROVER_rw_ok(posn,sizeof(int)) && __CPROVER_r_ok(buffer,len), "JSV_PRE b64getidx buffer");
  if (atend) return -1;
  __CPROVER_assert(*posn==g_pos0+g_col || (g_col==72 && *posn==g_pos0+73), "JSV_PRE b64getidx position");
#ifdef U_DEC
  buffer=NULL;
#endif
  text_at(buffer,g_pos0,g_base,g_col);
  if (g_col==72) { g_base+=54; g_pos0+=73; g_col=0; *posn=g_pos0; text_at(buffer,g_pos0,g_base,g_col); }
  if (*posn>=len) { atend=1; return -1; }
  (*posn)++;
  if (g_base+(g_col>>2)*3+(g_col&3)>g_n) { atend=1; return -1; }
  int v=enc_sextet(g_base,g_col); g_col++;
  return v;
}
#endif
#ifdef U_DEC
char *Jsi_DSAppendLen(Jsi_DString *ds, const char *s, int length)
__CPROVER_requires(length>=0 && length<=3 && __CPROVER_r_ok(s,length))
__CPROVER_assigns(g_out, g_len)
__CPROVER_ensures(g_len==__CPROVER_old(g_len)+length)
__CPROVER_ensures(g_out == (gK>=__CPROVER_old(g_len) && gK<__CPROVER_old(g_len)+length ? (unsigned char)s[gK-__CPROVER_old(g_len)] : __CPROVER_old(g_out)))
;
static void B64DecodeDStr(const char *inbuffer, int ilen, Jsi_DString *dStr)
__CPROVER_requires(ilen==g_L && __CPROVER_r_ok(inbuffer,ilen+1) && inbuffer[ilen]==0)
__CPROVER_requires(g_base==0 && g_pos0==0 && g_col==0 && g_len==0)
__CPROVER_assigns(atend,g_out,g_len,g_base,g_pos0,g_col)
__CPROVER_ensures(g_len==g_n)
__CPROVER_ensures((gK>=0 && gK<g_n) ==> g_out==g_sp)
;
#define JSV_LOOP_b64dec \
 __CPROVER_assigns(pos,olen,__CPROVER_object_whole(outbuffer),__CPROVER_object_whole(c),atend,g_out,g_len,g_base,g_pos0,g_col) \
 __CPROVER_loop_invariant(pos>=0 && pos<=ilen && (atend==0 || atend==1) && (olen==0 || pos==0)) \
 __CPROVER_loop_invariant(g_base>=0 && g_base<=MAXN && g_pos0>=0 && g_pos0<=2*MAXN && g_col>=0 && g_col<=72) \
 __CPROVER_loop_invariant(atend || ((g_col&3)==0 && g_len==g_base+(g_col>>2)*3 && g_len<=g_n && (pos==g_pos0+g_col || (g_col==72 && pos==g_pos0+73)))) \
 __CPROVER_loop_invariant(!atend || (g_len==g_n && olen==0)) \
 __CPROVER_loop_invariant((gK>=0 && gK<g_len) ==> g_out==g_sp) \
 __CPROVER_decreases(2*(ilen-pos)+!atend)
#define JSV_GHOST_b64dec { if (pos==g_pos0+73) text_at(inbuffer,g_pos0+73,g_base+54,0); else text_at(inbuffer,g_pos0,g_base,g_col); }
#endif
#include "jsv_defaults.h"
#include "jsiCmds.c"
#ifdef U_GETIDX
#include "jsiChar.c"
#endif

static void mk_data(void){ g_n=jsv_nd_int(); __CPROVER_assume(g_n>=0 && g_n<=MAXN); g_D=malloc(g_n+1); __CPROVER_assume(g_D!=NULL); }
#ifdef U_ENC
void h_b64encode(void){ Jsi_DString *d; mk_data(); ((char*)g_D)[g_n]=0; gB=jsv_nd_int(); gC=jsv_nd_int(); gL=jsv_nd_int();
  __CPROVER_assume(gL>=0 && gL<=2000000 && gB==54*gL && gC>=0 && gC<73);
  __CPROVER_assume(gC==72 || gB+(gC>>2)*3<g_n);   /* witness lies in the encoded text */
  g_sp=enc_char(gB,gC); g_base=0; g_line=0; g_col=0; g_out=jsv_nd_uchar();
  B64EncodeDStr((const char*)g_D,g_n,d); JSV_REACH("encode"); }
#endif
#ifdef U_DEC
int (*g_keep)(const char*,int,int*)=spec_getidx;
void h_b64decode(void){ Jsi_DString *d; mk_data(); g_L=jsv_nd_int(); __CPROVER_assume(g_L>=0 && g_L<=2*MAXN); gK=jsv_nd_int(); g_out=jsv_nd_uchar();
  if (gK>=0 && gK<g_n) g_sp=g_D[gK];
  char *in=malloc(g_L+1); __CPROVER_assume(in!=NULL); in[g_L]=0;
  g_base=g_pos0=g_col=g_len=0;
  B64DecodeDStr(in,g_L,d); JSV_REACH("decode"); }
#endif
#ifdef U_GETIDX
/* b64getidx refines spec_getidx on encoded text, from any read position */
void h_b64getidx(void){ mk_data(); g_L=jsv_nd_int(); __CPROVER_assume(g_L>=0 && g_L<=2*MAXN);
  char *in=malloc(g_L+1); __CPROVER_assume(in!=NULL); in[g_L]=0;
  g_base=jsv_nd_int(); g_pos0=jsv_nd_int(); g_col=jsv_nd_int(); __CPROVER_assume(g_base>=0&&g_base<=MAXN&&g_pos0>=0&&g_pos0<=MAXN&&g_col>=0&&g_col<=72);
  int pos=jsv_nd_int(), end=jsv_nd_bool();
  __CPROVER_assume(pos==g_pos0+g_col || (g_col==72 && pos==g_pos0+73));
  int p1=pos, p2=pos; atend=end; int r1=spec_getidx(in,g_L,&p1); int a1=atend; atend=end; int r2=b64getidx(in,g_L,&p2);
  JSV_LEMMA(r1==r2,"b64getidx result"); JSV_LEMMA(p1==p2,"b64getidx position"); JSV_LEMMA(a1==atend,"b64getidx end flag");
  JSV_REACH("getidx"); }
#endif
