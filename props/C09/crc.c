/* C09: Jsi_Crc32 computes the IEEE 802.3 CRC-32 of the bytes, for every length,
   continuing from any previous CRC value.  g_s is the state of the bitwise
   definition, advanced by ghost code over the data array itself. */
#include "jsv.h"
size_t g_n, g_i; const unsigned char *g_D; uint32_t g_s;
#define ST1(s) (((s)&1) ? ((s)>>1)^0xEDB88320u : (s)>>1)
static uint32_t bitstep(uint32_t s0, unsigned char b){ uint32_t a=s0^b;
  uint32_t c1=ST1(a), c2=ST1(c1), c3=ST1(c2), c4=ST1(c3), c5=ST1(c4), c6=ST1(c5), c7=ST1(c6), c8=ST1(c7); return c8; }
/* contract of Jsi_Crc32 (pre and post in h_crc32: dfcc would havoc the function's constant table) */
#define JSV_LOOP_crc32 \
 __CPROVER_assigns(buf_len,uptr,crcu32,g_i,g_s) \
 __CPROVER_loop_invariant(g_i<=g_n && buf_len==g_n-g_i && uptr==g_D+g_i && crcu32==g_s) \
 __CPROVER_decreases(buf_len)
#define JSV_GHOST_crc32 { g_s=bitstep(g_s,g_D[g_i]); g_i++; }
#include "jsv_defaults.h"
#include "jsiCmds.c"
void h_crc32(void){ g_n=jsv_nd_ulong(); __CPROVER_assume(g_n<=0x7fffffff); unsigned char*d=malloc(g_n); 
  g_D=d; uint32_t c=jsv_nd_uint(); g_s=~c; g_i=0; uint32_t r=Jsi_Crc32(c,d,g_n);
  JSV_LEMMA(d!=NULL || r==0,"no data"); JSV_LEMMA(d==NULL || g_i==g_n,"every byte is consumed once");
  JSV_LEMMA(d==NULL || r==~g_s,"result is the CRC-32 of all bytes"); JSV_REACH("crc"); }
/* the bitwise definition is the polynomial division it claims to be: the standard check value */
void h_crc_check(void){ const char*t="123456789"; uint32_t s=0xFFFFFFFFu; for(int i=0;i<9;i++) s=bitstep(s,t[i]);
  JSV_LEMMA(~s==0xCBF43926u,"standard check value of the specification"); JSV_REACH("check"); }
