#include "utf.c"
static inline void *m_cpy(void*d,const void*s,size_t n){ JSV_LEMMA(n<=4,"one character"); char*D=d; const char*Q=s; if(n>0) D[0]=Q[0]; if(n>1) D[1]=Q[1]; if(n>2) D[2]=Q[2]; if(n>3) D[3]=Q[3]; return d; }
#undef ChkString
#undef memcpy
#define memcpy m_cpy
#undef toupper
#undef tolower
#define toupper(c) ((c)>=97&&(c)<=122?(c)-32:(c))
#define tolower(c) ((c)>=65&&(c)<=90?(c)+32:(c))
#include "jsiString.c"
/* appended pieces: exactly the next bytes of the text, ASCII case-mapped */
char *s_append(Jsi_DString*d,const char*p,...){ int l=0; if(p[0]){ l=1; if(p[1]){ l=2; if(p[2]){ l=3; if(p[3]){ l=4; if(p[4]) l=5; } } } } JSV_LEMMA(l>=1&&l<=4&&g_cnt+l<=N,"piece is one character"); 
  
#define PC(k) if(k<l){ int b=B(g_cnt+k); JSV_LEMMA((unsigned char)p[k]==(b>=0x80?b:(g_idx0==1||(g_idx0==2&&g_cnt==0))?(b>='a'&&b<='z'?b-32:b):(b>='A'&&b<='Z'?b+32:b)),"case-mapped character"); }
  PC(0) PC(1) PC(2) PC(3) g_cnt+=l; return 0; }
void h_case(void){ text(); g_off=g_cnt=0; g_idx0=jsv_nd_int(); JSV_ASSUME(g_idx0>=0&&g_idx0<=2); Jsi_DString d; jsi_utf_tocase(S,(int)N,g_idx0,&d); JSV_LEMMA(g_cnt==N||B(g_cnt)==0,"all characters are converted"); JSV_REACH("case"); }
