/* Digest contracts. Hooks in jsiCrypto.c:
   *_r    end of a compression round: spec round on the previous state == code state
   *_w    message schedule satisfies the FIPS recurrence
   *_upd  update loop invariant */
#include "jsv.h"
#define NMAX (1u<<28)
static const unsigned char *gM; static unsigned gn;          /* message */
static unsigned long gW, gbase, gtotal;                      /* witness index in padded message, bytes hashed so far */
static unsigned gst[8]; static unsigned long long gst64[25];
static int gr;
#define ROL(x,n) (((unsigned)(x)<<(n))|((unsigned)(x)>>(32-(n))))
#define ROR(x,n) (((unsigned)(x)>>(n))|((unsigned)(x)<<(32-(n))))

#ifdef JSV_UNIT_md5t
/* RFC 1321: T[i]=floor(2^32*abs(sin(i))) */
static const unsigned T[64]={
0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391};
static const int S[16]={7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21};
static unsigned gx[16], gv[4];
static inline int md5_step(unsigned a,unsigned b,unsigned c,unsigned d){
  unsigned nv[4]={a,b,c,d}; int i=gr, w=(4-(i&3))&3, x=(w+1)&3,y=(w+2)&3,z=(w+3)&3, r=i>>4;
  unsigned B=gv[x],C=gv[y],D=gv[z],f; int k;
  if(r==0){ f=(B&C)|(~B&D); k=i; } else if(r==1){ f=(B&D)|(C&~D); k=(5*i+1)&15; } else if(r==2){ f=B^C^D; k=(3*i+5)&15; } else { f=C^(B|~D); k=(7*i)&15; }
  unsigned s=gv[w]+(f+(gx[k]+T[i&63])); unsigned e=ROL(s,S[r*4+(i&3)])+B;
  JSV_LEMMA(i<64,"at most 64 steps"); JSV_LEMMA(nv[w]==e,"MD5 step equals RFC 1321"); JSV_LEMMA(nv[x]==B&&nv[y]==C&&nv[z]==D,"MD5 step changes one register");
  gr++; return 0; }
/* CUT: continue from an arbitrary register state (each step is proved for all states) */
#define JSV_GHOST_md5_step , md5_step(a,b,c,d), a=gv[0]=jsv_nd_uint(), b=gv[1]=jsv_nd_uint(), c=gv[2]=jsv_nd_uint(), d=gv[3]=jsv_nd_uint()
#endif

#ifdef JSV_UNIT_sha1t
#define JSV_GHOST_sha1_w { unsigned q; for(q=0;q<16;q++) JSV_LEMMA(m[q]==(((unsigned)data[4*q]<<24)|((unsigned)data[4*q+1]<<16)|((unsigned)data[4*q+2]<<8)|data[4*q+3]),"schedule starts with the big-endian block words"); \
  for(q=16;q<80;q++) JSV_LEMMA(m[q]==ROL(m[q-3]^m[q-8]^m[q-14]^m[q-16],1),"SHA-1 schedule recurrence"); for(q=0;q<80;q++) m[q]=gw[q]=jsv_nd_uint(); }
/* loop contract by cut: round 0 of the stage, then one arbitrary round i of the stage from an arbitrary state */
#define SHA1R(ST) JSV_LEMMA(gr==(int)i && i>=ST*20 && i<ST*20+20,"round counter"); JSV_LEMMA(m[i]==gw[i],"schedule unchanged"); sha1_step##ST(a,b,c,d,e,m[i]); \
  if(gcut##ST==0){ gcut##ST=1; i=jsv_nd_uint(); JSV_ASSUME(i>=ST*20 && i<ST*20+19); gr=(int)i+1; } else { JSV_ASSUME(i==ST*20+19); i=ST*20+19; gr=ST*20+20; } \
  a=gv[0]=jsv_nd_uint(); b=gv[1]=jsv_nd_uint(); c=gv[2]=jsv_nd_uint(); d=gv[3]=jsv_nd_uint(); e=gv[4]=jsv_nd_uint();
#define JSV_GHOST_sha1_r0 SHA1R(0)
#define JSV_GHOST_sha1_r1 SHA1R(1)
#define JSV_GHOST_sha1_r2 SHA1R(2)
#define JSV_GHOST_sha1_r3 SHA1R(3)
static unsigned gv[5], gw[80], gcut0, gcut1, gcut2, gcut3;
#define SHA1_STEP(ST,F,K) static inline void sha1_step##ST(unsigned a,unsigned b,unsigned c,unsigned d,unsigned e,unsigned w){ unsigned B=gv[1],C=gv[2],D=gv[3]; \
  JSV_LEMMA(a==ROL(gv[0],5)+(F)+gv[4]+K+w,"SHA-1 round equals FIPS 180-4"); JSV_LEMMA(b==gv[0]&&c==ROL(B,30)&&d==C&&e==D,"SHA-1 round rotates registers"); gr++; }
SHA1_STEP(0,(B&C)^(~B&D),0x5a827999) SHA1_STEP(1,B^C^D,0x6ed9eba1) SHA1_STEP(2,(B&C)^(B&D)^(C&D),0x8f1bbcdc) SHA1_STEP(3,B^C^D,0xca62c1d6)
#endif

#ifdef JSV_UNIT_sha256t
#define JSV_GHOST_sha256_w { unsigned q; for(q=0;q<16;q++) JSV_LEMMA(m[q]==(((unsigned)data[4*q]<<24)|((unsigned)data[4*q+1]<<16)|((unsigned)data[4*q+2]<<8)|data[4*q+3]),"schedule starts with the big-endian block words"); \
  for(q=16;q<64;q++) JSV_LEMMA(m[q]==SS1(m[q-2])+m[q-7]+SS0(m[q-15])+m[q-16],"SHA-256 schedule recurrence"); for(q=0;q<64;q++) m[q]=gw[q]=jsv_nd_uint(); }
#define JSV_GHOST_sha256_r sha256_step(a,b,c,d,e,f,g,h,m[i]); JSV_LEMMA(gr==(int)i+1,"round counter"); if(gcut==0){ gcut=1; i=jsv_nd_uint(); JSV_ASSUME(i<63); gr=(int)i+1; } else { JSV_ASSUME(i==63); i=63; gr=64; } a=gv[0]=jsv_nd_uint(); b=gv[1]=jsv_nd_uint(); c=gv[2]=jsv_nd_uint(); d=gv[3]=jsv_nd_uint(); e=gv[4]=jsv_nd_uint(); f=gv[5]=jsv_nd_uint(); g=gv[6]=jsv_nd_uint(); h=gv[7]=jsv_nd_uint();
#define SS0(x) (ROR(x,7)^ROR(x,18)^((x)>>3))
#define SS1(x) (ROR(x,17)^ROR(x,19)^((x)>>10))
static unsigned gv[8], gw[64], gcut;
static const unsigned SK[64]={ /* first 32 bits of the fractional parts of the cube roots of the first 64 primes */
0x428a2f98,0x71374491,0xb5c0fbcf,0xe9b5dba5,0x3956c25b,0x59f111f1,0x923f82a4,0xab1c5ed5,0xd807aa98,0x12835b01,0x243185be,0x550c7dc3,0x72be5d74,0x80deb1fe,0x9bdc06a7,0xc19bf174,
0xe49b69c1,0xefbe4786,0x0fc19dc6,0x240ca1cc,0x2de92c6f,0x4a7484aa,0x5cb0a9dc,0x76f988da,0x983e5152,0xa831c66d,0xb00327c8,0xbf597fc7,0xc6e00bf3,0xd5a79147,0x06ca6351,0x14292967,
0x27b70a85,0x2e1b2138,0x4d2c6dfc,0x53380d13,0x650a7354,0x766a0abb,0x81c2c92e,0x92722c85,0xa2bfe8a1,0xa81a664b,0xc24b8b70,0xc76c51a3,0xd192e819,0xd6990624,0xf40e3585,0x106aa070,
0x19a4c116,0x1e376c08,0x2748774c,0x34b0bcb5,0x391c0cb3,0x4ed8aa4a,0x5b9cca4f,0x682e6ff3,0x748f82ee,0x78a5636f,0x84c87814,0x8cc70208,0x90befffa,0xa4506ceb,0xbef9a3f7,0xc67178f2};
static inline void sha256_step(unsigned a,unsigned b,unsigned c,unsigned d,unsigned e,unsigned f,unsigned g,unsigned h,unsigned w){ JSV_LEMMA(w==gw[gr<64?gr:0],"round uses its schedule word"); JSV_LEMMA(gr<64,"at most 64 rounds"); int r=gr<64?gr:0;
  unsigned E=gv[4],F=gv[5],G=gv[6],A=gv[0],B=gv[1],C=gv[2];
  unsigned t1=gv[7]+(ROR(E,6)^ROR(E,11)^ROR(E,25))+((E&F)^(~E&G))+SK[r]+w, t2=(ROR(A,2)^ROR(A,13)^ROR(A,22))+((A&B)^(A&C)^(B&C));
  JSV_LEMMA(a==t1+t2&&e==gv[3]+t1,"SHA-256 round equals FIPS 180-4"); JSV_LEMMA(b==A&&c==B&&d==C&&f==E&&g==F&&h==G,"SHA-256 round shifts registers");
  gr++; }
#endif

#ifdef JSV_UNIT_sha3t
/* loop contract by cut: one arbitrary round from an arbitrary state */
#define JSV_GHOST_sha3_rh JSV_LEMMA(gr==(int)round,"round counter"); if(gcut==0){ gcut=1; round=jsv_nd_uint(); JSV_ASSUME(round<24 && round<ctx->rounds); gr=(int)round; for(int q=0;q<25;q++) gs[q]=st[q]=jsv_nd_ulong(); } else JSV_ASSUME(0);
#define JSV_GHOST_sha3_r keccak_step(st);
static unsigned long long gs[25]; static unsigned gcut;
static const unsigned long long RC[24]={ 0x1ULL,0x8082ULL,0x800000000000808aULL,0x8000000080008000ULL,0x808bULL,0x80000001ULL,0x8000000080008081ULL,0x8000000000008009ULL,0x8aULL,0x88ULL,0x80008009ULL,0x8000000aULL,
0x8000808bULL,0x800000000000008bULL,0x8000000000008089ULL,0x8000000000008003ULL,0x8000000000008002ULL,0x8000000000000080ULL,0x800aULL,0x800000008000000aULL,0x8000000080008081ULL,0x8000000000008080ULL,0x80000001ULL,0x8000000080008008ULL};
/* FIPS 202 3.2.2 rho offsets, indexed [x+5y] */
static const int RHO[25]={0,1,190,28,91, 36,300,6,55,276, 3,10,171,153,231, 105,45,15,21,136, 210,66,253,120,78};
static inline unsigned long long ROL64(unsigned long long v,int n){ n&=63; return n? (v<<n)|(v>>(64-n)):v; }
static inline void keccak_step(unsigned long*st){ int x,y; unsigned long long C[5],A[25],B[25]; JSV_LEMMA(gr<24,"at most 24 rounds");
  for(x=0;x<5;x++) C[x]=gs[x]^gs[x+5]^gs[x+10]^gs[x+15]^gs[x+20];
  for(y=0;y<5;y++) for(x=0;x<5;x++) A[x+5*y]=gs[x+5*y]^(C[(x+4)%5]^ROL64(C[(x+1)%5],1));
  for(y=0;y<5;y++) for(x=0;x<5;x++) B[y+5*((2*x+3*y)%5)]=ROL64(A[x+5*y],RHO[x+5*y]);
  for(y=0;y<5;y++) for(x=0;x<5;x++){ unsigned long long v=B[x+5*y]^(~B[(x+1)%5+5*y]&B[(x+2)%5+5*y]); if(!x&&!y) v^=RC[gr<24?gr:0]; JSV_LEMMA(st[x+5*y]==v,"Keccak-f round equals FIPS 202"); }
  for(x=0;x<25;x++) gs[x]=st[x]; gr++; }
#endif

#ifdef U_STREAM
/* padded message of FIPS 180-4 / RFC 1321 */
static inline unsigned char padded(unsigned long p, int le){ if(p<gn) return gM[p]; if(p==gn) return 0x80; if(p>=gtotal-8){ unsigned long bits=(unsigned long)gn*8; unsigned q=(unsigned)(p-(gtotal-8)); return (unsigned char)(le? bits>>(8*q) : bits>>(8*(7-q))); } return 0; }
/* the compression function, by contract: it consumes the next block of the padded message and yields an arbitrary new chaining value */
static inline void consume(const unsigned char*blk,int le){ JSV_LEMMA(gbase+64<=gtotal,"no more blocks than the padded message has"); if(gW>=gbase && gW<gbase+64) JSV_LEMMA(blk[gW-gbase]==padded(gW,le),"compressed block byte equals the padded message byte"); gbase+=64; }
/* memcpy by contract. From the message: the destination bytes [0,n) become arbitrary except at the witness
   (over-approximation of the copy); otherwise an exact bounded copy. */
#ifdef U_DSTMAX
void *spec_memcpy(void*dv,const void*sv,size_t n){ unsigned char*d=dv; const unsigned char*s=sv; JSV_LEMMA(n==0||(__CPROVER_w_ok(d,n)&&__CPROVER_r_ok(s,n)),"memcpy ranges");
  if(__CPROVER_same_object(s,gM)){ JSV_LEMMA(n<=U_DSTMAX,"block copy"); unsigned long so=(unsigned long)(s-gM); if(n) __CPROVER_havoc_slice(d,n); if(gW>=so && gW<so+n) d[gW-so]=gM[gW]; }
  else {
#ifdef U_DG16
 JSV_LEMMA(n==16,"digest copy"); ((unsigned long*)d)[0]=((const unsigned long*)s)[0]; ((unsigned long*)d)[1]=((const unsigned long*)s)[1];
#else
 unsigned k; JSV_LEMMA(n<=64,"digest copy"); for(k=0;k<64;k++) if(k<n) d[k]=s[k];
#endif
 } return dv; }
#endif
#define MSG(le) unsigned n=jsv_nd_uint(); JSV_ASSUME(n<=NMAX); unsigned char*M=malloc((size_t)n+1); JSV_ASSUME(M!=0); gM=M; gn=n; gtotal=((unsigned long)n+9+63)/64*64; gW=jsv_nd_ulong(); JSV_ASSUME(gW<gtotal); gbase=0;
#endif
#ifdef JSV_UNIT_sha256s
#define JSV_LOOP_sha256_upd \
 __CPROVER_assigns(i,gbase,__CPROVER_object_whole(ctx),__CPROVER_object_whole(gst)) \
 __CPROVER_loop_invariant(i<=len && ctx->datalen<64 && i==gbase+ctx->datalen && (gbase&63)==0 && gbase<=gn && ctx->bitlen==8*gbase \
   && ctx->state[0]==gst[0] && ctx->state[1]==gst[1] && ctx->state[2]==gst[2] && ctx->state[3]==gst[3] && ctx->state[4]==gst[4] && ctx->state[5]==gst[5] && ctx->state[6]==gst[6] && ctx->state[7]==gst[7]) \
 __CPROVER_loop_invariant(gW<gbase || gW>=i || ctx->data[(gW-gbase)&63]==gM[gW])
#endif
#ifdef JSV_UNIT_sha1s
#define JSV_LOOP_sha1_upd \
 __CPROVER_assigns(i,gbase,__CPROVER_object_whole(ctx),__CPROVER_object_whole(gst)) \
 __CPROVER_loop_invariant(i<=len && ctx->datalen<64 && i==gbase+ctx->datalen && (gbase&63)==0 && gbase<=gn && ctx->bitlen==8*gbase \
   && ctx->state[0]==gst[0] && ctx->state[1]==gst[1] && ctx->state[2]==gst[2] && ctx->state[3]==gst[3] && ctx->state[4]==gst[4] && ctx->k[0]==0x5a827999 && ctx->k[1]==0x6ed9eba1 && ctx->k[2]==0x8f1bbcdc && ctx->k[3]==0xca62c1d6) \
 __CPROVER_loop_invariant(gW<gbase || gW>=i || ctx->data[(gW-gbase)&63]==gM[gW])
#endif
#ifdef JSV_UNIT_md5s
#define JSV_LOOP_md5_upd \
 __CPROVER_assigns(buf,len,gbase,__CPROVER_object_whole(ctx),__CPROVER_object_whole(gst)) \
 __CPROVER_loop_invariant(len<=gn && gbase+len==gn && (gbase&63)==0 && buf==gM+gbase && ctx->bits[0]==(gn<<3) && ctx->bits[1]==(gn>>29) \
   && ctx->buf[0]==gst[0] && ctx->buf[1]==gst[1] && ctx->buf[2]==gst[2] && ctx->buf[3]==gst[3])
#endif
#ifdef JSV_UNIT_sha3s
/* do-while loop: loop contract written out as ghost code (assert, havoc, assume | assert, cut) */
static int gfirst=1; static unsigned grate; static unsigned long glen0;
static inline int sha3_inv(void*c,unsigned long idx,unsigned long len,unsigned char*p,unsigned char*blk);
#define SHA3_INV (idx==0 && gq<=NMAX && gbase==gq*grate && len<=gn && gbase+len==gn && p==gM+gbase && ctx->blklen==grate && ctx->rounds==24 && ctx->dgstlen==gdl && ST25(ctx->state))
#define JSV_GHOST_sha3_upd JSV_LEMMA(SHA3_INV,"SHA-3 absorb loop invariant"); \
  if(gfirst){ gfirst=0; unsigned long nb=jsv_nd_ulong(); JSV_ASSUME(nb<=NMAX); gq=nb; gbase=gq*grate; idx=jsv_nd_ulong(); r=jsv_nd_ulong(); len=jsv_nd_ulong(); p=(unsigned char*)gM+gbase; { SHA3_CTX hv; *ctx=hv; } havoc_gst64(); JSV_ASSUME(SHA3_INV); JSV_ASSUME(ctx->index==0); } \
  else JSV_ASSUME(0);
static unsigned long gdl, gq, gqt;
#define ST25(s) (s[0]==gst64[0]&&s[1]==gst64[1]&&s[2]==gst64[2]&&s[3]==gst64[3]&&s[4]==gst64[4]&&s[5]==gst64[5]&&s[6]==gst64[6]&&s[7]==gst64[7]&&s[8]==gst64[8]&&s[9]==gst64[9]&&s[10]==gst64[10]&&s[11]==gst64[11]&&s[12]==gst64[12]&&s[13]==gst64[13]&&s[14]==gst64[14]&&s[15]==gst64[15]&&s[16]==gst64[16]&&s[17]==gst64[17]&&s[18]==gst64[18]&&s[19]==gst64[19]&&s[20]==gst64[20]&&s[21]==gst64[21]&&s[22]==gst64[22]&&s[23]==gst64[23]&&s[24]==gst64[24])
static inline void havoc_gst64(void){ unsigned long long t[25]; for(int i=0;i<25;i++) gst64[i]=t[i]; }
#endif
#include "jsv_defaults.h"
#include "jsiCrypto.c"

#ifdef JSV_UNIT_md5t
void h_md5t(void){ unsigned st[4],b0[4],in[16]; unsigned i; for(i=0;i<16;i++) gx[i]=in[i]; 
#ifdef JSV_UNIT_md5t
  for(i=0;i<4;i++) gv[i]=b0[i]=st[i];
  gr=0; jsi_MD5Transform(st,in); JSV_LEMMA(gr==64,"all 64 steps performed"); for(i=0;i<4;i++) JSV_LEMMA(st[i]==b0[i]+gv[i],"MD5 chaining addition"); for(i=0;i<16;i++) JSV_LEMMA(in[i]==gx[i],"input unchanged");
#endif
  JSV_REACH("md5t"); }
#endif
#ifdef JSV_UNIT_md5rev
void h_md5rev(void){ unsigned char a[64],b[64]; unsigned n=jsv_nd_uint(); JSV_ASSUME(n>=1&&n<=16); for(int i=0;i<64;i++) b[i]=a[i]; jsi_MD5_byteReverse(a,n); for(int i=0;i<64;i++) JSV_LEMMA(a[i]==b[i],"little-endian identity"); JSV_REACH("md5rev"); }
#endif
#ifdef JSV_UNIT_sha1t
void h_sha1t(void){ jsi_SHA1_CTX c,d0; unsigned char blk[64]; unsigned i; c.k[0]=0x5a827999; c.k[1]=0x6ed9eba1; c.k[2]=0x8f1bbcdc; c.k[3]=0xca62c1d6; d0=c; for(i=0;i<5;i++) gv[i]=c.state[i];
  gr=0; sha1_transform(&c,blk); JSV_LEMMA(gr==80,"all 80 rounds performed"); for(i=0;i<5;i++) JSV_LEMMA(c.state[i]==d0.state[i]+gv[i],"SHA-1 chaining addition");
  JSV_LEMMA(c.datalen==d0.datalen&&c.bitlen==d0.bitlen,"frame"); for(i=0;i<4;i++) JSV_LEMMA(c.k[i]==d0.k[i],"frame: k"); JSV_REACH("sha1t"); }
#endif
#ifdef JSV_UNIT_sha256t
void h_sha256t(void){ jsi_SHA256_CTX c,d0; unsigned char blk[64]; unsigned i; d0=c; for(i=0;i<8;i++) gv[i]=c.state[i];
  gr=0; sha256_transform(&c,blk); JSV_LEMMA(gr==64,"all 64 rounds performed"); for(i=0;i<8;i++) JSV_LEMMA(c.state[i]==d0.state[i]+gv[i],"SHA-256 chaining addition");
  JSV_LEMMA(c.datalen==d0.datalen&&c.bitlen==d0.bitlen,"frame"); JSV_REACH("sha256t"); }
#endif
#ifdef JSV_UNIT_sha3t
void h_sha3t(void){ SHA3_CTX c,d0; int type=jsv_nd_int(); unsigned i; JSV_ASSUME(type>=0&&type<4); SHA3_CTX z; SHA3_Init(&z,type); c.rounds=z.rounds; c.blklen=z.blklen; c.dgstlen=z.dgstlen; JSV_ASSUME(c.index<=c.blklen);
  JSV_LEMMA(z.blklen==(type==0?144:type==1?104:type==2?72:136) && z.dgstlen==(type==0?28:type==1?48:type==2?64:32) && z.rounds==24 && z.index==0,"rate and digest size of the variant");
  d0=c; for(i=0;i<25;i++){ unsigned long long w=0; if(8*i<c.blklen) for(int b=7;b>=0;b--) w=(w<<8)|c.blk[8*i+b]; gs[i]=c.state[i]^w; }
  gr=0; SHA3_Transform(&c); JSV_LEMMA(gr==24,"all 24 rounds performed"); for(i=0;i<25;i++) JSV_LEMMA(c.state[i]==gs[i],"state"); JSV_LEMMA(c.index==d0.index&&c.blklen==d0.blklen&&c.dgstlen==d0.dgstlen&&c.rounds==d0.rounds,"frame"); JSV_REACH("sha3t"); }
#endif

#ifdef JSV_UNIT_sha256s
void spec_sha256_transform(jsi_SHA256_CTX*ctx,const uchar data[]){ JSV_LEMMA(ctx->state[0]==gst[0]&&ctx->state[1]==gst[1]&&ctx->state[2]==gst[2]&&ctx->state[3]==gst[3]&&ctx->state[4]==gst[4]&&ctx->state[5]==gst[5]&&ctx->state[6]==gst[6]&&ctx->state[7]==gst[7],"chaining value handed on"); consume(data,0); ctx->state[0]=gst[0]=jsv_nd_uint(); ctx->state[1]=gst[1]=jsv_nd_uint(); ctx->state[2]=gst[2]=jsv_nd_uint(); ctx->state[3]=gst[3]=jsv_nd_uint(); ctx->state[4]=gst[4]=jsv_nd_uint(); ctx->state[5]=gst[5]=jsv_nd_uint(); ctx->state[6]=gst[6]=jsv_nd_uint(); ctx->state[7]=gst[7]=jsv_nd_uint(); }
void h_sha256s(void){ MSG(0) static const unsigned H[8]={0x6a09e667,0xbb67ae85,0x3c6ef372,0xa54ff53a,0x510e527f,0x9b05688c,0x1f83d9ab,0x5be0cd19}; int i; for(i=0;i<8;i++) gst[i]=H[i];
  unsigned char dg[32]; int rc=jsi_Sha256Digest(dg,(char*)M,(int)n); JSV_LEMMA(rc==32,"length"); JSV_LEMMA(gbase==gtotal,"every block of the padded message compressed");
  for(i=0;i<32;i++) JSV_LEMMA(dg[i]==(unsigned char)(gst[i/4]>>(24-8*(i&3))),"digest is the final chaining value"); JSV_REACH("sha256s"); }
#endif
#ifdef JSV_UNIT_sha1s
void spec_sha1_transform(jsi_SHA1_CTX*ctx,const uchar data[]){ JSV_LEMMA(ctx->state[0]==gst[0]&&ctx->state[1]==gst[1]&&ctx->state[2]==gst[2]&&ctx->state[3]==gst[3]&&ctx->state[4]==gst[4],"chaining value handed on"); JSV_LEMMA(ctx->k[0]==0x5a827999&&ctx->k[1]==0x6ed9eba1&&ctx->k[2]==0x8f1bbcdc&&ctx->k[3]==0xca62c1d6,"round constants"); consume(data,0); ctx->state[0]=gst[0]=jsv_nd_uint(); ctx->state[1]=gst[1]=jsv_nd_uint(); ctx->state[2]=gst[2]=jsv_nd_uint(); ctx->state[3]=gst[3]=jsv_nd_uint(); ctx->state[4]=gst[4]=jsv_nd_uint(); }
void h_sha1s(void){ MSG(0) static const unsigned H[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0}; int i; for(i=0;i<5;i++) gst[i]=H[i];
  unsigned char dg[20]; int rc=jsi_Sha1Digest(dg,(char*)M,(int)n); JSV_LEMMA(rc==20,"length"); JSV_LEMMA(gbase==gtotal,"every block of the padded message compressed");
  for(i=0;i<20;i++) JSV_LEMMA(dg[i]==(unsigned char)(gst[i/4]>>(24-8*(i&3))),"digest is the final chaining value"); JSV_REACH("sha1s"); }
#endif
#ifdef JSV_UNIT_md5s
/* by contract (unit md5rev): on this little-endian machine the byte reversal leaves the buffer unchanged */
void spec_md5_rev(unsigned char*buf,unsigned longs){ JSV_LEMMA(longs>=1&&longs<=16&&__CPROVER_rw_ok(buf,4*longs),"byteReverse precondition"); }
void spec_md5_transform(uint buf[4],const uint in[16]){ JSV_LEMMA(buf[0]==gst[0]&&buf[1]==gst[1]&&buf[2]==gst[2]&&buf[3]==gst[3],"chaining value handed on"); consume((const unsigned char*)in,1); buf[0]=gst[0]=jsv_nd_uint(); buf[1]=gst[1]=jsv_nd_uint(); buf[2]=gst[2]=jsv_nd_uint(); buf[3]=gst[3]=jsv_nd_uint(); }
void h_md5s(void){ MSG(1) static const unsigned H[4]={0x67452301,0xefcdab89,0x98badcfe,0x10325476}; int i; for(i=0;i<4;i++) gst[i]=H[i];
  unsigned char dg[16]; int rc=jsi_Md5Digest(dg,(char*)M,(int)n); JSV_LEMMA(rc==16,"length"); JSV_LEMMA(gbase==gtotal,"every block of the padded message compressed");
  for(i=0;i<16;i++) JSV_LEMMA(dg[i]==(unsigned char)(gst[i/4]>>(8*(i&3))),"digest is the final chaining value"); JSV_REACH("md5s"); }
#endif
#ifdef JSV_UNIT_sha3s
/* FIPS 202 pad10*1 with the SHA-3 suffix 01, rate grate */
static inline unsigned char padded3(unsigned long p){ unsigned char v=0; if(p<gn) v=gM[p]; else if(p==gn) v=6; if(p==gtotal-1) v|=0x80; return v; }
void spec_sha3_transform(SHA3_CTX*ctx){ JSV_LEMMA(ST25(ctx->state),"sponge state handed on"); JSV_LEMMA(ctx->blklen==grate&&ctx->rounds==24,"rate kept"); JSV_LEMMA(gbase+grate<=gtotal,"no more blocks than the padded message has");
  if(gW>=gbase&&gW<gbase+grate) JSV_LEMMA(ctx->blk[gW-gbase]==padded3(gW),"absorbed block byte equals the padded message byte"); gq++; gbase+=grate; for(int i=0;i<25;i++) ctx->state[i]=gst64[i]=jsv_nd_ulong(); }
void h_sha3s(void){ unsigned n=jsv_nd_uint(); JSV_ASSUME(n<=NMAX); unsigned char*M=malloc((size_t)n+1); JSV_ASSUME(M!=0); gM=M; gn=n; gbase=0;
#if U_TYPE==0
  grate=144; gdl=28;
#elif U_TYPE==1
  grate=104; gdl=48;
#elif U_TYPE==2
  grate=72; gdl=64;
#else
  grate=136; gdl=32;
#endif
  /* total = least multiple of the rate exceeding n (the sponge ends exactly there) */
  gq=0; gqt=jsv_nd_ulong(); JSV_ASSUME(gqt<=NMAX); gtotal=gqt*grate; JSV_ASSUME(gtotal>n && gtotal<=n+grate); gW=jsv_nd_ulong(); JSV_ASSUME(gW<gtotal);
  int i; for(i=0;i<25;i++) gst64[i]=0; unsigned char dg[64]; 
  int rc=jsi_CryptoHash(dg,(char*)M,(int)n,(Jsi_CryptoHashType)(U_TYPE==0?Jsi_CHash_SHA3_224:U_TYPE==1?Jsi_CHash_SHA3_384:U_TYPE==2?Jsi_CHash_SHA3_512:Jsi_CHash_SHA3_256));
  JSV_LEMMA(rc==(int)gdl,"length"); JSV_LEMMA(gbase==gtotal,"every block of the padded message absorbed");
  for(i=0;i<(int)gdl;i++) JSV_LEMMA(dg[i]==(unsigned char)(gst64[i/8]>>(8*(i&7))),"digest is the leading part of the state"); JSV_REACH("sha3s"); }
#endif
/* dispatch: each hash type reaches its own digest function */
#ifdef JSV_UNIT_hashsel
static int gsel;
int s_sha1(unsigned char*d,const char*s,int l){ gsel=1; return 20; } int s_sha256(unsigned char*d,const char*s,int l){ gsel=2; return 32; } int s_md5(unsigned char*d,const char*s,int l){ gsel=3; return 16; }
void h_hashsel(void){ unsigned char d[64]; gsel=0; int r=jsi_CryptoHash(d,"a",1,Jsi_CHash_SHA1); JSV_LEMMA(gsel==1&&r==20,"sha1"); r=jsi_CryptoHash(d,"a",1,Jsi_CHash_SHA2_256); JSV_LEMMA(gsel==2&&r==32,"sha256"); r=jsi_CryptoHash(d,"a",1,Jsi_CHash_MD5); JSV_LEMMA(gsel==3&&r==16,"md5"); JSV_REACH("sel"); }
#endif
