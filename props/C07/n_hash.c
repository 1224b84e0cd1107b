#include "njs.h"
/* independent references, written from RFC 1321 / FIPS 180-4 / FIPS 202 */
#define ROL(x,n) (((uint32_t)(x)<<(n))|((uint32_t)(x)>>(32-(n))))
#define ROR(x,n) ROL(x,32-(n))
#include <math.h>
static size_t pad(const uint8_t*m,size_t n,uint8_t*o,int le){ memcpy(o,m,n); size_t t=(n+9+63)/64*64; memset(o+n,0,t-n); o[n]=0x80; uint64_t b=(uint64_t)n*8; for(int i=0;i<8;i++) o[t-8+i]= le? b>>(8*i) : b>>(56-8*i); return t; }
static uint8_t P[1<<21];
static int ref_md5(const uint8_t*m,size_t n,uint8_t*d){ static const int S[16]={7,12,17,22,5,9,14,20,4,11,16,23,6,10,15,21}; size_t t=pad(m,n,P,1); uint32_t h[4]={0x67452301,0xefcdab89,0x98badcfe,0x10325476};
  for(size_t o=0;o<t;o+=64){ uint32_t x[16]; memcpy(x,P+o,64); uint32_t a=h[0],b=h[1],c=h[2],e=h[3]; for(int i=0;i<64;i++){ uint32_t f;int k; switch(i/16){case 0:f=(b&c)|(~b&e);k=i;break;case 1:f=(b&e)|(c&~e);k=(5*i+1)%16;break;case 2:f=b^c^e;k=(3*i+5)%16;break;default:f=c^(b|~e);k=7*i%16;}
    uint32_t T=(uint32_t)(long long)floor(fabs(sin(i+1.0))*4294967296.0); uint32_t v=a+f+x[k]+T; a=e;e=c;c=b; b=b+ROL(v,S[i/16*4+i%4]); } h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=e; } memcpy(d,h,16); return 16; }
static int ref_sha1(const uint8_t*m,size_t n,uint8_t*d){ size_t t=pad(m,n,P,0); uint32_t h[5]={0x67452301,0xefcdab89,0x98badcfe,0x10325476,0xc3d2e1f0}; for(size_t o=0;o<t;o+=64){ uint32_t w[80]; for(int i=0;i<16;i++) w[i]=(uint32_t)P[o+4*i]<<24|P[o+4*i+1]<<16|P[o+4*i+2]<<8|P[o+4*i+3]; for(int i=16;i<80;i++) w[i]=ROL(w[i-3]^w[i-8]^w[i-14]^w[i-16],1);
   uint32_t a=h[0],b=h[1],c=h[2],e=h[3],g=h[4]; for(int i=0;i<80;i++){ uint32_t f,k; if(i<20){f=(b&c)|(~b&e);k=0x5a827999;} else if(i<40){f=b^c^e;k=0x6ed9eba1;} else if(i<60){f=(b&c)|(b&e)|(c&e);k=0x8f1bbcdc;} else {f=b^c^e;k=0xca62c1d6;} uint32_t v=ROL(a,5)+f+g+k+w[i]; g=e;e=c;c=ROL(b,30);b=a;a=v; } h[0]+=a;h[1]+=b;h[2]+=c;h[3]+=e;h[4]+=g; } for(int i=0;i<20;i++) d[i]=h[i/4]>>(24-8*(i%4)); return 20; }
static uint32_t fr(double x){ x-=floor(x); return (uint32_t)floor(x*4294967296.0); }
static int ref_sha256(const uint8_t*m,size_t n,uint8_t*d){ static uint32_t K[64],H0[8]; static int init; if(!init){ int c=0; for(int p=2;c<64;p++){ int pr=1; for(int q=2;q*q<=p;q++) if(p%q==0) pr=0; if(!pr) continue; long double r=cbrtl((long double)p); K[c]=(uint32_t)floorl((r-floorl(r))*4294967296.0L); if(c<8){ long double s=sqrtl((long double)p); H0[c]=(uint32_t)floorl((s-floorl(s))*4294967296.0L);} c++; } init=1; }
  size_t t=pad(m,n,P,0); uint32_t h[8]; memcpy(h,H0,32); for(size_t o=0;o<t;o+=64){ uint32_t w[64]; for(int i=0;i<16;i++) w[i]=(uint32_t)P[o+4*i]<<24|P[o+4*i+1]<<16|P[o+4*i+2]<<8|P[o+4*i+3]; for(int i=16;i<64;i++) w[i]=w[i-16]+w[i-7]+(ROR(w[i-15],7)^ROR(w[i-15],18)^(w[i-15]>>3))+(ROR(w[i-2],17)^ROR(w[i-2],19)^(w[i-2]>>10));
   uint32_t v[8]; memcpy(v,h,32); for(int i=0;i<64;i++){ uint32_t t1=v[7]+(ROR(v[4],6)^ROR(v[4],11)^ROR(v[4],25))+((v[4]&v[5])^(~v[4]&v[6]))+K[i]+w[i],t2=(ROR(v[0],2)^ROR(v[0],13)^ROR(v[0],22))+((v[0]&v[1])^(v[0]&v[2])^(v[1]&v[2])); v[7]=v[6];v[6]=v[5];v[5]=v[4];v[4]=v[3]+t1;v[3]=v[2];v[2]=v[1];v[1]=v[0];v[0]=t1+t2; } for(int i=0;i<8;i++) h[i]+=v[i]; } for(int i=0;i<32;i++) d[i]=h[i/4]>>(24-8*(i%4)); return 32; }
static uint64_t rl(uint64_t v,int n){ n%=64; return n? v<<n|v>>(64-n):v; }
static int ref_sha3(const uint8_t*m,size_t n,uint8_t*d,int dl){ size_t r=200-2*dl; uint8_t s[200]={0}; size_t o=0; int last=0; while(!last){ size_t l=n-o; if(l>=r) l=r; else last=1; for(size_t i=0;i<l;i++) s[i]^=m[o+i]; if(last){ s[l]^=6; s[r-1]^=0x80; } o+=l;
   uint64_t A[5][5]; for(int i=0;i<25;i++) memcpy(&A[i%5][i/5],s+8*i,8); int R=1; /* LFSR */
   for(int rd=0;rd<24;rd++){ uint64_t C[5],D; for(int x=0;x<5;x++) C[x]=A[x][0]^A[x][1]^A[x][2]^A[x][3]^A[x][4]; for(int x=0;x<5;x++){ D=C[(x+4)%5]^rl(C[(x+1)%5],1); for(int y=0;y<5;y++) A[x][y]^=D; }
     uint64_t B[5][5]; B[0][0]=A[0][0]; int x=1,y=0; for(int t=0;t<24;t++){ uint64_t v=rl(A[x][y],(t+1)*(t+2)/2); int ny=(2*x+3*y)%5; B[y][ny]=v; x=y; y=ny; }
     for(x=0;x<5;x++) for(y=0;y<5;y++) A[x][y]=B[x][y]^(~B[(x+1)%5][y]&B[(x+2)%5][y]);
     for(int j=0;j<7;j++){ if(R&1) A[0][0]^=1ULL<<((1<<j)-1); R<<=1; if(R&0x100) R^=0x171; } }
   for(int i=0;i<25;i++) memcpy(s+8*i,&A[i%5][i/5],8); } memcpy(d,s,dl); return dl; }
static const char*tn[]={"sha256","sha1","md5","sha3_224","sha3_384","sha3_512","sha3_256"};
static int ref(int t,const uint8_t*m,size_t n,uint8_t*d){ switch(t){case 0:return ref_sha256(m,n,d);case 1:return ref_sha1(m,n,d);case 2:return ref_md5(m,n,d);case 3:return ref_sha3(m,n,d,28);case 4:return ref_sha3(m,n,d,48);case 5:return ref_sha3(m,n,d,64);default:return ref_sha3(m,n,d,32);} }
static void one(int t,const uint8_t*m,int n){ uint8_t d[64]; char out[2048]; memset(out,0x5a,sizeof out); nv_begin("%s of %d bytes %s",tn[t],n,nv_hex(m,n>60?60:n)); int dl=ref(t,m,n,d),sz=-1; 
  uint8_t*c=malloc(n+1); memcpy(c,m,n); c[n]=nv_rand(); /* tight buffer: the byte after the message is arbitrary */
  if(Jsi_CryptoHash(out,(char*)c,n,t,0,1,&sz)!=JSI_OK||sz!=dl||memcmp(out,d,dl)) nv_fail(tn[t],"binary digest %s (size %d), standard says %s",nv_hex(out,sz>0&&sz<=64?sz:64),sz,nv_hex(d,dl));
  char hx[200]; for(int i=0;i<dl;i++) sprintf(hx+2*i,"%02x",d[i]); if(Jsi_CryptoHash(out,(char*)c,n,t,0,0,&sz)!=JSI_OK||sz!=2*dl||strcasecmp(out,hx)) nv_fail(tn[t],"hex digest %s, standard says %s",out,hx); free(c); nv_nontrivial++; }
static uint8_t M[1<<20];
int main(int argc,char**argv){ nv_init(argc,argv); nj_init(); unsigned i; for(i=0;i<sizeof M;i++) M[i]=nv_rand();
  for(int n=0;n<=620;n++) for(int t=0;t<7;t++) one(t,M+(n*7)%5000,n);
  nv_sample("%s(\"abc\") and every length 0..620 of random bytes for %d algorithms",tn[0],7);
  for(int t=0;t<7;t++) one(t,M,70000);
  /* script level: options, file, hashcash */
  for(int t=0;t<7;t++) for(int n=0;n<300;n+=(n<4?1:37)) { uint8_t d[64]; int dl=ref(t,M+n,n,d),l; char s[200],hx[200]; nj_set("m",M+n,n); for(int q=0;q<dl;q++) sprintf(hx+2*q,"%02x",d[q]); nv_begin("Util.hash of %d bytes type %s",n,tn[t]);
    sprintf(s,"return Util.hash(m,{type:'%s'});",tn[t]); const char*o=nj_eval(s,&l); if(!o||l!=2*dl||strcasecmp(o,hx)) nv_fail("script","got %s want %s",o?o:"error",hx);
    sprintf(s,"return Util.hash(m,{type:'%s',noHex:true});",tn[t]); o=nj_eval(s,&l); if(!o||l!=dl||memcmp(o,d,dl)) nv_fail("script-bin","got %s want %s",o?nv_hex(o,l):"error",nv_hex(d,dl));
    FILE*fp=fopen("f.bin","wb"); fwrite(M+n+5,1,n*9,fp); fclose(fp); static uint8_t cat[1<<16]; memcpy(cat,M+n,n); memcpy(cat+n,M+n+5,n*9); dl=ref(t,cat,n*10,d); sprintf(s,"return Util.hash(m,{type:'%s',noHex:true,file:'f.bin'});",tn[t]); o=nj_eval(s,&l); if(!o||l!=dl||memcmp(o,d,dl)) nv_fail("script-file","string+file digest wrong"); nv_nontrivial++; }
  for(int st=1;st<=12;st++){ uint8_t d[64]; nv_begin("hashcash %d bits",st); char out[200]; int sz; memcpy(M,"hello",5); for(int t=0;t<3;t++){ int found=0; Jsi_CryptoHash(out,(char*)M,5,t,st,1,&sz); for(int nonce=0;nonce<200000&&!found;nonce++){ char b[64]; int l=sprintf(b,"hello:%08x",nonce); int dl=ref(t,(uint8_t*)b,l,d),z=0; while(z<dl*8&&!(d[z/8]&(0x80>>z%8))) z++; if(z>=st) { found=1; if(sz!=dl||memcmp(out,d,dl)) nv_fail("hashcash","first nonce digest differs (%d bits, type %s)",st,tn[t]); } } } }
  while(!nv_timeup()){ int n=nv_below(nv_below(4)?400:9000),o=nv_below(100000); one(nv_below(7),M+o,n); }
  nv_done(); return 0; }
