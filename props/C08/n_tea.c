#include "njs.h"
static void sha256_ref(const uint8_t*m,int n,uint8_t*d){ Jsi_CryptoHash((char*)d,(char*)m,n,Jsi_CHash_SHA2_256,0,1,NULL); }
#define DELTA 0x9e3779b9u
static uint32_t mx(uint32_t y,uint32_t z,uint32_t sum,uint32_t p,const uint32_t*k){ return (((z>>5)^(y<<2))+((y>>3)^(z<<4))) ^ ((sum^y)+(k[(p&7)^((sum>>2)&7)]^z)); }
static void ref_enc(uint32_t*v,int n,const uint32_t*k){ if(n<2) return; int R=6+52/n; uint32_t s=0; for(int r=0;r<R;r++){ s+=DELTA; for(int p=0;p<n;p++) v[p]+=mx(v[(p+1)%n],v[(p+n-1)%n],s,p,k); } }
static uint8_t M[100100], B[100200];
static void one(int n,int kl,int script){ uint8_t key[80]; for(int i=0;i<kl;i++) key[i]=nv_rand(); int m=nv_below(4); for(int i=0;i<n;i++) M[i]= m==0?0: m==1? 0xff : nv_rand(); if(m==3) for(int i=n-5<0?0:n-5;i<n;i++) M[i]=0;
  nv_begin("encrypt/decrypt %d bytes %s key %s",n,nv_hex(M,n>60?60:n),nv_hex(key,kl)); uint32_t k[16]; if(kl==32) memcpy(k,key,32); else sha256_ref(key,kl,(uint8_t*)k); int r=(n+3)/4*4; memset(B,0,r); memcpy(B,M,n); ref_enc((uint32_t*)B,r/4,k); B[r]=r-n; 
  if(script){ int l; nj_set("m",M,n); nj_set("k",key,kl); const char*o=nj_eval("return Util.encrypt(m,k);",&l); if(!o||l!=r+1||memcmp(o,B,r+1)) { nv_fail("cipher-script","cipher text %s, expected %s",o?nv_hex(o,l):"error",nv_hex(B,r+1)); return; } nj_set("c",B,r+1); o=nj_eval("return Util.decrypt(c,k);",&l); if(!o||l!=n||memcmp(o,M,n)) nv_fail("roundtrip-script","decrypted to %s",o?nv_hex(o,l):"error"); nv_nontrivial++; return; }
  Jsi_DString d; Jsi_DSInit(&d); Jsi_DSAppendLen(&d,(char*)M,n); if(Jsi_Encrypt(nj,&d,(char*)key,kl,0)!=JSI_OK) nv_fail("enc","error"); else { if(Jsi_DSLength(&d)!=r+1||memcmp(Jsi_DSValue(&d),B,r+1)) nv_fail("cipher","cipher text %s, XXTEA says %s",nv_hex(Jsi_DSValue(&d),Jsi_DSLength(&d)),nv_hex(B,r+1)); 
   if(Jsi_Encrypt(nj,&d,(char*)key,kl,1)!=JSI_OK||Jsi_DSLength(&d)!=n||memcmp(Jsi_DSValue(&d),M,n)) nv_fail("roundtrip","decrypted to %d bytes %s",Jsi_DSLength(&d),nv_hex(Jsi_DSValue(&d),Jsi_DSLength(&d))); } Jsi_DSFree(&d); nv_nontrivial++; }
static void junk(void){ int n=nv_below(60)+2; n=n/4*4+1; if(n<5) n=5; for(int i=0;i<n;i++) M[i]=nv_rand(); if(nv_below(3)) M[n-1]=nv_below(8); nv_begin("decrypt junk %s",nv_hex(M,n)); int l; nj_set("c",M,n); nj_set("k","x",1); const char*o=nj_eval("return Util.decrypt(c,k);",&l); if(o&&l>n) nv_fail("expose","%d bytes came out of %d",l,n); }
int main(int argc,char**argv){ nv_init(argc,argv); nj_init();
  for(int n=2;n<=300;n++) { one(n,n%2?32:16,0); if(n<80) one(n,(n*5)%40+1,1); }
  nv_sample("messages of 2..300 bytes, keys of 1..40 and 32 bytes, native and script level; then random lengths to 100000");
  one(100000,32,0); one(99999,7,0);
  while(!nv_timeup()){ int n=2+nv_below(nv_below(10)?200:3000); one(n,nv_below(2)?32:1+nv_below(60),nv_below(8)==0); junk(); if(!nv_search&&nv_cases>60000) break; }
  nv_done(); return 0; }
