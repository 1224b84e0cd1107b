/* Common code for native drivers: they run the real code of /repo (compiled
   with AddressSanitizer) and evaluate the executable form of the contracts. */
#ifndef NATIVE_H
#define NATIVE_H
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <stdint.h>
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <signal.h>
void __sanitizer_set_death_callback(void (*)(void));
static char nv_case[1<<16];
static unsigned long nv_cases, nv_nontrivial; static int nv_fails, nv_samples;
static double nv_deadline; static int nv_search; /* 0 quick, 1 thorough, 2 search */
static uint64_t nv_rng=88172645463325252ULL;
static double nv_now(void){ struct timespec t; clock_gettime(CLOCK_MONOTONIC,&t); return t.tv_sec+t.tv_nsec*1e-9; }
static int nv_timeup(void){ return nv_now()>nv_deadline; }
static uint32_t nv_rand(void){ nv_rng^=nv_rng<<13; nv_rng^=nv_rng>>7; nv_rng^=nv_rng<<17; return (uint32_t)(nv_rng>>16); }
static uint32_t nv_below(uint32_t n){ return n? nv_rand()%n:0; }
static void nv_begin(const char*fmt,...){ va_list a; va_start(a,fmt); vsnprintf(nv_case,sizeof nv_case,fmt,a); va_end(a); nv_cases++; }
static void nv_sample(const char*fmt,...){ if(nv_samples++>=3) return; va_list a; va_start(a,fmt); printf("SAMPLE "); vprintf(fmt,a); printf("\n"); va_end(a); }
static void nv_done(void){ printf("CASES %lu NONTRIVIAL %lu FAILS %d\n",nv_cases,nv_nontrivial,nv_fails); fflush(stdout); }
/* key: stable identification of the failing behaviour (for the known-findings file) */
static int nv_fail(const char*key,const char*fmt,...){ va_list a; va_start(a,fmt);
  if(nv_fails++<20){ printf("FAIL key=%s case[%s] ",key,nv_case); vprintf(fmt,a); printf("\n"); fflush(stdout);} va_end(a);
  if(nv_fails>2000){ nv_done(); _exit(0);} return 1; }
static void nv_death(void){ printf("FAIL key=crash case[%s] sanitizer report or abort in the real code\n",nv_case); nv_fails++; nv_done(); fflush(stdout); }
static void nv_alarm(int s){ (void)s; char b[256]; int n=snprintf(b,sizeof b,"FAIL key=hang case["); if(write(1,b,n)); if(write(1,nv_case,strlen(nv_case))); n=snprintf(b,sizeof b,"] no result within the time limit\nCASES %lu NONTRIVIAL %lu FAILS %d\n",nv_cases,nv_nontrivial,nv_fails+1); if(write(1,b,n)); _exit(0); }
static void nv_abrt(int s){ (void)s; nv_death(); _exit(0); }
static void nv_watch(int sec){ alarm(sec); }
static const char *nv_hex(const void*p,size_t n){ static char b[4][4100]; static int w; char*o=b[w++&3]; size_t i; for(i=0;i<n&&i<2000;i++) sprintf(o+2*i,"%02x",((const unsigned char*)p)[i]); o[2*i]=0; return o; }
static void nv_init(int argc,char**argv){ setvbuf(stdout,NULL,_IOLBF,0);
  nv_search = argc>1? (!strcmp(argv[1],"thorough")?1:!strcmp(argv[1],"search")?2:0):0;
  uint64_t seed = argc>2? strtoull(argv[2],0,10):1; double budget= argc>3? atof(argv[3]):20;
  nv_rng ^= seed*0x9E3779B97F4A7C15ULL; if(!nv_rng) nv_rng=1; for(int i=0;i<8;i++) nv_rand();
  nv_deadline=nv_now()+budget; __sanitizer_set_death_callback(nv_death); signal(SIGABRT,nv_abrt); signal(SIGFPE,nv_abrt); signal(SIGALRM,nv_alarm); }
#endif
