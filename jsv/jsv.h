/* Common definitions for contract harnesses (compiled by goto-cc only). */
#ifndef JSV_H
#define JSV_H
#include "jsiInt.h"
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
/* Vacuity guard: every harness ends in JSV_REACH; the runner demands that this
   assertion FAILS, i.e. that the end of the harness is reachable under the
   preconditions, the assumed callee contracts and the loop invariants. */
#define JSV_REACH(tag) __CPROVER_assert(0, "JSV_REACH " tag)
#define JSV_ASSUME(c) __CPROVER_assume(c)
#define JSV_LEMMA(c, txt) __CPROVER_assert(c, "JSV_POST " txt)
#define JSV_ND(n,t) static inline t jsv_nd_##n(void){ t x; return x; }
JSV_ND(int,int) JSV_ND(uint,unsigned) JSV_ND(uchar,unsigned char) JSV_ND(char,char) JSV_ND(ulong,unsigned long)
JSV_ND(long,long) JSV_ND(double,double) JSV_ND(ptr,void*)
static inline _Bool jsv_nd_bool(void){ int x; return x!=0; }
#ifdef U_LOG
/* error logging by contract: reports and returns JSI_ERROR, no other effect */
Jsi_RC Jsi_LogMsg(Jsi_Interp *interp, Jsi_PkgOpts* popts, uint level, const char *format,...){ return JSI_ERROR; }
#endif
#endif
