/* script-level access for native drivers */
#include "jsiInt.h"
#include "native.h"
static Jsi_Interp *nj;
static void nj_init(void){ static Jsi_InterpOpts o; static char *av[]={"drv",NULL}; memset(&o,0,sizeof o); o.argc=1; o.argv=av; o.no_interactive=1; nj=Jsi_InterpNew(&o); if(!nj){ printf("FAIL key=nointerp case[] no interpreter\n"); exit(0);} nj->noStderr=1; }
/* bind global `name` to the byte string */
static void nj_set(const char*name,const void*data,int len){ unsigned char*p=(unsigned char*)Jsi_Malloc(len+1); memcpy(p,data,len); p[len]=0; 
  Jsi_Value *v=Jsi_ValueNewBlob(nj,(unsigned char*)data,len); Jsi_Free(p); Jsi_IncrRefCount(nj,v); Jsi_ValueInsert(nj,nj->csc,name,v,0); Jsi_DecrRefCount(nj,v); }
static void nj_setnum(const char*name,double d){ Jsi_Value*v=Jsi_ValueNewNumber(nj,d); Jsi_IncrRefCount(nj,v); Jsi_ValueInsert(nj,nj->csc,name,v,0); Jsi_DecrRefCount(nj,v); }
/* evaluate; returns NULL on error, else the result as string bytes */
static const char *nj_eval(const char*script,int*len){ static int n; Jsi_RC rc=Jsi_EvalString(nj,script,0); if(rc!=JSI_OK){ if(len)*len=-1; return NULL;} 
  Jsi_Value*r=Jsi_InterpResult(nj); int l=0; const char*s=Jsi_ValueString(nj,r,&l); if(!s){ s=Jsi_ValueToString(nj,r,NULL); l=s?strlen(s):0; } if(len)*len=l; return s; }
static double nj_evalnum(const char*script){ Jsi_RC rc=Jsi_EvalString(nj,script,0); double d=0; if(rc!=JSI_OK) return -1e300; if (Jsi_ValueGetNumber(nj,Jsi_InterpResult(nj),&d)!=JSI_OK){ bool b; if(Jsi_ValueGetBoolean(nj,Jsi_InterpResult(nj),&b)==JSI_OK) return b; return -2e300;} return d; }
