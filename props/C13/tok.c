/* C13: the tokenizer.  Token positions and nesting for texts of any length. */
#include "jsv.h"
static char *gT; static long gn; static Jsi_JsonParser P; static _Bool cut; static long k0,gst;
#ifdef U_ALLOC
/* memory by contract: bytes before the smaller size are kept (witness token) */
static uint gn0,gwi; static Jsi_JsonTok *gold; static Jsi_JsonTok *newtab(size_t l,_Bool keep){ JSV_LEMMA(l==sizeof(Jsi_JsonTok)*(size_t)(gn0*2),"twice as many"); Jsi_JsonTok*n=malloc(sizeof(Jsi_JsonTok)*(size_t)(gn0*2)); JSV_ASSUME(n!=0); if(keep){ n[gwi]=gold[gwi]; free(gold);} return n; }
#define JSMN_FREE(p) free(p)
#define JSMN_MALLOC(l) newtab(l,0)
#define JSMN_REALLOC(p,l) (JSV_LEMMA((p)==gold,"the table is grown"),newtab(l,1))
static void cpy(void*d,const void*s,size_t l){ JSV_LEMMA(s==gold&&l==sizeof(Jsi_JsonTok)*(size_t)gn0,"the whole table is copied"); ((Jsi_JsonTok*)d)[gwi]=gold[gwi]; }
#define memcpy cpy
#endif
#ifdef U_PIECE
static Jsi_JsonTok tok; static int nalloc; static _Bool noroom;
Jsi_JsonTok *s_alloc(Jsi_JsonParser*p,int*ix){ JSV_LEMMA(nalloc==0,"one token"); nalloc++; if(noroom) return 0; *ix=7; tok.start=tok.end=-1; tok.size=0; tok.parent=-1; return &tok; }
static _Bool delim(int c){ return c=='\t'||c=='\r'||c=='\n'||c==' '||c==','||c==']'||c=='}'||(c==':'&&!P.strict); }
static _Bool okesc(long k){ int e=gT[k+1]; if(e=='"'||e=='/'||e=='\\'||e=='b'||e=='f'||e=='r'||e=='n'||e=='t') return 1; if(e!='u') return 0; for(int i=2;i<6;i++){ int c=gT[k+i]; if(!((c>='0'&&c<='9')||(c>='a'&&c<='f')||(c>='A'&&c<='F'))) return 0; } return 1; }
static long nxt(long k){ return gT[k]=='\\'?k+2:k+1; }
#define JSV_GHOST_jp_str { if(cut){ JSV_LEMMA(gT[k0]!='"'&&(gT[k0]!='\\'||okesc(k0)),"goes on only after a plain byte or a valid escape"); JSV_LEMMA(parser->pos==nxt(k0),"moves on by one token"); JSV_ASSUME(0);} JSV_LEMMA(parser->pos==gst+1,"starts behind the quote"); cut=1; k0=jsv_nd_long(); JSV_ASSUME(gst<k0&&k0<gn&&gT[k0]!=0); parser->pos=(uint)k0; }
#define JSV_GHOST_jp_prim { if(cut){ JSV_LEMMA(!delim(gT[k0])&&gT[k0]>=32&&gT[k0]<127,"goes on only inside the word"); JSV_LEMMA(parser->pos==k0+1,"byte by byte"); JSV_ASSUME(0);} JSV_LEMMA(parser->pos==gst,"starts at the word"); cut=1; k0=jsv_nd_long(); JSV_ASSUME(gst<=k0&&k0<gn&&gT[k0]!=0&&(k0!=gst||!delim(gT[k0]))); parser->pos=(uint)k0; }
#endif
#define RCH_O
#define RCH_C
#define RCH_L
#define RCH_M
#ifdef P_SEP
#define RCH_S JSV_REACH("sep");
#else
#define RCH_S
#endif
#ifdef P_OPEN
#undef RCH_O
#define RCH_O JSV_REACH("open");
#endif
#ifdef P_CLOSE
#undef RCH_C
#define RCH_C JSV_REACH("close");
#undef RCH_M
#define RCH_M JSV_REACH("mismatch");
#endif
#ifdef P_LEAF
#undef RCH_L
#define RCH_L JSV_REACH("leaf");
#endif
#ifdef U_MAIN
static long T0; static int S0; static long gw,gcap; static Jsi_JsonTok w0,s0,z0; static _Bool c1,c2,c3; static _Bool stub; static uint sp; static Jsi_JsonTok *old;
#ifdef P_GROW
#define GROW 1
#else
#define GROW 0
#endif
#define ISO(c) ((c)=='{'||(c)=='[')
#define ISC(c) ((c)=='}'||(c)==']')
#define ISS(c) ((c)==' '||(c)=='\t'||(c)=='\r'||(c)=='\n'||(c)==','||(c)==':')
#if defined P_OPEN
#define KIND(c) JSV_ASSUME(ISO(c))
#elif defined P_CLOSE
#define KIND(c) JSV_ASSUME(ISC(c))
#elif defined P_LEAF
#define KIND(c) JSV_ASSUME(!ISO(c)&&!ISC(c)&&!ISS(c))
#else
#define KIND(c) JSV_ASSUME(ISS(c))
#endif
#define OPEN(t) ((t).start!=-1&&(t).end==-1)
static void same(Jsi_JsonTok*a,Jsi_JsonTok*b){ JSV_ASSUME(a->type==b->type&&a->start==b->start&&a->end==b->end&&a->size==b->size&&a->parent==b->parent); }
/* contract of jsmn_alloc_token (unit alloc) */
Jsi_JsonTok *s_alloc(Jsi_JsonParser*p,int*ix){ JSV_LEMMA(p->toknext<=p->num_tokens,"capacity"); if(p->toknext>=p->num_tokens){ if(p->no_malloc) return 0; Jsi_JsonTok*n=malloc(sizeof(Jsi_JsonTok)*8); JSV_ASSUME(n!=0&&p->num_tokens==4); if(gw<T0) same(n+gw,p->tokens+gw); if(S0>=0) same(n+S0,p->tokens+S0); if(T0>0) same(n,p->tokens); free(p->tokens); p->tokens=n; p->num_tokens*=2; }
  int t=p->toknext++; p->tokens[t].start=p->tokens[t].end=-1; p->tokens[t].size=0; p->tokens[t].parent=-1; if(ix) *ix=t; return p->tokens+t; }
static Jsi_JsonErrEnum leaf(Jsi_JsonParser*p,const char*js,Jsi_JsonTypeEnum ty){ JSV_LEMMA(cut&&!stub&&p->pos==k0,"at this byte"); stub=1; if(jsv_nd_bool()){ Jsi_JsonErrEnum r=jsv_nd_int(); JSV_ASSUME(r<0&&r>=-3); return r; } Jsi_JsonTok*t=s_alloc(p,0); if(!t) return JSI_JSON_ERR_NOMEM; uint e=jsv_nd_uint(); JSV_ASSUME(k0<=e&&e<gn&&gT[e]!=0); t->type=ty; t->start=(int)k0+(ty==JSI_JTYPE_STRING); t->end=jsv_nd_int(); JSV_ASSUME(t->end>=t->start&&t->end<=gn); t->parent=p->toksuper; p->pos=sp=e; return JSI_JSON_ERR_NONE; }
Jsi_JsonErrEnum s_str(Jsi_JsonParser*p,const char*js){ JSV_LEMMA(js[p->pos]=='"',"a string starts with a quote"); return leaf(p,js,JSI_JTYPE_STRING); }
Jsi_JsonErrEnum s_prim(Jsi_JsonParser*p,const char*js){ char c=js[p->pos]; JSV_LEMMA(c!=0&&c!='"'&&c!='{'&&c!='['&&c!='}'&&c!=']'&&c!=','&&c!=':'&&c!=' '&&c!='\n'&&c!='\t'&&c!='\r',"a word starts here"); return leaf(p,js,JSI_JTYPE_PRIMITIVE); }
static void step(Jsi_JsonParser*p,Jsi_JsonTok*token,int index,long k1){ char c=gT[k0]; long T1=p->toknext; int S1=p->toksuper; _Bool op=c=='{'||c=='[', cl=c=='}'||c==']';
  JSV_LEMMA(T1<=p->num_tokens,"tokens fit"); JSV_LEMMA(-1<=S1&&S1<T1,"current container is a token"); JSV_LEMMA((token==0)==(index==-1)&&-1<=index&&index<T1,"last token known");
  if(S1>=0) JSV_LEMMA(OPEN(p->tokens[S1]),"current container is open"); if(gw>S1&&gw<T1) JSV_LEMMA(!OPEN(p->tokens[gw]),"it is the innermost open one");
  if(gw<T1) JSV_LEMMA(p->tokens[gw].start>=0,"every token has a position"); if(token) JSV_LEMMA(p->tokens<=token&&token<p->tokens+T1,"last token is in the table");
  if(op){ JSV_LEMMA(T1==T0+1&&S1==T0&&k1==k0+1,"a container opens"); Jsi_JsonTok*t=p->tokens+T0; JSV_LEMMA(t->type==(c=='{'?JSI_JTYPE_OBJECT:JSI_JTYPE_ARRAY)&&t->start==k0&&t->end==-1&&t->size==0&&t->parent==S0,"its token"); RCH_O }
  else if(cl){ JSV_LEMMA(S0>=0&&T1==T0&&k1==k0+1,"closes the innermost container"); if(S0>=0){ JSV_LEMMA(p->tokens[S0].end==k0+1&&p->tokens[S0].start==s0.start&&p->tokens[S0].size==s0.size&&p->tokens[S0].type==s0.type&&s0.type==(c=='}'?JSI_JTYPE_OBJECT:JSI_JTYPE_ARRAY),"with its end and kind"); JSV_LEMMA(S1<S0,"the one around it is current"); } RCH_C }
  else if(stub){ JSV_LEMMA(T1==T0+1&&S1==S0&&k1==(long)sp+1,"one leaf"); RCH_L }
  else { JSV_LEMMA(T1==T0&&S1==S0&&k1==k0+1,"separators change nothing"); RCH_S JSV_LEMMA(c==' '||c=='\t'||c=='\r'||c=='\n'||c==','||c==':',"only separators are skipped"); }
  if(S0>=0&&!cl) JSV_LEMMA(p->tokens[S0].size==s0.size+((op||stub)?1:0)&&p->tokens[S0].end==-1&&p->tokens[S0].start==s0.start&&p->tokens[S0].type==s0.type&&p->tokens[S0].parent==s0.parent,"members are counted in their container");
  if(gw<T0&&gw!=S0){ Jsi_JsonTok*t=p->tokens+gw; JSV_LEMMA(t->type==w0.type&&t->start==w0.start&&t->end==w0.end&&t->parent==w0.parent,"other tokens stay"); if(!(stub&&S0==-1&&gT[0]=='"'&&gw==0)) JSV_LEMMA(t->size==w0.size,"their counts stay"); } }
#define JSV_GHOST_jp_head { if(cut){ step(parser,token,index,parser->pos); JSV_ASSUME(0);} JSV_LEMMA(parser->pos==0&&parser->toknext==0&&parser->toksuper==-1&&token==0&&index==-1,"initial state"); cut=1; k0=jsv_nd_long(); JSV_ASSUME(0<=k0&&k0<gn&&gT[k0]!=0); KIND(gT[k0]); parser->pos=(uint)k0; T0=jsv_nd_long(); S0=jsv_nd_int(); index=jsv_nd_int(); JSV_ASSUME(0<=T0&&T0<=gcap&&-1<=S0&&S0<T0&&-1<=index&&index<T0); JSV_ASSUME((T0==gcap)==GROW); parser->toknext=(uint)T0; parser->toksuper=S0; long tj=jsv_nd_long(); JSV_ASSUME(0<=tj&&tj<T0||index==-1); token=index==-1?0:parser->tokens+tj; if(S0>=0){ JSV_ASSUME(OPEN(parser->tokens[S0])&&(parser->tokens[S0].type==JSI_JTYPE_OBJECT||parser->tokens[S0].type==JSI_JTYPE_ARRAY)&&parser->tokens[S0].size<1000000&&index>=0); s0=parser->tokens[S0]; } if(gw<T0){ JSV_ASSUME(parser->tokens[gw].start>=0); if(gw>S0) JSV_ASSUME(!OPEN(parser->tokens[gw])); w0=parser->tokens[gw]; } }
#define JSV_GHOST_jp_close { if(c1){ JSV_LEMMA(i>=S0&&i>=0&&(gw<=i||gw>=T0||!OPEN(parser->tokens[gw])),"tokens behind are closed"); JSV_ASSUME(0);} JSV_LEMMA(i==T0-1,"looks from the last token"); c1=1; i=jsv_nd_int(); JSV_ASSUME(0<=i&&S0<=i&&i<T0); if(i>S0) JSV_ASSUME(!OPEN(parser->tokens[i])&&parser->tokens[i].start>=0); }
#define JSV_GHOST_jp_super { if(c2){ JSV_LEMMA(gw<=i||gw>=T0||!OPEN(parser->tokens[gw]),"no open container between"); JSV_ASSUME(0);} JSV_LEMMA(i==S0&&parser->toksuper==-1,"looks from the closed container"); c2=1; i=jsv_nd_int(); JSV_ASSUME(0<=i&&i<=S0&&(gw<=i||gw>=T0||!OPEN(parser->tokens[gw]))); }
static _Bool gend; static int SE;
#define JSV_GHOST_jp_end { gend=1; if(cut) step(parser,token,index,parser->pos); else JSV_LEMMA(gn==0||gT[0]==0,"empty text"); SE=parser->toksuper; }
#define JSV_GHOST_jp_open { if(c3){ JSV_LEMMA(gw<=i||gw>=parser->toknext||!OPEN(parser->tokens[gw]),"checked so far"); JSV_ASSUME(0);} c3=1; i=jsv_nd_int(); JSV_ASSUME(0<=i&&i<(int)parser->toknext&&(gw<=i||gw>=parser->toknext||!OPEN(parser->tokens[gw]))); if(i>SE) JSV_ASSUME(!OPEN(parser->tokens[i])); }
#endif
#include "jsv_defaults.h"
#include "jsmn.c"
static void text(void){ gn=jsv_nd_long(); JSV_ASSUME(0<=gn&&gn<(1L<<30)); gT=malloc(gn+1); JSV_ASSUME(gT!=0); gT[gn]=0; }
#ifdef U_PIECE
#ifdef P_STR
void h_str(void){ text(); gst=jsv_nd_long(); JSV_ASSUME(0<=gst&&gst<gn&&gT[gst]=='"'); noroom=jsv_nd_bool(); P.pos=gst; P.strict=jsv_nd_bool(); P.toksuper=jsv_nd_int(); Jsi_JsonErrEnum r=Jsi_JsonParse_string(&P,gT);
  if(r!=JSI_JSON_ERR_NONE) JSV_LEMMA(r<0&&P.pos==gst,"an error leaves the position");
  if(!cut) JSV_LEMMA(r==JSI_JSON_ERR_PART&&gT[gst+1]==0,"ends in the quote");
  else if(gT[k0]=='"'){ if(noroom) JSV_LEMMA(r==JSI_JSON_ERR_NOMEM,"no room"); else { JSV_LEMMA(r==JSI_JSON_ERR_NONE&&P.pos==k0&&tok.type==JSI_JTYPE_STRING&&tok.start==gst+1&&tok.end==k0&&tok.size==0&&tok.parent==P.toksuper,"string token: from behind the quote to the closing quote"); JSV_REACH("token"); } }
  else if(gT[k0]=='\\'&&!okesc(k0)) { JSV_LEMMA(r==JSI_JSON_ERR_INVAL,"bad escape"); JSV_REACH("bad"); } else JSV_LEMMA(r==JSI_JSON_ERR_PART&&gT[nxt(k0)]==0,"unterminated"); }
#else
void h_prim(void){ text(); gst=jsv_nd_long(); P.strict=jsv_nd_bool(); JSV_ASSUME(0<=gst&&gst<gn&&gT[gst]!=0&&!delim(gT[gst])); noroom=jsv_nd_bool(); P.pos=gst; P.toksuper=jsv_nd_int(); Jsi_JsonErrEnum r=Jsi_JsonParse_primitive(&P,gT); JSV_LEMMA(cut,"starts");
  if(r!=JSI_JSON_ERR_NONE) JSV_LEMMA(r<0&&P.pos==gst,"an error leaves the position");
  else { long e=(long)P.pos+1; JSV_LEMMA(e>gst&&e<=gn&&(gT[e]==0?!P.strict:delim(gT[e])),"the word ends at a delimiter"); JSV_LEMMA(e==k0||e==k0+1,"the first one"); JSV_LEMMA(tok.type==JSI_JTYPE_PRIMITIVE&&tok.start==gst&&tok.end==e&&tok.size==0&&tok.parent==P.toksuper,"word token"); JSV_REACH("token"); } 
  if(!noroom&&delim(gT[k0])) JSV_LEMMA(r==JSI_JSON_ERR_NONE,"accepted"); if(!delim(gT[k0])&&(gT[k0]<32||gT[k0]>=127)) JSV_LEMMA(r==JSI_JSON_ERR_INVAL,"refused"); }
#endif
#endif
#ifdef U_ALLOC
void h_alloc(void){ uint n=jsv_nd_uint(); JSV_ASSUME(1<=n&&n<(1u<<20)); _Bool st=jsv_nd_bool(); P.num_tokens=n; P.tokens=malloc(sizeof(Jsi_JsonTok)*n); JSV_ASSUME(P.tokens!=0); P.static_tokens=st?P.tokens:0; P.toknext=jsv_nd_uint(); JSV_ASSUME(P.toknext<=n); P.no_malloc=jsv_nd_bool(); uint w=jsv_nd_uint(); JSV_ASSUME(w<n); gn0=n; gwi=w; gold=P.tokens; Jsi_JsonTok a=P.tokens[w]; uint t0=P.toknext; int ix=-5; Jsi_JsonTok*o=P.tokens,*t=jsmn_alloc_token(&P,&ix);
  if(!t){ JSV_LEMMA(t0>=n&&P.no_malloc&&P.toknext==t0&&P.tokens==o,"refused only when full"); JSV_REACH("full"); } else { JSV_LEMMA(P.toknext==t0+1&&ix==(int)t0&&t==P.tokens+t0&&P.toknext<=P.num_tokens,"the next token"); JSV_LEMMA(t->start==-1&&t->end==-1&&t->size==0&&t->parent==-1,"fresh"); JSV_LEMMA(__CPROVER_OBJECT_SIZE(P.tokens)>=sizeof(Jsi_JsonTok)*P.num_tokens&&__CPROVER_POINTER_OFFSET(P.tokens)==0,"the table holds as many as it says"); if(w<t0){ Jsi_JsonTok*b=P.tokens+w; JSV_LEMMA(b->type==a.type&&b->start==a.start&&b->end==a.end&&b->size==a.size&&b->parent==a.parent,"earlier tokens stay"); if(t0>=n) JSV_REACH("grown"); } } }
#endif
#ifdef U_MAIN
void h_main(void){ text(); gcap=4; P.num_tokens=4; P.tokens=malloc(sizeof(Jsi_JsonTok)*4); JSV_ASSUME(P.tokens!=0); P.toksuper=-1; P.strict=jsv_nd_bool(); P.no_malloc=jsv_nd_bool(); gw=jsv_nd_long(); JSV_ASSUME(0<=gw&&gw<2*gcap); Jsi_JsonErrEnum r=Jsi_JsonParse(&P,gT);
  if(r==JSI_JSON_ERR_NONE){ JSV_LEMMA(gend,"accepted only at the end of the text"); if(gw<P.toknext) JSV_LEMMA(!OPEN(P.tokens[gw]),"every container is closed"); }
  else { JSV_LEMMA(r<0,"error code"); if(cut&&!gend&&(gT[k0]=='}'||gT[k0]==']')) { JSV_LEMMA(S0==-1||s0.type!=(gT[k0]=='}'?JSI_JTYPE_OBJECT:JSI_JTYPE_ARRAY),"a bracket is refused only if it does not match"); RCH_M } if(gend) JSV_LEMMA(SE>=0&&c3,"unclosed container"); if(cut&&!gend) JSV_LEMMA(gT[k0]!=' '&&gT[k0]!='\n',"white space is never an error"); } }
#endif
