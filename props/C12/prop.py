SW={'Jsi_UtfToUniChar':'s_dec','Jsi_UtfToUniCharCase':'s_deccase'}
PROP=dict(proofs=[dict(name='glob',file='glob.c',dfcc=False,unwind=6,backend='cadical',fn=['Jsi_GlobMatch'],cost=20,defs=['U_GLOB'],late='_Bool Jsi_GlobMatch(const char*,const char*,int); _Bool jsv_real(const char*a,const char*b,int c){ return Jsi_GlobMatch(a,b,c); }',swap=dict(SW,Jsi_GlobMatch='s_glob',JsiCharsetMatch='s_cls')),
 dict(name='cls',file='glob.c',dfcc=False,unwind=6,backend='cadical',fn=['JsiCharsetMatch'],cost=20,defs=['U_CLS'],swap=SW)],
 native=[dict(name='n_glob',file='n_glob.c',fn=[])])
PROP['rule']='one evaluation per (pattern, string, case flag): the real matcher against a memoised reference of the definition; non-trivial: the pattern matches'
PROP['assumptions']=['patterns and strings of up to 2^30 bytes','the UTF-8 decoder is used by its contract (C01): one code point of 1..4 bytes inside the text, ASCII is itself','the induction over the recursive calls and loop iterations (each step consumes pattern or string) is the meta-argument on top of the per-step obligations','case folding covers ASCII letters']
META=dict(title='Glob matching decides exactly the pattern language',
 statement='For every pattern and string, Jsi_GlobMatch answers whether the whole string matches: "*" stands for any sequence of characters (also none), "?" for exactly one character, "[...]" for one character of the set of listed characters and ranges (in either order), a backslash makes the next character literal, everything else stands for itself (ignoring ASCII case if asked); characters are code points, not bytes. No byte outside the two texts is read. File.glob, info.* and option matching rely on it.',
 quant='all patterns and strings of any length, both case modes', over=['inputs'],
 why='the interplay of several stars, classes, escapes, multi-byte characters and the ends of both texts has unboundedly many shapes.',
 files=['src/jsiUtils.c'], mech=[('Jsi_GlobMatch, JsiCharsetMatch','src/jsiUtils.c')],
 note='Proved step by step against the definition of matching (cut points, recursion by contract) for all lengths. Inside a class a backslash stands for itself; an unterminated class ends with the pattern.')
