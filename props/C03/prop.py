def U(n,fn=[],**k):
    d=dict(name=n,file='hash.c',dfcc=False,unwind=4,backend='cadical',fn=fn,cost=10,loops=True); d.update(k); d['defs']=d.get('defs',[])+['U_LOG']; return d
ST=dict(defs=['U_STR'],swap={'HashString':'s_hash','Jsi_Strlen':'s_strlen','Jsi_Calloc':'s_calloc','Jsi_Strcpy':'s_strcpy','RebuildTable':'s_rebuild'})
ON=dict(defs=['U_ONE'],swap={'Jsi_Calloc':'s_calloc','RebuildTable':'s_rebuild'})
AR=dict(defs=['U_ARR'],swap={'jsi_HashArray':'s_hasharr','memcmp':'s_memcmp','memcpy':'s_memcpy','Jsi_Calloc':'s_calloc','RebuildTable':'s_rebuild'})
P=[]
for t,d,f,c in (('s',ST,'HashStringFind','HashStringCreate'),('o',ON,'HashOneWordFind','HashOneWordCreate'),('a',AR,'jsi_HashArrayFind','jsi_HashArrayCreate')):
    P+=[U(t+'find',[f],entry='h_find',loops=False,**d),U(t+'create',[c],entry='h_create',loops=False,**d),U(t+'createnew',[c],entry='h_createnew',loops=False,**d)]
RB=['HashStringFind','HashStringCreate','HashOneWordFind','HashOneWordCreate','jsi_HashArrayFind','jsi_HashArrayCreate']
P+=[U('hstr',['HashString'],defs=['U_HSTR']),U('harr',['jsi_HashArray'],defs=['U_HARR']),
 *[U('rb'+n+str(st),rmbody=RB,fn=['RebuildTable'],entry='h_rb',loops=False,defs=['U_RB=%d'%st]+d,swap={'Jsi_Calloc':'s_callocb','Jsi_Free':'s_freeb'}) for n,d in (('o',['U_ONE']),('h',[])) for st in (0,1)],
 U('delo',rmbody=RB,fn=['Jsi_HashEntryDelete'],entry='h_del',loops=False,defs=['U_DEL','U_ONE'],swap={'Jsi_Free':'s_free'}),U('dels',rmbody=RB,fn=['Jsi_HashEntryDelete'],loops=False,entry='h_del',defs=['U_DEL'],swap={'Jsi_Free':'s_free'}),
 U('next',rmbody=RB,fn=['Jsi_HashSearchNext'],defs=['U_NEXT']),U('first',rmbody=RB,fn=['Jsi_HashSearchFirst'],defs=['U_NEXT']),
 *[U('clr'+str(st),rmbody=RB,fn=['Jsi_HashClear'],entry='h_clr',loops=False,defs=['U_CLR=%d'%st],swap={'Jsi_Free':'s_freec'}) for st in (0,1)],
 U('api',['Jsi_HashSet','Jsi_HashGet','Jsi_HashUnset','Jsi_HashEntryFind','Jsi_HashEntryNew'],defs=['U_API'],loops=False,swap={'Jsi_HashEntryDelete':'s_delete'}),
 U('new',['Jsi_HashNew'],unwind=18,defs=['U_NEW'],loops=False,swap={'Jsi_Calloc':'s_calloct'})]
PROP=dict(proofs=P,native=[dict(name='n_hash',file='n_hash.c',fn=['Jsi_HashDelete','Jsi_HashKeyGet','Jsi_HashSearchFirst'])])
PROP['rule']='one evaluation per random history of table operations (5 to 4000 keys; every operation compared with a reference map, full enumeration every 257 steps); every history is distinct; non-trivial: the table grew at least once'
PROP['assumptions']=['chains are acyclic and every node satisfies the node invariant proved on insertion (hash of its key, bucket of its key); the visited node is an arbitrary one (summary node)','hash tables of at most 2^24 buckets','no lock callback installed','keys shorter than 256 MB','loops over chains and buckets are verified by cut points (invariant asserted on entry and after one arbitrary iteration); termination of chain walks rests on acyclicity']
META=dict(title='Hash tables behave as a finite map for every history of operations',
 statement='After any sequence of insert, overwrite, delete, clear and automatic growth, a lookup returns exactly the last value stored for that key, or nothing if it is absent; insert reports newness truthfully; the size equals the number of keys present; enumeration yields every entry exactly once; the stored value is released exactly once on delete and on clear; this holds for string, interned-string, one-word and struct keys, whatever keys collide.',
 quant='all histories of operations, all keys, all table sizes', over=['inputs','histories'],
 why='tests never force growth together with collisions, deletion and reuse for each key kind; lost entries show only at particular sizes and key patterns.',
 files=['src/jsiHash.c'],
 mech=[('HashStringFind/Create, HashOneWordFind/Create, jsi_HashArrayFind/Create','src/jsiHash.c'),('RebuildTable','src/jsiHash.c'),('Jsi_HashEntryDelete / Jsi_HashClear','src/jsiHash.c'),('Jsi_HashSearchNext','src/jsiHash.c')],
 note='Lookup, insertion, growth, deletion, clearing and enumeration are verified for chains and tables of any length (one arbitrary node / bucket). The map property over histories follows from these by the node invariant; the composition itself is stated in DESIGN.md, not machine-checked. History driver is bounded.')
