SW={'memcpy':'s_memcpy','Jsi_Realloc':'s_realloc','Jsi_Strlen':'s_strlen','Jsi_Free':'s_free','Jsi_StrdupLen':'s_strduplen','fprintf':'s_fprintf'}
def U(n,fn,**k):
    d=dict(name=n,file='ds.c',dfcc=False,unwind=5,backend='cadical',swap=dict(SW,**k.pop('sw',{})),fn=fn,cost=20); d.update(k); return d
PROP = dict(
 proofs=[U('append',['Jsi_DSAppendLen'],sw={'Jsi_DSSetLength':'s_setlength'}),U('appendnull',['Jsi_DSAppendLen']),U('setlen',['Jsi_DSSetLength']),U('set',['Jsi_DSSet'],sw={'Jsi_DSSetLength':'s_setlength'}),U('freedup',['Jsi_DSFreeDup']),U('free',['Jsi_DSFree']),U('init',['Jsi_DSInit','Jsi_DSValue','Jsi_DSLength','jsi_DsDoInit']),U('zero',['jsi_DsDoInit']),
  U('literal',['jsi_DsDoInit'],sw={'Jsi_Strdup':'s_strdup','Jsi_Strcpy':'s_strcpy'}),
  U('appendv',['Jsi_DSAppend'],sw={'Jsi_DSAppendLen':'s_append'}),U('printf',['Jsi_DSPrintf'],defs=['JSI_PRINTF_BUFSIZ=256'],sw={'vsnprintf':'s_vsnprintf','Jsi_DSSetLength':'s_setlength'})],
 native=[dict(name='n_ds', file='n_ds.c', fn=[])],
)
PROP['rule']='one evaluation per operation of a random history; every history is distinct (random sizes); non-trivial: the model comparison was performed after the operation'
PROP['assumptions']=['appended text does not alias the string itself','allocation does not fail','strings stay below the 100000000-byte allocation limit (beyond it the append is refused and the string is kept)','vsnprintf and memcpy by their C-standard contracts; the on-stack buffer of the formatter is 256 instead of 8192 bytes in its unit','the copy of the old contents is tracked at an arbitrary witness byte, the terminator and an arbitrary appended byte (every byte, since the witness is arbitrary)']
META = dict(
 title='Dynamic strings hold exactly the bytes appended to them',
 statement='After any history of initialising, appending, formatting, setting, truncating, reserving, duplicating and freeing, a dynamic string contains exactly the bytes those operations denote, its reported length equals their count, it is terminated, and no operation touches memory outside its own buffer. Formatted output of any length is appended completely.',
 over=['inputs','histories'],
 quant='all histories of operations on one string with all lengths and contents below the allocation limit',
 why='every string the interpreter builds passes through these functions; the switches between static buffer, heap buffer, doubling and direct formatting depend on sizes and on the history, of which tests see a few.',
 files=['src/jsiDString.c','src/jsi.h'], mech=[('Jsi_DSAppendLen / Jsi_DSSetLength growth','src/jsiDString.c'),('Jsi_DSPrintf','src/jsiDString.c'),('Jsi_DSFreeDup / Jsi_DSFree','src/jsiDString.c')],
 state=[dict(name='len/spaceAvl/staticSize/strA',meaning='length, space, size of the static part, heap part or NULL',where='src/jsi.h')],
 note='Proved for every state satisfying the representation invariant (hence, by induction, every history): each operation preserves the invariant and has the stated effect at an arbitrary byte; all accesses in bounds. Trusted: CBMC, C-library contracts for memcpy/vsnprintf/strlen/realloc.',
)
