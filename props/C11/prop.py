NF=['--no-standard-checks','--unwinding-assertions']
def N(n,**k): return dict(dict(name='norm'+n,entry='h_norm',file='path.c',dfcc=False,unwind=3,backend='cadical',fn=['Jsi_NormalPath'],cost=40,
  swap={'memmove':'s_memmove','Jsi_DSAppend':'s_dsappend','Jsi_DSValue':'s_dsvalue','Jsi_DSInit':'s_dsinit','Jsi_DSSetLength':'s_setlen','getcwd':'s_getcwd','jsi_TildePath':'s_tilde'}),**k)
PROP=dict(proofs=[N('step',flags=NF,defs=['U_NORM','U_LOG']),N('safe',defs=['U_NORM','U_LOG','P_SAFE']),N('can',defs=['U_NORM','U_LOG','P_CAN'],flags=NF,cost=90),
 dict(name='names',file='path.c',dfcc=False,unwind=6,backend='cadical',fn=['FileDirnameCmd','FileTailCmd','FileRootnameCmd','FileExtensionCmd'],defs=['U_NAMES','U_LOG'],cost=5,
  swap={'Jsi_ValueString':'s_str','Jsi_ValueArrayIndex':'s_idx','Jsi_Strrchr':'s_strrchr','jsi_SubstrDup':'s_sub','Jsi_ValueMakeBlob':'s_blob','Jsi_ValueMakeStringKey':'s_key','Jsi_ValueMakeString':'s_dup'})],
 native=[dict(name='n_path',file='n_path.c',fn=['FileNormalizeCmd','jsi_TildePath'])])
PROP['rule']='one evaluation per path and command (normalize compared with an independent component-list reference, then normalized again; dirname/tail/rootname/extension recombined); non-trivial: normalization changed the path'
PROP['assumptions']=['paths up to 2^30 bytes','the absolute path assembled by Jsi_DSAppend is the buffer normalised in place (C02); getcwd returns an absolute path','loops are verified by cut points: one arbitrary component / byte from an arbitrary state satisfying the invariant','Unix configuration (the Windows branches are not compiled)','symbolic links are not considered by File.normalize (purely textual)']
META=dict(title='Path normalisation is canonical and resolves "." and ".." exactly',
 statement='For every path, File.normalize (Jsi_NormalPath) returns an absolute path in canonical form: it starts with one separator, has no empty, "." or ".." component and no trailing separator; every ".." removes exactly the component before it (nothing at the root), all other components are kept in order and unchanged; normalizing again changes nothing; no byte outside the buffer is touched whatever the length. File.dirname, tail, rootname and extension split a path at its last separator / last dot so that the parts make up the path again.',
 quant='all paths of any length and number of components', over=['inputs'],
 why='the number, order and nesting of components is unbounded; off-by-one component removal shows only for particular mixtures of "..", "." and repeated separators.',
 files=['src/jsiFilesys.c','src/jsiFileCmds.c'], mech=[('Jsi_NormalPath','src/jsiFilesys.c'),('FileDirnameCmd, FileTailCmd, FileRootnameCmd, FileExtensionCmd','src/jsiFileCmds.c')],
 note='Proved for all lengths by cut points. jsi_TildePath (home directory) and the command wrapper of File.normalize are bounded (native driver).')
