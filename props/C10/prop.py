MIN=dict(Chmod=2,Copy=2,Link=2,Rename=2,Mknod=3,Truncate=2,Write=2)
FC='Stat Lstat Size Mkdir Tempfile Truncate Mknod Chmod Read Write Rename Copy Link Remove Readlink Exists Isdir Writable'.split()
def F(c): return dict(name='f_'+c.lower(),entry='h_cmds',file='fcmds.c',dfcc=False,unwind=6,backend='cadical',fn=['File%sCmd'%c]+(['FileCopy'] if c=='Copy' else []),cost=5,defs=['U_LOG','UCMD=CMD(File%sCmd)'%c,'MINA=%d'%MIN.get(c,1)],
  swap={'Jsi_ValueArrayIndex':'s_idx','Jsi_ValueString':'s_str','Jsi_InterpAccess':'s_acc','RmdirAll':'s_rmdirall','mkdir_all':'s_mkdirall','jsi_LinkAccess':'s_link'})
SF={'Jsi_ValueString':'s_str','Jsi_ValueToString':'s_tostr','Jsi_InterpAccess':'s_acc','Jsi_FilesystemForPath':'s_fsp','Jsi_Stat':'s_stat','Jsi_FileRealpath':'s_frp','Jsi_FileRealpathStr':'s_frs','Jsi_ValueNewString':'s_newstr','Jsi_Strcmp':'s_strcmp','jsi_FilesysFind':'s_find'}
def FS(n,d,f,late={}): return dict(name=n,entry='h_fs',file='fsys.c',dfcc=False,unwind=42,backend='cadical',defs=['U_LOG','U_FS',d],fn=[f],swap=SF,cost=10)
PROP=dict(proofs=[F(c) for c in FC]+[
 dict(name='f_glob',flags=['--no-standard-checks','--unwinding-assertions'],entry='h_glob',file='fcmds.c',dfcc=False,unwind=6,backend='cadical',fn=['SubGlobsDirectory'],cost=10,kind='bounded',note='paths of up to 3 bytes in the pattern splitting; every directory access is covered',defs=['U_LOG','MINA=1','UCMD=','U_GLOB'],late='int LOCAL_SubGlobsDirectory(void*,void*,void*,const char*,const char*,void*,int,int,void*); int jsv_real(void*a,void*b,void*c,const char*d,const char*e,void*f,int g,int h,void*i){ return LOCAL_SubGlobsDirectory(a,b,c,d,e,f,g,h,i); }',swap={'SubGlobsDirectory':'s_subglob','Jsi_ValueArrayIndex':'s_idx','Jsi_ValueString':'s_str','Jsi_InterpAccess':'s_acc','RmdirAll':'s_rmdirall','mkdir_all':'s_mkdirall'}),
 dict(name='linkaccess',entry='h_link',file='fcmds.c',dfcc=False,unwind=6,backend='cadical',fn=['jsi_LinkAccess'],cost=3,defs=['U_LOG','MINA=1','UCMD=','U_LINK'],swap={'GetStringVal':'k_str','Jsi_Strrchr':'k_rchr','Jsi_DSAppendLen':'k_dsl','Jsi_DSAppend':'k_ds','Jsi_ValueNewStringDup':'k_new','jsi_SAFEACCESS':'k_acc','Jsi_Lstat':'k_lstat'}),
 dict(name='access',entry='h_acc',file='fsys.c',dfcc=False,unwind=3,backend='cadical',defs=['U_LOG','U_ACC'],fn=['Jsi_InterpAccess'],cost=10,
  swap={'Jsi_Realpath':'s_real','Jsi_ValueGetLength':'s_len','Jsi_ValueArrayIndex':'s_idx','Jsi_ValueString':'s_str','Jsi_Strcmp':'s_strcmp','Jsi_Strncmp':'s_strncmp'}),
 FS('open','H_OPEN','Jsi_Open'),FS('accessproc','H_ACCESS','Jsi_Access'),FS('chdir','H_CHDIR','Jsi_Chdir'),
 ]+[dict(name='resolve'+n,entry='h_res',file='fsys.c',dfcc=False,unwind=3,backend='cadical',defs=['U_LOG','U_RES']+d,fn=['ResolveUnixPath'],cost=30,flags=f,timeout=290,
  swap={'Jsi_Strlen':'s_strlen','memcpy':'s_memcpy','memmove':'s_memmove','realpath':'s_realpath','lstat':'s_lstat','readlink':'s_readlink','Jsi_GetCwd':'s_getcwd','Jsi_DSFree':'s_dsfree'}) for n,d,f in [('safe',['P_SAFE'],[])]],
 native=[dict(name='n_safe',file='n_safe.c',fn=['Jsi_FileRealpathStr','Jsi_InterpNew','FilesysOpenCmd'])])
PROP['rule']='one evaluation per request made by a safe sub-interpreter to the real code, run as an unprivileged user in a scratch directory: the fingerprint of everything outside the allowed directories is unchanged and no outside content is returned; non-trivial: the request was granted'
PROP['assumptions']=['Jsi_InterpAccess is used by contract in the command units: an arbitrary but fixed permission per path (proved separately against the directory lists); the resolved form of a path does not change between check and use (no concurrent renames)','realpath(3), lstat(2), readlink(2) behave as POSIX says','builtin dispatch passes at least the declared minimum number of arguments','that ResolveUnixPath returns the path the kernel would open is checked natively only; proved: it stays inside its buffers for every path','Unix configuration; requests that go to virtual file systems have no effect on the native one','sqlite attach/backup and load() are not governed by the directory lists']
META=dict(title='Safe mode keeps file access inside the allowed directories',
 statement='A safe interpreter never reads, lists, creates, changes, removes or reveals the contents of a file outside its safeReadDirs/safeWriteDirs, through any File command, Channel or source(), however the path is spelled: "..", repeated separators, symbolic links (also dangling ones and chains), "~" or relative paths are resolved before the decision, and a listed directory never grants a sibling that merely shares its prefix. Writing needs safeWriteDirs, Lockdown also forbids creation, and a sub-interpreter of a safe interpreter cannot widen its own rights. Unrestricted interpreters are never refused. A denied request does not crash.',
 quant='all paths, link structures, commands, open modes and permission configurations', over=['inputs','configurations'],
 why='the hole is always the one spelling, link or command not listed in a test; here every effect of every command must be preceded by the grant for the same path.',
 files=['src/jsiFileCmds.c','src/jsiFilesys.c','src/jsiInterp.c'], mech=[('Jsi_InterpAccess','src/jsiInterp.c'),('Jsi_Open, Jsi_Access, Jsi_Chdir, ResolveUnixPath, Jsi_FileRealpathStr','src/jsiFilesys.c'),('File*Cmd, FileCopy, SubGlobsDirectory','src/jsiFileCmds.c')],
 note='Per command: every effect requires the grant for that path (proved for arbitrary permission tables). Decision function and channel opening proved; path resolution memory-safe for all paths, its agreement with the kernel bounded (native).')
