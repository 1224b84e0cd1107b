def _n(id,title,statement,quant,why,files,mech,reason,over=['inputs']):
    return dict(id=id,title=title,statement=statement,quant=quant,why=why,files=files,mech=mech,reason=reason,over=over)
NA=[
_n('C30','Script evaluation follows the language semantics','A parsed script has the effect its source text denotes: operator precedence, scoping and closures, control flow (break/continue/try/finally), calls and coercions.',
 'all programs','programs are unbounded compositions; tests run fixed scripts',['src/parser.y','src/jsiLexer.c','src/jsiEval.c','src/jsiPstate.c'],[('LALR grammar','src/parser.y'),('jsiEval_CodeSub','src/jsiEval.c')],
 'the oracle would be a formal semantics of jsish, which does not exist (the dialect deviates from ECMAScript on purpose), and the deciding code is a generated LALR table plus one interpreter function of some 1500 lines over an untyped value stack: no contract of a size a deductive verifier here (CBMC) could discharge'),
_n('C31','Values and objects are freed exactly once, never while reachable','Every Jsi_Value and Jsi_Obj is released exactly when its last reference goes, through every path of the interpreter, including errors and callbacks.',
 'all programs and error points','use after free needs particular sequences',['src/jsiValue.c','src/jsiObj.c','src/jsiEval.c'],[('Jsi_IncrRefCount/Jsi_DecrRefCount','src/jsiValue.c')],
 'ownership is a whole-program invariant over reference counts held in C locals of every builtin; stating it needs a separation-logic ownership discipline on all 60 thousand lines, which CBMC contracts cannot express; only run under ASan by the drivers',['histories']),
_n('C32','Event timers fire once per period and in order','Timer events run in order of expiry, once or repeatedly as asked, and a deleted event never fires.','all schedules of timers and event loop calls','orderings are unbounded',['src/jsiCmds.c'],[('Jsi_EventProcess','src/jsiUtils.c')],
 'depends on wall-clock readings and re-entrant script callbacks that may add or delete events during the walk; the callback runs arbitrary interpreter code, for which no contract is available',['schedules']),
_n('C33','Sockets deliver data in order and without loss','What is sent on a Socket arrives once and in order, for any split of reads and writes.','all schedules of reads and writes','network timing',['src/jsiSocket.c'],[('Jsi_Socket commands','src/jsiSocket.c')],
 'the behaviour is that of the kernel behind blocking and non-blocking descriptors and of event callbacks; a contract for either would be the property itself',['schedules']),
_n('C34','SQLite binding returns what was stored','Values stored through Sqlite.eval with binding come back equal and transactions are atomic.','all values and statement histories','unbounded inputs',['src/jsiSqlite.c'],[('Sqlite.eval','src/jsiSqlite.c')],
 'the deciding code is the external sqlite library, present as a binary only; the binding is calls into it, whose contracts would have to be assumed wholesale',['histories']),
_n('C35','Regular expressions match as specified','RegExp exec/test/replace find the leftmost longest POSIX match.','all patterns and texts','unbounded inputs',['src/jsiRegexp.c'],[('regexec','libc')],
 'this build uses regcomp/regexec of the C library, of which there is no source here; an assumed contract would be the whole property'),
_n('C36','Compressed data inflates to the original','Zip archives and deflate streams round-trip.','all byte strings','unbounded inputs',['miniz/miniz.c','src/jsiZvfs.c'],[('tdefl_compress / tinfl_decompress','miniz/miniz.c')],
 'tdefl/tinfl are coroutine-style state machines (switch inside loops through macros, several thousand lines); no loop admits a cut point without restructuring the vendored code, so no contract within reach decides it'),
_n('C37','Interpreters in threads do not interfere','Scripts in different interpreters and threads behave as if alone.','all interleavings','interleavings',['src/jsiInterp.c'],[('Jsi_Interp threads','src/jsiInterp.c')],
 'CBMC contracts are sequential; concurrency over shared globals is outside this technique',['schedules']),
]
