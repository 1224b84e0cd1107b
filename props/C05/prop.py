def U(n,fn,defs=[],**k): return dict(dict(name=n,file='list.c',dfcc=False,timeout=200,unwind=8,backend='cadical',fn=fn,cost=10,swap={'Jsi_Free':'s_free','Jsi_Calloc':'s_calloc',**({'Jsi_Realloc':'s_realloc'} if 'U_STACK' in defs else {})},defs=defs+['__NO_CTYPE']),**k)
PROP=dict(proofs=[U('pop',['Jsi_ListPop']),U('del',['Jsi_ListEntryDelete']),U('deld',['Jsi_ListEntryDelete']),U('push',['Jsi_ListPush']),U('new',['Jsi_ListEntryNew']),U('mov',['Jsi_ListPush','Jsi_ListPop']),U('search',['Jsi_ListSearchFirst','Jsi_ListSearchNext','Jsi_ListSize']),U('clear',['Jsi_ListClear'],['U_CLEAR'],unwind=3,rmbody=['_object_get_callback','jsiLNhints']),
 U('spush',['Jsi_StackPush'],['U_STACK']),U('spop',['Jsi_StackPop','Jsi_StackPeek','Jsi_StackHead','Jsi_StackSize'],['U_STACK']),U('sshift',['Jsi_StackUnshift'],['U_STACK']),U('sfree',['Jsi_StackFreeElements'],['U_STACK'])],
 native=[dict(name='n_list',file='n_list.c')])
PROP['rule']='one evaluation per random history over two lists (insert at any place, move between lists, delete, clear, change values), a list map and a stack, compared with arrays in both directions; non-trivial: an operation on a list of more than three entries'
PROP['assumptions']=['operations are proved on a window of up to five neighbouring entries of a list of any length; the other links lead to places the operation may not dereference (an access is a violation)','an entry handed to Jsi_ListPush is in no list or in the given list; the entry to insert before is another entry of that list (the source asserts the rest)','moving an entry between two lists is a pop followed by a push (both proved) and is exercised by the driver','stack sizes below 2^26','no allocation failure']
META=dict(title='Lists and stacks hold exactly what was put in, in order',
 statement='After any sequence of insertions, removals, moves, deletions and clears a list holds exactly the entries put in and not taken out, in the order their insertion points define: it is the same sequence read forwards and backwards, its size, first and last entry agree with it, deleting any entry (the only, first, last or an inner one) leaves the rest intact, clearing releases every value once and leaves an empty, usable list. A stack returns elements in reverse order of pushing, the bottom element when shifted, and loses none when it grows.',
 quant='all histories of list and stack operations, lists of any length', over=['inputs','histories'],
 why='a wrong link only shows when the list is later walked in the other direction or changed next to it; tests never delete the only or first entry and go on.',
 files=['src/jsiUtils.c'],
 mech=[('Jsi_ListPush / Jsi_ListPop / Jsi_ListEntryDelete / Jsi_ListClear','src/jsiUtils.c'),('Jsi_ListSearchFirst / Jsi_ListSearchNext','src/jsiUtils.c'),('Jsi_StackPush / Pop / Unshift / FreeElements','src/jsiUtils.c')],
 note='Allocation, the callback releasing values and memmove are stand-ins that record and check the call.')
