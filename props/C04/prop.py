def U(n,fn=[],**k):
    d=dict(name=n,file='tree.c',dfcc=False,unwind=16,backend='cadical',fn=fn,cost=10); d.update(k); d['defs']=d.get('defs',[])+['U_LOG']; return d
IC=dict(defs=['U_ICASE']); DC=dict(defs=['U_DCASE'])
P=[U('iroot',['insert_case1'],**IC),U('iroot2',['insert_case1','insert_case2'],**IC),
 U('cmp',['OneWordCompare'],defs=['U_CMP']),
 U('find',['Jsi_TreeEntryFind'],defs=['U_FIND'],swap={'Jsi_TreeKeyGet':'s_key'}),U('ins',['Jsi_TreeEntryNew'],defs=['U_INS'],swap={'Jsi_TreeKeyGet':'s_key','insert_case1':'s_fix'}),U('max',['maximum_node'],defs=['U_MAX']),
 *[U('del%d'%i,['Jsi_TreeEntryDelete'],entry='h_del',defs=['U_DEL','FP=%d'%i],rmbody=['Jsi_TreeEntryFind','Jsi_TreeEntryNew'],swap={'SwapNodes':'s_swap','maximum_node':'s_max','delete_one_child':'s_del1','Jsi_Free':'s_free'}) for i in (0,1)],
 U('destroy',['destroy_node'],defs=['U_DESTROY'],late='void LOCAL_destroy_node(void*,void*); void jsv_real(void*i,void*e){ LOCAL_destroy_node(i,e); }',swap={'destroy_node':'s_destroy','Jsi_TreeEntryDelete':'s_edel'}),U('clear',['Jsi_TreeClear'],defs=['U_CLEAR'],swap={'destroy_node':'s_destroy'}),
 U('space',['searchSpace'],defs=['U_SPACE'],swap={'Jsi_Calloc':'s_calloc','Jsi_Realloc':'s_realloc','memcpy':'s_memcpy'})]
for k,f in enumerate(('tree_inorder','tree_preorder','tree_postorder')): P.append(U('walk%d'%k,[f],entry='h_walk',late='int LOCAL_%s(void*,void*,void*,void*); int jsv_real(void*t,void*e,void*c,void*d){ return LOCAL_%s(t,e,c,d); }'%(f,f),defs=['U_WALK='+f,'W_KIND=%d'%k],swap={f:'s_walk'}))
for k,f in enumerate(('TreeStringCreate','TreeArrayCreate','OneWordCreate')):
    for e in ('create','createnew'): P.append(U('%s%d'%(e,k),[f],entry='h_'+e,defs=['U_CREATE='+f,'C_KIND=%d'%k],swap={'Jsi_Strlen':'s_strlen','Jsi_Calloc':'s_calloc','Jsi_Strcpy':'s_strcpy','memcpy':'s_memcpy','Jsi_TreeEntryFind':'s_find'}))
for k in range(3):
    def V(n,fn,bits,d,sw={},h=None,**kw): P.append(U('%s_%d'%(n,k),fn,entry='h_'+n,defs=[d,'TOPK=%d'%k],swap=sw,unwindset={'h_%s.0'%n:(1<<bits)+1},thorough_only=k>1,**kw))
    V('rot',['rotate_left','rotate_right','replace_node'],4,'U_ROT')
    V('swapn',['SwapNodes'],7,'U_SWAP')
    V('icase',['insert_case2','insert_case3','insert_case4','insert_case5','uncle','grandparent','sibling'],8,'U_ICASE',{'insert_case1':'s_icase1'},cost=60)
    V('del1',['delete_one_child'],4,'U_DEL1',{'delete_case1':'s_dcase1'})
SW={'2':{'delete_case3':'s_dcase3'},'3':{'delete_case1':'s_dcase1','delete_case4':'s_dcase4'},'4':{'delete_case5':'s_dcase5'},'5':{'delete_case6':'s_dcase6'},'6':{}}
for k in range(3):
  for c in SW:
    for q in ((1,2,3) if c=='2' else (2,3)): P.append(U('d%s_%d%d'%(c,k,q),['delete_case'+c],entry='h_d'+c,defs=['U_DCASE','TOPK=%d'%k,'SPL=%d'%q,'SPLN=4'],swap=SW[c],unwindset={'h_d%s.0'%c:513},thorough_only=k>0,cost=50))
PROP=dict(proofs=P,native=[dict(name='n_tree',file='n_tree.c')])
PROP['rule']='one evaluation per random history of tree operations (insert, overwrite, delete, clear, search; string, struct and one-word keys; red-black rules, parent links, order and content compared with a reference map after each batch); non-trivial: at least one two-child deletion or rotation happened'
PROP['assumptions']=['red-black case analysis: explicit nodes near the repaired place, every other subtree is a summary node with arbitrary colour and arbitrary black height (0..999) satisfying the red-black rules; the case analysis over shapes is complete (enumerated by symbolic execution), the heights and remaining colours are symbolic',
 'the position of the repaired subtree under the rest of the tree: as root, as left child and (thorough tier) as right child','the tree order used for lookup/insertion is a strict total order (proved for one-word keys; dictionary and memcmp orders: C14 / library)',
 'no lock callback installed','fewer than 2^30 entries; search stacks below 2^26 entries','descents are verified by cut points; termination rests on acyclicity','no allocation failure']
META=dict(title='Ordered trees stay sorted, balanced and complete for every history',
 statement='After any sequence of insertions, overwrites, deletions and clears a tree map holds exactly the keys stored and not deleted, each with its last value and its own flags; a lookup finds a key if and only if it is present and distinct keys are never confused; in-order enumeration is sorted by the key order with every entry exactly once, in whichever traversal order is chosen; and the red-black rules hold, so depth stays logarithmic. This is the store behind every object\'s properties.',
 quant='all histories of operations, all key sets and key kinds, all tree shapes', over=['inputs','histories'],
 why='re-balancing has many mirror-image cases, each reached only by particular key orders; tests insert a handful of keys and almost never delete inner nodes.',
 files=['src/jsiTree.c'],
 mech=[('insert_case1-5, delete_case1-6, rotations','src/jsiTree.c'),('SwapNodes / delete_one_child / Jsi_TreeEntryDelete','src/jsiTree.c'),('Jsi_TreeEntryFind / Jsi_TreeEntryNew','src/jsiTree.c'),('tree walks and search stack','src/jsiTree.c')],
 note='Each re-balancing case is proved over all shapes with arbitrary subtrees; composition over histories (case 1 recursion measure, map property) is argued in DESIGN.md from these contracts. Jsi_TreeSearchNext ordering and enumeration completeness are exercised by the bounded driver.')
