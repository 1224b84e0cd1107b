#!/usr/bin/env python3
"""DESIGN.md = tools/design_head.md + one section per property (from props/*/prop.py, props/*/design.md, KNOWN_FINDINGS, seeded/*/meta.json)."""
import os,glob,json,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out=open(V+'/tools/design_head.md').read()
kf=open(V+'/KNOWN_FINDINGS').read().splitlines()
seeds={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    d=json.load(open(m)); seeds.setdefault(d['property'],[]).append((m.split('/')[-2],d))
caught={}
if os.path.exists(V+'/tools/caught.txt'):
    for l in open(V+'/tools/caught.txt'):
        if l.strip(): a,b=l.rstrip().split(' ',1); caught[a]=b
out+='\n## Properties\n'
for p in sorted(glob.glob(V+'/props/C*/prop.py')):
    pid=p.split('/')[-2]; ns={}; exec(open(p).read(),ns); P,M=ns['PROP'],ns['META']
    out+='\n### %s %s\n\n%s\n\n'%(pid,M['title'],M['statement'])
    f=[];b=[]
    for u in P['proofs']:
        (b if u.get('kind')=='bounded' else f).append('%s (%s)'%(u['name'],', '.join(u.get('fn',[]) or ['lemma'])))
    if len(f)>45: f=f[:20]+['… and %d more of the same families'%(len(f)-20)]
    out+='*Proved units:* '+'; '.join(f)+'.\n\n'
    if b: out+='*Bounded units (never counted as proved):* '+'; '.join(b)+'.\n\n'
    out+='*Bounded execution of the real code:* '+(', '.join(n['name'] for n in P.get('native',[])) or 'none')+' ('+P.get('rule','')+').\n\n'
    out+='*Assumed:* '+'; '.join(P.get('assumptions',[]))+'.\n\n'
    out+=M['note']+'\n\n'
    if os.path.exists(os.path.dirname(p)+'/design.md'): out+=open(os.path.dirname(p)+'/design.md').read().rstrip()+'\n\n'
    k=[l for l in kf if 'property=%s '%pid in l]
    if k: out+='Defects found:\n'+''.join('- %s\n'%re.sub(r'property=\S+ ','',l) for l in k)+'\n'
    s=seeds.get(pid,[])
    if s: out+='Planted bugs:\n'+''.join('- `%s`: %s (needs %s) — %s\n'%(i,d['what_it_breaks'],d['needs'],caught.get(i,'see vcheck')) for i,d in s)
ns={}; exec(open(V+'/props/na.py').read(),ns)
if ns['NA']:
    out+='\n## Not applicable\n\n'+''.join('- **%s %s**: %s\n'%(n['id'],n['title'],n['reason']) for n in ns['NA'])
open(V+'/DESIGN.md','w').write(out)
