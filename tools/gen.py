#!/usr/bin/env python3
"""Regenerates properties.jsonl and MANIFEST.json from props/*/prop.py (META) and props/na.py."""
import os, json, glob, subprocess
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props=[]; checks=[]; na=[]
for f in sorted(glob.glob(V+'/props/*/prop.py')):
    pid=os.path.basename(os.path.dirname(f)); ns={}
    exec(open(f).read(),ns); P=ns['PROP']; M=ns['META']
    props.append(dict(id=pid,title=M['title'],statement=M['statement'],quantifier=dict(over=M.get('over',['inputs']),text=M['quant']),why_tests_cant=M['why'],
        anchors=dict(files=M['files'],mechanism=[dict(name=a,where=b) for a,b in M['mech']],**({'state':M['state']} if 'state' in M else {}))))
    checks.append(dict(property=pid,quick_cmd='python3 jsv/run.py %s'%pid,thorough_cmd='python3 jsv/run.py %s --thorough'%pid,
        technique=M.get('technique','contract-based deductive verification (CBMC function and loop contracts on the real C code); executable contracts replay failures'),
        level=P.get('level','proof'),level_note=M['note']))
ns={}; exec(open(V+'/props/na.py').read(),ns)
for M in ns['NA']:
    props.append(dict(id=M['id'],title=M['title'],statement=M['statement'],quantifier=dict(over=M.get('over',['inputs']),text=M['quant']),why_tests_cant=M['why'],
        anchors=dict(files=M['files'],mechanism=[dict(name=a,where=b) for a,b in M['mech']])))
    na.append(dict(property=M['id'],reason=M['reason']))
props.sort(key=lambda p:p['id'])
for p in props: assert len(p['title'])<=80,(p['id'],len(p['title']))
open(V+'/properties.jsonl','w').write(''.join(json.dumps(p)+'\n' for p in props))
hooks=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in hooks if l.split(' ',1)[1].startswith('hook')]
json.dump(dict(version=1,setup_cmd='sh tools/setup.sh',checks=checks,hooks=dict(guard='JSV_CONTRACTS',enable='goto-cc -DJSV_CONTRACTS (props/*/*.c define JSV_LOOP_<id>/JSV_GHOST_<id> before including the real source file); the shipped build never defines it',source_commits=hooks[::-1]),not_applicable=na,
  notes='Every check copies /repo/src to a scratch directory, verifies contracts there with CBMC and runs the executable contracts on an ASan build of the same copy.'),open(V+'/MANIFEST.json','w'),indent=1)
try:
    import jsonschema
    s=json.load(open('/root/.vp/PROPERTIES.schema.json')); [jsonschema.validate(p,s) for p in props]
    jsonschema.validate(json.load(open(V+'/MANIFEST.json')),json.load(open('/root/.vp/MANIFEST.schema.json')))
except ImportError: pass
