#!/usr/bin/env python3
"""Contract-based deductive verification runner.  usage: run.py <property> [--thorough]

For one property: copies /repo's working tree sources to a scratch directory,
compiles each contract harness together with the real source file (goto-cc),
instruments contracts (goto-instrument --dfcc), lets CBMC discharge every
obligation, runs the executable form of the contracts on the real code
(ASan build) as replay/bounded stand-in, writes evidence/<id>.json.
"""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('JSV_REPO', '/repo')
GUARD = 'JSV_CONTRACTS'
BASEDEFS = ('-DJSI__MAIN=1 -DJSI__BASE64=1 -DJSI__CDATA=1 -DJSI__DEBUG=1 -DJSI__ENCRYPT=1 -DJSI__EVENT=1 '
  '-DJSI__FILESYS=1 -DJSI__INFO=1 -DJSI__LOAD=1 -DJSI__MATH=1 -DJSI__MD5=1 -DJSI__MINIZ=1 -DJSI__READLINE=1 '
  '-DJSI__SHA1=1 -DJSI__SHA256=1 -DJSI__SIGNAL=1 -DJSI__STUBS=1 -DJSI__THREADS=1 -DJSI__ZVFS=1 -DJSI__MEMDEBUG=0 '
  '-DJSI__REGEX=0 -DJSI__SANITIZE=0 -DJSI__SOCKET=1 -DJSI__SQLITE=1 -DJSI__WEBSOCKET=0').split()
SKIP = {'jsiWebSocket', 'jsiMySql', 'uchroot', 'jsiParser', 'jsiCode'}
DEADLINE = None
P_HAVOC = []

def limit():
    os.setsid()
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (14 << 30, 14 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def limit_noas():
    os.setsid()
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def sh(cmd, timeout=600, cwd=None, env=None, aslimit=True):
    """-> (rc, out, seconds); rc None on timeout"""
    t = time.time()
    if DEADLINE: timeout = max(5, min(timeout, DEADLINE - t))
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=cwd,
                         env=env, preexec_fn=limit if aslimit else limit_noas)
    try:
        out, _ = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try: os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        out, _ = p.communicate()
        rc = None
    try: os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError): pass
    return rc, out.decode('utf-8', 'replace'), time.time() - t

class Work:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='jsv.')
        for d in ('src', 'miniz'):
            shutil.copytree(os.path.join(REPO, d), os.path.join(self.dir, d))
        s = os.path.join(self.dir, 'src')
        rc, out, _ = sh(['bison', '-o', 'parser.c', '--defines=parser.h', 'parser.y'], cwd=s)
        self.asan = None
        self.err = '' if rc == 0 else out
        ids = set(); self.ids = set()
        for f in glob.glob(s + '/*.[ch]'):
            with open(f, errors='replace') as fh:
                ids |= set(re.findall(r'\bJSV_((?:LOOP|GHOST))\((\w+)\)', fh.read()))
        with open(self.dir + '/jsv_defaults.h', 'w') as fh:
            for k, i in sorted(ids):
                if i == 'id': continue
                self.ids.add(k + '_' + i)
                fh.write('#ifndef JSV_%s_%s\n#define JSV_%s_%s\n#endif\n' % (k, i, k, i))

    def build_asan(self):
        """objects of the whole program, AddressSanitizer, from the working tree copy"""
        if self.asan is not None: return self.asan
        o = self.dir + '/o'; os.makedirs(o, exist_ok=True)
        s = self.dir + '/src'
        files = [f for f in sorted(glob.glob(s + '/*.c')) + sorted(glob.glob(self.dir + '/miniz/*.c'))
                 if os.path.basename(f)[:-2] not in SKIP]
        def one(f):
            ob = o + '/' + os.path.basename(f)[:-2] + '.o'
            rc, out, _ = sh(['gcc', '-w', '-g', '-O1', '-fno-omit-frame-pointer', '-fsanitize=address'] + BASEDEFS +
                       ['-I' + self.dir, '-I' + s, '-I' + self.dir + '/miniz', '-c', f, '-o', ob], aslimit=False)
            return (rc, out, ob)
        with ThreadPoolExecutor(8) as ex:
            rs = list(ex.map(one, files))
        bad = [r for r in rs if r[0] != 0]
        self.asan = ([r[2] for r in rs], '\n'.join(b[1] for b in bad))
        return self.asan

    def close(self):
        os.environ.get('JSV_KEEP') or shutil.rmtree(self.dir, ignore_errors=True)

def run_proof(w, pd, u):
    """one proof unit -> dict(name,status: ok|fail|attach|timeout, props=[...])"""
    r = dict(name=u['name'], functions=u.get('fn', []), kind=u.get('kind', 'proved'), obligations=0, discharged=0,
             failed=[], undecided=[], solver_s=0.0, backend=u.get('backend', 'cbmc SAT (minisat)'), note=u.get('note', ''))
    d = os.path.join(w.dir, 'u_' + u['name']); os.makedirs(d, exist_ok=True)
    a, b = d + '/a.gb', d + '/b.gb'
    entry = u.get('entry', 'h_' + u['name'])
    src = os.path.join(pd, u['file'])
    defs = BASEDEFS + ['-D' + GUARD, '-DJSV_UNIT_' + u['name']] + ['-D' + x for x in u.get('defs', [])]
    # a hook this unit's contract hangs on has gone from the source: the scaffolding is lost, not the property
    rc, out, _ = sh(['gcc', '-w', '-E', '-dM', '-I' + w.dir, '-I' + w.dir + '/src', '-I' + w.dir + '/miniz', '-I' + VERIF + '/jsv', '-I' + pd] + defs + [src], timeout=60)
    lost = sorted({m.group(1) for m in re.finditer(r'^#define JSV_((?:LOOP|GHOST)_\w+) \S', out, re.M)} - w.ids - {'LOOP_id', 'GHOST_id'})
    if lost:
        r.update(status='attach', reason='annotation points no longer in the source: ' + ' '.join(lost)); return r
    late = u.get('late')   # entry code that is to call a function whose other calls (its own recursion) are swapped
    rc, out, _ = sh(['goto-cc'] + (['-c', '--export-file-local-symbols'] if late else ['--function', entry]) + ['-I' + w.dir, '-I' + w.dir + '/src', '-I' + w.dir + '/miniz', '-I' + VERIF + '/jsv', '-I' + pd]
                    + defs + [src, '-o', a], timeout=120)
    if rc != 0:
        r.update(status='attach', reason='goto-cc: ' + out[-1500:]); return r
    if u.get('pre_unwind'):
        rc, out, _ = sh(['goto-instrument'] + u['pre_unwind'] + [a, a], timeout=300)
        if rc != 0:
            r.update(status='attach', reason='goto-instrument unwind: ' + out[-1500:]); return r
    mangled = {}
    if late:
        rc, out, _ = sh(['goto-instrument', '--list-goto-functions', a], timeout=60)
        for m in re.finditer(r'^(\w+) /\* (\w+) \*/', out, re.M): mangled[m.group(1)] = m.group(2)
    for f, g in u.get('swap', {}).items():
        f = mangled.get(f, f); g = mangled.get(g, g)
        rc, out, _ = sh(['goto-instrument', '--replace-calls', '%s:%s' % (f, g), a, a], timeout=120)
        if rc != 0:
            r.update(status='attach', reason='goto-instrument --replace-calls: ' + out[-1500:]); return r
    if late:
        with open(d + '/late.c', 'w') as fh: fh.write(re.sub(r'LOCAL_(\w+)', lambda m: mangled.get(m.group(1), m.group(1)), late))
        rc, out, _ = sh(['goto-cc', '--function', entry, a, d + '/late.c', '-o', a + '2'], timeout=120)
        if rc != 0:
            r.update(status='attach', reason='goto-cc link: ' + out[-1500:]); return r
        a = a + '2'
    if u.get('drop', True):
        rc, out, _ = sh(['goto-instrument', '--drop-unused-functions', a, a], timeout=120)
    if u.get('rmbody'):
        rc, out, _ = sh(['goto-instrument'] + sum([['--remove-function-body', f] for f in u['rmbody']], []) + [a, a], timeout=120)
    if u.get('dfcc', True) and (u.get('enforce') or u.get('replace') or u.get('loops')):
        cmd = ['goto-instrument', '--dfcc', entry]
        if u.get('enforce'): cmd += ['--enforce-contract-rec' if u.get('rec') else '--enforce-contract', u['enforce']]
        for f in u.get('replace', []): cmd += ['--replace-call-with-contract', f]
        if u.get('loops'): cmd += ['--apply-loop-contracts']
        rc, out, _ = sh(cmd + [a, b], timeout=200)
        if rc != 0:
            r.update(status='attach', reason='goto-instrument --dfcc: ' + out[-1500:]); return r
    elif u.get('loops'):
        rc, out, _ = sh(['goto-instrument', '--apply-loop-contracts', a, b], timeout=200)
        if rc != 0:
            r.update(status='attach', reason='goto-instrument: ' + out[-1500:]); return r
    else:
        b = a
    cmd = ['cbmc', b, '--json-ui', '--slice-formula', '--unwind', str(u.get('unwind', 20)), '--object-bits', str(u.get('objbits', 10))]
    for k, v in u.get('unwindset', {}).items(): cmd += ['--unwindset', '%s:%d' % (k, v)]
    cmd += u.get('flags', [])
    if 'backend' in u: cmd += {'kissat': ['--external-sat-solver', 'kissat'], 'cadical': ['--sat-solver', 'cadical'], 'cvc5': ['--cvc5'],
                               'z3': ['--z3'], 'bitwuzla': ['--bitwuzla']}[u['backend']]
    r['cmd'] = ' '.join(cmd).replace(w.dir, '$SCRATCH')
    rc, out, sec = sh(cmd, timeout=u.get('timeout', 500))
    r['solver_s'] = round(sec, 1)
    if rc is None:
        r.update(status='timeout', reason='cbmc timeout after %.0f s' % sec); return r
    try:
        js = json.loads(out)
    except Exception:
        r.update(status='timeout', reason='cbmc gave no result: ' + out[-800:]); return r
    res = None; msgs = []; nobody = set()
    for x in js:
        if 'result' in x: res = x['result']
        t = x.get('messageText', '')
        if x.get('messageType') == 'ERROR': msgs.append(t)
        m = re.search(r'no body for (?:function|callee) (\S+)', t)
        if m and m.group(1).strip("'") not in u.get('havoc', []) + P_HAVOC: nobody.add(m.group(1).strip("'"))
    if res is None:
        r.update(status='timeout', reason='cbmc error: ' + ' '.join(msgs)[-800:]); return r
    reach = 0; unwind_fail = []
    for p in res:
        desc = p.get('description', '')
        loc = p.get('sourceLocation', {})
        where = '%s:%s %s' % (os.path.basename(loc.get('file', '?')), loc.get('line', '?'), loc.get('function', ''))
        if desc.startswith('JSV_REACH'):
            if p['status'] == 'FAILURE': reach += 1
            elif p['status'] != 'SUCCESS': r['undecided'].append(desc)
            else: r['failed'].append('VACUOUS: %s is unreachable (%s)' % (desc, where))
            continue
        r['obligations'] += 1
        if p['status'] == 'SUCCESS': r['discharged'] += 1
        elif p['status'] == 'FAILURE':
            line = '%s: %s [%s]' % (p['property'], desc, where)
            if 'unwinding assertion' in desc or 'recursion unwinding' in desc: unwind_fail.append(line)
            else: r['failed'].append(line)
        else: r['undecided'].append('%s: %s [%s]' % (p['property'], desc, where))
    r['reach'] = reach
    if nobody: r['nobody'] = sorted(nobody)
    if unwind_fail:
        # the loop structure no longer matches the scaffolding (or its bound): undecided, not a violation
        r['failed_under_lost_scaffold'] = r['failed'][:]; r['failed'] = []
        r.update(status='attach', reason='loop without contract/bound: ' + '; '.join(unwind_fail[:4])); return r
    if r['failed']:
        r['status'] = 'fail'
        # verifier's counterexample for the first failed obligation
        m = [x for x in r['failed'] if not x.startswith('VACUOUS')]
        if m:
            prop = m[0].split(': ')[0]
            rc, out, _ = sh([c for c in cmd if c != '--json-ui'] + ['--property', prop, '--trace'], timeout=100)
            r['trace'] = out[-12000:]
    elif nobody:
        r.update(status='attach', reason='functions without contract or body: ' + ' '.join(sorted(nobody)))
    elif r['undecided']:
        r.update(status='timeout', reason='undecided obligations')
    elif reach == 0 or r['obligations'] == 0:
        r.update(status='attach', reason='no reachability witness or no obligations (vacuous)')
    else:
        r['status'] = 'ok'
    return r

def run_native(w, pd, n, mode, seed, budget):
    r = dict(name=n['name'], cases=0, nontrivial=0, fails=[], samples=[], status='ok')
    objs, err = w.build_asan()
    if err:
        r.update(status='build', reason=err[-1500:]); return r
    exe = w.dir + '/n_' + n['name']
    src = os.path.join(pd, n['file'])
    ob = [o for o in objs if os.path.basename(o) != 'main.o' and os.path.basename(o)[:-2] not in n.get('replaces', [])]
    if not os.path.exists(exe):
        rc, out, _ = sh(['gcc', '-w', '-g', '-O1', '-fsanitize=address'] + BASEDEFS + ['-I' + w.dir, '-I' + w.dir + '/src', '-I' + VERIF + '/jsv', '-I' + pd,
                        src] + ob + ['-o', exe, '-lm', '-ldl', '-lpthread', '-lsqlite3'] + n.get('libs', []), aslimit=False)
        if rc != 0:
            r.update(status='build', reason=out[-1500:]); return r
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:handle_abort=0:allocator_may_return_null=1:detect_stack_use_after_return=0', LC_ALL='C', TZ='UTC')
    scratch = w.dir + '/s_' + n['name']; shutil.rmtree(scratch, ignore_errors=True); os.makedirs(scratch)
    rc, out, sec = sh([exe, mode, str(seed), str(budget)], timeout=budget * 3 + 60, cwd=scratch, env=env, aslimit=False)
    r['wall_s'] = round(sec, 1)
    done = False
    for line in out.splitlines():
        if line.startswith('FAIL key='):
            r['fails'].append(line[5:])
        elif line.startswith('SAMPLE '): r['samples'].append(line[7:][:400])
        m = re.match(r'CASES (\d+) NONTRIVIAL (\d+)', line)
        if m: r['cases'], r['nontrivial'] = int(m.group(1)), int(m.group(2)); done = True
    if not done:
        if rc is None: r['fails'].append('key=hang driver did not end within %.0f s' % sec)
        else: r['fails'].append('key=crash driver ended with rc=%s: %s' % (rc, out[-600:].replace('\n', ' | ')))
    r['cmd'] = '%s %s %s %s' % (n['file'], mode, seed, budget)
    r['tail'] = out[-3000:]
    return r

def load_known(pid):
    ks = {}
    f = VERIF + '/KNOWN_FINDINGS'
    if os.path.exists(f):
        for line in open(f):
            m = re.match(r'KNOWN-FINDING: property=(\S+) key=(\S+) (.*)', line)
            if m and m.group(1) == pid: ks[m.group(2)] = m.group(3).strip()
    return ks

def main():
    global DEADLINE
    t0 = time.time()
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = [a[7:] for a in sys.argv if a.startswith('--only=')]
    DEADLINE = t0 + (840 if tier == 'quick' else 3600)
    pd = os.path.join(VERIF, 'props', pid)
    ns = {}
    exec(compile(open(pd + '/prop.py').read(), pd + '/prop.py', 'exec'), ns)
    P = ns['PROP']
    known = load_known(pid)
    evf = VERIF + '/evidence/%s.json' % pid
    os.makedirs(VERIF + '/evidence', exist_ok=True)
    replay = VERIF + '/evidence/replay-%s.txt' % pid
    if os.path.exists(replay): os.unlink(replay)
    w = Work()
    try:
        proofs = [u for u in P.get('proofs', []) if not only or u['name'] in only]
        proofs = [u for u in proofs if tier == 'thorough' or not u.get('thorough_only')]
        natives = [n for n in P.get('native', []) if not only or n['name'] in only]
        budget = 20 if tier == 'quick' else 240
        with ThreadPoolExecutor(8) as ex:
            if natives: ex.submit(w.build_asan).result() if not proofs else None
            order = sorted(proofs, key=lambda u: -u.get('cost', 10))
            futs = [ex.submit(run_proof, w, pd, u) for u in order]
            if natives: w.build_asan()
            with ThreadPoolExecutor(4) as ex2:
                nf = [ex2.submit(run_native, w, pd, n, tier, seed, n.get('budget', budget)) for n in natives]
                nres = [f.result() for f in nf]
            pres = [f.result() for f in futs]
        pres.sort(key=lambda r: r['name'])
        bad = [r for r in pres if r['status'] == 'fail']
        und = [r for r in pres if r['status'] in ('attach', 'timeout')]
        def newfails(nres):
            out = []
            for n in nres:
                for f in n['fails']:
                    k = f.split()[0][4:]
                    if k not in known: out.append((n, f))
            return out
        nfail = newfails(nres)
        # a proof failed or could not be attached: search for a failing input on the real code, deeper
        if (bad or und) and not nfail and natives:
            left = DEADLINE - time.time() - 60
            sb = min(P.get('search_budget', 90), max(10, left / 3.2))
            with ThreadPoolExecutor(4) as ex2:
                sres = list(ex2.map(lambda n: run_native(w, pd, n, 'search', seed + 1000, sb), natives))
            nfail = newfails(sres)
            nres2 = sres
        else: nres2 = []
        allres = nres + nres2
        seen_known = {}
        for n in allres:
            for f in n['fails']:
                k = f.split()[0][4:]
                if k in known: seen_known[k] = f
        nbuild = [n for n in nres if n['status'] == 'build']
    finally:
        w.close()
    for k in known:
        if k in seen_known: print('KNOWN-FINDING: property=%s key=%s %s' % (pid, k, known[k]))
    ob = sum(r['obligations'] for r in pres if r['kind'] == 'proved'); di = sum(r['discharged'] for r in pres if r['kind'] == 'proved')
    bob = sum(r['obligations'] for r in pres if r['kind'] != 'proved'); bdi = sum(r['discharged'] for r in pres if r['kind'] != 'proved')
    cov = dict(obligations=ob, discharged=di,
        checker_cmd='goto-cc + goto-instrument --dfcc --enforce-contract/--replace-call-with-contract/--apply-loop-contracts + cbmc (see units[].cmd)',
        trusted_base=P.get('trusted', []) + ['CBMC 6.11 (goto-cc front end, dfcc contract instrumentation, symbolic execution) and the SAT/SMT back end named per unit',
            'CBMC models of libc/libm functions called by the functions under contract', '64-bit little-endian gcc ABI; build configuration of /opt/vp/build.sh'],
        functions_under_contract=sorted({f for r in pres if r['kind'] == 'proved' for f in r['functions']}),
        functions_bounded_only=sorted({f for r in pres if r['kind'] != 'proved' for f in r['functions']} | {f for n in P.get('native', []) for f in n.get('fn', [])}),
        bounded_obligations=bob, bounded_discharged=bdi,
        solver_s=round(sum(r['solver_s'] for r in pres), 1),
        units=[{k: r.get(k) for k in ('name', 'status', 'kind', 'functions', 'obligations', 'discharged', 'backend', 'solver_s', 'failed', 'undecided', 'reason', 'reach', 'note', 'cmd') if r.get(k) not in (None, [], '')} for r in pres],
        native_contract_execution=[dict(name=n['name'], label='bounded (executable contracts on the real code, never counted as proved)', evaluations=n['cases'], distinct_nontrivial=n['nontrivial'], samples=n['samples'], fails=n['fails'][:5], cmd=n.get('cmd'), status=n['status']) for n in allres],
        evaluations=sum(n['cases'] for n in allres), distinct_nontrivial=sum(n['nontrivial'] for n in allres),
        rule=P.get('rule', 'evaluations: executions of the real code with the contract evaluated; non-trivial: the interesting branch of the contract (see driver) was exercised'),
        samples=[s for n in allres for s in n['samples']][:6])
    if und: cov['degraded'] = ['%s: %s' % (r['name'], r.get('reason', '')[:600]) for r in und]
    if nbuild: cov['native_unavailable'] = [n.get('reason', '')[:600] for n in nbuild]
    ev = dict(property=pid, tier=tier, seed=seed, level=P.get('level', 'proof'), coverage=cov,
        assumptions=P.get('assumptions', []), wall_s=round(time.time() - t0, 1), violations=0)
    rc = 0
    if nfail or bad:
        rc = 1; ev['violations'] = len(nfail) + sum(len(r['failed']) for r in bad)
        with open(replay, 'w') as fh:
            fh.write('property %s\n' % pid)
            for n, f in nfail[:20]:
                fh.write('FAILING INPUT (real code, driver %s): %s\n' % (n.get('cmd', n['name']), f))
            for r in bad:
                fh.write('\nFAILED OBLIGATIONS of unit %s (functions %s):\n' % (r['name'], ', '.join(r['functions'])))
                for x in r['failed'][:40]: fh.write('  ' + x + '\n')
                fh.write('command: %s\n' % r.get('cmd'))
                if r.get('trace'): fh.write('verifier counterexample (first failed obligation):\n' + r['trace'] + '\n')
            for n, f in nfail[:1]: fh.write('\ndriver output:\n' + n.get('tail', '') + '\n')
    with open(evf, 'w') as fh: json.dump(ev, fh, indent=1)
    for r in pres:
        print('unit %-28s %-8s %4d/%-4d %6.1fs %s' % (r['name'], r['status'], r['discharged'], r['obligations'], r['solver_s'], r.get('reason', '')[:300].replace('\n', ' ')))
        for x in r['failed'][:8]: print('     FAILED', x)
        if 'failed_under_lost_scaffold' in r:
            for x in r['failed_under_lost_scaffold'][:8]: print('     (undecided)', x)
    for n in allres:
        print('native %-26s %-8s cases=%d nontrivial=%d %ss %s' % (n['name'], n['status'], n['cases'], n['nontrivial'], n.get('wall_s'), n.get('reason', '')[:300].replace('\n', ' ')))
        for x in n['fails'][:6]: print('     ', x[:400])
    if und: print('note: %d unit(s) could not be decided by the verifier on this tree; bounded contract execution stood in' % len(und))
    print('wall %.1fs' % (time.time() - t0))
    if rc:
        rel = os.path.relpath(replay, VERIF)
        print('VIOLATION property=%s replay=%s%s' % (pid, rel, '' if nfail else ' no-failing-input-found'))
    sys.exit(rc)

main()
