#!/usr/bin/env python3
"""dbg.py PROP UNIT [-b] [-t SECS] [-p REGEX (one query per matching obligation)] [-T (trace)] [cbmc flags...]: run one unit's verifier by hand"""
import sys, os, re, json, subprocess, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'run'))
import check as C
C.BUDGET = 1e9
a = sys.argv[1:]; prop, un = a[0], a[1]; a = a[2:]
NR = False; mode = 'proof'; tmo = 120; pr = None; tr = False; extra = []
while a:
    x = a.pop(0)
    if x == '-b': mode = 'bounded'
    elif x == '-t': tmo = int(a.pop(0))
    elif x == '-p': pr = a.pop(0)
    elif x == '-T': tr = True
    elif x == '-N': NR = True
    else: extra.append(x)
u = [u for u in C.load_units(prop) if u.name == un][0]
w = '/tmp/t/dbg-%s-%s' % (prop, un); os.makedirs(w, exist_ok=True); C.write_anchors('/tmp/t')
if u.kind != 'contract': mode = 'bounded'
gb, err = C.build_goto(u, mode, w, 'quick', ['-DVZ_NOREACH'] if tr or NR else [])
if not gb: print(err); sys.exit(1)
base = ['cbmc'] + C.cbmc_flags(u, mode, 'quick')
if not any(x.startswith('--z3') or x.startswith('--cvc5') or x.startswith('--sat') or x.startswith('--bitw') for x in extra): extra = C.solver_flags(u) + extra
def go(cmd):
    t = time.time(); rc, out = C.run(cmd, tmo); return rc, out, time.time() - t
if pr is None and not tr:
    rc, out, t = go(base + extra + [gb])
    open(w + '/out', 'w').write(out)
    print('rc', rc, '%.1fs' % t, out.strip().splitlines()[-1:] )
    for p in C.parse(out):
        if p[3] != 'SUCCESS': print(*p)
    if rc not in (0, 10): print(out[-1500:])
elif tr:
    rc, out, t = go(base + extra + ['--trace', '--stop-on-fail', '--no-unwinding-assertions'] + (['--property', pr] if pr else []) + [gb])
    open(w + '/trace', 'w').write(out); print('rc', rc, '%.1fs' % t); print(out[-6000:])
else:
    rc, out = C.run(['cbmc', '--show-properties', '--json-ui', gb], 60)
    ps = [p for e in json.loads(out) for p in e.get('properties', [])]
    ps = [p['name'] for p in ps if re.search(pr, p['name'])]
    from concurrent.futures import ThreadPoolExecutor
    def one(p): return p, go(base + extra + ['--slice-formula', '--property', p, gb])
    with ThreadPoolExecutor(4) as ex:
        for p, (rc, out, t) in ex.map(one, ps): print(p, 'rc', rc, '%.1fs' % t, [x[3] for x in C.parse(out) if x[0] == p], flush=True)
