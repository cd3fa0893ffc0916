#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, the units present and the tables below."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'run'))
import check
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
NA = json.load(open(os.path.join(V, 'tools', 'not_applicable.json')))
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H %s'], capture_output=True, text=True).stdout.splitlines()
hooks = [h.split()[0] for h in hooks if h.split(' ', 1)[1].startswith('hook:')]
checks = []
for p in props:
    us = check.load_units(p['id'])
    us = [u for u in us if u.kind != 'finding']
    if not us or p['id'] in NA: continue
    c = [u for u in us if u.kind == 'contract' and u.get('tier') != 'thorough']; f = [u for u in us if u.kind == 'full']; b = [u for u in us if u.kind == 'bounded']
    fn = sorted(set(u.get('target') for u in c if u.get('target')))
    se = [u for u in us if u.kind == "search"]
    level = 'proof' if len(c) + len(f) >= len(b) else 'other'
    note = []
    if fn: note.append('under contract, unbounded (loop invariants): ' + ', '.join(fn))
    if f: note.append('loop-free or completely unwound over the full input domain: ' + ', '.join(u.get('about', u.name) for u in f))
    if b: note.append('BOUNDED stand-ins, not counted as proved: ' + '; '.join('%s (%s)' % (u.get('about', u.name), u.get('bound', '')) for u in b))
    if se: note.append('searched natively within a bound, not counted as proved: ' + '; '.join('%s (%s)' % (u.get('about', u.name), u.get('bound', '')) for u in se))
    checks.append(dict(property=p['id'], quick_cmd='python3 run/check.py %s' % p['id'], thorough_cmd='python3 run/check.py %s --tier thorough' % p['id'],
        evidence_file='evidence/%s.json' % p['id'],
        technique=('contract-based deductive verification of the real C code: CBMC code contracts (goto-instrument --dfcc), loop invariants and ghost state, discharged by SAT/SMT' if c or f else
                   'contract assertions on the real C code decided by CBMC up to a stated bound (bounded stand-in)' if b else
                   'executable pre/postconditions on the real C code, explored natively within a stated bound (bounded stand-in, nothing proved)') + ('; bounded stand-ins for ' + str(len(b)) + ' unit(s)' if b and (c or f) else ''),
        level=level, level_note='. '.join(note)[:3000]))
m = dict(version=1, setup_cmd='python3 run/setup.py', hooks=dict(guard='ZPL_VERIFY', enable='goto-cc -DZPL_VERIFY -DVZ_CBMC -I /verif/lib -I /repo/code (lib/annot.h gives the anchors their loop contracts and ghost statements)', source_commits=hooks),
    checks=checks, not_applicable=[dict(property=p['id'], reason=NA.get(p['id'], 'no check built yet')) for p in props if p['id'] not in [c['property'] for c in checks]])
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks;', len(m['not_applicable']), 'not applicable')
