#!/usr/bin/env python3
"""Writes DESIGN.md: tools/design_head.md plus what properties.jsonl, the units, known_findings.json, not_applicable.json and tools/seed_results.json say."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, os.path.join(V, 'run'))
import check
P = [json.loads(l) for l in open(V + '/properties.jsonl')]; K = json.load(open(V + '/known_findings.json')); NA = json.load(open(V + '/tools/not_applicable.json'))
o = [open(V + '/tools/design_head.md').read(), '## Properties and how each is decided\n']
for p in P:
    o.append('### %s - %s\n' % (p['id'], p['title']))
    if p['id'] in NA: o.append('Not applicable: %s.\n' % NA[p['id']]); continue
    for u in check.load_units(p['id']):
        s = '* `%s` (%s%s)' % (u.name, u.kind, ', thorough tier' if u.get('tier') == 'thorough' else '')
        if u.get('about'): s += ': ' + u.get('about')
        if u.get('target'): s += '; under contract: ' + u.get('target').replace(',', ', ')
        if u.get('calls'): s += '; callee contracts assumed here: ' + ', '.join(x.split(':')[0] for x in u.get('calls').split(',') if not x.startswith('vz_'))
        if u.get('bound') and u.kind in ('bounded', 'search', 'finding'): s += '; bound: ' + u.get('bound')
        elif u.get('bound') and u.kind == 'contract': s += '; stand-in when the proof gives no answer: ' + u.get('bound')
        if u.get('assume'): s += '; assumed: ' + u.get('assume')
        o.append(s)
    for k in K:
        if k['property'] == p['id']: o.append('* %s' % (('KNOWN FINDING %s: ' % k['id'] if k['state'] == 'open' else '') + k['what']))
    o.append('')
o.append('## Planted bugs and the checks that catch them\n')
try: R = json.load(open(V + '/tools/seed_results.json'))
except Exception: R = {}
o.append('Four are kept in /verif/seeded; the others, confirmed in the same way, are in /verif/planted_more so that a vcheck run stays short.\n')
for S, d in sorted([(S, d) for S in ('seeded', 'planted_more') for d in os.listdir(V + '/' + S)], key=lambda x: x[1]):
    m = json.load(open('%s/%s/%s/meta.json' % (V, S, d))); o.append('* `%s` (%s): %s. Needs %s. %s' % (d, m['property'], m['what_it_breaks'], m['needs'], R.get(d, '')))
open(V + '/DESIGN.md', 'w').write('\n'.join(o) + '\n')
