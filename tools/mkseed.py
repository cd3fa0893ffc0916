#!/usr/bin/env python3
"""mkseed.py ID PROPERTY FILE OLD NEW NEEDS BREAKS DEMO.c : make /verif/seeded/ID and confirm it (build, tests, demo both ways, the property's check)."""
import sys, os, subprocess, json
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
def main(spec):
    d = '/verif/seeded/' + spec['id']; os.makedirs(d, exist_ok=True)
    open(d + '/demo.c', 'w').write(spec['demo'])
    open(d + '/demo.sh', 'w').write('''#!/bin/sh
# exit 0: the behaviour is right
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
%s -g -w %s -I code "$D/demo.c" -o "$T/demo" -lm -lpthread -ldl || exit 2
cd "$T" && timeout 60 ./demo
''' % (spec.get('cc', 'cc'), spec.get('cflags', '')))
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': spec['property'], 'needs': spec['needs'], 'what_it_breaks': spec['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    assert sh('git -C /repo status --porcelain').stdout == '', 'dirty /repo'
    r0 = sh(d + '/demo.sh', cwd='/repo')
    edits = spec['edits']
    try:
        for f, old, new in edits:
            p = '/repo/' + f; s = open(p).read(); assert s.count(old) == 1, (f, old, s.count(old)); open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        b = sh('bash /opt/vp/build.sh'); t = sh('bash /opt/vp/test.sh /tmp/seedtest.json')
        tj = json.load(open('/tmp/seedtest.json')); base = json.load(open('/opt/vp/BASELINE.json'))['stable']
        fails = [x for x in base if x not in tj['passed']]
        r1 = sh(d + '/demo.sh', cwd='/repo')
        c = sh('python3 /verif/run/check.py ' + spec['property'], cwd='/verif') if not os.environ.get('NOCHECK') else None
    finally:
        sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
    ok = r0.returncode == 0 and b.returncode == 0 and not fails and r1.returncode != 0
    print(spec['id'], 'VALID' if ok else 'INVALID', 'demo %d->%d build %d testfails %s' % (r0.returncode, r1.returncode, b.returncode, fails[:3]), (r0.stdout + r0.stderr)[-300:] if r0.returncode else '')
    if c: print('   ', 'CAUGHT' if c.returncode == 1 else 'MISSED rc=%d' % c.returncode, [l for l in c.stdout.splitlines() if 'VIOLATION' in l or 'failed' in l][:3])
if __name__ == '__main__':
    ns = {}
    exec(open(sys.argv[1]).read(), ns)
    want = sys.argv[2:]
    for s in ns['SEEDS']:
        if not want or s['id'] in want: main(s)
