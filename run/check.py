#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--unit NAME ...] [-v]

Decides one property: every unit of /verif/units/PROPERTY is compiled from the current
/repo tree and handed to the verifier; see DESIGN.md ("How a unit is decided").
Exit 0: held.  Exit 1: a VIOLATION line was printed."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, shlex, signal
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VZ_REPO', '/repo')
INC = ['-I', os.path.join(VERIF, 'lib'), '-I', os.path.join(REPO, 'code')]
JOBS = int(os.environ.get('VZ_JOBS', '7'))
MEM_KB = 9 * 1024 * 1024
T0 = time.time()
BUDGET = float(os.environ.get('VZ_BUDGET', '780'))   # leave room below the 900 s limit

def left():
    return BUDGET - (time.time() - T0)

class Unit:
    def __init__(self, prop, src, name, opts):
        self.prop, self.src, self.name, self.o = prop, src, name, opts
        self.kind = opts['kind']
    def get(self, k, d=None): return self.o.get(k, d)
    def geti(self, k, d): return int(self.o.get(k, d))

def write_anchors(work):
    """every verification anchor in the current tree that the unit gives no annotation for expands to nothing"""
    names = set()
    for d, _, fs in os.walk(os.path.join(REPO, 'code')):
        for f in fs:
            if f.endswith(('.c', '.h')):
                t = open(os.path.join(d, f), errors='replace').read()
                names |= set(re.findall(r'ZPL_VERIFY_(LOOP|GHOST)\(\s*(\w+)', t))
    with open(os.path.join(work, 'vz_anchors.h'), 'w') as o:
        for k, n in sorted(names):
            m = ('ZVL_' if k == 'LOOP' else 'ZVG_') + n
            o.write('#ifndef %s\n#define %s(...)\n#endif\n' % (m, m))

def load_units(prop):
    us = []
    for src in sorted(glob.glob(os.path.join(VERIF, 'units', prop, '*.c'))):
        for line in open(src):
            m = re.match(r'//@unit\s+(\S+)\s+(.*)', line)
            if m:
                opts = dict(t.split('=', 1) for t in shlex.split(m.group(2)))
                us.append(Unit(prop, src, m.group(1), opts))
    return us

import threading
SLOTS = threading.BoundedSemaphore(int(os.environ.get('VZ_SLOTS', '8')))   # concurrent solver runs

def run(cmd, timeout, **kw):
    if cmd[0] != 'cbmc': return run1(cmd, timeout, **kw)
    with SLOTS: return run1(cmd, timeout, **kw)

def run1(cmd, timeout, cwd=None, env=None, mem=True, out=None):
    """-> (rc, output); rc None on timeout; the whole process group is ended."""
    def pre():
        os.setsid()
        if mem:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (MEM_KB * 1024, MEM_KB * 1024))
    timeout = max(1.0, min(timeout, left() + 60))
    with tempfile.TemporaryFile() as f:
        p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL,
                             cwd=cwd, env=env, preexec_fn=pre)
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = None
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
        f.seek(0)
        return rc, f.read().decode('utf-8', 'replace')

def defs(u, tier, n=None):
    d = ['-DU_' + u.name]
    for m in filter(None, u.get('mods', '').split(',')): d.append('-DVZ_MODS_' + m)
    if u.get('nocore'): d.append('-DVZ_NO_CORE')
    for x in filter(None, u.get('def', '').split(',')): d.append('-D' + x)
    nn = u.get('tn') if (tier == 'thorough' and u.get('tn')) else u.get('n')
    if n is not None: nn = n
    if nn: d.append('-DVZ_N=' + str(nn))
    return d

LINE = re.compile(r'^\[([^\]]*)\] (?:file \S+ )?(?:line (\d+) )?(.*): (SUCCESS|FAILURE|ERROR|UNKNOWN)\s*$', re.M)

def parse(out):
    """-> list of (id, line, description, status)"""
    return [(m.group(1), m.group(2), m.group(3), m.group(4)) for m in LINE.finditer(out)]

def solver_flags(u, which=None):
    s = which or u.get('solver', 'cadical')
    if s in ('cadical', 'minisat2'): return ['--sat-solver', s]
    return ['--' + s]

def cbmc_flags(u, mode, tier):
    f = ['--drop-unused-functions']
    f += [('--' + x) for x in filter(None, u.get('flags', '').split(','))]
    if mode == 'proof':
        f += ['--unwind', u.get('unwind', '9')]
        if u.get('unwindset'): f += ['--unwindset', u.get('unwindset')]
    else:
        key = 'unwind' if u.kind != 'contract' else 'bunwind'
        w = u.get('t' + key) if (tier == 'thorough' and u.get('t' + key)) else u.get(key, '12')
        f += ['--unwind', w]
        ws = u.get('bunwindset') or (u.get('unwindset') if u.kind != 'contract' else None)
        if ws: f += ['--unwindset', ws]
    if mode != 'proof' or u.get('objbits'): f += ['--object-bits', u.get('objbits', '10')]
    return f

def build_goto(u, mode, work, tier, extra=()):
    gb = os.path.join(work, '%s.%s.gb' % (u.name, mode))
    cmd = ['goto-cc', '-DVZ_CBMC'] + defs(u, tier) + list(extra) + INC + ['-I', os.path.dirname(work), '-I', os.path.dirname(u.src)]
    if mode == 'proof': cmd += ['-DVZ_PROOF', '-DZPL_VERIFY', '--function', 'vz_proof']
    else: cmd += ['--function', 'vz_test']
    cmd += [u.src, '-o', gb]
    rc, out = run(cmd, 120)
    if rc != 0: return None, 'goto-cc: ' + out[-3000:]
    if mode == 'proof' or u.kind in ('full', 'bounded'):
        if u.get('fp'):   # every call through a function pointer named here goes to the harness's own (most general) procedure
            rc, out = run(['goto-instrument'] + sum((['--restrict-function-pointer', x.replace('+', ',')] for x in u.get('fp').split(',')), []) + [gb, gb + 'r'], 100)
            if rc != 0: return None, 'goto-instrument: ' + out[-1500:]
            gb = gb + 'r'
        if u.get('calls'):   # calls of f inside the code go to the harness's statement of f's contract (proved by the unit that says so)
            for x in u.get('calls').split(','):   # in order: vz_target:f at the end lets the harness itself call the real f
                rc, out = run(['goto-instrument', '--replace-calls', x, gb, gb + 'c'], 100)
                if rc != 0: return None, 'goto-instrument: ' + out[-1500:]
                gb = gb + 'c'
    if mode == 'proof':
        gb2 = gb + '2'
        if u.get('contract') or u.get('dfcc'):
            gi = ['goto-instrument', '--dfcc', 'vz_proof']
            if u.get('contract'): gi += ['--enforce-contract', u.get('target') + '/' + u.get('contract')]
        else:
            rc, out = run(['goto-instrument', '--drop-unused-functions', gb, gb + 'd'], 100)
            if rc != 0: return None, 'goto-instrument: ' + out[-1500:]
            gb = gb + 'd'; gi = ['goto-instrument']
        for r in filter(None, u.get('replace', '').split(',')): gi += ['--replace-call-with-contract', r]
        if u.get('loops', '1') == '1': gi += ['--apply-loop-contracts']
        gi += [('--' + x) for x in filter(None, u.get('gi', '').split(','))]
        gi += [gb, gb2]
        rc, out = run(gi, 200)
        if rc != 0 or 'not side-effect free' in out: return None, 'goto-instrument: ' + out[-3000:]
        gb = gb2
    elif u.get('each') and not u.get('gi'):
        rc, out = run(['goto-instrument', '--drop-unused-functions', gb, gb + 'd'], 100)
        if rc != 0: return None, 'goto-instrument: ' + out[-1500:]
        gb = gb + 'd'
    elif u.get('gi'):
        gb2 = gb + '2'
        rc, out = run(['goto-instrument'] + [('--' + x) for x in u.get('gi').split(',')] + [gb, gb2], 200)
        if rc != 0: return None, 'goto-instrument: ' + out[-3000:]
        gb = gb2
    return gb, ''

# back ends driven through the exported SMT-LIB query (unsat: the obligation and the unwinding assertions it needs hold)
EXT = {'cvc5int': ['cvc5', '--solve-bv-as-int=sum'], 'z3new': ['z3-new']}
def ext_query(base, sv, p, gb, timeout):
    f = '%s.%s.%s.smt2' % (gb, re.sub(r'\W', '_', p), sv)
    rc, out = run(base + ['--slice-formula', '--property', p, '--cvc5' if 'cvc5' in sv else '--z3', '--outfile', f, gb], timeout)
    if rc is None or rc not in (0, 10): return rc, out
    if 'VERIFICATION SUCCESSFUL' in out or not os.path.exists(f): return rc, out      # discharged before a solver was needed
    t = time.time()
    with SLOTS: rc, o = run1(EXT[sv] + [f], timeout)
    try: os.unlink(f)
    except OSError: pass
    m = re.search(r'^(unsat|sat)\s*$', o or '', re.M)
    if rc is None or not m: return None, o
    return (0 if m.group(1) == 'unsat' else 10), '[%s] %s: %s\nRuntime decision procedure: %.2fs\n' % (p, 'obligation', 'SUCCESS' if m.group(1) == 'unsat' else 'FAILURE', time.time() - t)

class Res:
    """outcome of one verifier run"""
    def __init__(self): self.status = 'tool'; self.note = ''; self.obl = 0; self.ok = 0; self.failed = []; self.unwind = []; self.reach = 0; self.time = 0.0; self.solver = ''

def verify(u, mode, work, tier, timeout):
    r = Res(); t = time.time()
    gb, err = build_goto(u, mode, work, tier)
    if gb is None: r.note = err; return r
    cmd = ['cbmc'] + cbmc_flags(u, mode, tier) + solver_flags(u) + [gb]
    r.cmd = ' '.join(cmd); r.solver = u.get('solver', 'cadical')
    sel = None
    if (mode == 'proof' or u.kind == 'full') and (u.get('only') or u.get('skip') or u.get('each')):
        rc, out = run(['cbmc', '--show-properties', '--json-ui', gb], 60)
        try: props = [p for e in json.loads(out) for p in e.get('properties', [])]
        except ValueError: r.note = 'show-properties: ' + out[-500:]; return r
        keep = lambda p: p.get('description', '').startswith('REACH') or ((not u.get('only') or re.search(u.get('only'), p['name'])) and (not u.get('skip') or not re.search(u.get('skip'), p['name'])))
        sel = [p['name'] for p in props if keep(p)]
    if u.get('each') and (mode == 'proof' or u.kind == 'full'):
        desc = {p['name']: p.get('description', '') for p in props}
        # one query per obligation matching each= (its own unwinding assertions come with it), the others in one batch;
        # a query undecided by the first solver of esolver= within its share goes to the next one
        single = [p['name'] for p in props if p['name'] in set(sel) and (u.get('each') == '1' or re.search(u.get('each'), p['name']))]
        batch = [p for p in sel if p not in set(single)]
        solvers = (u.get('esolver') or u.get('solver', 'cadical')).split(',')
        base = ['cbmc'] + cbmc_flags(u, mode, tier)
        def query(p):
            best = (None, '')
            for k, sv in enumerate(solvers):
                last = k == len(solvers) - 1
                tq = timeout if last else u.geti('etimeout', 40)
                if sv in EXT: rc, out = ext_query(base, sv, p, gb, tq)
                else: rc, out = run(base + solver_flags(u, sv) + ['--slice-formula', '--property', p, gb], tq)
                if rc is not None and 'property %s unknown' % p in out: return 0, ''   # library function not linked for this query
                if rc in (0, 10) and not any(x[3] in ('ERROR', 'UNKNOWN') for x in parse(out)): return rc, out
                if best[0] is None: best = (rc, out)
            return best
        def rest(_):
            todo = list(batch)
            while todo:
                rc, out = run(cmd[:-1] + sum((['--property', p] for p in todo), []) + [gb], timeout)
                m = re.search(r'property (\S+) unknown', out) if rc is not None else None
                if not m or m.group(1) not in todo: return rc, out
                todo.remove(m.group(1))
            return 0, ''
        with ThreadPoolExecutor(5) as ex:
            fb = ex.submit(rest, 0); outs = list(ex.map(query, single)); outs.append(fb.result())
        r.time = time.time() - t
        names = single + ['batch']
        if any(rc is None for rc, _ in outs): r.note = 'timeout on ' + ','.join(p for p, (rc, _) in zip(names, outs) if rc is None); return r
        if any(rc not in (0, 10) for rc, _ in outs): r.note = [p + ': ' + o for p, (rc, o) in zip(names, outs) if rc not in (0, 10)][0][-800:]; return r
        outs = [(rc, o.replace('[%s] obligation:' % p, '[%s] %s:' % (p, desc.get(p, p)))) for p, (rc, o) in zip(names, outs)]
        out = '\n'.join(o for _, o in outs); rc = 0
        r.solver = '+'.join(solvers) + (' (one query each)' if not batch else ' (one query each), ' + u.get('solver', 'cadical') + ' (batch)')
        r.solver_time = sum(float(x) for x in re.findall(r'Runtime decision procedure: ([\d.]+)s', out))
    else:
        if sel is not None: cmd = cmd[:-1] + sum((['--property', p] for p in sel), []) + [gb]
        rc, out = run(cmd, timeout)
        r.time = time.time() - t
        m = re.search(r'Runtime decision procedure: ([\d.]+)s', out)
        if m: r.solver_time = float(m.group(1))
    if rc is None: r.note = 'timeout after %ds' % timeout; return r
    if rc not in (0, 10):
        r.note = 'cbmc rc=%s: %s' % (rc, out[-1500:]); return r
    ps = parse(out)
    for pid, line, desc, st in ps:
        if desc.startswith('REACH:'):
            if st == 'FAILURE': r.reach += 1
            else: r.reach -= 1000
            continue
        r.obl += 1
        if st == 'SUCCESS': r.ok += 1
        elif 'unwinding assertion' in desc or 'recursion unwinding' in desc: r.unwind.append('[%s] line %s %s' % (pid, line, desc))
        elif st == 'FAILURE': r.failed.append('[%s] line %s %s' % (pid, line, desc))
        else: r.note += '[%s] %s: %s; ' % (pid, desc, st)
    r.out = out
    if r.failed: r.status = 'failed'
    elif r.unwind: r.status = 'unwind'
    elif r.note or 'ignoring forall' in out or 'ignoring exists' in out: r.status = 'tool'; r.note = r.note or 'quantifier dropped'
    elif r.obl == 0: r.status = 'tool'; r.note = 'no obligations'
    elif r.reach <= 0: r.status = 'vacuous'; r.note = 'reachability witness not reached'
    else: r.status = 'ok'
    return r

# ---- counterexamples ---------------------------------------------------------------
def tape_from_cbmc(u, work, tier, timeout):
    gb, err = build_goto(u, 'bounded', work, tier, ['-DVZ_NOREACH'])
    if gb is None: return None, err
    cmd = ['cbmc'] + cbmc_flags(u, 'bounded', tier) + solver_flags(u) + ['--no-unwinding-assertions', '--stop-on-fail', '--trace', '--json-ui', gb]
    rc, out = run(cmd, timeout)
    if rc != 10: return None, 'no counterexample (rc=%s)' % rc
    try: js = json.loads(out)
    except ValueError: return None, 'unparsable trace'
    tape = b''; what = ''
    for e in js:
        tr = e.get('trace')
        if not tr: continue
        for st in tr:
            if st.get('stepType') == 'assignment':
                m = re.match(r'vz_in([1248])$', str(st.get('lhs', '')))
                if m and st.get('sourceLocation', {}).get('function', '').startswith('vz_'):
                    w = int(m.group(1)); b = st['value'].get('binary')
                    v = int(b, 2) if b else int(re.sub(r'[uUlL]+$', '', st['value'].get('data', '0')) or 0) & ((1 << 64) - 1)
                    tape += (v & ((1 << (8*w)) - 1)).to_bytes(w, 'little')
            elif st.get('stepType') == 'failure': what = st.get('reason', '')
    return tape, what

SAN = ['-fsanitize=fuzzer,address,undefined', '-fno-sanitize-recover=all',
       '-fno-sanitize=alignment,function,pointer-overflow,nonnull-attribute,shift-base']
NENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1:abort_on_error=0:handle_segv=1', UBSAN_OPTIONS='print_stacktrace=1')

def build_native(u, work, tier):
    exe = os.path.join(work, u.name + '.fz')
    cmd = ['clang', '-std=gnu11', '-g', '-O1', '-w', '-fno-omit-frame-pointer'] + SAN + defs(u, tier) + INC
    cmd += [x for x in shlex.split(u.get('nat', ''))]
    cmd += [u.src, os.path.join(VERIF, 'lib', 'native.c'), '-o', exe, '-lm', '-lpthread', '-ldl']
    rc, out = run(cmd, 200, mem=False)
    return (exe if rc == 0 else None), out[-2000:]

def replay(exe, tape, work, name):
    f = os.path.join(work, name + '.tape'); open(f, 'wb').write(tape)
    rc, out = run([exe, '-timeout=10', '-rss_limit_mb=6000', f], 40, cwd=work, env=NENV, mem=False)
    return (rc != 0), out, f

def fuzz(u, exe, work, secs, seed, seeds=()):
    """libFuzzer search for a failing input of the same harness; -> (tape, output) or None"""
    procs = []; nproc = 2
    for k in range(nproc):
        d = os.path.join(work, '%s.fz%d' % (u.name, k)); os.makedirs(d, exist_ok=True)
        for i, s in enumerate(seeds): open(os.path.join(d, 'seed%d' % i), 'wb').write(s)
        a = os.path.join(d, 'crash-'); lg = open(os.path.join(work, '%s.fz%d.log' % (u.name, k)), 'w')
        p = subprocess.Popen([exe, '-max_total_time=%d' % secs, '-timeout=10', '-rss_limit_mb=5000', '-max_len=%s' % u.get('maxlen', '2048'),
                              '-seed=%d' % (seed * 101 + k + 1), '-use_value_profile=1', '-artifact_prefix=' + a, d],
                             stdout=lg, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, cwd=work, env=NENV, preexec_fn=os.setsid)
        procs.append((p, d, lg.name))
    end = time.time() + secs + 25; hit = None
    while time.time() < end and any(p.poll() is None for p, _, _ in procs) and not hit:
        time.sleep(0.3)
        for p, d, lg in procs:
            if p.poll() not in (None, 0):
                c = [x for x in glob.glob(os.path.join(d, 'crash-*')) if 'slow-unit' not in x]
                if c: hit = (open(c[0], 'rb').read(), open(lg, errors='replace').read()[-6000:])
    for p, _, _ in procs:
        try: os.killpg(p.pid, signal.SIGKILL)
        except OSError: pass
        p.wait()
    if not hit:
        for p, d, lg in procs:
            c = [x for x in glob.glob(os.path.join(d, 'crash-*')) if 'slow-unit' not in x]
            if c: hit = (open(c[0], 'rb').read(), open(lg, errors='replace').read()[-6000:])
    return hit

def find_witness(u, work, tier, seed, log, try_cbmc=True, secs=None):
    """-> dict(tape, how, output) or None"""
    if u.get('native', '1') == '0':
        if try_cbmc:
            tape, what = tape_from_cbmc(u, work, tier, min(300, left()))
            if tape is not None: return dict(tape=tape, how='verifier counterexample (not replayable natively: %s)' % u.get('native_why', 'see unit'), output=what)
        return None
    exe, err = build_native(u, work, tier)
    if not exe: log.append('native build failed: ' + err[:300]); return None
    seeds = []
    if try_cbmc:
        tape, what = tape_from_cbmc(u, work, tier, min(200, left()))
        if tape is not None:
            bad, out, f = replay(exe, tape, work, u.name)
            if bad: return dict(tape=tape, how='verifier counterexample replayed against the real code', output=what + '\n' + out[-6000:])
            log.append('verifier counterexample did not fail natively: ' + what); seeds.append(tape)
        else: log.append('bounded search: ' + what)
    secs = secs or min(float(u.get('fuzz', '45')), max(5, left() - 20))
    hit = fuzz(u, exe, work, int(secs), seed, seeds)
    if hit:
        bad, out, f = replay(exe, hit[0], work, u.name)
        if bad: return dict(tape=hit[0], how='search for a failing input of the failed obligation, replayed against the real code', output=out[-6000:])
    return None

# ---- deciding one unit ----------------------------------------------------------------
def decide(u, work, tier, seed):
    r = dict(unit=u.name, kind=u.kind, target=u.get('target', ''), status='', obl=0, ok=0, time=0.0, note='', log=[])
    tmo = u.geti('ttimeout' if tier == 'thorough' and u.get('ttimeout') else 'timeout', 300)
    if u.kind == 'finding':
        x = verify(u, 'bounded', work, tier, tmo)
        exp = u.get('expect', '')
        r['status'] = 'finding' if x.status == 'failed' and any(exp in f for f in x.failed) else 'finding-gone'
        r['note'] = x.note; r['time'] = x.time; r['finding'] = u.get('finding', ''); return r
    if u.kind == 'search':   # native search for a failing history or input of the harness: never counted as proved
        secs = u.geti('search', 10) * (6 if tier == 'thorough' else 1); t = time.time()
        with SLOTS, SLOTS: w = find_witness(u, work, tier, seed, r['log'], try_cbmc=False, secs=min(secs, max(5, left() - 20)))
        r['searched'] = secs; r['time'] = time.time() - t
        r['status'] = 'violation' if w else 'undecided-bounded' if any('native build failed' in x for x in r['log']) else 'bounded-ok'; r['witness'] = w
        if r['status'] == 'undecided-bounded': r['note'] = r['log'][-1]; print('NOT EXPLORED: %s: %s' % (u.name, r['note'][:300]))
        if w: r['failed'] = ['the harness fails natively']
        return r
    mode = 'proof' if u.kind == 'contract' else 'bounded'
    x = verify(u, mode, work, tier, tmo)
    r['time'] = x.time; r['obl'] = x.obl; r['ok'] = x.ok; r['solver'] = x.solver; r['note'] = x.note; r['cmd'] = getattr(x, 'cmd', '')
    r['solver_time'] = getattr(x, 'solver_time', 0.0)
    if x.status == 'ok':
        r['status'] = 'proved' if u.kind in ('contract', 'full') else 'bounded-ok'
        if u.get('search') and u.get('native', '1') != '0':   # beyond the bound: search for a failing input of the same harness
            secs = u.geti('search', 0) * (6 if tier == 'thorough' else 1)
            w = find_witness(u, work, tier, seed, r['log'], try_cbmc=False, secs=min(secs, max(5, left() - 20)))
            r['searched'] = secs
            if w: r['status'] = 'violation'; r['witness'] = w; r['failed'] = ['statement of the harness fails natively beyond the bound']
        return r
    r['failed'] = x.failed[:20]; r['unwound'] = x.unwind[:10]
    r['first'] = x.status; r['verifier_output'] = getattr(x, 'out', x.note)[-200000:]
    if x.status == 'failed':
        w = find_witness(u, work, tier, seed, r['log'])
        r['status'] = 'violation' if w else 'violation-nowit'; r['witness'] = w; return r
    # the verifier could not decide (changed shape of the code, lost annotation, timeout):
    # fall back to the bounded stand-in of the same statement, labelled bounded
    if u.kind == 'contract' and u.get('standin', '1') != '0':
        y = verify(u, 'bounded', work, tier, min(tmo, 200))
        r['log'].append('proof undecided (%s: %s %s); bounded stand-in: %s %s %s' % (x.status, x.note[:600], x.unwind[:2], y.status, y.note[:300], y.unwind[:2]))
        r['time'] += y.time
        if y.status == 'failed':
            r['failed'] = y.failed[:20]; r['verifier_output'] = getattr(y, 'out', '')[-200000:]
            w = find_witness(u, work, tier, seed, r['log'])
            r['status'] = 'violation' if w else 'violation-nowit'; r['witness'] = w; return r
        if y.status == 'ok':
            r['bounded_obl'] = y.obl
        r['obl'] = 0; r['ok'] = 0
    w = find_witness(u, work, tier, seed, r['log'], try_cbmc=False, secs=min(30, max(5, left() - 20)))
    if w: r['status'] = 'violation'; r['witness'] = w; r['failed'] = r.get('failed') or ['(verifier undecided: %s)' % x.status]; return r
    if x.status == 'vacuous' and not (u.kind == 'contract' and u.get('standin', '1') != '0' and y.status == 'ok'):
        r['failed'] = ['the harness end is unreachable: the code under contract no longer returns']
        r['status'] = 'violation-nowit'; r['witness'] = None; return r
    r['status'] = 'undecided-bounded'
    return r

def main():
    args = sys.argv[1:]; prop = args[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in args: tier = args[args.index('--tier') + 1]
    global BUDGET
    if tier == 'thorough' and 'VZ_BUDGET' not in os.environ: BUDGET = 3 * 3600
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    verbose = '-v' in args
    only = args[args.index('--unit') + 1].split(',') if '--unit' in args else None
    units = [u for u in load_units(prop) if (not only or u.name in only)]
    units = [u for u in units if tier == 'thorough' or u.get('tier') != 'thorough']
    units.sort(key=lambda u: -u.geti('cost', 10))
    if not units: print('no units for', prop); sys.exit(2)
    work = tempfile.mkdtemp(prefix='vz-%s-' % prop); write_anchors(work)
    try:
        with ThreadPoolExecutor(JOBS) as ex:
            def one(u):
                d = os.path.join(work, u.name); os.makedirs(d, exist_ok=True)
                r = decide(u, d, tier, seed)
                if verbose: print('%-28s %-18s obl=%d/%d %.1fs %s %s %s' % (u.name, r['status'], r['ok'], r['obl'], r['time'], r['note'][-400:], '\n   '.join(r.get('failed', []) or []), r['log']), flush=True)
                return r
            res = list(ex.map(one, units))
    finally:
        if os.environ.get('VZ_KEEP'): print('work dir', work)
        else: shutil.rmtree(work, ignore_errors=True)
    code = report(prop, tier, seed, units, res, only)
    sys.exit(code)

TRUSTED = ['CBMC 6.11 (goto-cc C front end, goto-instrument --dfcc contract instrumentation, symbolic execution) and the SAT/SMT back end',
           'CBMC models of the C library (malloc/free/memcpy/memset/strlen...), LP64 little-endian x86-64 memory model; objects start at addresses with maximal alignment',
           'harness most-generality: the harness builds every state allowed by the precondition']

def report(prop, tier, seed, units, res, only):
    umap = {u.name: u for u in units}
    rdir = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rdir, exist_ok=True)
    proved = [r for r in res if r['status'] == 'proved']
    bounded = [r for r in res if r['status'] in ('bounded-ok', 'undecided-bounded')]
    viol = [r for r in res if r['status'].startswith('violation')]
    man = {}
    try:
        for c in json.load(open(os.path.join(VERIF, 'MANIFEST.json')))['checks']: man[c['property']] = c
    except Exception: pass
    level = man.get(prop, {}).get('level', 'other')
    contract_units = [r for r in proved if r['kind'] == 'contract']
    cov = dict(
        obligations=sum(r['obl'] for r in res if r['kind'] in ('contract', 'full')),
        discharged=sum(r['ok'] for r in proved),
        checker_cmd='python3 run/check.py %s' % prop,
        trusted_base=TRUSTED,
        functions_under_contract=sorted(set(r['target'] for r in contract_units if r['target'])),
        proved_units=[dict(unit=r['unit'], kind={'contract': 'function contract enforced, loops by invariant', 'full': 'loop-free or completely unwound, full input domain'}[r['kind']],
                           target=r['target'] or umap[r['unit']].get('about', ''), obligations=r['obl'], discharged=r['ok'], back_end=r.get('solver', ''), seconds=round(r['time'], 1), solver_seconds=r.get('solver_time', 0.0)) for r in proved],
        bounded_units=[dict(unit=r['unit'], bound=umap[r['unit']].get('bound', '') + (' (N=%s)' % (umap[r['unit']].get('tn') if tier == 'thorough' and umap[r['unit']].get('tn') else umap[r['unit']].get('n', ''))),
                            beyond_bound_search_s=r.get('searched', 0), checks_passed=r['ok'] or r.get('bounded_obl', 0), seconds=round(r['time'], 1), why='stand-in while the proof is undecided' if r['status'] == 'undecided-bounded' else 'bounded stand-in, not counted as proved',
                            log=r['log']) for r in bounded],
        solver_seconds=round(sum(r.get('solver_time', 0.0) or 0.0 for r in res), 1),
        explanation='Contracts discharged by the verifier for the units under proved_units (all inputs, all iterations); units under bounded_units were explored exhaustively only up to the stated bound and are not counted in obligations/discharged.')
    assum = []
    for u in units:
        if u.get('assume'): assum.append('%s: %s' % (u.name, u.get('assume')))
    afile = os.path.join(VERIF, 'units', prop, 'ASSUMPTIONS')
    if os.path.exists(afile): assum += [l.strip() for l in open(afile) if l.strip()]
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov, assumptions=assum, wall_s=round(time.time() - T0, 1), violations=len(viol))
    if not only:
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    # known findings: listed, never added to here
    known = []
    try: known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))) if k['property'] == prop and k['state'] == 'open']
    except Exception: pass
    for k in known:
        fs = [r for r in res if r['kind'] == 'finding' and r.get('finding') == k['id']]
        if not fs or any(r['status'] == 'finding' for r in fs): print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
        else: print('note: listed finding %s no longer reproduces' % k['id'])
    code = 0
    for r in sorted(viol, key=lambda r: r['status']):
        base = os.path.join(rdir, '%s-%s' % (prop, r['unit'])); path = base + '.txt'; w = r.get('witness')
        with open(path, 'w') as f:
            f.write('property: %s\nunit: %s (%s)\nfailed obligations:\n  %s\n' % (prop, r['unit'], umap[r['unit']].src, '\n  '.join(r.get('failed') or [])))
            f.write('log: %s\n' % '\n     '.join(r['log']))
            if w:
                open(base + '.tape', 'wb').write(w['tape'])
                f.write('how found: %s\ninput tape (bytes read by the harness in order): %s\nreplay: python3 %s/run/replay.py %s %s %s\n\n%s\n' % (w['how'], w['tape'].hex(), VERIF, prop, r['unit'], base + '.tape', w['output']))
            else: f.write('no failing input found; verifier output follows\n\n%s\n' % r.get('verifier_output', ''))
        for o in (r.get('failed') or [])[:5]: print('failed obligation: %s %s' % (r['unit'], o))
        print('VIOLATION property=%s replay=%s%s' % (prop, path, '' if w else ' no-failing-input-found'))
        code = 1
    print('%s: %d units, %d proved (%d obligations), %d bounded, %d violations, %.0fs' % (prop, len(res), len(proved), cov['discharged'], len(bounded), len(viol), time.time() - T0))
    for r in bounded:
        if r['status'] == 'undecided-bounded': print('note: %s undecided by proof, bounded stand-in used: %s' % (r['unit'], ' | '.join(r['log'])[:400] or r['note'][:300]))
    return code

if __name__ == '__main__': main()
