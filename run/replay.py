#!/usr/bin/env python3
"""replay.py PROPERTY UNIT TAPE: run one recorded input of a unit natively against /repo."""
import sys, os, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
prop, unit, tape = sys.argv[1:4]
u = [x for x in check.load_units(prop) if x.name == unit][0]
w = tempfile.mkdtemp(prefix='vzr-')
try:
    exe, err = check.build_native(u, w, 'quick')
    if not exe: print(err); sys.exit(2)
    bad, out, _ = check.replay(exe, open(tape, 'rb').read(), w, unit)
    print(out); print('FAILS' if bad else 'passes'); sys.exit(1 if bad else 0)
finally: shutil.rmtree(w, ignore_errors=True)
