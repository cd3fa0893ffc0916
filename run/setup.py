#!/usr/bin/env python3
"""setup: nothing to build; make sure the tools the checks use are there."""
import shutil, sys, os
os.makedirs(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'evidence'), exist_ok=True)
missing = [t for t in ('goto-cc', 'goto-instrument', 'cbmc', 'clang', 'z3', 'cvc5') if not shutil.which(t)]
print('missing: ' + ' '.join(missing) if missing else 'ok'); sys.exit(1 if missing else 0)
