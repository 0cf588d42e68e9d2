#!/usr/bin/env python3
"""Parses every specification with SANY and warms the compiled copies (checks do the same on demand)."""
import glob
import os
import subprocess
import sys
sys.dont_write_bytecode = True
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(H, 'tools'))
import tla2py  # noqa: E402
bad = 0
for f in sorted(glob.glob(os.path.join(H, 'spec', '*.tla'))):
    p = subprocess.run(['java', '-cp', tla2py.JAR + ':' + tla2py.CM, 'tla2sany.SANY', os.path.basename(f)], cwd=os.path.join(H, 'spec'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    ok = p.returncode == 0
    print(('ok   ' if ok else 'FAIL ') + os.path.basename(f))
    if not ok:
        bad = 1
        print(p.stdout.decode('utf-8', 'replace')[-800:])
sys.exit(bad)
