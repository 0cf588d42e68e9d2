#!/usr/bin/env python3
"""Entry point of every check: python3 check.py <property id>"""
import importlib
import os
import sys

sys.dont_write_bytecode = True
sys.pycache_prefix = '/nonexistent/pycache'   # never read a stale compiled copy of the code under test
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'tools'))
sys.path.insert(0, os.path.join(H, 'checks'))
os.environ.setdefault('TZ', 'UTC')
os.environ.setdefault('PYTHONHASHSEED', '0')
if os.environ.get('PYTHONHASHSEED') != '0' or sys.flags.hash_randomization:
    os.environ['PYTHONHASHSEED'] = '0'
    if not os.environ.get('VERIF_REEXEC'):
        os.environ['VERIF_REEXEC'] = '1'
        os.execv(sys.executable, [sys.executable] + sys.argv)

if __name__ == '__main__':
    pid = sys.argv[1]
    import vlib
    m = importlib.import_module(pid.lower())
    vlib.main(pid, m.run, getattr(m, 'LEVEL', 'model_checking'))
