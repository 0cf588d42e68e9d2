#!/usr/bin/env python3
"""Development tool (not a check): for each planted bug of /verif/seeded, or the named ones, confirms in a scratch
copy of /repo that the patch applies, the tests pass, the demonstration tells the trees apart, and which checks catch it.
usage: seeded.py [--nocheck] [--all-checks] [id ...]"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.path.join(H, 'seeded')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONUTF8='1', PYTHONHASHSEED='0', TZ='UTC')


def sh(cmd, cwd, env=ENV, timeout=1200):
    return subprocess.run(cmd, cwd=cwd, env=env, capture_output=True, text=True, timeout=timeout)


def own_lines():
    """lines added by our own commits, per file"""
    root = subprocess.run(['git', '-C', '/repo', 'rev-list', '--max-parents=0', 'HEAD'], capture_output=True, text=True).stdout.split()
    return root


def one(name, nocheck, more):
    d = os.path.join(S, name)
    meta = json.load(open(os.path.join(d, 'meta.json'), encoding='utf-8'))
    t = tempfile.mkdtemp(prefix='plant-')
    try:
        repo = os.path.join(t, 'repo')
        shutil.copytree('/repo', repo, ignore=shutil.ignore_patterns('__pycache__'))
        demo = os.path.join(t, 'demo')
        shutil.copytree(d, demo, ignore=shutil.ignore_patterns('*.diff', '*.patch', 'meta.json'))
        clean = sh(['bash', os.path.join(demo, 'demo.sh')], repo, timeout=300)
        ap = sh(['git', 'apply', os.path.join(d, 'patch.diff')], repo)
        if ap.returncode:
            return name, 'PATCH DOES NOT APPLY ' + ap.stderr[:300]
        # planted lines must be lines of the original
        base = sh(['git', 'rev-parse', os.environ.get('BASE', 'ea15b86')], repo).stdout.strip()
        ours = []
        for l in sh(['git', 'diff', '-U0'], repo).stdout.splitlines():
            if l.startswith('--- a/'):
                f = l[6:]
            elif l.startswith('@@'):
                r = l.split()[1][1:].split(',')
                a, n = int(r[0]), int(r[1]) if len(r) > 1 else 1
                if n:
                    b = sh(['git', 'blame', '-l', '-L', '%d,+%d' % (a, n), 'HEAD', base + '..HEAD', '--', f], repo)
                    b = sh(['git', 'blame', '-l', '-L', '%d,+%d' % (a, n), 'HEAD', '--', f], repo)
                    for x in b.stdout.splitlines():
                        h = x.split()[0].lstrip('^')
                        if sh(['git', 'merge-base', '--is-ancestor', h, base], repo).returncode:
                            ours.append(x[:60])
        tests = sh(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--rootdir=' + repo, '-o', 'python_files=*Test.py test_*.py *_test.py', 'test'], repo)
        bug = sh(['bash', os.path.join(demo, 'demo.sh')], repo, timeout=300)
        out = ['tests ok' if tests.returncode == 0 else 'TESTS FAIL ' + tests.stdout[-200:], 'demo ok' if clean.returncode == 0 and bug.returncode else 'DEMO BAD clean=%d bug=%d %s' % (clean.returncode, bug.returncode, (clean.stdout + clean.stderr + bug.stdout)[-300:])]
        if ours:
            out.append('OWN LINES ' + ours[0])
        if not nocheck:
            for c in [meta['property']] + [c for c in more if c != meta['property']]:
                r = sh([sys.executable, 'check.py', c], H, env=dict(os.environ, VERIF_REPO=repo))
                v = [l for l in r.stdout.splitlines() if l.startswith('VIOLATION property=' + c)]
                out.append('%s %s' % (c, 'CAUGHT' if r.returncode == 1 and v else 'MISSED rc=%d %s' % (r.returncode, (r.stdout + r.stderr)[-300:] if r.returncode > 1 else '')))
        return name, '; '.join(out)
    finally:
        shutil.rmtree(t)


def main():
    a = sys.argv[1:]
    nocheck = '--nocheck' in a
    more = []
    if '--all-checks' in a:
        more = ['C%02d' % i for i in range(1, 26)]
    names = [x for x in a if not x.startswith('--')] or sorted(os.listdir(S))
    with ThreadPoolExecutor(8 if nocheck else 2) as ex:
        for n, r in ex.map(lambda n: one(n, nocheck, more), names):
            print(n, json.load(open(os.path.join(S, n, 'meta.json')))['property'], r, flush=True)


main()
