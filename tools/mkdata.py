#!/usr/bin/env python3
"""One-off: writes spec/data/almanac.json, the astronomical data the specification takes as given
(new-moon days, civil days of the principal terms, instants of the 24 terms), from the release under test
(git archive of the base commit in /tmp/base) as dumped by tools/dump_base.py.  Not run by any check."""
import json
import pickle
from fractions import Fraction

r = {x[0]: x[1:] for x in pickle.load(open('/tmp/dump.pkl', 'rb'))}
moons = set()
for y in range(0, 10002):
    ms = r[y][0]
    moons |= {int(m[2]) for m in ms}
    moons.add(int(ms[-1][2]) + ms[-1][3])
moons = sorted(moons)
zq = [int(r[y][1][i]) for y in range(0, 10002) for i in range(0, 24, 2)]
tn, ts = [], []
for y in range(1, 10002):
    for i in range(0, 24 if y < 10001 else 31):
        sec = round((Fraction(r[y][2][i]) + Fraction(1, 2)) * 86400)
        n, s = divmod(sec, 86400)
        tn.append(n)
        ts.append(s)
json.dump({'moon': moons, 'zq': zq, 'tn': tn, 'ts': ts}, open('/verif/spec/data/almanac.json', 'w'), separators=(',', ':'))
print(len(moons), len(zq), len(tn))
