#!/usr/bin/env python3
"""Writes spec/data/advice.json: the almanac's advice tables of the base release, decoded here (not by the library).
usage: mkadvice.py BASE   (a tree of the base release)"""
import json
import os
import re
import sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
from lunar_python.util import LunarUtil as U  # noqa: E402


def hx(s):
    assert len(s) % 2 == 0
    return [int(s[i:i + 2], 16) + 1 for i in range(0, len(s), 2)]        # TLA+ sequences start at 1


def segs(text, width, colon):
    rx = r'([0-9A-F]{%d})=' % width + ('([0-9A-F]*):' if colon else '()') + r'([0-9A-F]*),([0-9A-F]*?)(?=[0-9A-F]{%d}=|$)' % width
    q = re.findall(rx, text)
    assert sum(len(k) + 1 + len(m) + colon + len(a) + 1 + len(b) for k, m, a, b in q) == len(text)
    return q


day = [[None] * 60 for _ in range(60)]
for k, ms, a, b in segs(U._LunarUtil__DAY_YI_JI, 2, 1):
    for m in hx(ms):
        assert day[m - 1][int(k, 16)] is None
        day[m - 1][int(k, 16)] = [hx(a), hx(b)]
time = [[None] * 12 for _ in range(60)]
for k, _, a, b in segs(U._LunarUtil__TIME_YI_JI, 4, 0):
    d, h = int(k[:2], 16), int(k[2:], 16)
    assert time[d][h % 12] is None and h == (d % 10 * 12 + h % 12) % 60
    time[d][h % 12] = [hx(a), hx(b)]
spirit = [[None] * 60 for _ in range(12)]
for k, _, a, b in segs(U._LunarUtil__DAY_SHEN_SHA, 3, 0):
    m, d = int(k[0], 16), int(k[1:], 16)
    assert spirit[m - 1][d] is None
    a = list(dict.fromkeys(hx(a)))          # one spirit is listed twice in the release (month 8, day 9): repaired
    spirit[m - 1][d] = [a, hx(b)]
for t in (day, time, spirit):
    assert all(x is not None for r in t for x in r)
json.dump({'acts': U._LunarUtil__YI_JI, 'spirits': U._LunarUtil__SHEN_SHA, 'day': day, 'time': time, 'spirit': spirit},
          open(os.path.join(H, 'spec/data/advice.json'), 'w', encoding='utf-8'), ensure_ascii=False, separators=(',', ':'))
