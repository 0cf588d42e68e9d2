"""Attributes of a date: moments sampled year by year, and walks of a date object (spec/DateMachine.tla)."""
import random

import c09
import civilobs as co
import lunarobs as lo
import termobs as to
from civilobs import mk
from lunar_python import Lunar
from tla2py import R
from vlib import call, judge


def ok_moment(n, s):
    return co.FIRST <= n <= co.LAST and to.clear(n, s) and to.clearday(n)


def days_of_year(a, y, rng, few, special=()):
    """days of a year: lunar month borders, term days, one of the days around the year's and February's ends, a random sample"""
    out = set()
    lo_, hi_ = max(co.FIRST, a.DN(y, 1, 1)), a.DN(y, 12, 31)
    f = a.FirstMoon(y)
    for _ in range(2):
        out.add(a.Moons[rng.randrange(f, a.FirstMoon(y + 1)) - 1] + rng.choice((-1, 0, 1)))
    for _ in range(2):
        out.add(a.TermN[a.TermIx(y, rng.randrange(0, 31)) - 1] + rng.choice((-1, 0, 1)))
    out |= {rng.randint(lo_, hi_) for _ in range(few)}
    out.add(a.DN(y, 1, 1) + rng.choice((0, 58, 59, 60, a.YearDays(y) - 1)))
    out |= set(special)
    if y == 1582:
        out |= set(range(a.DN(1582, 10, 1), a.DN(1582, 10, 31), 3))
    return [d for d in sorted(out) if lo_ <= d <= hi_]


def crowd(y, seed, every=3):
    """moments of a year that share all but one of the things an answer may rest on, in random order: the same day and time of
    a leap month and of its ordinary namesake, just before and just after a term, the same hour, day, day pillar, year pillar"""
    a = lo.api('LunarApi')
    rng = random.Random(seed * 977 + y)
    out = []

    def same(n, s):
        g = [(n, s)] + [(d, s) for d in a.Kin(n)] + [(n, s // 3600 * 3600 + rng.randrange(3600)), (n, rng.randrange(86400)), (n, (s + 43200) % 86400)]
        rng.shuffle(g)
        out.extend(g)
    if 1 < y < 9999 and (y + seed) % every == 0:
        same(rng.randint(a.DN(y, 1, 1), a.DN(y, 12, 31)), c09.rs(rng))
        t = to.api()
        k = t.TermIx(y, 3 if rng.random() < 0.4 else rng.randrange(0, 31))
        g = [t.MAdd(t.TermN[k - 1], t.TermS[k - 1], x) for x in (-4, 4)]
        d, s = t.TermN[k - 1], t.TermS[k - 1]
        g += [(d, s // 3600 * 3600 + rng.randrange(3600)) for _ in range(2)] + [(d, 5), (d, 86390)]
        rng.shuffle(g)
        out.extend(g)
    f, e = (a.FirstMoon(y), a.FirstMoon(y + 1)) if 1 < y < 9999 else (0, 0)
    for i in range(f, e):
        if a.Label(i)[1] < 0 and rng.random() < 1.8 / every:
            n = rng.randrange(a.Moons[i - 1], a.Moons[i])
            s = c09.rs(rng)
            g = [(n, s)] + [(d, s) for d in a.Kin(n)]
            rng.shuffle(g)
            out.extend(g)
    return [(n, s) for n, s in out if ok_moment(n, s)]


class Job:
    """observe(lunar) -> R for sampled moments of a year, judged by api.Facts on {'op': op, n, s}"""

    def __init__(self, module, op, observe, what, keep=0.003, special=None, all_days=False, times=1, needlunar=True):
        self.module, self.op, self.observe, self.what = module, op, observe, what
        self.keep, self.special, self.all_days, self.times = keep, special, all_days, times

    def __call__(self, job):
        y, seed, few = job
        a = lo.api(self.module)
        rng = random.Random(seed * 131 + y)
        bad, n, keep = [], 0, []
        lo_, hi_ = max(co.FIRST, a.DN(y, 1, 1)), a.DN(y, 12, 31)
        days = range(lo_, hi_ + 1) if few < 0 else days_of_year(a, y, rng, few, self.special(a, y, rng) if self.special else ())
        moments = [(d, c09.rs(rng)) for d in days if to.clearday(d) for _ in range(self.times)]
        if few >= 0:
            moments += crowd(y, seed)
        for d, s in moments:
            if to.clear(d, s):
                n += 1
                e = {'op': self.op, 'n': d, 's': s}
                l = c09.lunar_at(d, s, rng.random() < 0.5)
                r = self.observe(l) if not isinstance(l, str) else R({'raised': l})
                if judge(a.Facts, e, r, bad, self.what) and rng.random() < self.keep:
                    keep.append(dict(e, res=r))
            if len(bad) > 5:
                break
        return {'n': n, 'bad': bad[:5], 'keep': keep}


class Walk:
    """walks of a date object by hours and days"""

    def __init__(self, module, observe, what, hours=(1, 1, 1, 2, -1, 2, 24), days=(1, 1, 1, 1, -1, 2, 5, 10, 29, 30, 60), hourp=0.4, extra=None):
        self.extra = extra
        self.module, self.observe, self.what, self.hours, self.days, self.hourp = module, observe, what, hours, days, hourp

    def __call__(self, job):
        seed, count, length = job
        a = lo.api(self.module)
        n, bad, kept = 0, [], []
        for w in range(count):
            rng = random.Random(seed * 1000 + w)
            st, events, tries = a.W0, [], 0
            while len(events) < length and tries < 20 * length:
                tries += 1
                op = ('reset' if rng.random() < 0.03 else 'hour' if rng.random() < self.hourp else 'day') if events else 'reset'
                e = {'op': op}
                if op == 'reset':
                    e.update(n=lo.rday(rng, a) if rng.random() < 0.5 else co.rday(rng, co.FIRST, co.LAST), s=c09.rs(rng))
                elif op == 'hour':
                    e['k'] = rng.choice(self.hours + (rng.randint(-60, 60),))
                else:
                    e['k'] = rng.choice(self.days + (rng.randint(-40, 40),))
                t = a.WApply(st, e)
                if not ok_moment(t['n'], t['s']):
                    continue
                if op == 'reset':
                    cur = call(lambda: mk(e['n'], e['s']).getLunar())
                elif op == 'hour':
                    cur = call(lambda: cur.getSolar().nextHour(e['k']).getLunar())
                else:
                    cur = call(lambda: cur.next(e['k']))
                if self.extra and not isinstance(cur, str):
                    e.update(self.extra(cur))
                r = self.observe(cur) if not isinstance(cur, str) else R({'raised': cur})
                n += 1
                if not judge(lambda x: a.WExpect(st, x), dict(e, at=dict(st)), r, bad, self.what + ' (walk)'):
                    break
                st = t
                events.append(dict(e, res=r))
            if w == 0 and len(events) == length:
                kept.append(events)
        return {'n': n, 'bad': bad[:5], 'keep': kept}


BIND = ('W0', 'WExpect', 'WApply')


def years(ctx, step=1, extra=300):
    if ctx.thorough:
        return range(1, 10000)
    return sorted(set(range(1 + (ctx.seed - 1) % step, 10000, step)) | set(range(1900, 2101)) | set(ctx.rng.sample(range(1, 10000), extra)) | {1, 2, 8, 9, 23, 237, 238, 239, 240, 700, 1581, 1582, 1583, 9998, 9999})
