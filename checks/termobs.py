"""Recording the solar terms."""
import civilobs as co
import lunarobs as lo
from civilobs import mk
from lunar_python import JieQi, Solar
from tla2py import R
from vlib import call

NEAR_TERM = 3


def api():
    return lo.api('TermApi')


def inst(x):
    """a solar moment as <<day, second>>"""
    if isinstance(x, str) or x is None:
        return (0, 0)
    return (api().DN(x.getYear(), x.getMonth(), x.getDay()), x.getHour() * 3600 + x.getMinute() * 60 + x.getSecond())


def jq(f, *a):
    x = call(f, *a)
    if x is None or isinstance(x, str):
        return R({'name': str(x), 'at': (0, 0), 'jie': False, 'qi': False})
    return R({'name': call(x.getName), 'at': inst(call(x.getSolar)), 'jie': call(x.isJie), 'qi': call(x.isQi)})


def near_res(l):
    return R({'pa': jq(l.getPrevJieQi), 'na': jq(l.getNextJieQi), 'pj': jq(l.getPrevJie), 'nj': jq(l.getNextJie), 'pq': jq(l.getPrevQi), 'nq': jq(l.getNextQi),
              'pad': jq(l.getPrevJieQi, True), 'nad': jq(l.getNextJieQi, True), 'pjd': jq(l.getPrevJie, True), 'njd': jq(l.getNextJie, True),
              'pqd': jq(l.getPrevQi, True), 'nqd': jq(l.getNextQi, True)})


def nm(x):
    return '' if x is None else x if isinstance(x, str) else x.getName()


def on_res(l):
    c = call(l.getCurrentJieQi)
    return R({'jieqi': call(l.getJieQi), 'jie': call(l.getJie), 'qi': call(l.getQi), 'cur': nm(c), 'curjie': nm(call(l.getCurrentJie)), 'curqi': nm(call(l.getCurrentQi)),
              'flags': (False, False) if c is None or isinstance(c, str) else (c.isJie(), c.isQi())})


def table_res(y, of=None):
    def f():
        l = of or Solar.fromYmd(y, 6, 1).getLunar()
        l2 = Solar.fromYmd(y + 1, 6, 1).getLunar() if y < 9999 else None
        t, names = l.getJieQiTable(), l.getJieQiList()
        at = tuple(inst(t[k]) for k in names)
        joins = len(t) == len(names) and (l2 is None or at[24:] == tuple(inst(l2.getJieQiTable()[k]) for k in l2.getJieQiList()[:7]))
        return R({'names': tuple(names), 'at': at, 'joins': joins})
    r = call(f)
    return R({'names': (r,), 'at': ((0, 0),) * 31, 'joins': False}) if isinstance(r, str) else r


def clear(n, s, margin=NEAR_TERM):
    """no term within a few seconds of the moment (the release's instants are only fixed to two seconds)"""
    a = api()
    k = a.TermAt(n, s)
    return all(abs((a.TermN[j - 1] - n) * 86400 + a.TermS[j - 1] - s) > margin for j in (k, k + 1))


def clearday(n):
    """no term so close to midnight that two seconds would move it into or out of the day (or the ones beside it)"""
    a = api()
    k = a.TermOnOrBefore(n)
    return all(NEAR_TERM < a.TermS[j - 1] < 86400 - NEAR_TERM for j in (k - 1, k, k + 1, k + 2) if j >= 1)


def instant_of(k):
    """the library's own instant of term k, as <<day, second>>"""
    a = api()
    y = (k - 1) // 24 + 1
    i = (k - 1) % 24
    if y > 9999:
        i += 24 * (y - 9999)
        y = 9999
    l = Solar.fromYmd(y, 6, 1).getLunar()
    return inst(l.getJieQiTable()[a.Names['inuse'][i]])
