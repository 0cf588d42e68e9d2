"""One-off: dumps the tables of the base release (see mkdata.py).  Not run by any check."""
import sys,json
sys.path.insert(0,'/tmp/base')
from lunar_python import *
from lunar_python.util import ShouXingUtil, LunarUtil
from multiprocessing import Pool
from math import floor
def f(y):
    L=LunarYear(y)
    jd = floor((y - 2000) * 365.2422 + 180)
    w = floor((jd - 355 + 183) / 365.2422) * 365.2422 + 355
    if ShouXingUtil.calcQi(w) > jd: w -= 365.2422
    jq=[ShouXingUtil.calcQi(w + 15.2184 * i)+2451545 for i in range(26)]
    return y,[(m.getYear(),m.getMonth(),m.getFirstJulianDay(),m.getDayCount(),m.getIndex()) for m in L.getMonths()],jq,L.getJieQiJulianDays()
if __name__=='__main__':
    with Pool(8) as p: r=p.map(f,range(-1,10003),chunksize=50)
    import pickle; pickle.dump(r,open('/tmp/dump.pkl','wb'))
