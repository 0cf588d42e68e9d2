#!/usr/bin/env python3
"""One-off: writes spec/data/faith.json, the Buddhist and Taoist observance tables, from the base release in /tmp/base.
Reviewed by hand; not run by any check."""
import json
import sys
sys.path.insert(0, '/tmp/base')
from lunar_python.util import FotoUtil as F, TaoUtil as T  # noqa
d = {
    'ffest': {k: [[f.getName(), f.getResult(), f.isEveryMonth(), f.getRemark()] for f in v] for k, v in F.FESTIVAL.items()},
    'fother': F.OTHER_FESTIVAL, 'guanyin': F.DAY_ZHAI_GUAN_YIN, 'xiu27': F.XIU_27, 'xiu27at': F.XIU_OFFSET,
    'tfest': {k: [[f.getName(), f.getRemark()] for f in v] for k, v in T.FESTIVAL.items()},
    'sanhui': T.SAN_HUI, 'sanyuan': T.SAN_YUAN, 'wula': T.WU_LA, 'anwu': T.AN_WU, 'bahui': T.BA_HUI, 'bajie': T.BA_JIE,
}
json.dump(d, open('/verif/spec/data/faith.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0)
