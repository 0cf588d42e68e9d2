#!/usr/bin/env python3
"""One-off: writes spec/data/holidays.json, the built-in holiday records of the release (git archive of the base commit in /tmp/base).  Not run by any check."""
import json
import sys
sys.path.insert(0, '/tmp/base')
from lunar_python.util import HolidayUtil as H   # noqa: E402
d = H._HolidayUtil__DATA
r = [d[i:i + 18] for i in range(0, len(d), 18)]
json.dump({'names': list(H.NAMES), 'records': [[int(x[:8]), ord(x[8]) - 48, x[9] == '0', int(x[10:])] for x in r]},
          open('/verif/spec/data/holidays.json', 'w', encoding='utf-8'), ensure_ascii=False, separators=(',', ':'))
