#!/usr/bin/env python3
"""One-off: writes spec/data/names.json, the vocabulary and lookup tables the specification uses,
from the base release in /tmp/base.  Reviewed by hand; not run by any check."""
import json
import sys
sys.path.insert(0, '/tmp/base')
from lunar_python import *   # noqa
from lunar_python.util import LunarUtil as L, SolarUtil as S, FotoUtil, TaoUtil  # noqa
U = Lunar.JIE_QI_IN_USE
Q = Lunar.JIE_QI
z = L.ZHI[1:]
d = {
    'gan': L.GAN[1:], 'zhi': z, 'jiazi': L.JIA_ZI,
    'inuse': U, 'term': ('大雪',) + Q[:23],
    'shengxiao': L.SHENGXIAO[1:], 'number': L.NUMBER, 'month': L.MONTH, 'day': L.DAY, 'season': L.SEASON[1:],
    'week': S.WEEK, 'xingzuo': S.XING_ZUO,
    'xi': L.POSITION_XI[1:], 'yanggui': L.POSITION_YANG_GUI[1:], 'yingui': L.POSITION_YIN_GUI[1:], 'fu1': L.POSITION_FU[1:], 'fu2': L.POSITION_FU_2[1:],
    'cai': L.POSITION_CAI[1:], 'taisuiyear': L.POSITION_TAI_SUI_YEAR, 'posgan': L.POSITION_GAN, 'desc': L.POSITION_DESC, 'taiday': L.POSITION_TAI_DAY,
    'taimonth': L.POSITION_TAI_MONTH, 'zhixing': L.ZHI_XING[1:], 'tianshen': L.TIAN_SHEN[1:], 'tianshentype': L.TIAN_SHEN_TYPE,
    'pzgan': L.PENG_ZU_GAN[1:], 'pzzhi': L.PENG_ZU_ZHI[1:], 'yuexiang': L.YUE_XIANG[1:], 'liuyao': L.LIU_YAO, 'wuhou': L.WU_HOU, 'hou': L.HOU,
    'nayin': [L.NAYIN[L.JIA_ZI[i]] for i in range(0, 60, 2)], 'sha': [L.SHA[z[i]] for i in range(4)],
    'xiuluck': L.XIU_LUCK, 'xiusong': L.XIU_SONG, 'zheng': L.ZHENG, 'animal': L.ANIMAL, 'gong': L.GONG, 'shou': L.SHOU,
    'xiu': ['角', '亢', '氐', '房', '心', '尾', '箕', '斗', '牛', '女', '虚', '危', '室', '壁', '奎', '娄', '胃', '昴', '毕', '觜', '参', '井', '鬼', '柳', '星', '张', '翼', '轸'],
    'lu': L.LU, 'festival': L.FESTIVAL, 'otherfestival': L.OTHER_FESTIVAL,
    'sfestival': S.FESTIVAL, 'sother': S.OTHER_FESTIVAL, 'sweek': S.WEEK_FESTIVAL,
    'chonggan4': L.CHONG_GAN_4,
    'wuxinggan': [L.WU_XING_GAN[g] for g in L.GAN[1:]], 'wuxingzhi': [L.WU_XING_ZHI[g] for g in z],
    'zhihidegan': [L.ZHI_HIDE_GAN[g] for g in z], 'shishen': L.SHI_SHEN,
    'changsheng': EightChar.CHANG_SHENG if hasattr(EightChar, 'CHANG_SHENG') else None,
}
d['ninestar'] = {k: list(getattr(NineStar, k)) for k in ('NUMBER', 'COLOR', 'WU_XING', 'POSITION', 'NAME_BEI_DOU', 'NAME_XUAN_KONG', 'NAME_QI_MEN', 'BA_MEN_QI_MEN', 'NAME_TAI_YI', 'TYPE_TAI_YI', 'SONG_TAI_YI', 'LUCK_XUAN_KONG', 'LUCK_QI_MEN', 'YIN_YANG_QI_MEN')}
json.dump(d, open('/verif/spec/data/names.json', 'w', encoding='utf-8'), ensure_ascii=False, indent=0)
