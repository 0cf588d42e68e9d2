From 6179abe8c83ea378cdf02ef198e062ad523c4b48 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:42 +0000
Subject: [PATCH 01/25] fix: release the lunar year lock when building a year
 raises

---
 lunar_python/LunarYear.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a4f7bf2..a05cecd 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -42,12 +42,14 @@ class LunarYear:
     @staticmethod
     def fromYear(lunar_year):
         LunarYear.__lock.acquire()
-        if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
-            y = LunarYear(lunar_year)
-            LunarYear.__CACHE_YEAR = y
-        else:
-            y = LunarYear.__CACHE_YEAR
-        LunarYear.__lock.release()
+        try:
+            if LunarYear.__CACHE_YEAR is None or LunarYear.__CACHE_YEAR.getYear() != lunar_year:
+                y = LunarYear(lunar_year)
+                LunarYear.__CACHE_YEAR = y
+            else:
+                y = LunarYear.__CACHE_YEAR
+        finally:
+            LunarYear.__lock.release()
         return y
 
     def compute(self):
-- 
2.43.0


From 20f3914a3ecb38e7f1b74b86a2c6a5f896fd50ab Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:45 +0000
Subject: [PATCH 02/25] fix: reject solar days above 31

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index d3be6b0..ede06c1 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -19,7 +19,7 @@ class Solar:
                 raise Exception("wrong solar year %d month %d day %d" % (year, month, day))
         if month < 1 or month > 12:
             raise Exception("wrong month %d" % month)
-        if day < 1 or month > 31:
+        if day < 1 or day > 31:
             raise Exception("wrong day %d" % day)
         if hour < 0 or hour > 23:
             raise Exception("wrong hour %d" % hour)
-- 
2.43.0


From 033cce49368c401a1dc6428b0452e0abb26dcb65 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:48 +0000
Subject: [PATCH 03/25] fix: carry a julian day that rounds up to midnight into
 the next calendar day

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index ede06c1..974378f 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -75,7 +75,7 @@ class Solar:
             hour += 1
         if hour > 23:
             hour -= 24
-            day += 1
+            return Solar(year, month, day, hour, minute, second).next(1)
         return Solar(year, month, day, hour, minute, second)
 
     @staticmethod
-- 
2.43.0


From c6dee71942a6d98f822b96a6ac87c855c498b247 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 04/25] fix: count the weeks of a month when the first day
 precedes the week start

---
 lunar_python/util/SolarUtil.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lunar_python/util/SolarUtil.py b/lunar_python/util/SolarUtil.py
index 5d608b6..0b1af4c 100644
--- a/lunar_python/util/SolarUtil.py
+++ b/lunar_python/util/SolarUtil.py
@@ -252,7 +252,10 @@ class SolarUtil:
         :return: 天数
         """
         from .. import Solar
-        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + Solar.fromYmd(year, month, 1).getWeek() - start) * 1.0 / len(SolarUtil.WEEK)))
+        offset = Solar.fromYmd(year, month, 1).getWeek() - start
+        if offset < 0:
+            offset += len(SolarUtil.WEEK)
+        return int(ceil((SolarUtil.getDaysOfMonth(year, month) + offset) * 1.0 / len(SolarUtil.WEEK)))
 
     @staticmethod
     def getDaysBetween(ay: int, am: int, ad: int, by: int, bm: int, bd: int):
-- 
2.43.0


From 5510f1d55c57f07b568b2dd70abe9cbf5505a233 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:55 +0000
Subject: [PATCH 05/25] fix: renaming a solar term resets its jie and qi flags

---
 lunar_python/JieQi.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lunar_python/JieQi.py b/lunar_python/JieQi.py
index 24250e2..bba5082 100644
--- a/lunar_python/JieQi.py
+++ b/lunar_python/JieQi.py
@@ -27,6 +27,8 @@ class JieQi:
         """
         from . import Lunar
         self.__name = name
+        self.__jie = False
+        self.__qi = False
         for i in range(0, len(Lunar.JIE_QI)):
             if name == Lunar.JIE_QI[i]:
                 if i % 2 == 0:
-- 
2.43.0


From 414e2c97ff2e7ba3a8ac79fbe8dfe793940c4845 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:44:58 +0000
Subject: [PATCH 06/25] fix: day grand-duke direction of the three ji days

---
 lunar_python/Lunar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 7ad6a7d..b2eed1a 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -450,11 +450,11 @@ class Lunar:
         return LunarUtil.POSITION_DESC[self.getMonthPositionTaiSui(sect)]
 
     def __getDayPositionTaiSui(self, day_in_gan_zhi, year_zhi_index):
-        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,已巳":
+        if day_in_gan_zhi in "甲子,乙丑,丙寅,丁卯,戊辰,己巳":
             p = "震"
-        elif day_in_gan_zhi in "丙子,丁丑,戊寅,已卯,庚辰,辛巳":
+        elif day_in_gan_zhi in "丙子,丁丑,戊寅,己卯,庚辰,辛巳":
             p = "离"
-        elif day_in_gan_zhi in "戊子,已丑,庚寅,辛卯,壬辰,癸巳":
+        elif day_in_gan_zhi in "戊子,己丑,庚寅,辛卯,壬辰,癸巳":
             p = "中"
         elif day_in_gan_zhi in "庚子,辛丑,壬寅,癸卯,甲辰,乙巳":
             p = "兑"
-- 
2.43.0


From 0dc522bac0e4dc12f01f1d29ff24bded9a384c18 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:45:33 +0000
Subject: [PATCH 07/25] fix: year pillar by Start of Spring when lunar new year
 falls in December

---
 lunar_python/Lunar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index b2eed1a..2cc0a9a 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -99,6 +99,12 @@ class Lunar:
             if solar_ymd_hms >= li_chun_ymd_hms:
                 g_exact += 1
                 z_exact += 1
+        else:
+            # 阴历年份大于阳历年份（正月初一在阳历年底），此时未到下一个立春
+            g -= 1
+            z -= 1
+            g_exact -= 1
+            z_exact -= 1
 
         self.__yearGanIndex = year_gan_index
         self.__yearZhiIndex = year_zhi_index
-- 
2.43.0


From 669cac256e43e77b038874ced608bc26c0c62256 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 08/25] fix: buddhist year when lunar new year falls in
 December

---
 lunar_python/Foto.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/Foto.py b/lunar_python/Foto.py
index aa31ede..2e62564 100644
--- a/lunar_python/Foto.py
+++ b/lunar_python/Foto.py
@@ -29,11 +29,7 @@ class Foto:
         return self.__lunar
 
     def getYear(self):
-        sy = self.__lunar.getSolar().getYear()
-        y = sy - Foto.DEAD_YEAR
-        if sy == self.__lunar.getYear():
-            y += 1
-        return y
+        return self.__lunar.getYear() - Foto.DEAD_YEAR + 1
 
     def getMonth(self):
         return self.__lunar.getMonth()
-- 
2.43.0


From 09344665ce2e449aa4b884dace9db4d9ea062486 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:45:36 +0000
Subject: [PATCH 09/25] fix: pillar of late luck cycles

---
 lunar_python/eightchar/DaYun.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/lunar_python/eightchar/DaYun.py b/lunar_python/eightchar/DaYun.py
index 277ff71..5532e77 100644
--- a/lunar_python/eightchar/DaYun.py
+++ b/lunar_python/eightchar/DaYun.py
@@ -54,11 +54,7 @@ class DaYun:
         offset = LunarUtil.getJiaZiIndex(self.__lunar.getMonthInGanZhiExact())
         offset += self.__index if self.__yun.isForward() else -self.__index
         size = len(LunarUtil.JIA_ZI)
-        if offset >= size:
-            offset -= size
-        if offset < 0:
-            offset += size
-        return LunarUtil.JIA_ZI[offset]
+        return LunarUtil.JIA_ZI[offset % size]
 
     def getXun(self):
         """
-- 
2.43.0


From 359aee2f346c598d412576443f29a86d14023520 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 21:45:40 +0000
Subject: [PATCH 10/25] fix: nine star of a two-hour period

---
 lunar_python/LunarTime.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lunar_python/LunarTime.py b/lunar_python/LunarTime.py
index 98716ac..8b462b1 100644
--- a/lunar_python/LunarTime.py
+++ b/lunar_python/LunarTime.py
@@ -112,7 +112,9 @@ class LunarTime:
         solar_ymd = self.__lunar.getSolar().toYmd()
         jie_qi = self.__lunar.getJieQiTable()
         asc = False
-        if jie_qi["冬至"] <= solar_ymd < jie_qi["夏至"]:
+        if jie_qi["冬至"].toYmd() <= solar_ymd < jie_qi["夏至"].toYmd():
+            asc = True
+        elif solar_ymd >= jie_qi["DONG_ZHI"].toYmd():
             asc = True
         start = 7 if asc else 3
         day_zhi = self.__lunar.getDayZhi()
-- 
2.43.0


From 3014dc0d2eafddd5c8b4717afb2c186953b42e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:22 +0000
Subject: [PATCH 11/25] fix: holiday corrections keep one ordered record per
 day and target queries find all records

---
 lunar_python/util/HolidayUtil.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index f7043b5..8a55db9 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -89,10 +89,9 @@ class HolidayUtil:
         if s is None:
             return arr
         size = len(s)
-        key_size = len(key)
-
-        while size - key_size == s.rfind(key):
-            arr.append(HolidayUtil.__buildHolidayBackward(s))
+        while size >= HolidayUtil.__SIZE:
+            if s.endswith(key):
+                arr.append(HolidayUtil.__buildHolidayBackward(s))
             s = s[0:size - HolidayUtil.__SIZE:]
             size = len(s)
         arr.reverse()
@@ -156,7 +155,6 @@ class HolidayUtil:
             HolidayUtil.__NAMES_IN_USE = names
         if data is None:
             return
-        append = ""
         while len(data) >= HolidayUtil.__SIZE:
             segment = data[:HolidayUtil.__SIZE]
             day = segment[:8]
@@ -164,16 +162,12 @@ class HolidayUtil:
             holiday = HolidayUtil.getHoliday(day)
             if holiday is None:
                 if not remove:
-                    append += segment
+                    # 按日期升序插入
+                    i = 0
+                    while i < len(HolidayUtil.__DATA_IN_USE) and HolidayUtil.__DATA_IN_USE[i:i + 8] < day:
+                        i += HolidayUtil.__SIZE
+                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:i] + segment + HolidayUtil.__DATA_IN_USE[i:]
             else:
-                name_index = -1
-                for i in range(0, len(HolidayUtil.__NAMES_IN_USE)):
-                    if HolidayUtil.__NAMES_IN_USE[i] == holiday.getName():
-                        name_index = i
-                        break
-                if name_index > -1:
-                    old = day + chr(name_index + HolidayUtil.__ZERO) + ("0" if holiday.isWork() else "1") + holiday.getTarget().replace("-", "")
-                    HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+                old = HolidayUtil.__findForward(day)[:HolidayUtil.__SIZE]
+                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
             data = data[HolidayUtil.__SIZE:]
-        if len(append) > 0:
-            HolidayUtil.__DATA_IN_USE += append
-- 
2.43.0


From d4ac87814611ab46617d728ba98cf20254f0ae25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:34 +0000
Subject: [PATCH 12/25] fix: week index in October 1582

---
 lunar_python/SolarWeek.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index 7f24a18..bf77248 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -60,7 +60,8 @@ class SolarWeek:
         offset = Solar.fromYmd(self.__year, self.__month, 1).getWeek() - self.__start
         if offset < 0:
             offset += 7
-        return int(ceil((self.__day + offset) * 1.0 / 7))
+        days = SolarUtil.getDaysBetween(self.__year, self.__month, 1, self.__year, self.__month, self.__day) + 1
+        return int(ceil((days + offset) * 1.0 / 7))
 
     def getIndexInYear(self):
         """
-- 
2.43.0


From 62e688ffd25c48b211573e136e236258fdc25b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:52 +0000
Subject: [PATCH 13/25] fix: eight-character search finds the January days of
 the base year

---
 lunar_python/Solar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 974378f..51447ac 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -121,7 +121,7 @@ class Solar:
                 jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
-                if solar_time.getYear() >= base_year:
+                if solar_time.getYear() >= start_year:
                     # 日干支和节令干支的偏移值
                     d = LunarUtil.getJiaZiIndex(day_gan_zhi) - LunarUtil.getJiaZiIndex(solar_time.getLunar().getDayInGanZhiExact2())
                     if d < 0:
@@ -140,7 +140,7 @@ class Solar:
                         solar = Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)
                         lunar = solar.getLunar()
                         dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                        if lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                        if solar.getYear() >= base_year and lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
                             solar_list.append(solar)
             y += 60
         return solar_list
-- 
2.43.0


From a071a17079fc8035c379a20241fdc0e85ce60308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:55 +0000
Subject: [PATCH 14/25] fix: eight-character search finds moments before a
 section term inside the same two-hour period

---
 lunar_python/Solar.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 51447ac..629b39e 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -138,10 +138,16 @@ class Solar:
                             s = solar_time.getSecond()
                         # 验证一下
                         solar = Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, mi, s)
-                        lunar = solar.getLunar()
-                        dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
-                        if solar.getYear() >= base_year and lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
-                            solar_list.append(solar)
+                        candidates = [solar]
+                        if hour % 2 == 0 and (hour > 0 or 1 == sect):
+                            # 下一个节令落在该时辰内时，节令之前的部分从时辰起点验证
+                            candidates.append(Solar.fromYmdHms(solar_time.getYear(), solar_time.getMonth(), solar_time.getDay(), hour, 0, 0).nextHour(-1))
+                        for solar in candidates:
+                            lunar = solar.getLunar()
+                            dgz = lunar.getDayInGanZhiExact2() if 2 == sect else lunar.getDayInGanZhiExact()
+                            if solar.getYear() >= base_year and lunar.getYearInGanZhiExact() == year_gan_zhi and lunar.getMonthInGanZhiExact() == month_gan_zhi and dgz == day_gan_zhi and lunar.getTimeInGanZhi() == time_gan_zhi:
+                                solar_list.append(solar)
+                                break
             y += 60
         return solar_list
 
-- 
2.43.0


From 82db2435b710da4d5ac5e4dfaf95d9a3ba996200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:23 +0000
Subject: [PATCH 15/25] fix: step back by separate weeks into October 1582

---
 lunar_python/SolarWeek.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/SolarWeek.py b/lunar_python/SolarWeek.py
index bf77248..87f7067 100644
--- a/lunar_python/SolarWeek.py
+++ b/lunar_python/SolarWeek.py
@@ -153,7 +153,7 @@ class SolarWeek:
                             week = SolarWeek.fromYmd(last_day.getYear(), last_day.getMonth(), last_day.getDay(), self.__start)
                             week_month = week.getMonth()
                         else:
-                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()))
+                            solar = Solar.fromYmd(week.getYear(), week.getMonth(), 1).next(SolarUtil.getDaysOfMonth(week.getYear(), week.getMonth()) - 1)
                             week = SolarWeek.fromYmd(solar.getYear(), solar.getMonth(), solar.getDay(), self.__start)
                     month = week_month
                 n -= 1 if plus else -1
-- 
2.43.0


From 43480c7ce47b5d6a6f803bd15acd919ddd9e52aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:03:55 +0000
Subject: [PATCH 16/25] fix: leap month at the end of the lunar year 18 table

---
 lunar_python/LunarYear.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/LunarYear.py b/lunar_python/LunarYear.py
index a05cecd..2643e3d 100644
--- a/lunar_python/LunarYear.py
+++ b/lunar_python/LunarYear.py
@@ -17,7 +17,7 @@ class LunarYear:
     __LEAP_11 = (75, 94, 170, 265, 322, 398, 469, 553, 583, 610, 678, 735, 754, 773, 849, 887, 936, 1050, 1069, 1126, 1145, 1164, 1183, 1259, 1278, 1308, 1373, 1403, 1441, 1460, 1498, 1555, 1593, 1612, 1631, 1642, 2033, 2128, 2147, 2242, 2614, 2728, 2910, 3062, 3244, 3339, 3616, 3711, 3730, 3825, 4007, 4159, 4197, 4322, 4341, 4379, 4417, 4531, 4599, 4694, 4713, 4789, 4808, 4971, 5085, 5104, 5161, 5180, 5199, 5294, 5305, 5476, 5677, 5696, 5772, 5791, 5848, 5886, 6049, 6068, 6144, 6163, 6258, 6402, 6440, 6497, 6516, 6630, 6641, 6660, 6679, 6736, 6774, 6850, 6869, 6899, 6918, 6994, 7013, 7032, 7051, 7070, 7089, 7108, 7127, 7146, 7222, 7271, 7290, 7309, 7366, 7385, 7404, 7442, 7461, 7480, 7491, 7499, 7594, 7624, 7643, 7662, 7681, 7719, 7738, 7814, 7863, 7882, 7901, 7939, 7958, 7977, 7996,
                  8034, 8053, 8072, 8091, 8121, 8159, 8186, 8216, 8235, 8254, 8273, 8311, 8330, 8341, 8349, 8368, 8444, 8463, 8474, 8493, 8531, 8569, 8588, 8626, 8664, 8683, 8694, 8702, 8713, 8721, 8751, 8789, 8808, 8816, 8827, 8846, 8884, 8903, 8922, 8941, 8971, 9036, 9066, 9085, 9104, 9123, 9142, 9161, 9180, 9199, 9218, 9256, 9294, 9313, 9324, 9343, 9362, 9381, 9419, 9438, 9476, 9514, 9533, 9544, 9552, 9563, 9571, 9582, 9601, 9639, 9658, 9666, 9677, 9696, 9734, 9753, 9772, 9791, 9802, 9821, 9886, 9897, 9916, 9935, 9954, 9973, 9992)
 
-    __LEAP_12 = (37, 56, 113, 132, 151, 189, 208, 227, 246, 284, 303, 341, 360, 379, 417, 436, 458, 477, 496, 515, 534, 572, 591, 629, 648, 667, 697, 716, 792, 811, 830, 868, 906, 925, 944, 963, 982, 1001, 1020, 1039, 1058, 1088, 1153, 1202, 1221, 1240, 1297, 1335, 1392, 1411, 1422, 1430, 1517, 1525, 1536, 1574, 3358, 3472, 3806, 3988, 4751, 4941, 5066, 5123, 5275, 5343, 5438, 5457, 5495, 5533, 5552, 5715, 5810, 5829, 5905, 5924, 6421, 6535, 6793, 6812, 6888, 6907, 7002, 7184, 7260, 7279, 7374, 7556, 7746, 7757, 7776, 7833, 7852, 7871, 7966, 8015, 8110, 8129, 8148, 8224, 8243, 8338, 8406, 8425, 8482, 8501, 8520, 8558, 8596, 8607, 8615, 8645, 8740, 8778, 8835, 8865, 8930, 8960, 8979, 8998, 9017, 9055, 9074, 9093, 9112, 9150, 9188, 9237, 9275, 9332, 9351, 9370, 9408, 9427, 9446, 9457, 9465,
+    __LEAP_12 = (18, 37, 56, 113, 132, 151, 189, 208, 227, 246, 284, 303, 341, 360, 379, 417, 436, 458, 477, 496, 515, 534, 572, 591, 629, 648, 667, 697, 716, 792, 811, 830, 868, 906, 925, 944, 963, 982, 1001, 1020, 1039, 1058, 1088, 1153, 1202, 1221, 1240, 1297, 1335, 1392, 1411, 1422, 1430, 1517, 1525, 1536, 1574, 3358, 3472, 3806, 3988, 4751, 4941, 5066, 5123, 5275, 5343, 5438, 5457, 5495, 5533, 5552, 5715, 5810, 5829, 5905, 5924, 6421, 6535, 6793, 6812, 6888, 6907, 7002, 7184, 7260, 7279, 7374, 7556, 7746, 7757, 7776, 7833, 7852, 7871, 7966, 8015, 8110, 8129, 8148, 8224, 8243, 8338, 8406, 8425, 8482, 8501, 8520, 8558, 8596, 8607, 8615, 8645, 8740, 8778, 8835, 8865, 8930, 8960, 8979, 8998, 9017, 9055, 9074, 9093, 9112, 9150, 9188, 9237, 9275, 9332, 9351, 9370, 9408, 9427, 9446, 9457, 9465,
                  9495, 9560, 9590, 9628, 9647, 9685, 9715, 9742, 9780, 9810, 9818, 9829, 9848, 9867, 9905, 9924, 9943, 9962, 10000)
 
     __CACHE_YEAR = None
-- 
2.43.0


From f90a05c8ba9c74d965973f7b601f2c584433790a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:01 +0000
Subject: [PATCH 17/25] fix: lunar month stepping returns the month with its
 own year's index

---
 lunar_python/LunarMonth.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lunar_python/LunarMonth.py b/lunar_python/LunarMonth.py
index 3cf414f..1340e6a 100644
--- a/lunar_python/LunarMonth.py
+++ b/lunar_python/LunarMonth.py
@@ -147,7 +147,8 @@ class LunarMonth:
                 im = last_month.getMonth()
                 ny += 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index + rest]
+            m = months[index + rest]
+            return LunarMonth.fromYm(m.getYear(), m.getMonth())
         else:
             rest = -n
             ny = self.__year
@@ -170,4 +171,5 @@ class LunarMonth:
                 im = first_month.getMonth()
                 ny -= 1
                 months = LunarYear.fromYear(ny).getMonths()
-            return months[index - rest]
+            m = months[index - rest]
+            return LunarMonth.fromYm(m.getYear(), m.getMonth())
-- 
2.43.0


From 557cb201a8ca8f29d4c9023f9e04013603d7b2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:58 +0000
Subject: [PATCH 18/25] fix: compare dates of year 9999 with terms of year
 10000 by value, not as text

---
 lunar_python/Lunar.py | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 2cc0a9a..dfd422a 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -115,9 +115,20 @@ class Lunar:
         self.__yearGanIndexExact = (g_exact + 10 if g_exact < 0 else g_exact) % 10
         self.__yearZhiIndexExact = (z_exact + 12 if z_exact < 0 else z_exact) % 12
 
+    @staticmethod
+    def __getSortKey(solar, whole_day):
+        """
+        获取用于比较先后的值（年份可能超过4位数，不能比较字符串）
+        :param solar: 阳历日期
+        :param whole_day: 是否按天计
+        :return: 年月日，或年月日时分秒
+        """
+        day = (solar.getYear(), solar.getMonth(), solar.getDay())
+        return day if whole_day else day + (solar.getHour(), solar.getMinute(), solar.getSecond())
+
     def __computeMonth(self):
-        ymd = self.__solar.toYmd()
-        time = self.__solar.toYmdHms()
+        ymd = self.__getSortKey(self.__solar, True)
+        time = self.__getSortKey(self.__solar, False)
         size = len(Lunar.JIE_QI_IN_USE)
 
         # 序号：大雪以前-3，大雪到小寒之间-2，小寒到立春之间-1，立春之后0
@@ -125,8 +136,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            symd = ymd if start is None else start.toYmd()
-            if symd <= ymd < end.toYmd():
+            symd = ymd if start is None else self.__getSortKey(start, True)
+            if symd <= ymd < self.__getSortKey(end, True):
                 break
             start = end
             index += 1
@@ -139,8 +150,8 @@ class Lunar:
         start = None
         for i in range(0, size, 2):
             end = self.__jieQi[Lunar.JIE_QI_IN_USE[i]]
-            stime = time if start is None else start.toYmdHms()
-            if stime <= time < end.toYmdHms():
+            stime = time if start is None else self.__getSortKey(start, False)
+            if stime <= time < self.__getSortKey(end, False):
                 break
             start = end
             index += 1
@@ -861,7 +872,7 @@ class Lunar:
         return self.__getMonthNineStar(year_zhi_index, month_zhi_index)
 
     def getDayNineStar(self):
-        solar_ymd = self.__solar.toYmd()
+        solar_ymd = self.__getSortKey(self.__solar, True)
         dong_zhi = self.__jieQi["冬至"]
         dong_zhi2 = self.__jieQi["DONG_ZHI"]
         xia_zhi = self.__jieQi["夏至"]
@@ -874,17 +885,17 @@ class Lunar:
             solar_shun_bai = dong_zhi.next(60 - dong_zhi_index)
         else:
             solar_shun_bai = dong_zhi.next(-dong_zhi_index)
-        solar_shun_bai_ymd = solar_shun_bai.toYmd()
+        solar_shun_bai_ymd = self.__getSortKey(solar_shun_bai, True)
         if dong_zhi_index2 > 29:
             solar_shun_bai2 = dong_zhi2.next(60 - dong_zhi_index2)
         else:
             solar_shun_bai2 = dong_zhi2.next(-dong_zhi_index2)
-        solar_shun_bai_ymd2 = solar_shun_bai2.toYmd()
+        solar_shun_bai_ymd2 = self.__getSortKey(solar_shun_bai2, True)
         if xia_zhi_index > 29:
             solar_ni_zi = xia_zhi.next(60 - xia_zhi_index)
         else:
             solar_ni_zi = xia_zhi.next(-xia_zhi_index)
-        solar_ni_zi_ymd = solar_ni_zi.toYmd()
+        solar_ni_zi_ymd = self.__getSortKey(solar_ni_zi, True)
         offset = 0
         if solar_shun_bai_ymd <= solar_ymd < solar_ni_zi_ymd:
             offset = self.__solar.subtract(solar_shun_bai) % 9
@@ -1047,13 +1058,13 @@ class Lunar:
             for cond in conditions:
                 filters.add(cond)
         is_filter = len(filters) > 0
-        today = self.__solar.toYmd() if whole_day else self.__solar.toYmdHms()
+        today = self.__getSortKey(self.__solar, whole_day)
         for key in self.JIE_QI_IN_USE:
             jq = self.__convertJieQi(key)
             if is_filter and not filters.__contains__(jq):
                 continue
             solar = self.__jieQi[key]
-            day = solar.toYmd() if whole_day else solar.toYmdHms()
+            day = self.__getSortKey(solar, whole_day)
             if forward:
                 if day <= today:
                     continue
@@ -1061,7 +1072,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = self.__getSortKey(near, whole_day)
                     if day < near_day:
                         name = jq
                         near = solar
@@ -1072,7 +1083,7 @@ class Lunar:
                     name = jq
                     near = solar
                 else:
-                    near_day = near.toYmd() if whole_day else near.toYmdHms()
+                    near_day = self.__getSortKey(near, whole_day)
                     if day > near_day:
                         name = jq
                         near = solar
-- 
2.43.0


From e5469e35aa827a6500cf4141032a18a5eb45725f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:22 +0000
Subject: [PATCH 19/25] fix: starting offset of luck cycles whose term falls in
 year 10000

---
 lunar_python/eightchar/Yun.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/eightchar/Yun.py b/lunar_python/eightchar/Yun.py
index a5c6ffb..6162980 100644
--- a/lunar_python/eightchar/Yun.py
+++ b/lunar_python/eightchar/Yun.py
@@ -38,8 +38,8 @@ class Yun:
             minutes -= day * 12
             hour = minutes * 2
         else:
-            end_time_zhi_index = 11 if end.getHour() == 23 else LunarUtil.getTimeZhiIndex(end.toYmdHms()[11: 16])
-            start_time_zhi_index = 11 if start.getHour() == 23 else LunarUtil.getTimeZhiIndex(start.toYmdHms()[11: 16])
+            end_time_zhi_index = 11 if end.getHour() == 23 else LunarUtil.getTimeZhiIndex(end.toYmdHms()[-8: -3])
+            start_time_zhi_index = 11 if start.getHour() == 23 else LunarUtil.getTimeZhiIndex(start.toYmdHms()[-8: -3])
             # 时辰差
             hour_diff = end_time_zhi_index - start_time_zhi_index
             day_diff = end.subtract(start)
-- 
2.43.0


From c9756083b3e28a409b81ca92ea631d4cdf69c8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:00 +0000
Subject: [PATCH 20/25] fix: eight-character search in years whose lunar new
 year falls in the December before

---
 lunar_python/Solar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Solar.py b/lunar_python/Solar.py
index 629b39e..8ff338c 100644
--- a/lunar_python/Solar.py
+++ b/lunar_python/Solar.py
@@ -118,7 +118,7 @@ class Solar:
         while y <= end_year:
             if y >= start_year:
                 # 立春为寅月的开始
-                jie_qi_table = Lunar.fromYmd(y, 1, 1).getJieQiTable()
+                jie_qi_table = Solar.fromYmd(y, 1, 1).getLunar().getJieQiTable()
                 # 节令推移，年干支和月干支就都匹配上了
                 solar_time = jie_qi_table[Lunar.JIE_QI_IN_USE[4 + m]]
                 if solar_time.getYear() >= start_year:
-- 
2.43.0


From 05af270adb7932fe5e5a00ef7573adde157cdd76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:03 +0000
Subject: [PATCH 21/25] fix: HolidayUtil.fix replaces the record of its day
 only, not equal text inside other records

---
 lunar_python/util/HolidayUtil.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 8a55db9..9734d47 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -168,6 +168,6 @@ class HolidayUtil:
                         i += HolidayUtil.__SIZE
                     HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:i] + segment + HolidayUtil.__DATA_IN_USE[i:]
             else:
-                old = HolidayUtil.__findForward(day)[:HolidayUtil.__SIZE]
-                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE.replace(old, "" if remove else segment)
+                i = len(HolidayUtil.__DATA_IN_USE) - len(HolidayUtil.__findForward(day))
+                HolidayUtil.__DATA_IN_USE = HolidayUtil.__DATA_IN_USE[:i] + ("" if remove else segment) + HolidayUtil.__DATA_IN_USE[i + HolidayUtil.__SIZE:]
             data = data[HolidayUtil.__SIZE:]
-- 
2.43.0


From 0d7f850d6b91d8b597882fab21bb8915521c8e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:05 +0000
Subject: [PATCH 22/25] fix: holiday queries for years before 1000 pad the
 year, so that they do not match records of other years

---
 lunar_python/util/HolidayUtil.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lunar_python/util/HolidayUtil.py b/lunar_python/util/HolidayUtil.py
index 9734d47..7255de4 100644
--- a/lunar_python/util/HolidayUtil.py
+++ b/lunar_python/util/HolidayUtil.py
@@ -99,7 +99,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHoliday(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -108,7 +108,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidays(year, month=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0:
             arr = HolidayUtil.__findHolidaysForward(y.replace("-", ""))
         else:
@@ -117,7 +117,7 @@ class HolidayUtil:
 
     @staticmethod
     def __getHolidaysByTarget(year, month=0, day=0):
-        y = str(year)
+        y = str(year).zfill(4)
         if month == 0 or day == 0:
             arr = HolidayUtil.__findHolidaysBackward(y.replace("-", ""))
         else:
-- 
2.43.0


From 0d08422cafe6c86eddfe83cb70478ca6d2478514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:43 +0000
Subject: [PATCH 23/25] fix: day nine star of January before the first jiazi
 continues the run from the previous Summer Solstice

---
 lunar_python/Lunar.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index dfd422a..5b84ffd 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -904,7 +904,13 @@ class Lunar:
         elif solar_ymd >= solar_shun_bai_ymd2:
             offset = self.__solar.subtract(solar_shun_bai2) % 9
         elif solar_ymd < solar_shun_bai_ymd:
-            offset = (8 + solar_shun_bai.subtract(self.__solar)) % 9
+            # 仍在上一年夏至起的逆排之中（可能长达240天）
+            from . import LunarYear
+            julian_days = LunarYear.fromYear(self.__solar.getYear() - 1).getJieQiJulianDays()
+            xia_zhi0 = Solar.fromJulianDay(julian_days[Lunar.JIE_QI_IN_USE.index("夏至")])
+            xia_zhi_index0 = LunarUtil.getJiaZiIndex(xia_zhi0.getLunar().getDayInGanZhi())
+            solar_ni_zi0 = xia_zhi0.next(60 - xia_zhi_index0 if xia_zhi_index0 > 29 else -xia_zhi_index0)
+            offset = 8 - (self.__solar.subtract(solar_ni_zi0) % 9)
         return NineStar.fromIndex(offset)
 
     def getTimeNineStar(self):
-- 
2.43.0


From 1004be4250ff9ad1d18d423d5def52cfc0a73b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:25 +0000
Subject: [PATCH 24/25] fix: New Year's Eve of the years 8 (eleven months) and
 236 (last month of 28 days)

---
 lunar_python/Lunar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/Lunar.py b/lunar_python/Lunar.py
index 5b84ffd..70a6b78 100644
--- a/lunar_python/Lunar.py
+++ b/lunar_python/Lunar.py
@@ -670,7 +670,7 @@ class Lunar:
         md = "%d-%d" % (self.__month, self.__day)
         if md in LunarUtil.FESTIVAL:
             fs.append(LunarUtil.FESTIVAL[md])
-        if abs(self.__month) == 12 and self.__day >= 29 and self.__year != self.next(1).getYear():
+        if abs(self.__month) >= 11 and self.__day >= 28 and self.__year != self.next(1).getYear():
             fs.append("除夕")
         return fs
 
-- 
2.43.0


From 5b63f0952df687e573dc4908771af6b9d68e42ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:31 +0000
Subject: [PATCH 25/25] =?UTF-8?q?fix:=20list=20the=20lucky=20spirit=20?=
 =?UTF-8?q?=E9=99=A4=E7=A5=9E=20once=20for=20the=20day=20=E7=99=B8?=
 =?UTF-8?q?=E9=85=89=20of=20the=20eighth=20month?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 lunar_python/util/LunarUtil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lunar_python/util/LunarUtil.py b/lunar_python/util/LunarUtil.py
index 9fa2ae9..697b43d 100644
--- a/lunar_python/util/LunarUtil.py
+++ b/lunar_python/util/LunarUtil.py
@@ -43,7 +43,7 @@ class LunarUtil:
     __SHEN_SHA = (
         "无", "天恩", "母仓", "时阳", "生气", "益后", "青龙", "灾煞", "天火", "四忌", "八龙", "复日", "续世", "明堂", "月煞", "月虚", "血支", "天贼", "五虚", "土符", "归忌", "血忌", "月德", "月恩", "四相", "王日", "天仓", "不将", "要安", "五合", "鸣吠对", "月建", "小时", "土府", "往亡", "天刑", "天德", "官日", "吉期", "玉宇", "大时", "大败", "咸池", "朱雀", "守日", "天巫", "福德", "六仪", "金堂", "金匮", "厌对", "招摇", "九空", "九坎", "九焦", "相日", "宝光", "天罡", "死神", "月刑", "月害", "游祸", "重日", "时德", "民日", "三合", "临日", "天马", "时阴", "鸣吠", "死气", "地囊", "白虎", "月德合", "敬安", "玉堂", "普护", "解神", "小耗", "天德合", "月空", "驿马", "天后", "除神", "月破", "大耗", "五离", "天牢", "阴德", "福生", "天吏", "致死", "元武", "阳德", "天喜", "天医", "司命", "月厌", "地火", "四击", "大煞", "大会", "天愿", "六合", "五富", "圣心", "河魁", "劫煞", "四穷", "勾陈", "触水龙", "八风", "天赦", "五墓", "八专", "阴错", "四耗", "阳错", "四废", "三阴", "小会", "阴道冲阳", "单阴", "孤辰", "阴位", "行狠", "了戾", "绝阴", "纯阳", "七鸟", "岁薄",
         "阴阳交破", "阴阳俱错", "阴阳击冲", "逐阵", "阳错阴冲", "七符", "天狗", "九虎", "成日", "天符", "孤阳", "绝阳", "纯阴", "六蛇", "阴神", "解除", "阳破阴冲")
-    __DAY_SHEN_SHA = "100=010203040506,0708090A0B101=010C0D,0E0F101112131415102=16011718191A1B1C1D1E,1F20212223103=24011825261B271D1E,28292A2B104=012C2D2E2F3031,3233343536105=3738,393A3B3C3D123E106=3F404142434445,464748107=494A4B4C4D,4E108=4F5051524C4D5345,54555657109=58595345,5A5B12565C10A=5D415E5F60,616263640B6510B=0266676869,6A6B6C0A3E6D10C=1602171803041B05061E,07086E10D=24181B0C0D,0E0F1011126F13141510E=70191A1C1D,1F2021222310F=0125261B271D,28292A2B110=012C2D2E2F3031,3233343536111=49013738,393A3B3C3D123E112=4F50013F404142434445,4648113=014A4B,4E6E114=51524C4D5345,54550B5657115=0158595345,5A5B12565C116=1601185D415E5F60,61626364117=24021867681B69,6A6B3E6D118=0203040506,0708119=1B0C0D,0E0F10111213141511A=191A1B1C1D1E,1F2021222311B=4925261B271D1E,28292A11C=4F502C2D2E2F3031,323334353611D=3738,393A3B3C3D123E11E=3F404142434445,460B4811F=4A4B,4E71120=16171851524C4D5345,545556121=241858595345,5A5B12565C122=5D415E5F60,61626364123=0267681B69,6A6B3E6D124=0203041B05061E,070847125=491B0C0D,0E0F101112131415126=4F50191A1C1D1E,1F20212223127=2526271D1E,28292A2B128=2C2D2E2F3031,32333435360B129=3738,393A3B3C3D123E12A=1617183F404142434445,464812B=24184A4B,4E7212C=51524C4D53,5455565712D=0158595345,5A5B12565C12E=015D415E5F60,616263647312F=49010267681B69,6A6B3E6D130=4F500102030405061E,070874131=010C0D,0E0F101112131415726E132=191A1C1D1E,1F2021220B722375133=2526271D1E,28292A2B134=1617182C2D2E2F3031,3233343536135=24183738,393A3B3C3D126F3E136=3F4041424344,4648137=4A4B,4E72138=51524C4D5345,545576567257139=4958595345,5A5B7612565C7713A=4F505D415E5F60,6162636413B=02676869,6A6B3E6D200=1601025D60,393B28292A11090A201=0103041A1B4A,123435360B6D202=011819681B4C1D061E,3D1014203=011718252F591D0D1E,1F20213233204=012C26,3C23205=493751522D2E69,121364223E2B206=503F4005311E,6A3A5A5B207=5841440C38,4615208=431C4D45,6B4E5648209=27534B45,545507086162125620A=16666730,0E0F635720B=0241425E5F1B,6C0A0B3E5C20C=02185D1B601E,393B28292A116E20D=171803041B4A,126F3435366D20E=7019684C1D06,3D101420F=4901252F591D0D,1F2021323378210=50012C26,3C23211=013751522D2E69,121364223E2B212=013F40053145,6A3A5A5B213=015841440C38,46156E214=16431C4D5345,6B4E5648215=27534B45,545507086162120B5648216=18671B30,0E0F6357217=02171841425E5F1B,3E5C218=025D60,393B28292A11219=4903041A1B4A,123435366D21A=5019681B4C1D061E,3D101421B=252F591D0D45,1F2021323321C=2C26,3C2321D=3751522D2E69,121364223E2B21E=163F40053145,6A3A5A5B21F=5841440C38,467147150B220=18431C4D5345,6B4E5648221=171827534B45,5455070861621256222=6730,0E0F6357223=490241425E5F1B,3E5C224=50025D1B601E,393B28292A11225=03041A4A,123435366D226=19684C1D061E,3D1014227=252F591D0D1E,1F20213233228=162C26,3C23229=3751522D2E69,121364220B3E2B22A=183F40053145,6A3A5A5B22B=17185841440C38,46157222C=431C4D53,6B4E564822D=490127534B45,54550708616212567922E=5001671B30,0E0F635722F=010241425E5F,3E5C230=01025D601E,393B28292A1174231=0103041A4A,1234353647726E6D232=1619684C1D061E,3D1014233=252F591D0D1E,1F202132330B75234=182C26,3C23235=17183751522D2E69,126F1364223E2B236=3F400531,6A3A5A5B237=495841440C38,461572238=50431C4D5345,6B4E76567248239=27534B45,5455070861627612567323A=6730,0E0F635723B=0241425E5F,3E5C300=0102415E5F1A1B69,090A471457301=011B05,6A125C302=5001185D19515203042F0C1D601E,323315303=4F490118251C1D1E,3C5A5B106D304=012C2706,1F20213B710B787A305=58372668300D,6B123E306=173F402D2E45,07086423307=00,393A0E2B308=24164142444A533145,61624622567B309=674C533845,28292A4E12135630A=431B594D,5455633435364830B=021B27,3D116C0A3E30C=500218415E5F1A1B691E,146E5730D=4F49181B05,6A126F5C30E=705D19515203042F0C1D60,3233150B30F=01251C1D,3C5A5B106D310=01172C2706,1F20213B7C311=0158372668300D,6B123E312=2416013F402D2E45,0708476423313=01,393A0E0F6E2B314=4142444A533145,61624622567D315=66671B4C533845,28292A4E121356316=5018431B594D,54556334353648317=4F4902181B4B,3D113E318=02415E5F1A69,140B57319=1B05,6A125C31A=175D19515203042F0C1D601E,32331531B=251C1D1E,3C5A5B106D31C=24162C2706,1F20213B31D=58372668300D,6B123E31E=3F402D2E45,0708642331F=00,393A0E0F2B320=50184142444A533145,61624622567E321=4F4918671B4C533845,28292A4E121356322=43594D,5455633435360B48323=021B4B,3D113E324=0217415E5F1A691E,1457325=05,6A125C326=58165D19515203042F0C1D601E,323315327=251C1D1E,3C5A5B106D328=2C2706,1F20213B75329=58372668300D,6B123E32A=50183F402D2E45,0708642332B=4F4918,393A0E0F722B32C=4142444A5331,616246220B567B32D=01671B4C533845,28292A4E12135632E=011743594D,5455633435364832F=01024B,3D113E330=24160102415E5F1A691E,741457331=0105,6A12726E5C332=5D19515203042F0C1D601E,32331572333=251C1D1E,3C5A5B106D334=50182C2706,1F20213B335=4F491858372668300D,6B126F3E336=3F402D2E,0708640B23337=00,393A0E0F722B338=174142444A533145,616246762256727B73339=674C533845,28292A4E7612135633A=241643594D,5455633435364833B=024B,3D113E400=5001431B,5A5B1248401=490141425E5F2F4B,32336314402=4F01024A1D1E,396B3C130B57403=01025803044C1D1E,07085C404=01183F5D5960,0E0F10127F405=171819,1F20213E6D788075406=162526690645,28292A407=242C2D2E050D,6162343536647B408=3767680C5345,6A3A3B3D12155623409=4041441C5345,46562B40A=501B274D31,4E1140B=4951521A1B3038,5455223E40C=4F431B1E,5A5B0981120B6E4840D=41425E5F2F4B,3233631440E=02184A1D,396B3C135740F=010217185803044C1D,0708475C410=16013F585960,0E0F1012411=240119,1F20213E6D412=012526690645,28292A413=012C2D2E050D,6162343536646E7B414=503767681B0C5345,6A3A3B3D126F155623415=494041441B1C5345,46562B416=4F1B274D31,4E11710B417=51521A1B3038,54556C81223E418=18431B,5A5B1248419=171841425E5F2F4B,3233631441A=16024A1D1E,396B3C135741B=24025844044C1D1E,07085C41C=3F5D5960,0E0F101241D=19,1F20213E6D41E=50702526690645,28292A41F=492C2D2E050D,6162343536647D420=4F663767681B0C5345,6A3A3B3D12150B5623421=4041441B1C5345,46562B422=181B274D31,4E11423=171851521A3038,5455223E424=16431E,5A5B1248425=2441425E5F2F4B,32336314426=024A1D1E,396B3C1357427=025803044C1D1E,07085C428=503F5D5960,0E0F10126F429=4919,1F20213E6D42A=4F2526690645,28292A0B8242B=2C2D2E050D,616234353664727E7342C=183767681B0C53,6A3A3B3D1215562342D=0117184041441C5345,4647562B42E=1601274D31,4E1142F=240151521A3038,5455223E430=01431E,5A5B761248431=0141425E5F2F4B,32336314726E432=50024A1D1E,396B3C137257433=49025844044C1D1E,0708745C434=4F3F5D5960,0E0F10120B435=19,1F20213E6D75436=1825266906,28292A82437=17182C2D2E050D,616234353664727B73438=163767680C5345,6A3A3B3D1215567223439=244041441C5345,46562B43A=274D31,4E1143B=51521A3038,545576223E83500=012F4D31,54550708323312501=01586938,0E0F3C63502=16010241435E5F051D1E,641448503=01020C1D4B1E,6A28292A353615220B504=0117183F03041C,123457505=181927,3D103E5C506=5D25306045,1F20213B616213507=492C2667,6D508=503751522D2E530645,1256509=401B4A530D45,393A5A5B115650A=4142441A1B4C,462350B=681B59,6B4E3E2B50C=162F4D311E,5455070832330981126E50D=586938,0E0F3C0B50E=02171841435E5F051D,64144850F=0102180C1D4B,6A28292A35361522510=013F03041C,123457511=49011927,3D103E5C512=50015D25306045,1F20213B616213513=012C26671B,6E6D514=3751522D2E1B530645,126F56515=401B4A530D45,393A5A5B1156516=164142441A1B4C,467123517=6859,6B4E6C810B3E2B518=17182F4D31,54550708323312519=18586938,0E0F3C6351A=0241435E5F051D1E,64144851B=49020C1D4B1E,6A28292A3536152251C=503F03041C,12345751D=1927,3D103E5C51E=705D25306045,1F20213B61621351F=2C26671B,6D520=163751522D2E1B530645,1256521=404A530D45,393A5A5B110B56522=17184142441A1B,4623523=186859,6B4E3E2B524=2F4D311E,54550708323312525=49586938,0E0F3C63526=500241435E5F051D1E,641448527=020C1D4B1E,6A28292A35361522528=3F03041C,126F344757529=1927,3D103E5C52A=165D25306045,1F20213B616213658452B=662C2667,0B726D52C=17183751522D2E1B5306,125652D=0118404A530D45,393A5A5B115652E=014142441A4C,462352F=49016859,6B4E3E2B530=50012F4D311E,545507083233761285531=01586938,0E0F3C63726E532=0241435E5F051D1E,64147248533=020C1D4B1E,6A28292A7435361522534=163F03041C,123457535=1927,3D100B3E5C536=16185D253060,1F20213B61621378537=182C2667,726D538=3751522D2E530645,125672539=49404A530D45,393A5A5B115653A=504142441A4C,46472353B=681B59,6B4E763E2B600=241601304D,3C28292A4E1235361423601=01,54553B63342B602=0102681D311E,3D603=010241425E5F4A1D381E,64604=01183F434C,39127148605=4F49181951520304594B,61620B3E73606=50256745,5A5B102257607=172C69,1F20215C608=5D37261B05536045,6B111256609=402D2E1A1B0C5345,6B11125660A=24161B1C06,6A3A0E0F1360B=5841442F270D,3233463E60C=304D1E,3C28292A4E0981123536146E2360D=00,54553B63342B60E=0218681D31,3D60F=4F4901021841425E5F4A1D38,640B610=50013F434C,391248611=01171951520304594B,61623E612=0125671B45,5A5B102257613=012C1B69,1F20216E5C614=24165D37261B05536045,6B11126F56615=402D2E1A1B0C5345,070815566D616=1C06,6A3A0E0F1347617=5841442F270D,3233466C813E618=18304D,3C28292A4E1235361423619=4F4918,54553B63340B2B61A=5002681D311E,3D61B=021741425E5F4A1D381E,6461C=3F434C,39124861D=1951520304594B,61623E61E=24167025671B45,5A5B10225761F=2C1B69,1F20215C620=5D372605536045,6B111256621=402D2E1A0C5345,070815566D622=181B1C06,6A3A0E0F13623=4F49185841442F270D,3233460B3E624=50304D1E,3C28292A4E1235361423625=17,54553B63342B626=02681D311E,3D627=0241425E5F4A1D381E,64628=24163F434C,39126F48629=1951520304594B,61623E62A=256745,5A5B1022578662B=2C69,1F2021725C7562C=185D37261B055360,6B11125662D=4F490118402D2E1A0C5345,0708150B566D62E=50011C06,6A3A0E0F1362F=01175841442F270D,3233463E630=01304D1E,3C28292A4E761235361423631=01,54553B6334726E2B87632=241602681D311E,3D72633=0241425E5F4A1D381E,7464634=3F434C,39124748635=1951520304594B,61623E6573636=661825671B,5A5B10225786637=4F49182C69,1F20210B725C75638=505D372605536045,6B11125672639=17402D2E1A0C5345,070815566D63A=1B1C06,6A3A0E0F1363B=5841442F270D,323346763E700=0103404142445906,46701=01020D,4E14702=50015152694D1D1E,54553B23703=4901051D1E,5A5B2B1288704=4F0102415E5F0C31,6162636415705=6667681C38,6A6B3E706=4303042745,07080B48707=02304B,0E0F101112708=16171819,1F20135657709=24185825261B5345,28292A353622565C70A=025D2C2D2E2F4A60,3233893470B=374C,393A3C3D3E6D70C=503F4041424459061E,466E70D=49020D,4E1470E=4F5152694D1D,54553B70F=01051D,5A5B12132B710=0102415E5F0C31,61626364150B65711=0167681C38,6A6B3E712=162417184303041B2745,070848713=240102181B304B,0E0F1011126E714=191A1B5345,1F20215657715=5825261B5345,28292A353622565C717=49374C,393A3C3D126F473E6D718=4F3F404142445906,46719=020D,4E1471A=515269,1D1E71B=051D1E,5A5B12132B71C=16021718415E5F0C31,616263641571D=241867681B1C38,6A6B3E71E=4303041B2745,07084871F=021B30,0E0F101112720=50191A5345,1F20215657721=495825265345,28292A353622565C722=4F025D2C2D2E2F4A60,32338934723=374C,393A3C3D123E6D724=3F4041424459061E,46098A0B725=020D,4E7114726=1617185152694D1D1E,54553B23727=2418051D1E,5A5B12132B728=02415E5F0C31,616263641573729=67681B1C38,6A6B3E72A=504303042745,07084872B=4902304B,0E0F1011126F7272C=4F70191A1B,1F2021565772D=015825265345,28292A353622565C72E=01025D2C2D2E2F4A60,323389340B72F=01374C,393A3C3D6C8A123E6D730=160117183F4041424459061E,46731=240102180D,4E14726E732=5152694D1D1E,54553B767223733=051D1E,5A5B7612132B77734=5002415E5F0C31,6162636415735=4967681C38,6A6B473E736=4F4303041B27,7448737=02304B,0E0F10111272738=191A5345,1F20210B56725775739=5825265345,28292A353622565C73A=160217185D2C2D2E2F4A60,3233893473B=2418374C,393A3C3D123E6D800=50013F5D402760,6A3A5A5B22801=490102414430,466D802=014D1D061E,6B4E4714803=011D0D1E,54550708616212804=0102671B4A,0E0F6323805=41425E5F4C,8B2B806=16593145,3928292A113536807=025803041A1B38,1234130B808=181943681B695345,3D105648809=1718252F0553534B45,1F20213B32335680A=50022C260C,3C155780B=493751522D2E1C,12643E5C80C=3F5D4027601E,6A3A5A5B226E80D=02414430,466D80E=4D1D06,6B4E1480F=011D0D,5455070861621279810=16010266674A,0E0F6323811=0141425E5F1B4C,0B3E2B812=01181B593145,3928292A113536813=010217185803041A1B38,1234136E814=501943681B695345,3D105648815=49252F05534B45,1F20213B323356816=022C260C,3C1557817=3751522D2E1C,126F643E5C818=3F5D402760,6A3A5A5B22819=02414430,466D81A=164D1D061E,6B4E1481B=1D0D1E,545507086162120B6581C=0218671B4A,0E0F632381D=171841425E5F1B4C,3E2B81E=501B593145,3928292A11353681F=49025D03041A38,123413820=194368695345,3D10475648821=252F05534B45,1F20213B323356716=50025D2C2D2E2F4A60,32338934822=022C260C,3C1557823=3751522D2E1C,12643E5C824=163F5D4027601E,6A3A5A5B098A22825=02414430,46710B6D826=184D1D061E,6B4E14827=17181D0D1E,54550708616212828=5002671B4A,0E0F6323829=4941425E5F4C,3E2B82A=593145,3928292A11353682B=025803041A38,126F34137282C=701943681B6953,3D10564882D=01252F05534B45,1F2021613233567882E=1601022C260C,3C155782F=013751522D2E1C,6C8A12640B3E5C830=01183F5D4027601E,6A3A5A5B22831=01021718414430,46726E6D832=504D1D061E,6B4E761472833=491D0D1E,545507086162761273834=02674A,0E0F6323835=41425E5F4C,3E2B836=1B5931,3928292A11743536837=025803041A38,12341372838=16194368695345,3D10567248839=252F05534B45,1F20213B32330B567583A=02182C260C,3C155783B=17183751522D2E1C,12643E5C900=013F408C2E4C,0708641457901=010259,393A0E0F5C902=2416015D4142441D601E,61624635367B903=0167691D1E,28292A4E126D904=01021B054D06,5455637134220B905=580C0D,3D11153E906=17415E5F1A1B1C45,23907=4F49021B27,6A3B12472B908=501819515203042F30533145,323356909=1825533845,3C5A5B105690A=022C43,1F2021487C90B=3726684A4B,6B12133E90C=24163F402D2E4C1E,070864146E5790D=0259,393A0E0F5C90E=5D4142441D60,61624635360B7B90F=0167691D,28292A4E126D910=0102171B054D06,5455633422911=4F4901581B0C0D,3D11153E912=500118415E5F1A1B1C45,23913=0102181B27,6A3B126E2B914=19515203042F30533145,323356915=25533845,3C5A5B1056916=2416022C43,1F202148917=3726684A4B,6B126F133E918=3F402D2E4C,070864140B57919=0259,393A0E0F5C91A=175D4142441D601E,61624635367D91B=4F4966671B691D1E,28292A4E126D91C=5002181B054D06,545563342291D=18581B0C0D,3D11153E91E=415E5F1A1C45,2391F=0227,6A3B122B920=241619515203042F305331,323356921=25533845,3C5A5B1056922=022C43,1F20210B48788D923=3726684A4B,6B12133E924=173F402D2E4C1E,0708098A641457925=4F49022E,393A0E0F475C926=50185D4142441D601E,61624635367E927=18671B691D1E,28292A4E126D928=02054D06,5455633422929=580C0D,3D11153E92A=2416415E5F1A1C45,2392B=0227,6A3B126F722B92C=7019515203042F305331,32330B5692D=0125533845,3C5A5B105692E=0102162C43,1F2021487592F=4F49013726684A4B,6B6C8A12133E930=5001183F402D2E4C1E,0708641457931=01021859,393A0E0F726E5C932=5D4142441D601E,616246763536727B73933=67691D1E,28292A4E76126D934=241602054D06,5455633422935=580C0D,3D11153E936=415E5F1A1B1C,740B23937=0227,6A3B12722B938=1719515203042F30533145,32335672939=4F4925533845,3C5A5B105693A=5002182C43,1F20214893B=183726684A4B,6B12133EA00=160170182543261C,28292A48A01=240117182C2D2E274B,61623464147BA02=013F376768301D1E,6A3A3D1257A03=01584041441D1E,465CA04=015D4D60,4E1113A05=4951521A1B4A,54553E6DA06=4F501B4C0645,5A5B12A07=41425E5F2F590D,32336322A08=025345,396B3C0B5623A09=020304695345,0708562BA0A=16180531,0E0F10126FA0B=241618190C38,1F20213B3536103EA0C=2543261C1E,28292A6E48A0D=2C2D2E274B,61623464147BA0E=3F376768301D,6A3A3D124757A0F=4924584041441B1D,465CA10=4F50015D1B4D60,4E1113A11=0151521A1B4A,54553E6DA12=011B4C0645,5A5B120BA13=0141425E5F2F590D,323363226EA14=1602185345,396B3C5623A15=240217180304695345,0708562BA16=0531,0E0F1012A17=190C38,1F20213B3536153EA18=2543261C,28292A4882A19=49503F3767681B301D1E,6A3A3D1257A1A=4F503F3767681B301D1E,6A3A3D1257A1B=584041441B1D1E,465CA1C=5D1B4D60,4E1171130BA1D=51521A1B4A,54553E6DA1E=16184C0645,5A5B12A1F=24171841425E5F2F590D,32336322A20=025345,396B3C5623A21=020304695345,0708562BA22=0531,0E0F10128EA23=49190C38,1F20213B3536153E788FA24=4F502543261C1E,28292A48A25=2C2D2E274B,61623464147DA26=663F3767681B301D1E,6A3A3D120B57A27=584041441B1D1E,465CA28=16185D4D60,4E1113A29=24171851521A4A,54553E6DA2A=4C0645,5A5B7612A2B=41425E5F2F590D,3233632272A2C=0253,396B3C475623A2D=1601020304695345,0708562BA2E=4F50010531,0E0F1012A2F=01190C38,1F20213B3536153EA30=012543261C1E,28292A09900B4882A31=012C2D2E274B,6162346414726E7E73A32=16183F376768301D1E,6A3A3D126F7257A33=2417185D4041441D1E,465CA34=5D4D60,4E1113A35=51521A4A,5455763E6D83A36=4C06,5A5B12A37=4941425E5F2F590D,3233632272A38=4F50029145,396B3C567223A39=020304695345,070874562BA3A=0531,0E0F10120BA3B=190C38,1F20213B6C903536153E75B00=01701718254A31,1F20216162B01=0118582C26,674C38B02=50013F375152432D2E591D1E,121448B03=4901401B1D4B1E,393A5B11B04=014142441A69,4657B05=681B05,6B4E3E5CB06=682F0C4D6045,5455070832331215B07=1C,0E0F3C636DB08=1602415E5F27530645,3536136456B09=0230530D45,6A28292A0B56B0A=17180304,126F342223B0B=1819,3D103E2BB0C=50254A311E,1F202161626EB0D=49582C26,671B4C38B0E=3F375152432D2E591D,121448B0F=01401B1D4B,393A3B5A5B11B10=014142441A1B69,4657B11=01681B05,6B4E3E5CB12=16015D2F0C4D6045,5455070832331215B13=011C,0E0F3C630B6E6DB14=021718415E5F27530645,3536136456B15=021830530D45,6A28292A56B16=500304,12342223B17=4919,3D103E2BB18=254A31,1F4E21616278B19=582C26,671B4C38B1A=3F375152432D2E1B591D1E,121448B1B=401B1D4B1E,393A3B5A5B1147B1C=164142441A1B69,467157B1D=6805,6B4E0B3E5CB1E=17185D2F0C926045,5455070832331215B1F=181C,0E0F3C636DB20=5002415E5F27530645,3536136456B21=490230530D45,6A28292A56B22=0304,12342223B23=19,3D103E2BB24=254A311E,1F20136162B25=582C26671B4C38,00B26=163F375152432D2E1B591D1E,121448B27=401D4B1E,393A3B5A5B110BB28=17184142441A69,4657B29=186805,6B4E3E5CB2A=505D2F0C4D6045,54550708323376121585B2B=491C,0E0F3C63726DB2C=02415E5F275306,3536136456B2D=010230530D45,6A28292A56B2E=010304,12342223B2F=0119,3D103E2BB30=1601254A311E,1F2021616209906584B31=0166582C26674C38,0B726EB32=17183F375152432D2E591D1E,126F147248B33=18401D4B1E,393A3B5A5B11B34=504142441A69,4657B35=49681B05,6B4E763E5CB36=5D2F0C4D60,5455070832331215B37=1C,0E0F3C63726DB38=02415E5F27530645,353613645672B39=0230530D45,6A28292A744756B3A=160304,12342223B3B=19,3D106C900B3E2BC00=500170661825670C,5A5B1013141523C01=4F4901182C1C,1F2021222BC02=011637261B271D311E,6B1112C03=01402D2E1A1B311D381E,0708C04=0143,6A3A0E0F7148C05=41442F4B,32334635360B3EC06=24164A4D45,3C28292A4E1257C07=174C,545563345CC08=025D6859536045,3D56C09=0241425E5F5345,4764566DC0A=50186906,393B126FC0B=4F4918581951520304050D,61623EC0C=25671B0C1E,5A5B101314156E23C0D=2C1B1C,1F2021222BC0E=3F37264B1D31,6B1112C0F=01402D2E1A1B301D38,07080BC10=241601431B,6A3A0E0F48C11=011741442F4B,32334635363EC12=014A4D45,3C28292A4E1257C13=014C,545563346E5CC14=5002185D6804536045,3D56C15=4F49021841425E5F5345,64566DC16=6906,393B12C17=581951524404050D,61623EC18=25670C,5A5B101314152386C19=2C1B1C,1F2021220B2BC1A=24163F37261B271D31,6B1112C1B=17402D2E1A1B301D381E,0708C1C=43,6A3A0E0F48C1D=41582F4B,32334635363EC1E=50184A4D45,3C28292A4E1257C1F=4F49184C,545563345CC20=025D6859536045,3D56C21=0241425E5F5345,64566DC22=6906,393B12C23=581951520304050D,61620B3EC24=241625671B0C1E,5A5B1013141523C25=172C1B1C,1F2021222BC26=3F3726271D311E,6B1112C27=402D2E1A301D381E,0708C28=501843,6A5B0E0F48C29=4F491841442F4B,32334635363EC2A=4A4D45,3C28292A4E761257C2B=4C,54556334725C93C2C=025D68595360,3D56C2D=010241425E5F5345,640B566DC2E=2416016906,393B12C2F=0117581951520304050D,61623EC30=0125670C,5A5B1009901314152386C31=012C1C,1F202122726E2B75C32=50183F3726271D311E,6B11126F72C33=4F4918402D2E1A301D381E,070847C34=431B,6A3A0E0F48C35=41442F4B,3233467635363EC36=4A4D,3C28292A4E1257C37=4C,545563340B725CC38=2416025D6859536045,3D5672C39=021741425E5F5345,7464566DC3A=6906,393B12C3B=581951520304050D,61626C903E6573"
+    __DAY_SHEN_SHA = "100=010203040506,0708090A0B101=010C0D,0E0F101112131415102=16011718191A1B1C1D1E,1F20212223103=24011825261B271D1E,28292A2B104=012C2D2E2F3031,3233343536105=3738,393A3B3C3D123E106=3F404142434445,464748107=494A4B4C4D,4E108=4F5051524C4D5345,54555657109=58595345,5A5B12565C10A=5D415E5F60,616263640B6510B=0266676869,6A6B6C0A3E6D10C=1602171803041B05061E,07086E10D=24181B0C0D,0E0F1011126F13141510E=70191A1C1D,1F2021222310F=0125261B271D,28292A2B110=012C2D2E2F3031,3233343536111=49013738,393A3B3C3D123E112=4F50013F404142434445,4648113=014A4B,4E6E114=51524C4D5345,54550B5657115=0158595345,5A5B12565C116=1601185D415E5F60,61626364117=24021867681B69,6A6B3E6D118=0203040506,0708119=1B0C0D,0E0F10111213141511A=191A1B1C1D1E,1F2021222311B=4925261B271D1E,28292A11C=4F502C2D2E2F3031,323334353611D=3738,393A3B3C3D123E11E=3F404142434445,460B4811F=4A4B,4E71120=16171851524C4D5345,545556121=241858595345,5A5B12565C122=5D415E5F60,61626364123=0267681B69,6A6B3E6D124=0203041B05061E,070847125=491B0C0D,0E0F101112131415126=4F50191A1C1D1E,1F20212223127=2526271D1E,28292A2B128=2C2D2E2F3031,32333435360B129=3738,393A3B3C3D123E12A=1617183F404142434445,464812B=24184A4B,4E7212C=51524C4D53,5455565712D=0158595345,5A5B12565C12E=015D415E5F60,616263647312F=49010267681B69,6A6B3E6D130=4F500102030405061E,070874131=010C0D,0E0F101112131415726E132=191A1C1D1E,1F2021220B722375133=2526271D1E,28292A2B134=1617182C2D2E2F3031,3233343536135=24183738,393A3B3C3D126F3E136=3F4041424344,4648137=4A4B,4E72138=51524C4D5345,545576567257139=4958595345,5A5B7612565C7713A=4F505D415E5F60,6162636413B=02676869,6A6B3E6D200=1601025D60,393B28292A11090A201=0103041A1B4A,123435360B6D202=011819681B4C1D061E,3D1014203=011718252F591D0D1E,1F20213233204=012C26,3C23205=493751522D2E69,121364223E2B206=503F4005311E,6A3A5A5B207=5841440C38,4615208=431C4D45,6B4E5648209=27534B45,545507086162125620A=16666730,0E0F635720B=0241425E5F1B,6C0A0B3E5C20C=02185D1B601E,393B28292A116E20D=171803041B4A,126F3435366D20E=7019684C1D06,3D101420F=4901252F591D0D,1F2021323378210=50012C26,3C23211=013751522D2E69,121364223E2B212=013F40053145,6A3A5A5B213=015841440C38,46156E214=16431C4D5345,6B4E5648215=27534B45,545507086162120B5648216=18671B30,0E0F6357217=02171841425E5F1B,3E5C218=025D60,393B28292A11219=4903041A1B4A,123435366D21A=5019681B4C1D061E,3D101421B=252F591D0D45,1F2021323321C=2C26,3C2321D=3751522D2E69,121364223E2B21E=163F40053145,6A3A5A5B21F=5841440C38,467147150B220=18431C4D5345,6B4E5648221=171827534B45,5455070861621256222=6730,0E0F6357223=490241425E5F1B,3E5C224=50025D1B601E,393B28292A11225=03041A4A,123435366D226=19684C1D061E,3D1014227=252F591D0D1E,1F20213233228=162C26,3C23229=3751522D2E69,121364220B3E2B22A=183F40053145,6A3A5A5B22B=17185841440C38,46157222C=431C4D53,6B4E564822D=490127534B45,54550708616212567922E=5001671B30,0E0F635722F=010241425E5F,3E5C230=01025D601E,393B28292A1174231=0103041A4A,1234353647726E6D232=1619684C1D061E,3D1014233=252F591D0D1E,1F202132330B75234=182C26,3C23235=17183751522D2E69,126F1364223E2B236=3F400531,6A3A5A5B237=495841440C38,461572238=50431C4D5345,6B4E76567248239=27534B45,5455070861627612567323A=6730,0E0F635723B=0241425E5F,3E5C300=0102415E5F1A1B69,090A471457301=011B05,6A125C302=5001185D19515203042F0C1D601E,323315303=4F490118251C1D1E,3C5A5B106D304=012C2706,1F20213B710B787A305=58372668300D,6B123E306=173F402D2E45,07086423307=00,393A0E2B308=24164142444A533145,61624622567B309=674C533845,28292A4E12135630A=431B594D,5455633435364830B=021B27,3D116C0A3E30C=500218415E5F1A1B691E,146E5730D=4F49181B05,6A126F5C30E=705D19515203042F0C1D60,3233150B30F=01251C1D,3C5A5B106D310=01172C2706,1F20213B7C311=0158372668300D,6B123E312=2416013F402D2E45,0708476423313=01,393A0E0F6E2B314=4142444A533145,61624622567D315=66671B4C533845,28292A4E121356316=5018431B594D,54556334353648317=4F4902181B4B,3D113E318=02415E5F1A69,140B57319=1B05,6A125C31A=175D19515203042F0C1D601E,32331531B=251C1D1E,3C5A5B106D31C=24162C2706,1F20213B31D=58372668300D,6B123E31E=3F402D2E45,0708642331F=00,393A0E0F2B320=50184142444A533145,61624622567E321=4F4918671B4C533845,28292A4E121356322=43594D,5455633435360B48323=021B4B,3D113E324=0217415E5F1A691E,1457325=05,6A125C326=58165D19515203042F0C1D601E,323315327=251C1D1E,3C5A5B106D328=2C2706,1F20213B75329=58372668300D,6B123E32A=50183F402D2E45,0708642332B=4F4918,393A0E0F722B32C=4142444A5331,616246220B567B32D=01671B4C533845,28292A4E12135632E=011743594D,5455633435364832F=01024B,3D113E330=24160102415E5F1A691E,741457331=0105,6A12726E5C332=5D19515203042F0C1D601E,32331572333=251C1D1E,3C5A5B106D334=50182C2706,1F20213B335=4F491858372668300D,6B126F3E336=3F402D2E,0708640B23337=00,393A0E0F722B338=174142444A533145,616246762256727B73339=674C533845,28292A4E7612135633A=241643594D,5455633435364833B=024B,3D113E400=5001431B,5A5B1248401=490141425E5F2F4B,32336314402=4F01024A1D1E,396B3C130B57403=01025803044C1D1E,07085C404=01183F5D5960,0E0F10127F405=171819,1F20213E6D788075406=162526690645,28292A407=242C2D2E050D,6162343536647B408=3767680C5345,6A3A3B3D12155623409=4041441C5345,46562B40A=501B274D31,4E1140B=4951521A1B3038,5455223E40C=4F431B1E,5A5B0981120B6E4840D=41425E5F2F4B,3233631440E=02184A1D,396B3C135740F=010217185803044C1D,0708475C410=16013F585960,0E0F1012411=240119,1F20213E6D412=012526690645,28292A413=012C2D2E050D,6162343536646E7B414=503767681B0C5345,6A3A3B3D126F155623415=494041441B1C5345,46562B416=4F1B274D31,4E11710B417=51521A1B3038,54556C81223E418=18431B,5A5B1248419=171841425E5F2F4B,3233631441A=16024A1D1E,396B3C135741B=24025844044C1D1E,07085C41C=3F5D5960,0E0F101241D=19,1F20213E6D41E=50702526690645,28292A41F=492C2D2E050D,6162343536647D420=4F663767681B0C5345,6A3A3B3D12150B5623421=4041441B1C5345,46562B422=181B274D31,4E11423=171851521A3038,5455223E424=16431E,5A5B1248425=2441425E5F2F4B,32336314426=024A1D1E,396B3C1357427=025803044C1D1E,07085C428=503F5D5960,0E0F10126F429=4919,1F20213E6D42A=4F2526690645,28292A0B8242B=2C2D2E050D,616234353664727E7342C=183767681B0C53,6A3A3B3D1215562342D=0117184041441C5345,4647562B42E=1601274D31,4E1142F=240151521A3038,5455223E430=01431E,5A5B761248431=0141425E5F2F4B,32336314726E432=50024A1D1E,396B3C137257433=49025844044C1D1E,0708745C434=4F3F5D5960,0E0F10120B435=19,1F20213E6D75436=1825266906,28292A82437=17182C2D2E050D,616234353664727B73438=163767680C5345,6A3A3B3D1215567223439=244041441C5345,46562B43A=274D31,4E1143B=51521A3038,545576223E83500=012F4D31,54550708323312501=01586938,0E0F3C63502=16010241435E5F051D1E,641448503=01020C1D4B1E,6A28292A353615220B504=0117183F03041C,123457505=181927,3D103E5C506=5D25306045,1F20213B616213507=492C2667,6D508=503751522D2E530645,1256509=401B4A530D45,393A5A5B115650A=4142441A1B4C,462350B=681B59,6B4E3E2B50C=162F4D311E,5455070832330981126E50D=586938,0E0F3C0B50E=02171841435E5F051D,64144850F=0102180C1D4B,6A28292A35361522510=013F03041C,123457511=49011927,3D103E5C512=50015D25306045,1F20213B616213513=012C26671B,6E6D514=3751522D2E1B530645,126F56515=401B4A530D45,393A5A5B1156516=164142441A1B4C,467123517=6859,6B4E6C810B3E2B518=17182F4D31,54550708323312519=18586938,0E0F3C6351A=0241435E5F051D1E,64144851B=49020C1D4B1E,6A28292A3536152251C=503F03041C,12345751D=1927,3D103E5C51E=705D25306045,1F20213B61621351F=2C26671B,6D520=163751522D2E1B530645,1256521=404A530D45,393A5A5B110B56522=17184142441A1B,4623523=186859,6B4E3E2B524=2F4D311E,54550708323312525=49586938,0E0F3C63526=500241435E5F051D1E,641448527=020C1D4B1E,6A28292A35361522528=3F03041C,126F344757529=1927,3D103E5C52A=165D25306045,1F20213B616213658452B=662C2667,0B726D52C=17183751522D2E1B5306,125652D=0118404A530D45,393A5A5B115652E=014142441A4C,462352F=49016859,6B4E3E2B530=50012F4D311E,545507083233761285531=01586938,0E0F3C63726E532=0241435E5F051D1E,64147248533=020C1D4B1E,6A28292A7435361522534=163F03041C,123457535=1927,3D100B3E5C536=16185D253060,1F20213B61621378537=182C2667,726D538=3751522D2E530645,125672539=49404A530D45,393A5A5B115653A=504142441A4C,46472353B=681B59,6B4E763E2B600=241601304D,3C28292A4E1235361423601=01,54553B63342B602=0102681D311E,3D603=010241425E5F4A1D381E,64604=01183F434C,39127148605=4F49181951520304594B,61620B3E73606=50256745,5A5B102257607=172C69,1F20215C608=5D37261B05536045,6B111256609=402D2E1A1B0C5345,6B11125660A=24161B1C06,6A3A0E0F1360B=5841442F270D,3233463E60C=304D1E,3C28292A4E0981123536146E2360D=00,54553B63342B60E=0218681D31,3D60F=4F4901021841425E5F4A1D38,640B610=50013F434C,391248611=01171951520304594B,61623E612=0125671B45,5A5B102257613=012C1B69,1F20216E5C614=24165D37261B05536045,6B11126F56615=402D2E1A1B0C5345,070815566D616=1C06,6A3A0E0F1347617=5841442F270D,3233466C813E618=18304D,3C28292A4E1235361423619=4F4918,54553B63340B2B61A=5002681D311E,3D61B=021741425E5F4A1D381E,6461C=3F434C,39124861D=1951520304594B,61623E61E=24167025671B45,5A5B10225761F=2C1B69,1F20215C620=5D372605536045,6B111256621=402D2E1A0C5345,070815566D622=181B1C06,6A3A0E0F13623=4F49185841442F270D,3233460B3E624=50304D1E,3C28292A4E1235361423625=17,54553B63342B626=02681D311E,3D627=0241425E5F4A1D381E,64628=24163F434C,39126F48629=1951520304594B,61623E62A=256745,5A5B1022578662B=2C69,1F2021725C7562C=185D37261B055360,6B11125662D=4F490118402D2E1A0C5345,0708150B566D62E=50011C06,6A3A0E0F1362F=01175841442F270D,3233463E630=01304D1E,3C28292A4E761235361423631=01,54553B6334726E2B87632=241602681D311E,3D72633=0241425E5F4A1D381E,7464634=3F434C,39124748635=1951520304594B,61623E6573636=661825671B,5A5B10225786637=4F49182C69,1F20210B725C75638=505D372605536045,6B11125672639=17402D2E1A0C5345,070815566D63A=1B1C06,6A3A0E0F1363B=5841442F270D,323346763E700=0103404142445906,46701=01020D,4E14702=50015152694D1D1E,54553B23703=4901051D1E,5A5B2B1288704=4F0102415E5F0C31,6162636415705=6667681C38,6A6B3E706=4303042745,07080B48707=02304B,0E0F101112708=16171819,1F20135657709=24185825261B5345,28292A353622565C70A=025D2C2D2E2F4A60,3233893470B=374C,393A3C3D3E6D70C=503F4041424459061E,466E70D=49020D,4E1470E=4F5152694D1D,54553B70F=01051D,5A5B12132B710=0102415E5F0C31,61626364150B65711=0167681C38,6A6B3E712=162417184303041B2745,070848713=240102181B304B,0E0F1011126E714=191A1B5345,1F20215657715=5825261B5345,28292A353622565C717=49374C,393A3C3D126F473E6D718=4F3F404142445906,46719=020D,4E1471A=515269,1D1E71B=051D1E,5A5B12132B71C=16021718415E5F0C31,616263641571D=241867681B1C38,6A6B3E71E=4303041B2745,07084871F=021B30,0E0F101112720=50191A5345,1F20215657721=495825265345,28292A353622565C722=4F025D2C2D2E2F4A60,32338934723=374C,393A3C3D123E6D724=3F4041424459061E,46098A0B725=020D,4E7114726=1617185152694D1D1E,54553B23727=2418051D1E,5A5B12132B728=02415E5F0C31,616263641573729=67681B1C38,6A6B3E72A=504303042745,07084872B=4902304B,0E0F1011126F7272C=4F70191A1B,1F2021565772D=015825265345,28292A353622565C72E=01025D2C2D2E2F4A60,323389340B72F=01374C,393A3C3D6C8A123E6D730=160117183F4041424459061E,46731=240102180D,4E14726E732=5152694D1D1E,54553B767223733=051D1E,5A5B7612132B77734=5002415E5F0C31,6162636415735=4967681C38,6A6B473E736=4F4303041B27,7448737=02304B,0E0F10111272738=191A5345,1F20210B56725775739=5825265345,28292A353622565C73A=160217185D2C2D2E2F4A60,3233893473B=2418374C,393A3C3D123E6D800=50013F5D402760,6A3A5A5B22801=490102414430,466D802=014D1D061E,6B4E4714803=011D0D1E,54550708616212804=0102671B4A,0E0F6323805=41425E5F4C,8B2B806=16593145,3928292A113536807=025803041A1B38,1234130B808=181943681B695345,3D105648809=1718252F05534B45,1F20213B32335680A=50022C260C,3C155780B=493751522D2E1C,12643E5C80C=3F5D4027601E,6A3A5A5B226E80D=02414430,466D80E=4D1D06,6B4E1480F=011D0D,5455070861621279810=16010266674A,0E0F6323811=0141425E5F1B4C,0B3E2B812=01181B593145,3928292A113536813=010217185803041A1B38,1234136E814=501943681B695345,3D105648815=49252F05534B45,1F20213B323356816=022C260C,3C1557817=3751522D2E1C,126F643E5C818=3F5D402760,6A3A5A5B22819=02414430,466D81A=164D1D061E,6B4E1481B=1D0D1E,545507086162120B6581C=0218671B4A,0E0F632381D=171841425E5F1B4C,3E2B81E=501B593145,3928292A11353681F=49025D03041A38,123413820=194368695345,3D10475648821=252F05534B45,1F20213B323356716=50025D2C2D2E2F4A60,32338934822=022C260C,3C1557823=3751522D2E1C,12643E5C824=163F5D4027601E,6A3A5A5B098A22825=02414430,46710B6D826=184D1D061E,6B4E14827=17181D0D1E,54550708616212828=5002671B4A,0E0F6323829=4941425E5F4C,3E2B82A=593145,3928292A11353682B=025803041A38,126F34137282C=701943681B6953,3D10564882D=01252F05534B45,1F2021613233567882E=1601022C260C,3C155782F=013751522D2E1C,6C8A12640B3E5C830=01183F5D4027601E,6A3A5A5B22831=01021718414430,46726E6D832=504D1D061E,6B4E761472833=491D0D1E,545507086162761273834=02674A,0E0F6323835=41425E5F4C,3E2B836=1B5931,3928292A11743536837=025803041A38,12341372838=16194368695345,3D10567248839=252F05534B45,1F20213B32330B567583A=02182C260C,3C155783B=17183751522D2E1C,12643E5C900=013F408C2E4C,0708641457901=010259,393A0E0F5C902=2416015D4142441D601E,61624635367B903=0167691D1E,28292A4E126D904=01021B054D06,5455637134220B905=580C0D,3D11153E906=17415E5F1A1B1C45,23907=4F49021B27,6A3B12472B908=501819515203042F30533145,323356909=1825533845,3C5A5B105690A=022C43,1F2021487C90B=3726684A4B,6B12133E90C=24163F402D2E4C1E,070864146E5790D=0259,393A0E0F5C90E=5D4142441D60,61624635360B7B90F=0167691D,28292A4E126D910=0102171B054D06,5455633422911=4F4901581B0C0D,3D11153E912=500118415E5F1A1B1C45,23913=0102181B27,6A3B126E2B914=19515203042F30533145,323356915=25533845,3C5A5B1056916=2416022C43,1F202148917=3726684A4B,6B126F133E918=3F402D2E4C,070864140B57919=0259,393A0E0F5C91A=175D4142441D601E,61624635367D91B=4F4966671B691D1E,28292A4E126D91C=5002181B054D06,545563342291D=18581B0C0D,3D11153E91E=415E5F1A1C45,2391F=0227,6A3B122B920=241619515203042F305331,323356921=25533845,3C5A5B1056922=022C43,1F20210B48788D923=3726684A4B,6B12133E924=173F402D2E4C1E,0708098A641457925=4F49022E,393A0E0F475C926=50185D4142441D601E,61624635367E927=18671B691D1E,28292A4E126D928=02054D06,5455633422929=580C0D,3D11153E92A=2416415E5F1A1C45,2392B=0227,6A3B126F722B92C=7019515203042F305331,32330B5692D=0125533845,3C5A5B105692E=0102162C43,1F2021487592F=4F49013726684A4B,6B6C8A12133E930=5001183F402D2E4C1E,0708641457931=01021859,393A0E0F726E5C932=5D4142441D601E,616246763536727B73933=67691D1E,28292A4E76126D934=241602054D06,5455633422935=580C0D,3D11153E936=415E5F1A1B1C,740B23937=0227,6A3B12722B938=1719515203042F30533145,32335672939=4F4925533845,3C5A5B105693A=5002182C43,1F20214893B=183726684A4B,6B12133EA00=160170182543261C,28292A48A01=240117182C2D2E274B,61623464147BA02=013F376768301D1E,6A3A3D1257A03=01584041441D1E,465CA04=015D4D60,4E1113A05=4951521A1B4A,54553E6DA06=4F501B4C0645,5A5B12A07=41425E5F2F590D,32336322A08=025345,396B3C0B5623A09=020304695345,0708562BA0A=16180531,0E0F10126FA0B=241618190C38,1F20213B3536103EA0C=2543261C1E,28292A6E48A0D=2C2D2E274B,61623464147BA0E=3F376768301D,6A3A3D124757A0F=4924584041441B1D,465CA10=4F50015D1B4D60,4E1113A11=0151521A1B4A,54553E6DA12=011B4C0645,5A5B120BA13=0141425E5F2F590D,323363226EA14=1602185345,396B3C5623A15=240217180304695345,0708562BA16=0531,0E0F1012A17=190C38,1F20213B3536153EA18=2543261C,28292A4882A19=49503F3767681B301D1E,6A3A3D1257A1A=4F503F3767681B301D1E,6A3A3D1257A1B=584041441B1D1E,465CA1C=5D1B4D60,4E1171130BA1D=51521A1B4A,54553E6DA1E=16184C0645,5A5B12A1F=24171841425E5F2F590D,32336322A20=025345,396B3C5623A21=020304695345,0708562BA22=0531,0E0F10128EA23=49190C38,1F20213B3536153E788FA24=4F502543261C1E,28292A48A25=2C2D2E274B,61623464147DA26=663F3767681B301D1E,6A3A3D120B57A27=584041441B1D1E,465CA28=16185D4D60,4E1113A29=24171851521A4A,54553E6DA2A=4C0645,5A5B7612A2B=41425E5F2F590D,3233632272A2C=0253,396B3C475623A2D=1601020304695345,0708562BA2E=4F50010531,0E0F1012A2F=01190C38,1F20213B3536153EA30=012543261C1E,28292A09900B4882A31=012C2D2E274B,6162346414726E7E73A32=16183F376768301D1E,6A3A3D126F7257A33=2417185D4041441D1E,465CA34=5D4D60,4E1113A35=51521A4A,5455763E6D83A36=4C06,5A5B12A37=4941425E5F2F590D,3233632272A38=4F50029145,396B3C567223A39=020304695345,070874562BA3A=0531,0E0F10120BA3B=190C38,1F20213B6C903536153E75B00=01701718254A31,1F20216162B01=0118582C26,674C38B02=50013F375152432D2E591D1E,121448B03=4901401B1D4B1E,393A5B11B04=014142441A69,4657B05=681B05,6B4E3E5CB06=682F0C4D6045,5455070832331215B07=1C,0E0F3C636DB08=1602415E5F27530645,3536136456B09=0230530D45,6A28292A0B56B0A=17180304,126F342223B0B=1819,3D103E2BB0C=50254A311E,1F202161626EB0D=49582C26,671B4C38B0E=3F375152432D2E591D,121448B0F=01401B1D4B,393A3B5A5B11B10=014142441A1B69,4657B11=01681B05,6B4E3E5CB12=16015D2F0C4D6045,5455070832331215B13=011C,0E0F3C630B6E6DB14=021718415E5F27530645,3536136456B15=021830530D45,6A28292A56B16=500304,12342223B17=4919,3D103E2BB18=254A31,1F4E21616278B19=582C26,671B4C38B1A=3F375152432D2E1B591D1E,121448B1B=401B1D4B1E,393A3B5A5B1147B1C=164142441A1B69,467157B1D=6805,6B4E0B3E5CB1E=17185D2F0C926045,5455070832331215B1F=181C,0E0F3C636DB20=5002415E5F27530645,3536136456B21=490230530D45,6A28292A56B22=0304,12342223B23=19,3D103E2BB24=254A311E,1F20136162B25=582C26671B4C38,00B26=163F375152432D2E1B591D1E,121448B27=401D4B1E,393A3B5A5B110BB28=17184142441A69,4657B29=186805,6B4E3E5CB2A=505D2F0C4D6045,54550708323376121585B2B=491C,0E0F3C63726DB2C=02415E5F275306,3536136456B2D=010230530D45,6A28292A56B2E=010304,12342223B2F=0119,3D103E2BB30=1601254A311E,1F2021616209906584B31=0166582C26674C38,0B726EB32=17183F375152432D2E591D1E,126F147248B33=18401D4B1E,393A3B5A5B11B34=504142441A69,4657B35=49681B05,6B4E763E5CB36=5D2F0C4D60,5455070832331215B37=1C,0E0F3C63726DB38=02415E5F27530645,353613645672B39=0230530D45,6A28292A744756B3A=160304,12342223B3B=19,3D106C900B3E2BC00=500170661825670C,5A5B1013141523C01=4F4901182C1C,1F2021222BC02=011637261B271D311E,6B1112C03=01402D2E1A1B311D381E,0708C04=0143,6A3A0E0F7148C05=41442F4B,32334635360B3EC06=24164A4D45,3C28292A4E1257C07=174C,545563345CC08=025D6859536045,3D56C09=0241425E5F5345,4764566DC0A=50186906,393B126FC0B=4F4918581951520304050D,61623EC0C=25671B0C1E,5A5B101314156E23C0D=2C1B1C,1F2021222BC0E=3F37264B1D31,6B1112C0F=01402D2E1A1B301D38,07080BC10=241601431B,6A3A0E0F48C11=011741442F4B,32334635363EC12=014A4D45,3C28292A4E1257C13=014C,545563346E5CC14=5002185D6804536045,3D56C15=4F49021841425E5F5345,64566DC16=6906,393B12C17=581951524404050D,61623EC18=25670C,5A5B101314152386C19=2C1B1C,1F2021220B2BC1A=24163F37261B271D31,6B1112C1B=17402D2E1A1B301D381E,0708C1C=43,6A3A0E0F48C1D=41582F4B,32334635363EC1E=50184A4D45,3C28292A4E1257C1F=4F49184C,545563345CC20=025D6859536045,3D56C21=0241425E5F5345,64566DC22=6906,393B12C23=581951520304050D,61620B3EC24=241625671B0C1E,5A5B1013141523C25=172C1B1C,1F2021222BC26=3F3726271D311E,6B1112C27=402D2E1A301D381E,0708C28=501843,6A5B0E0F48C29=4F491841442F4B,32334635363EC2A=4A4D45,3C28292A4E761257C2B=4C,54556334725C93C2C=025D68595360,3D56C2D=010241425E5F5345,640B566DC2E=2416016906,393B12C2F=0117581951520304050D,61623EC30=0125670C,5A5B1009901314152386C31=012C1C,1F202122726E2B75C32=50183F3726271D311E,6B11126F72C33=4F4918402D2E1A301D381E,070847C34=431B,6A3A0E0F48C35=41442F4B,3233467635363EC36=4A4D,3C28292A4E1257C37=4C,545563340B725CC38=2416025D6859536045,3D5672C39=021741425E5F5345,7464566DC3A=6906,393B12C3B=581951520304050D,61626C903E6573"
     ZHI_TIAN_SHEN_OFFSET = {
         "子": 4,
         "丑": 2,
-- 
2.43.0

