------------------------------ MODULE Pillars ------------------------------
(* The four pillars of a moment (C09).  kk is the solar term in force at the  *)
(* moment, kd the one in force on its day.  Pillars are numbers 0..59.        *)
EXTENDS Terms

EARLY == 82800                                    \* 23:00
DayPillar(n) == (n - 11) % 60
DayEarly(n, s) == IF s >= EARLY THEN DayPillar(n + 1) ELSE DayPillar(n)
HourBranch(s) == ((s \div 3600 + 1) \div 2) % 12
\* five rats: the stem of the first hour of a day follows the day stem
HourPillar(n, s) == LET z == HourBranch(s)
                    IN Pillar((((DayEarly(n, s) % 10) % 5) * 2 + z) % 10, z)
\* the month pillar counts section terms; the first month of year 4 is bingyin
MonthPillar(k) == ((k - 1) \div 2 - 36) % 60
\* the year in force at term k when years begin at Start of Spring
SpringYear(k) == (k - 5) \div 24 + 1
YearPillar(y) == (y - 4) % 60

\* all nine variants: year (by new year, by day of Start of Spring, by its
\* instant), month (by day, by instant), day (midnight, early, late), hour
PillarsAt(n, s, kk, kd) ==
    <<YearPillar(LunarOf(n)[1]), YearPillar(SpringYear(kd)), YearPillar(SpringYear(kk)),
      MonthPillar(kd), MonthPillar(kk),
      DayPillar(n), DayEarly(n, s), DayPillar(n), HourPillar(n, s)>>
=============================================================================
