-------------------------------- MODULE Luck --------------------------------
(* Fortune cycles (C12): the starting offset from the distance to a section   *)
(* term, the ten-year cycles and the years, minor cycles and months in them.  *)
EXTENDS Pillars, Chart

\* direction: yang year and male, or yin year and female
Forward(y, gender) == (Stem(y) % 2 = 0) = (gender = 1)

\* convention 2: by minutes; a year is 3 days, a month 6 hours, a day 2 hours,
\* an hour 5 minutes, of distance.  An offset is <<years, months, days, hours>>.
OffsetByMinutes(m) == <<m \div 4320, (m % 4320) \div 360, (m % 360) \div 12, (m % 12) * 2>>
\* convention 1: by days and two-hour periods; a day is 4 months, a period 10
\* days.  The hour from 23:00 counts with the period before it.
PeriodOf(s) == IF s >= EARLY THEN 11 ELSE HourBranch(s)
OffsetByPeriods(days, periods) ==
    LET d == IF periods < 0 THEN days - 1 ELSE days
        p == periods % 12
        months == d * 4 + (p * 10) \div 30
    IN <<months \div 12, months % 12, (p * 10) % 30, 0>>
Offset(sect, a, b) ==                     \* from moment a = <<n, s>> to moment b
    IF sect = 2 THEN OffsetByMinutes((b[1] - a[1]) * 1440 + b[2] \div 60 - a[2] \div 60)
    ELSE OffsetByPeriods(b[1] - a[1], PeriodOf(b[2]) - PeriodOf(a[2]))
\* the birth date moved by years, months, days and hours in turn
StartOf(n, s, o) ==
    LET y == NextYearOf(DateOf(n), o[1])
        m == NextMonthOf(y, o[2])
        h == s \div 3600 + o[4]
    IN <<DN(m[1], m[2], m[3]) + o[3] + h \div 24, (h % 24) * 3600 + (s % 3600)>>

\* ten-year cycle i: calendar years and ages (cycle 0 is the time before the start)
CycleStart(by, sy, i) == IF i = 0 THEN by ELSE sy + (i - 1) * 10
CycleEnd(by, sy, i) == IF i = 0 THEN sy - 1 ELSE sy + i * 10 - 1
CyclePillar(m, fwd, i) == (IF fwd THEN m + i ELSE m - i) % 60
\* the year, minor-cycle and month pillars
MinorPillar(t, fwd, age) == (IF fwd THEN t + age ELSE t - age) % 60
FlowMonth(y, i) == Pillar(TigerStem(YearPillar(y), i), BranchOf(i))          \* i = 1..12
=============================================================================
