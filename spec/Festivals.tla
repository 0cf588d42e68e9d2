----------------------------- MODULE Festivals -----------------------------
(* Festivals of a day (C19): fixed dates, weekday rules, the lunar calendar,  *)
(* the days reckoned from a solar term, and the signs of the zodiac.          *)
EXTENDS Seasons

Key2(a, b) == ToString(a) \o "-" \o ToString(b)
Key3(a, b, c) == Key2(a, b) \o "-" \o ToString(c)
One(table, key) == IF key \in DOMAIN table THEN <<table[key]>> ELSE <<>>
Many(table, key) == IF key \in DOMAIN table THEN table[key] ELSE <<>>

\* days of n's month, up to n, that fall on n's weekday
SameWeekday(n) == LET d == DateOf(n) IN Cardinality({i \in 1..d[3] : DateExists(d[1], d[2], i) /\ Weekday(DN(d[1], d[2], i)) = Weekday(n)})
\* no later day of the month falls on this weekday
LastOfMonth(n) == LET d == DateOf(n) IN DateOf(n + 7)[2] # d[2]
SolarFestivals(n) ==
    LET d == DateOf(n)
        w == Weekday(n)
    IN One(Names.sfestival, Key2(d[2], d[3]))
       \o One(Names.sweek, Key3(d[2], SameWeekday(n), w))
       \o IF LastOfMonth(n) THEN One(Names.sweek, Key3(d[2], 0, w)) ELSE <<>>
SolarOther(n) == LET d == DateOf(n) IN Many(Names.sother, Key2(d[2], d[3]))

\* first days of the signs, from the Ram on; the Fishes end on the Ram's eve
Signs == <<<<3, 21>>, <<4, 20>>, <<5, 21>>, <<6, 22>>, <<7, 23>>, <<8, 23>>, <<9, 23>>, <<10, 24>>, <<11, 23>>, <<12, 22>>, <<1, 20>>, <<2, 19>>>>
SignOfMonth(m) == (m + 9) % 12                    \* the sign that begins in month m
SignAt(m, d) == LET i == SignOfMonth(m) IN IF d >= Signs[i + 1][2] THEN i ELSE (i + 11) % 12
ZodiacSign(n) == LET d == DateOf(n) IN SignAt(d[2], d[3])

\* lunar festivals: the leap month carries none of its month's fixed days
LastDayOfLunarYear(n) == LunarOf(n + 1)[1] # LunarOf(n)[1]
LunarFestivals(n) ==
    LET l == LunarOf(n)
    IN One(Names.festival, Key2(l[2], l[3])) \o IF LastDayOfLunarYear(n) THEN <<"除夕">> ELSE <<>>
CLEAR == 8
SPRING == 4
AUTUMN_START == 16
\* the fifth day with stem wu on or after the day
FifthWu(n) == n + ((4 - DayPillar(n)) % 10) + 40
SheDay(no, n) == LET k == LastTerm(no, n) IN k > 0 /\ FifthWu(TermN[k]) = n
ColdFood(n) == LET k == TermOn(n + 1) IN k # 0 /\ TermNo(k) = CLEAR
LunarOther(n) ==
    LET l == LunarOf(n)
    IN Many(Names.otherfestival, Key2(l[2], l[3]))
       \o (IF ColdFood(n) THEN <<"寒食节">> ELSE <<>>)
       \o (IF SheDay(SPRING, n) THEN <<"春社">> ELSE <<>>)
       \o (IF SheDay(AUTUMN_START, n) THEN <<"秋社">> ELSE <<>>)
=============================================================================
