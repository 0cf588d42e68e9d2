------------------------------- MODULE Civil -------------------------------
(* The civil (solar) calendar as one timeline.                              *)
(*                                                                           *)
(* A moment is a pair <<n, s>>: n the day number (the Julian Day Number of   *)
(* the day at noon) and s the second of the day.  Dates are <<y, m, d>>.     *)
(* Two descriptions are given and TLC checks that they agree: the machine    *)
(* (Succ: the day after) and the closed forms DN / DateOf.                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC

GREG   == 2299161        \* 1582-10-15, the first Gregorian day
FIRST  == 1721424        \* 0001-01-01
LAST   == 5373484        \* 9999-12-31
DAY    == 86400

Leap(y) == IF y < 1583 THEN y % 4 = 0
           ELSE (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0

\* number of the last day of a month
LastDay(y, m) == CASE m = 2 -> IF Leap(y) THEN 29 ELSE 28
                   [] m \in {4, 6, 9, 11} -> 30
                   [] OTHER -> 31
\* how many days a month has
MonthDays(y, m) == IF y = 1582 /\ m = 10 THEN 21 ELSE LastDay(y, m)
YearDays(y) == IF y = 1582 THEN 355 ELSE IF Leap(y) THEN 366 ELSE 365

Dropped(y, m, d) == y = 1582 /\ m = 10 /\ d > 4 /\ d < 15
DateExists(y, m, d) == /\ m \in 1..12
                       /\ d \in 1..LastDay(y, m)
                       /\ ~Dropped(y, m, d)

\* ---------------------------------------------------------------- machine
Succ(dt) == LET y == dt[1]
                m == dt[2]
                d == dt[3]
            IN IF y = 1582 /\ m = 10 /\ d = 4 THEN <<1582, 10, 15>>
               ELSE IF d < LastDay(y, m) THEN <<y, m, d + 1>>
               ELSE IF m < 12 THEN <<y, m + 1, 1>>
               ELSE <<y + 1, 1, 1>>
Pred(dt) == LET y == dt[1]
                m == dt[2]
                d == dt[3]
            IN IF y = 1582 /\ m = 10 /\ d = 15 THEN <<1582, 10, 4>>
               ELSE IF d > 1 THEN <<y, m, d - 1>>
               ELSE IF m > 1 THEN <<y, m - 1, LastDay(y, m - 1)>>
               ELSE <<y - 1, 12, 31>>

\* ----------------------------------------------------------- closed forms
DN(y, m, d) ==
    LET a == (14 - m) \div 12
        yy == y + 4800 - a
        mm == m + 12 * a - 3
        b == d + (153 * mm + 2) \div 5 + 365 * yy + yy \div 4
        jul == b - 32083
        greg == b - yy \div 100 + yy \div 400 - 32045
    IN IF jul < GREG THEN jul ELSE greg
\* (a date of October 1582 after the gap has a Julian number >= GREG + 10)

DateOf(n) ==
    LET f == IF n < GREG THEN n + 1401
             ELSE n + 1401 + (((4 * n + 274277) \div 146097) * 3) \div 4 - 38
        e == 4 * f + 3
        g == (e % 1461) \div 4
        h == 5 * g + 2
        d == (h % 153) \div 5 + 1
        m == ((h \div 153 + 2) % 12) + 1
        y == e \div 1461 - 4716 + (14 - m) \div 12
    IN <<y, m, d>>

Weekday(n) == (n + 1) % 7                    \* 0 = Sunday
DayOfYear(n) == LET y == DateOf(n)[1] IN n - DN(y, 1, 1) + 1

InRange(n) == FIRST <= n /\ n <= LAST

\* moments
MAdd(n, s, ds) == LET t == s + ds IN <<n + t \div DAY, t % DAY>>
HMS(s) == <<s \div 3600, (s \div 60) % 60, s % 60>>
Full(n, s) == DateOf(n) \o HMS(s)

\* ------------------------------------------------------------- printing
Pad2(k) == IF k < 10 THEN "0" \o ToString(k) ELSE ToString(k)
Pad4(k) == IF k < 10 THEN "000" \o ToString(k)
           ELSE IF k < 100 THEN "00" \o ToString(k)
           ELSE IF k < 1000 THEN "0" \o ToString(k)
           ELSE ToString(k)
Ymd(dt) == Pad4(dt[1]) \o "-" \o Pad2(dt[2]) \o "-" \o Pad2(dt[3])
Hm(s) == LET t == HMS(s) IN Pad2(t[1]) \o ":" \o Pad2(t[2])
YmdHms(n, s) == LET t == HMS(s) IN
    Ymd(DateOf(n)) \o " " \o Pad2(t[1]) \o ":" \o Pad2(t[2]) \o ":" \o Pad2(t[3])

\* ------------------------------------------------ stepping by larger units
\* month k months after y-m, as <<y, m>>
MonthShift(y, m, k) == LET t == y * 12 + (m - 1) + k IN <<t \div 12, (t % 12) + 1>>
\* the day of a month that stepping by months or years lands on
ClampDay(y, m, d) == IF Dropped(y, m, d) THEN d + 10
                     ELSE IF d > LastDay(y, m) THEN LastDay(y, m) ELSE d
NextMonthOf(dt, k) == LET ym == MonthShift(dt[1], dt[2], k)
                      IN <<ym[1], ym[2], ClampDay(ym[1], ym[2], dt[3])>>
NextYearOf(dt, k) == <<dt[1] + k, dt[2], ClampDay(dt[1] + k, dt[2], dt[3])>>

\* ------------------------------------------------------------------ weeks
\* first day of the week containing day n, weeks starting on weekday st
WeekFirst(n, st) == n - ((Weekday(n) - st) % 7)
\* the number of the week of day n in its month: weeks met since the 1st
WeekOfMonth(n, st) == LET dt == DateOf(n)
                          first == DN(dt[1], dt[2], 1)
                      IN (WeekFirst(n, st) - WeekFirst(first, st)) \div 7 + 1
WeekOfYear(n, st) == LET first == DN(DateOf(n)[1], 1, 1)
                     IN (WeekFirst(n, st) - WeekFirst(first, st)) \div 7 + 1
MonthFirst(y, m) == DN(y, m, 1)
MonthEnd(y, m) == DN(y, m, LastDay(y, m))
WeeksInMonth(y, m, st) == WeekOfMonth(MonthEnd(y, m), st)

\* a cell is a week of a month: <<y, m, i>>.  Splitting weeks at month borders
\* gives a sequence of cells.
CellOf(n, st) == LET dt == DateOf(n) IN <<dt[1], dt[2], WeekOfMonth(n, st)>>
CellSucc(c, st) == IF c[3] < WeeksInMonth(c[1], c[2], st) THEN <<c[1], c[2], c[3] + 1>>
                   ELSE MonthShift(c[1], c[2], 1) \o <<1>>
CellPred(c, st) == IF c[3] > 1 THEN <<c[1], c[2], c[3] - 1>>
                   ELSE LET p == MonthShift(c[1], c[2], -1)
                        IN p \o <<WeeksInMonth(p[1], p[2], st)>>
RECURSIVE CellShift(_, _, _)
CellShift(c, st, k) == IF k = 0 THEN c
                       ELSE IF k > 0 THEN CellShift(CellSucc(c, st), st, k - 1)
                       ELSE CellShift(CellPred(c, st), st, k + 1)
=============================================================================
