----------------------------- MODULE CivilApi -----------------------------
(* What each civil-calendar call of the library must return.  A walk has a   *)
(* cursor <<n, s>> (the date object in hand) and a mark <<n, s>> (another    *)
(* date object kept for comparisons).                                        *)
EXTENDS Civil

St0 == [n |-> FIRST, s |-> 0, mn |-> FIRST, ms |-> 0]

Lt(n1, s1, n2, s2) == n1 < n2 \/ (n1 = n2 /\ s1 < s2)
MinuteOf(s) == s \div 60

\* ------------------------------------------------------ the walk (C01, C04)
Target(st, ev) ==
    LET dt == DateOf(st.n)
    IN CASE ev.op = "reset" -> <<ev.n, ev.s>>
         [] ev.op = "day"   -> <<st.n + ev.k, st.s>>
         [] ev.op = "hour"  -> LET h == (st.s \div 3600) + ev.k
                               IN <<st.n + h \div 24, (h % 24) * 3600 + (st.s % 3600)>>
         [] ev.op = "month" -> LET t == NextMonthOf(dt, ev.k) IN <<DN(t[1], t[2], t[3]), st.s>>
         [] ev.op = "year"  -> LET t == NextYearOf(dt, ev.k) IN <<DN(t[1], t[2], t[3]), st.s>>
         [] OTHER -> <<st.n, st.s>>

Apply(st, ev) ==
    LET t == Target(st, ev)
    IN IF ev.op = "mark" THEN [n |-> st.n, s |-> st.s, mn |-> st.n, ms |-> st.s]
       ELSE [n |-> t[1], s |-> t[2], mn |-> st.mn, ms |-> st.ms]

\* the observable of a date object
Obs(n, s) == [full |-> Full(n, s), ymd |-> Ymd(DateOf(n)), hms |-> YmdHms(n, s)]

\* a signed count of minutes as <<days, minutes of a day>> (floored: TLC integers have 32 bits)
MinuteDiff(n1, s1, n2, s2) ==
    LET d == MinuteOf(s1) - MinuteOf(s2)
    IN <<(n1 - n2) + (d \div 1440), d % 1440>>

Compare(st) ==
    [sub |-> st.n - st.mn,
     bus |-> st.mn - st.n,
     subm |-> MinuteDiff(st.n, st.s, st.mn, st.ms),
     busm |-> MinuteDiff(st.mn, st.ms, st.n, st.s),
     after |-> Lt(st.mn, st.ms, st.n, st.s),
     before |-> Lt(st.n, st.s, st.mn, st.ms),
     mafter |-> Lt(st.n, st.s, st.mn, st.ms),
     mbefore |-> Lt(st.mn, st.ms, st.n, st.s),
     between |-> st.n - st.mn]

Expect(st, ev) ==
    IF ev.op \in {"reset", "day", "hour", "month", "year"}
    THEN LET t == Target(st, ev) IN Obs(t[1], t[2])
    ELSE IF ev.op = "mark" THEN [ok |-> TRUE]
    ELSE Compare(st)                          \* ev.op = "compare"

\* --------------------------------------------- day and year facts (C01, C03)
\* a clock time that goes through the day as the days go by (for the moment given as a datetime)
Clock(n) == ((n % 10000) * 7919) % DAY
DayFacts(n) ==
    LET dt == DateOf(n)
    IN [ymd |-> dt, leap |-> Leap(dt[1]), doy |-> DayOfYear(n), week |-> Weekday(n),
        next |-> IF n < LAST THEN DateOf(n + 1) ELSE <<0>>,
        prev |-> IF n > FIRST THEN DateOf(n - 1) ELSE <<0>>,
        text |-> Ymd(dt), given |-> Full(n, Clock(n))]
YearFacts(y) ==
    [leap |-> Leap(y), days |-> YearDays(y), months |-> [m \in 1..12 |-> MonthDays(y, m)],
     first |-> DN(y, 1, 1), list |-> [m \in 1..12 |-> <<y, m>>]]

\* ------------------------------------------------------- Julian days (C02)
\* jd of a moment, as day number and millisecond since midnight; and back
JdFacts(n, s) == [jdn |-> n, ms |-> s * 1000, back |-> Full(n, s)]
\* the moment nearest to day n + ms milliseconds
FromJd(n, ms) == LET t == (ms + 500) \div 1000
                 IN Full(n + t \div DAY, t % DAY)

\* ------------------------------------------------------------- weeks (C03)
WeekFacts(n, st) ==
    LET dt == DateOf(n)
        f == WeekFirst(n, st)
        days == [i \in 1..7 |-> f + i - 1]
        inm == SelectSeq(days, LAMBDA d : DateOf(d)[2] = dt[2])
    IN [own |-> dt \o <<st>>, index |-> WeekOfMonth(n, st), yindex |-> WeekOfYear(n, st), first |-> DateOf(f),
        days |-> [i \in 1..7 |-> DateOf(days[i])],
        inmonth |-> [i \in 1..Len(inm) |-> DateOf(inm[i])],
        firstin |-> DateOf(inm[1])]
MonthFacts(y, m, st) ==
    LET f == MonthFirst(y, m)
        w == WeeksInMonth(y, m, st)
    IN [weeks |-> w,
        firsts |-> [i \in 1..w |-> DateOf(WeekFirst(f, st) + 7 * (i - 1))]]
MonthDaysFacts(y, m) == [days |-> [i \in 1..MonthDays(y, m) |-> DateOf(MonthFirst(y, m) + i - 1)]]
ContainerFacts(y, m) ==
    LET s == (m - 1) \div 3
        h == (m - 1) \div 6
    IN [season |-> s + 1, half |-> h + 1,
        smonths |-> [i \in 1..3 |-> <<y, 3 * s + i>>],
        hmonths |-> [i \in 1..6 |-> <<y, 6 * h + i>>]]

\* ---------------------------------------------- container stepping (C04)
UnitShift(unit, y, m, k) == CASE unit = "month" -> MonthShift(y, m, k)
                              [] unit = "season" -> MonthShift(y, m, 3 * k)
                              [] unit = "half" -> MonthShift(y, m, 6 * k)
                              [] unit = "year" -> <<y + k, m>>
=============================================================================
