------------------------------ MODULE LunarApi ------------------------------
(* What the lunar-calendar calls of the library must return (C05 C06 C07).   *)
EXTENDS Almanac

\* ---------------------------------------------------------- dates (C06)
\* a solar moment seen as a lunar date, and converted back
SolFacts(n, s) == [lunar |-> LunarOf(n) \o HMS(s), back |-> Full(n, s)]
\* a lunar date by its own fields
LunFacts(y, m, d, s) ==
    IF LunarExists(y, m, d)
    THEN [lunar |-> <<y, m, d>> \o HMS(s), solar |-> Full(DayOfLunar(y, m, d), s)]
    ELSE [refused |-> TRUE]

\* a walk whose cursor is a lunar date object
Walk0 == [n |-> FIRST, s |-> 0]
WalkApply(st, ev) == CASE ev.op = "reset" -> [n |-> ev.n, s |-> ev.s]
                       [] ev.op \in {"next", "solarnext"} -> [n |-> st.n + ev.k, s |-> st.s]
                       [] OTHER -> st
WalkExpect(st, ev) ==
    IF ev.op = "refuse" THEN [refused |-> ~LunarExists(ev.y, ev.m, ev.d)]
    ELSE LET t == WalkApply(st, ev)
         IN [lunar |-> LunarOf(t.n) \o HMS(t.s), solar |-> Full(t.n, t.s)]

\* --------------------------------------------------- years and months (C07)
MonthRec(i) == [label |-> Label(i), first |-> Moons[i], days |-> MoonLen(i)]
YearTable(y) == [p \in 1..15 |-> MonthRec(SuiFirst(y) + p - 1)]
\* "own": the months of the year with their ordinal; "get": the first day of
\* month m (-12..12) or 0 when the year has no such month
LYearFacts(y) ==
    LET f == FirstMoon(y)
        c == MonthCount(y)
    IN [own |-> [p \in 1..c |-> Label(f + p - 1) \o <<Moons[f + p - 1], MoonLen(f + p - 1), p>>],
        table |-> YearTable(y),
        days |-> YearDayCount(y),
        leap |-> LeapMonth(y),
        get |-> [j \in 1..25 |-> LET i == FindMonth(y, j - 13) IN IF i = 0 THEN 0 ELSE Moons[i]],
        leapof |-> [p \in 1..c |-> Label(f + p - 1)[2] < 0]]

\* a walk whose cursor is a lunar month object (state: its new moon)
MWalk0 == 0
MWalkApply(st, ev) == CASE ev.op = "reset" -> FindMonth(ev.y, ev.m)
                        [] ev.op = "month" -> st + ev.k
                        [] ev.op = "year" -> st
MWalkExpect(st, ev) ==
    IF ev.op = "year" THEN [y |-> Label(st)[1] + ev.k]
    ELSE LET i == MWalkApply(st, ev)
         IN [label |-> Label(i), first |-> Moons[i], days |-> MoonLen(i), index |-> i - FirstMoon(Label(i)[1]) + 1, leap |-> Label(i)[2] < 0]

Facts(ev) == CASE ev.op = "sol" -> SolFacts(ev.n, ev.s)
               [] ev.op = "lun" -> LunFacts(ev.y, ev.m, ev.d, ev.s)
               [] ev.op = "lyear" -> LYearFacts(ev.y)
=============================================================================
