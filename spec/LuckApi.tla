------------------------------ MODULE LuckApi ------------------------------
(* What the fortune-cycle calls must return (C12).  kk is the term in force   *)
(* at birth; the observed instants of the neighbouring section terms stand    *)
(* for the release's when they are within two seconds of them.                *)
EXTENDS Luck

Life(ev, kk) ==
    LET y == YearPillar(SpringYear(kk))
        fwd == Forward(y, ev.gender)
        prev == At(ev.res.prev, PrevOf("jie", kk))
        next == At(ev.res.next, NextOf("jie", kk))
        off == IF fwd THEN Offset(ev.sect, <<ev.n, ev.s>>, next) ELSE Offset(ev.sect, prev, <<ev.n, ev.s>>)
        start == StartOf(ev.n, ev.s, off)
    IN [fwd |-> fwd, prev |-> prev, next |-> next, off |-> off, start |-> start,
        by |-> DateOf(ev.n)[1], sy |-> DateOf(start[1])[1], m |-> MonthPillar(kk), t |-> HourPillar(ev.n, ev.s)]
LifeFacts(ev, kk) ==
    LET v == Life(ev, kk)
    IN [prev |-> v.prev, next |-> v.next, forward |-> v.fwd, gender |-> ev.gender, off |-> v.off,
        start |-> Full(v.start[1], v.start[2]), cycles |-> <<10, ev.c>>]
\* cycle number i: its record
CycleFacts(ev, kk) ==
    LET v == Life(ev, kk)
        a == CycleStart(v.by, v.sy, ev.i)
        b == CycleEnd(v.by, v.sy, ev.i)
        p == CyclePillar(v.m, v.fwd, ev.i)
    IN [prev |-> v.prev, next |-> v.next, index |-> ev.i, years |-> <<a, b>>, ages |-> <<a - v.by + 1, b - v.by + 1>>,
        pillar |-> IF ev.i = 0 THEN "" ELSE PillarName(p),
        xun |-> IF ev.i = 0 THEN <<>> ELSE <<Xun(p), XunKong(p)>>,
        \* how many years the cycle lists when asked for none in particular and for
        \* ev.c; the time before the start is listed whole whatever is asked
        counts |-> [j \in 1..4 |-> IF ev.i = 0 THEN b - a + 1 ELSE IF j <= 2 THEN 10 ELSE ev.c]]
\* year j (0..) of cycle i, with its minor cycle
YearInFacts(ev, kk) ==
    LET v == Life(ev, kk)
        y == CycleStart(v.by, v.sy, ev.i) + ev.j
        p == YearPillar(y)
        q == MinorPillar(v.t, v.fwd, y - v.by + 1)
    IN [prev |-> v.prev, next |-> v.next,
        year |-> <<ev.j, y, y - v.by + 1, PillarName(p), Xun(p), XunKong(p)>>,
        minor |-> <<ev.j, y, y - v.by + 1, PillarName(q), Xun(q), XunKong(q)>>,
        months |-> [i \in 1..12 |-> <<i - 1, Names.month[i + 1], PillarName(FlowMonth(y, i)), Xun(FlowMonth(y, i)), XunKong(FlowMonth(y, i))>>]]

KK(ev) == IF "k" \in DOMAIN ev THEN ev.k ELSE TermAt(ev.n, ev.s)
Facts(ev) == CASE ev.op = "life" -> LifeFacts(ev, KK(ev))
               [] ev.op = "cycle" -> CycleFacts(ev, KK(ev))
               [] ev.op = "yearin" -> YearInFacts(ev, KK(ev))

\* Living through the cycles: the recorded objects are met in order, year by
\* year from birth; the specification keeps the year and the cycle.
W0 == [n |-> FIRST, s |-> 0, gender |-> 1, sect |-> 1, year |-> 0, cyc |-> 0, by |-> 0, sy |-> 0, m |-> 0, t |-> 0, fwd |-> TRUE]
WApply(st, ev) ==
    IF ev.op = "born"
    THEN LET v == Life(ev, TermAt(ev.n, ev.s))
         IN [n |-> ev.n, s |-> ev.s, gender |-> ev.gender, sect |-> ev.sect, year |-> v.by - 1, cyc |-> 0,
             by |-> v.by, sy |-> v.sy, m |-> v.m, t |-> v.t, fwd |-> v.fwd]
    ELSE LET y == st.year + 1
         IN [st EXCEPT !.year = y, !.cyc = IF y >= st.sy /\ (y - st.sy) % 10 = 0 THEN st.cyc + 1 ELSE st.cyc]
WExpect(st, ev) ==
    IF ev.op = "born" THEN LifeFacts(ev, TermAt(ev.n, ev.s))
    ELSE LET t == WApply(st, ev)
         IN [cycle |-> t.cyc, year |-> t.year, age |-> t.year - t.by + 1, pillar |-> PillarName(YearPillar(t.year)),
             minor |-> PillarName(MinorPillar(t.t, t.fwd, t.year - t.by + 1)),
             cyclepillar |-> IF t.cyc = 0 THEN "" ELSE PillarName(CyclePillar(t.m, t.fwd, t.cyc))]
=============================================================================
