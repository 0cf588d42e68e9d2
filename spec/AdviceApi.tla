----------------------------- MODULE AdviceApi -----------------------------
(* What the advice queries must return (C21).                                *)
EXTENDS DateMachine, Advice
AdviceFacts(n, s) ==
    LET P == PillarsAt(n, s, TermAt(n, s), TermOnOrBefore(n))
        dp == DayPillar(n)
        m == LunarOf(n)[2]
        g1 == DayGood(P[4], dp)
        b1 == DayBad(P[4], dp)
        hg == HourGood(DayEarly(n, s), P[9])
        hb == HourBad(DayEarly(n, s), P[9])
    IN [good |-> <<g1, g1, DayGood(P[5], dp)>>, bad |-> <<b1, b1, DayBad(P[5], dp)>>, lucky |-> Lucky(m, dp), unlucky |-> Unlucky(m, dp),
        hour |-> <<hg, hb>>, period |-> <<hg, hb>>]
Twice(n, s) == [first |-> AdviceFacts(n, s), again |-> AdviceFacts(n, s)]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == LET t == DApply(st, ev) IN Twice(t.n, t.s)
Facts(ev) == CASE ev.op = "advice" -> Twice(ev.n, ev.s)
               [] ev.op = "day" -> [good |-> DayGood(ev.m, ev.d), bad |-> DayBad(ev.m, ev.d)]
               [] ev.op = "hour" -> [good |-> HourGood(ev.d, HourOf(ev.d, ev.z)), bad |-> HourBad(ev.d, HourOf(ev.d, ev.z))]
               [] ev.op = "spirit" -> [lucky |-> Lucky(ev.m, ev.d), unlucky |-> Unlucky(ev.m, ev.d)]
=============================================================================
