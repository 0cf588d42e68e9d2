------------------------- MODULE Trace_CivilFacts -------------------------
(* Trace validation of recorded single calls on the civil calendar.          *)
EXTENDS CivilApi, TraceIO
VARIABLES lo, l, bad
tvars == <<lo, l, bad>>
Facts(ev) == CASE ev.op = "dayfacts" -> DayFacts(ev.n)
               [] ev.op = "yearfacts" -> YearFacts(ev.y)
               [] ev.op = "jd" -> JdFacts(ev.n, ev.s)
               [] ev.op = "fromjd" -> [full |-> FromJd(ev.n, ev.ms)]
               [] ev.op = "week" -> WeekFacts(ev.n, ev.st)
               [] ev.op = "month" -> MonthFacts(ev.y, ev.m, ev.st)
               [] ev.op = "mdays" -> MonthDaysFacts(ev.y, ev.m)
               [] ev.op = "cont" -> ContainerFacts(ev.y, ev.m)
               [] ev.op = "unit" -> [to |-> UnitShift(ev.unit, ev.y, ev.m, ev.k)]
               [] ev.op = "cell" -> [cell |-> CellShift(CellOf(ev.n, ev.st), ev.st, ev.k)]
               [] ev.op = "weekstep" -> [first |-> DateOf(WeekFirst(ev.n, ev.st) + 7 * ev.k)]
TraceInit == lo \in ChunkStarts /\ l = lo /\ bad = {}
TraceNext == /\ bad = {}
             /\ l <= ChunkEnd(lo)
             /\ bad' = Mismatch(Facts(Trace[l]), Trace[l].res)
             /\ l' = l + 1
             /\ lo' = lo
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceOk == bad = {}
TraceAccepted == TLCGet("stats").distinct = Len(Trace) + Cardinality(ChunkStarts)
=============================================================================
