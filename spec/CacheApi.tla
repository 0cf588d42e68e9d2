------------------------------ MODULE CacheApi ------------------------------
(* The history of requests as their callers see it (C15): calls and answers   *)
(* of any number of threads, in any order.  An answer carries the months of   *)
(* the year asked for and equals the same year built alone; a request fails   *)
(* only if a failure was injected into it or its argument is not a year; when *)
(* the history ends nobody is left waiting.                                   *)
EXTENDS LunarApi
W0 == [pend |-> [t \in 1..4 |-> <<>>]]
Own(y) == LET f == FirstMoon(y) IN [p \in 1..MonthCount(y) |-> Label(f + p - 1) \o <<Moons[f + p - 1], MoonLen(f + p - 1)>>]
Answer(q, injected) ==
    IF injected \/ q[1] = "nonsense" THEN [raised |-> TRUE]
    ELSE CASE q[1] = "year" -> [year |-> q[2], own |-> Own(q[2]), alone |-> TRUE]
           [] q[1] = "solar" -> [lunar |-> LunarOf(q[2])]
           [] q[1] = "month" -> LET i == FindMonth(q[2], q[3]) IN IF i = 0 THEN [none |-> TRUE] ELSE [label |-> Label(i), days |-> MoonLen(i), first |-> Moons[i]]
WApply(st, ev) == CASE ev.op = "call" -> [st EXCEPT !.pend[ev.t] = ev.q]
                    [] ev.op = "answer" -> [st EXCEPT !.pend[ev.t] = <<>>]
                    [] OTHER -> st
WExpect(st, ev) ==
    CASE ev.op \in {"start", "call"} -> [ok |-> TRUE]
      [] ev.op = "answer" -> Answer(st.pend[ev.t], ev.injected)
      [] ev.op = "later" -> Answer(ev.q, FALSE)
      [] ev.op = "end" -> [waiting |-> <<>>]
=============================================================================
