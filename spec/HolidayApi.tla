----------------------------- MODULE HolidayApi -----------------------------
(* What the holiday calls must return in a history of corrections (C13) and   *)
(* what stepping by working days must do under the same store (C14).          *)
EXTENDS Holidays
W0 == Store0
WApply(st, ev) == IF ev.op = "fix" THEN Fix(st, ev.names, ev.batch) ELSE st
WExpect(st, ev) ==
    CASE ev.op = "start" -> [ok |-> TRUE]
      [] ev.op = "fix" -> [returns |-> "None"]
      [] ev.op = "day" -> [found |-> IF ev.day \in DOMAIN st.recs THEN View(st, ev.day) ELSE <<>>,
                           text |-> IF ev.day \in DOMAIN st.recs THEN ViewText(View(st, ev.day)) ELSE ""]
      [] ev.op = "month" -> [found |-> Views(st, DaysOfMonth(st, ev.y, ev.m))]
      [] ev.op = "year" -> [found |-> Views(st, DaysOfYear(st, ev.y))]
      [] ev.op = "first" -> [found |-> LET d == DaysOfYear(st, ev.y) IN IF d = <<>> THEN <<>> ELSE View(st, d[1])]
      [] ev.op = "target" -> [found |-> Views(st, DaysOfTarget(st, ev.t))]
      [] ev.op = "work" -> LET t == WorkStep(st.recs, ev.n, ev.k) IN [full |-> Full(t, ev.s)]
      [] ev.op = "object" -> [shown |-> <<Ymd(DateOfCode(ev.day)), ev.name, ev.work, Ymd(DateOfCode(ev.t))>>,
                              text |-> ViewText(<<Ymd(DateOfCode(ev.day)), ev.name, ev.work, Ymd(DateOfCode(ev.t))>>)]
Facts(ev) == WExpect(W0, ev)
=============================================================================
