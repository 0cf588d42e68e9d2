---------------------------- MODULE DateMachine ----------------------------
(* A date object in hand, moved by hours and days or replaced: the state is   *)
(* the moment it stands at.  Every domain of date attributes is observed      *)
(* along walks of this machine.                                               *)
EXTENDS Pillars
D0 == [n |-> FIRST, s |-> 0]
DApply(st, ev) == CASE ev.op = "reset" -> [n |-> ev.n, s |-> ev.s]
                    [] ev.op = "day" -> [n |-> st.n + ev.k, s |-> st.s]
                    [] ev.op = "hour" -> LET h == (st.s \div 3600) + ev.k
                                         IN [n |-> st.n + h \div 24, s |-> (h % 24) * 3600 + (st.s % 3600)]
=============================================================================
