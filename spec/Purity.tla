------------------------------- MODULE Purity -------------------------------
(* Objects as values (C23).  The state holds the objects the program has in   *)
(* hand, the convention each chart cell stands at, and the memo of every      *)
(* answer given so far.  A query is answered as a function of the value and   *)
(* the convention alone: by the memo if the question was put before, to this  *)
(* or any equal object, and otherwise as a process that was asked nothing     *)
(* else answers it (pure).                                                   *)
EXTENDS DateMachine
\* an object: kind, two numbers that make its value, and the chart cell it
\* shares with the lunar date it came from
P0 == [objs |-> <<>>, sect |-> <<>>, memo |-> [k \in {} |-> ""]]
Obj(k, a, b, c) == [k |-> k, a |-> a, b |-> b, c |-> c]
\* the value derived from object o by step how, x
Derived(o, how, x) ==
    CASE how = "day" -> Obj(o.k, o.a + x, o.b, 0)
      [] how = "lunar" /\ o.k = "S" -> Obj("L", o.a, o.b, 0)
      [] how = "lunar" -> Obj("L", o.a, o.b, o.c)                \* the very date a Buddhist or Taoist date was made from
      [] how = "solar" -> Obj("S", o.a, o.b, 0)
      [] how = "foto" -> Obj("F", o.a, o.b, o.c)
      [] how = "tao" -> Obj("T", o.a, o.b, o.c)
      [] how = "time" -> Obj("H", o.a, o.b, 0)
      [] how = "chart" -> Obj("E", o.a, o.b, o.c)                \* the date's own chart
      [] how = "newchart" -> Obj("E", o.a, o.b, 0)               \* another chart of the same date
      [] how = "year" -> Obj("Y", LunarOf(o.a)[1], 0, 0)
      [] how = "month" -> Obj("M", MoonAt(o.a), 0, 0)
      [] how = "week" -> Obj("W", o.a, x, 0)
      [] how = "step" -> Obj(o.k, o.a + x, 0, 0)
\* objects without a cell get one of their own, standing at the default
Hold(st, o) == IF o.c = 0 THEN [st EXCEPT !.objs = Append(@, Obj(o.k, o.a, o.b, Len(st.sect) + 1)), !.sect = Append(@, 2)]
               ELSE [st EXCEPT !.objs = Append(@, o)]
Convention(st, o) == IF o.k \in {"L", "E"} THEN st.sect[o.c] ELSE 0
Key(st, i, q) == LET o == st.objs[i] IN <<o.k, o.a, o.b, Convention(st, o), q>>
Answer(st, ev) == LET k == Key(st, ev.i, ev.q) IN IF k \in DOMAIN st.memo THEN st.memo[k] ELSE ev.pure
W0 == P0
WApply(st, ev) ==
    CASE ev.op = "reset" -> P0
      [] ev.op = "make" -> Hold(st, Obj(ev.k, ev.a, ev.b, 0))
      [] ev.op = "derive" -> Hold(st, Derived(st.objs[ev.i], ev.how, ev.x))
      [] ev.op = "switch" -> [st EXCEPT !.sect = [@ EXCEPT ![st.objs[ev.i].c] = ev.sect]]
      [] ev.op = "ask" -> LET k == Key(st, ev.i, ev.q) IN IF k \in DOMAIN st.memo THEN st ELSE [st EXCEPT !.memo = @ @@ (k :> ev.pure)]
WExpect(st, ev) == IF ev.op = "ask" THEN [ans |-> Answer(st, ev)] ELSE [done |-> TRUE]
=============================================================================
