----------------------------- MODULE AcceptApi -----------------------------
(* Which dates exist, and that a refusal leaves no trace (C05).  The history  *)
(* holds objects already accepted; every later look at them, and every later  *)
(* conversion, must be as if the refused calls had never been made.           *)
EXTENDS LunarApi, Names

TimeOk(h, mi, s) == h \in 0..23 /\ mi \in 0..59 /\ s \in 0..59
\* the library accepts day 31 of any month but refuses the dropped days
SolarOk(y, m, d) == m \in 1..12 /\ d \in 1..31 /\ ~Dropped(y, m, d)
EraShift(kind) == CASE kind = "foto" -> 0 - 544 [] kind = "tao" -> 0 - 2697 [] OTHER -> 0
Accepts(kind, f) ==
    /\ TimeOk(f[4], f[5], f[6])
    /\ IF kind = "solar" THEN SolarOk(f[1], f[2], f[3]) ELSE LunarExists(f[1] + EraShift(kind), f[2], f[3])
HourOf(f) == ((f[4] + 1) \div 2) % 12
SolarView(kind, f) == Full(DayOfLunar(f[1] + EraShift(kind), f[2], f[3]), f[4] * 3600 + f[5] * 60 + f[6])
Seen(kind, f) == CASE kind = "solar" -> [got |-> f]
                   [] kind = "time" -> [got |-> <<ZhiName(HourOf(f))>>]
                   [] OTHER -> [got |-> f, solar |-> SolarView(kind, f)]
Build(kind, f) == IF Accepts(kind, f) THEN Seen(kind, f) ELSE [refused |-> TRUE]

W0 == [held |-> <<>>]
Keep == 3
WApply(st, ev) == IF ev.op = "build" /\ Accepts(ev.kind, ev.f)
                  THEN LET h == Append(st.held, [kind |-> ev.kind, f |-> ev.f])
                       IN [held |-> IF Len(h) > Keep THEN Tail(h) ELSE h]
                  ELSE st
WExpect(st, ev) ==
    CASE ev.op = "start" -> [ok |-> TRUE]
      [] ev.op = "build" -> Build(ev.kind, ev.f)
      [] ev.op = "look" -> Seen(st.held[ev.i].kind, st.held[ev.i].f)
      [] ev.op = "convert" -> SolFacts(ev.n, ev.s)
      [] ev.op = "year" -> [days |-> YearDayCount(ev.y), leap |-> LeapMonth(ev.y)]
      [] ev.op = "month" -> LET i == FindMonth(ev.y, ev.m)
                            IN IF i = 0 THEN [none |-> TRUE] ELSE [label |-> Label(i), days |-> MoonLen(i)]
      [] ev.op = "nonsense" -> [refused |-> TRUE]
AcceptFacts(ev) == WExpect(W0, ev)
=============================================================================
