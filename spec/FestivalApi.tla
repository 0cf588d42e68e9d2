---------------------------- MODULE FestivalApi ----------------------------
(* What the festival queries must return (C19): solar and lunar festivals,    *)
(* the zodiac sign, and the same lists when asked again.                      *)
EXTENDS DateMachine, Festivals
Lists(n) == [solar |-> SolarFestivals(n), solarother |-> SolarOther(n), lunar |-> LunarFestivals(n), lunarother |-> LunarOther(n)]
FestivalFacts(n) == [first |-> Lists(n), again |-> Lists(n), equal |-> Lists(n), sign |-> Names.xingzuo[ZodiacSign(n) + 1]]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == FestivalFacts(DApply(st, ev).n)
Facts(ev) == CASE ev.op = "fest" -> FestivalFacts(ev.n)
=============================================================================
