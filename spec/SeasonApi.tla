----------------------------- MODULE SeasonApi -----------------------------
(* What the seasonal queries of a date must return (C17).                    *)
EXTENDS DateMachine, Seasons
Counted(name, i) == [name |-> name, index |-> i, text |-> name, full |-> name \o "第" \o ToString(i) \o "天"]
None == [name |-> "", index |-> 0, text |-> "", full |-> ""]
SeasonFacts(n) ==
    LET w == Nines(n)
        f == Dog(n)
        L == LunarOf(n)
    IN [nines |-> IF w = <<>> THEN None ELSE Counted(Names.number[w[1] + 1] \o "九", w[2]),
        dog |-> IF f = <<>> THEN None ELSE Counted(<<"初伏", "中伏", "末伏">>[f[1]], f[2]),
        pentad |-> Names.wuhou[PentadNo(n) + 1],
        hou |-> TermName(TermNo(TermOnOrBefore(n))) \o " " \o Names.hou[Pentad(n) + 1],
        moon |-> Names.yuexiang[L[3]], six |-> Names.liuyao[SixDay(L[2], L[3]) + 1], season |-> Names.season[Abs(L[2])]]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == SeasonFacts(DApply(st, ev).n)
Facts(ev) == SeasonFacts(ev.n)
=============================================================================
