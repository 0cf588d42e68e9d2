----------------------------- MODULE FaithApi -----------------------------
(* What Buddhist and Taoist dates must return (C20).                         *)
EXTENDS DateMachine, Faith
FotoText(f) == f[1] \o (IF f[2] = "" THEN "" ELSE " " \o f[2]) \o (IF f[4] = "" THEN "" ELSE " " \o f[4])
TaoText(f) == f[1] \o (IF f[2] = "" THEN "" ELSE "[" \o f[2] \o "]")
Era(l, s, era) == <<l[1] + era, l[2], l[3]>> \o HMS(s)
FotoFacts(n, s) ==
    LET l == LunarOf(n)
        m == l[2]
        d == l[3]
        f == FotoFest(m, d)
        x == MoonLodge(m, d)
    IN [fields |-> Era(l, s, FOTO), lunar |-> l \o HMS(s), solar |-> Full(n, s), rebuilt |-> <<Era(l, s, FOTO), Full(n, s)>>, plain |-> <<Era(l, 0, FOTO), Full(n, 0)>>,
        festivals |-> [i \in 1..Len(f) |-> f[i] \o <<f[i][1], FotoText(f[i])>>], other |-> FotoOther(m, d),
        fasts |-> <<MonthFast(m), YangGong(m, d), FullNew(d), Six(d, MoonLen(MoonAt(n))), Ten(d), GuanYin(m, d)>>,
        lodge |-> <<x, Names.xiuluck[x], Names.xiusong[x], Names.zheng[x], Names.animal[x], Names.gong[x], Names.shou[Names.gong[x]]>>]
TaoFacts(n, s) ==
    LET l == LunarOf(n)
        m == l[2]
        d == l[3]
        f == TaoAll(n)
        z == PillarsAt(n, s, TermAt(n, s), TermOnOrBefore(n))[4] % 12
    IN [fields |-> Era(l, s, TAO), lunar |-> l \o HMS(s), solar |-> Full(n, s), rebuilt |-> <<Era(l, s, TAO), Full(n, s)>>, plain |-> <<Era(l, 0, TAO), Full(n, 0)>>,
        festivals |-> [i \in 1..Len(f) |-> f[i] \o <<f[i][1], TaoText(f[i])>>],
        days |-> <<ThreeMeet(m, d), ThreePrime(m, d), EightNode(n), FiveLa(m, d), EightMeet(n), OpenWu(n), DarkWu(m, n), OpenWu(n) \/ DarkWu(m, n), Amnesty(z, n)>>]
FaithFacts(n, s) == [foto |-> FotoFacts(n, s), tao |-> TaoFacts(n, s)]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == LET t == DApply(st, ev) IN FaithFacts(t.n, t.s)
Facts(ev) == CASE ev.op = "faith" -> FaithFacts(ev.n, ev.s)
=============================================================================
