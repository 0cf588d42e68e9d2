----------------------------- MODULE PillarApi -----------------------------
(* What the pillar queries of a date must return (C09).                      *)
EXTENDS Pillars
PilFacts(n, s, kk, kd) ==
    LET p == PillarsAt(n, s, kk, kd)
    IN [name |-> [i \in 1..9 |-> PillarName(p[i])],
        gan |-> [i \in 1..9 |-> GanName(p[i] % 10)],
        zhi |-> [i \in 1..9 |-> ZhiName(p[i] % 12)],
        gi |-> [i \in 1..9 |-> p[i] % 10],
        zi |-> [i \in 1..9 |-> p[i] % 12],
        animals |-> <<Animal(p[1] % 12), Animal(p[2] % 12), Animal(p[3] % 12), Animal(p[4] % 12), Animal(p[5] % 12),
                      Animal(p[6] % 12), Animal(p[9] % 12)>>]
\* a walk of one date object
W0 == [n |-> FIRST, s |-> 0]
WApply(st, ev) == CASE ev.op = "reset" -> [n |-> ev.n, s |-> ev.s]
                    [] ev.op = "day" -> [n |-> st.n + ev.k, s |-> st.s]
                    [] ev.op = "hour" -> LET h == (st.s \div 3600) + ev.k
                                         IN [n |-> st.n + h \div 24, s |-> (h % 24) * 3600 + (st.s % 3600)]
WExpect(st, ev) == LET t == WApply(st, ev) IN PilFacts(t.n, t.s, TermAt(t.n, t.s), TermOnOrBefore(t.n))
Facts(ev) == CASE ev.op = "pil" -> PilFacts(ev.n, ev.s, TermAt(ev.n, ev.s), TermOnOrBefore(ev.n))
               [] ev.op = "pilat" -> PilFacts(ev.n, ev.s, IF ev.delta < 0 THEN ev.k - 1 ELSE ev.k, TermOnOrBefore(ev.n))
=============================================================================
