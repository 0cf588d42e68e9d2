------------------------------ MODULE MC_Advice ------------------------------
(* Every month pillar meets every day pillar, and every day pillar every      *)
(* hour; the entries must be lists without repetition or contradiction.       *)
EXTENDS Advice
VARIABLES mp, dp
vars == <<mp, dp>>
Init == mp = 0 /\ dp = 0
Next == \/ mp' = (mp + 1) % 60 /\ dp' = dp
        \/ dp' = (dp + 1) % 60 /\ mp' = mp
Spec == Init /\ [][Next]_vars
Elems(q) == {q[i] : i \in 1..Len(q)}
Proper(q, names) == Cardinality(Elems(q)) = Len(q) /\ Elems(q) \subseteq 1..Len(names)
Apart(e) == Elems(e[1]) \cap Elems(e[2]) = {}
DayOk == LET e == DayEntry(mp, dp) IN Proper(e[1], AJ.acts) /\ Proper(e[2], AJ.acts) /\ Apart(e) /\ Len(e[1]) > 0 /\ Len(e[2]) > 0
HourOk == \A z \in 0..11 : LET e == HourEntry(dp, HourOf(dp, z)) IN Proper(e[1], AJ.acts) /\ Proper(e[2], AJ.acts) /\ Apart(e)
SpiritOk == \A m \in 1..12 : LET e == SpiritEntry(m, dp) IN Proper(e[1], AJ.spirits) /\ Proper(e[2], AJ.spirits) /\ Apart(e) /\ Len(e[1]) > 0
NamesOk == Cardinality({AJ.acts[i] : i \in 1..Len(AJ.acts)}) = Len(AJ.acts) /\ Cardinality({AJ.spirits[i] : i \in 1..Len(AJ.spirits)}) = Len(AJ.spirits)
\* traditional rules the spirit table keeps: spirits that follow the distance of
\* the day's branch from the month's (that of lunar month m is m + 1), the day's
\* branch alone, the season, or the day pillar
Has(q, name) == \E i \in 1..Len(q) : AJ.spirits[q[i]] = name
Season4(m) == (m - 1) \div 3
Rules == \A m \in 1..12 : LET e == SpiritEntry(m, dp)
                              z == dp % 12
                              off == (z - (m + 1)) % 12
                          IN /\ Has(e[2], "月建") <=> off = 0
                             /\ Has(e[1], "吉期") <=> off = 1
                             /\ Has(e[2], "死气") <=> off = 4
                             /\ Has(e[1], "三合") <=> off \in {4, 8}
                             /\ Has(e[1], "天喜") <=> off = 8
                             /\ Has(e[2], "五离") <=> z \in {8, 9}
                             /\ Has(e[2], "触水龙") <=> dp \in {12, 19, 49}
                             /\ Has(e[1], "天赦") <=> dp = <<14, 30, 44, 0>>[Season4(m) + 1]
                             /\ Has(e[2], "四穷") <=> dp = <<11, 23, 47, 59>>[Season4(m) + 1]
                             /\ Has(e[2], "四废") <=> dp \in <<{56, 57}, {48, 59}, {50, 51}, {42, 53}>>[Season4(m) + 1]
=============================================================================
