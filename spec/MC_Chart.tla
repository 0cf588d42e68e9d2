------------------------------ MODULE MC_Chart ------------------------------
(* Every combination of year, month, day and hour pillars that the calendar   *)
(* allows, walked pillar by pillar; the chart's functions obey the tradition. *)
EXTENDS Chart
CONSTANTS YearSet, DaySet
VARIABLES y, m, d, t                \* pillars
vars == <<y, m, d, t>>
MonthsOfYear(yy) == {Pillar(TigerStem(yy, i), BranchOf(i)) : i \in 1..12}
HoursOfDay(dd) == {Pillar((((dd % 10) % 5) * 2 + z) % 10, z) : z \in 0..11}
Init == y \in YearSet /\ m \in MonthsOfYear(y) /\ d \in DaySet /\ t \in HoursOfDay(d)
Next == UNCHANGED vars
Spec == Init /\ [][Next]_vars
Valid == \A p \in {y, m, d, t, TaiYuan(m), TaiXi(d), MingGong(y, m, t), ShenGong(y, m, t)} :
             p \in 0..59 /\ IsPillar(Stem(p), Branch(p)) /\ Pillar(Stem(p), Branch(p)) = p
TaiXiInverse == TaiXi(TaiXi(d)) = d
Void == \A p \in {y, m, d, t} : \A i \in 0..9 : ((XunHead(p) + i) % 12) \notin {VoidBranches(p)[1], VoidBranches(p)[2]}
InXun == \A p \in {y, m, d, t} : p - XunHead(p) \in 0..9
\* generating and controlling are opposite relations
Kind(a, b) == (StemElement(b) - StemElement(a)) % 5
TenGodsDual == \A p \in {y, m, t} : (Kind(Stem(d), Stem(p)) + Kind(Stem(p), Stem(d))) % 5 = 0
SelfGod == TenGod(Stem(d), Stem(d)) = "比肩"
Agrees == \A a \in 0..9 : \A b \in 0..9 : TenGod(a, b) = Names.shishen[GanName(a) \o GanName(b)]
StagesDiffer == \A a \in 0..9 : Cardinality({Stage(a, z) : z \in 0..11}) = 12
BirthStage == Stage(Stem(d), Birth(Stem(d))) = "长生"
HiddenLead == \A z \in 0..11 : StemElement(StemNo(Hidden(z)[1])) = BranchElement(z)
PalacesMirror == (MonthOf(Branch(m)) + MonthOf(Branch(t)) + MonthOf(Branch(MingGong(y, m, t)))) % 12 = 2
=============================================================================
