------------------------------ MODULE MC_Attrs ------------------------------
(* A day machine: the day pillar, the lodge and the weekday advance together, *)
(* the month pillar advances at section terms (nondeterministically); hours   *)
(* run within the day.  The almanac attributes obey the tradition.            *)
EXTENDS Attrs, Pillars
CONSTANTS Start, Length
VARIABLES n, m, changed, h
vars == <<n, m, changed, h>>
Init == n = Start /\ m \in 0..59 /\ changed = FALSE /\ h = 0
Hour == h < 11 /\ h' = h + 1 /\ UNCHANGED <<n, m, changed>>
Day == n < Start + Length /\ h = 11 /\ h' = 0 /\ n' = n + 1 /\ m' = m /\ changed' = FALSE
Enter == n < Start + Length /\ h = 11 /\ h' = 0 /\ n' = n + 1 /\ m' = (m + 1) % 60 /\ changed' = TRUE
Next == Hour \/ Day \/ Enter
Spec == Init /\ [][Next]_vars
D == DayPillar(n)
Dz == Branch(D)
Mz == Branch(m)
\* the officer repeats on the day a month begins, and advances otherwise
OfficerSteps == [][n' = n + 1 => IF changed' THEN Officer(Branch(m'), Branch(DayPillar(n'))) = Officer(Mz, Dz)
                                              ELSE Officer(Branch(m'), Branch(DayPillar(n'))) /= Officer(Mz, Dz)]_vars
OfficerFull == Cardinality({Officer(Mz, z) : z \in 0..11}) = 12 /\ Officer(Mz, Mz) = "建"
SpiritsFull == Cardinality({Spirit(z, Mz) : z \in 0..11}) = 12 /\ Cardinality({z \in 0..11 : Yellow(SpiritNo(z, Mz))}) = 6
SpiritTypes == \A i \in 0..11 : Names.tianshentype[Names.tianshen[i + 1]] = IF Yellow(i) THEN "黄道" ELSE "黑道"
ClashMutual == ClashBranch(ClashBranch(Dz)) = Dz /\ Sha(ClashBranch(Dz)) /= Sha(Dz)
\* the day's stem controls the clash stem
ClashControls == \A g \in 0..9 : (StemElement(ClashStem(g)) - StemElement(g)) % 5 = 2
ShaTrine == Sha((Dz + 4) % 12) = Sha(Dz) /\ Sha((Dz + 8) % 12) = Sha(Dz)
\* the lodge fixes weekday and trine, its luminary is the weekday's
LodgeOfWeek == Luminary(LodgeNo(n)) = <<"日", "月", "火", "水", "木", "金", "土">>[((n + 1) % 7) + 1]
LodgeTables == LET x == Lodge(n) IN Names.zheng[x] = Luminary(LodgeNo(n)) /\ Names.gong[x] = Palace(LodgeNo(n)) /\ Names.shou[Palace(LodgeNo(n))] = Guardian(LodgeNo(n))
FortuneTable == \A g \in 0..9 : Names.lu[GanName(g)] = ZhiName(Fortune(g))
FortuneBack == \A z \in 0..11 : Holders(z) /= {} => Names.lu[ZhiName(z)] = HolderText(Holders(z))
ShaTable == \A z \in 0..3 : Names.sha[z + 1] = Sha(z)
DukeOwn == DukeDay(D, 0) = DukeDay(D, 5) <=> (D % 12 < 6 \/ DukeYear(0) = DukeYear(5))
HourFive == LET p == HourPillar(n, h * 7200) IN Branch(p) = h /\ IsPillar(Stem(p), Branch(p))
=============================================================================
