----------------------------- MODULE MC_YearObj -----------------------------
(* Lunar months go by; the pillars of months and years and the omens obey     *)
(* their rules.                                                               *)
EXTENDS YearObjApi
CONSTANTS Years
VARIABLES i, last
vars == <<i, last>>
Init == \E y \in Years : i = FirstMoon(y) /\ last = FirstMoon(y + 3)
Next == i < last /\ i' = i + 1 /\ last' = last
Spec == Init /\ [][Next]_vars
Y == Label(i)[1]
Place == i - FirstMoon(Y) + 1
\* every month has a valid pillar; they follow one another within a year
Valid == LET p == PlacePillar(Y, Place) IN IsPillar(Stem(p), Branch(p)) /\ p % 10 = Stem(p) /\ (Place = 1 => Branch(p) = 2)
Steps == [][Label(i')[1] = Y => PlacePillar(Y, Place + 1) = (PlacePillar(Y, Place) + 1) % 60]_vars
\* in a year of twelve months the next year's first month goes on from it
Joins == [][Label(i')[1] # Y /\ MonthCount(Y) = 12 => PlacePillar(Y + 1, 1) = (PlacePillar(Y, 12) + 1) % 60]_vars
\* every omen names a day of the first twelve, and that day has the branch
OmenDay == \A z \in 0..11 : LET d == FirstBranch(Y, z) IN d \in 1..12 /\ DayPillar(Moons[FindMonth(Y, 1)] + d - 1) % 12 = z
OmenStem == \A g \in 0..9 : LET d == FirstStem(Y, g) IN d \in 1..10 /\ DayPillar(Moons[FindMonth(Y, 1)] + d - 1) % 10 = g
\* the sequence of the nine stars of years: three ages make twenty of them
Ages == Age(Y) = Age(Y + 180) /\ Period(Y) = Period(Y + 180) /\ YearStar(Y + 180) = YearStar(Y)
JiaziStar == YearPillar(Y) = 0 => YearStar(Y) = CASE Age(Y) = "上元" -> 0 [] Age(Y) = "中元" -> 3 [] OTHER -> 6
=============================================================================
