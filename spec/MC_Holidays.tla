---------------------------- MODULE MC_Holidays ----------------------------
(* The store is kept as a list of records in day order and corrected record   *)
(* by record; TLC checks, over every history, that the list refines the map:  *)
(* one record per day, ordered, the last correction wins, and reading the     *)
(* list by prefix gives the queries of the map.                               *)
EXTENDS Holidays
CONSTANTS Days, Targets, Names2
VARIABLES list, map
vars == <<list, map>>
Val == {<<i, w, t>> : i \in Names2, w \in BOOLEAN, t \in Targets}
MapOf(l) == [d \in {l[i][1] : i \in 1..Len(l)} |-> LET i == CHOOSE j \in 1..Len(l) : l[j][1] = d IN l[i][2]]
\* the list machine: find the place of the day, then replace, insert or delete there
Place(l, d) == IF \E i \in 1..Len(l) : l[i][1] >= d THEN CHOOSE i \in 1..Len(l) : l[i][1] >= d /\ \A j \in 1..(i - 1) : l[j][1] < d ELSE Len(l) + 1
Present(l, d) == LET i == Place(l, d) IN i <= Len(l) /\ l[i][1] = d
SetRec(l, d, v) == LET i == Place(l, d) IN SubSeq(l, 1, i - 1) \o <<<<d, v>>>> \o SubSeq(l, IF Present(l, d) THEN i + 1 ELSE i, Len(l))
DelRec(l, d) == IF Present(l, d) THEN LET i == Place(l, d) IN SubSeq(l, 1, i - 1) \o SubSeq(l, i + 1, Len(l)) ELSE l
Init == list = <<>> /\ map = [d \in {} |-> <<>>]
Set == \E d \in Days, v \in Val : list' = SetRec(list, d, v) /\ map' = Put(map, [day |-> d, idx |-> v[1], work |-> v[2], target |-> v[3], remove |-> FALSE])
Del == \E d \in Days : list' = DelRec(list, d) /\ map' = Put(map, [day |-> d, idx |-> 0, work |-> FALSE, target |-> d, remove |-> TRUE])
Next == Set \/ Del
Spec == Init /\ [][Next]_vars
St == [recs |-> map, names |-> <<"a", "b", "c">>]
Refines == MapOf(list) = map
Ordered == \A i \in 1..(Len(list) - 1) : list[i][1] < list[i + 1][1]
Prefixed == \A d \in Days : LET y == d \div 10000
                                m == (d \div 100) % 100
                                cut(p(_)) == LET s == SelectSeq(list, LAMBDA r : p(r)) IN [i \in 1..Len(s) |-> s[i][1]]
                            IN /\ DaysOfYear(St, y) = cut(LAMBDA r : r[1] \div 10000 = y)
                               /\ DaysOfMonth(St, y, m) = cut(LAMBDA r : r[1] \div 100 = d \div 100)
                               /\ \A t \in Targets : DaysOfTarget(St, t) = cut(LAMBDA r : r[2][3] = t)
\* two corrections of different days commute; of one day, the later wins
Commute == \A d, e \in Days : d # e => \A w \in BOOLEAN :
             LET a == [day |-> d, idx |-> 0, work |-> TRUE, target |-> d, remove |-> w]
                 b == [day |-> e, idx |-> 1, work |-> FALSE, target |-> e, remove |-> FALSE]
                 c == [day |-> d, idx |-> 1, work |-> FALSE, target |-> e, remove |-> FALSE]
             IN /\ PutAll(map, <<a, b>>, 1) = PutAll(map, <<b, a>>, 1)
                /\ PutAll(map, <<a, c>>, 1) = Put(map, c)
=============================================================================
