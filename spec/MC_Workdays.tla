---------------------------- MODULE MC_Workdays ----------------------------
(* Stepping one day at a time and counting the working days met, under every  *)
(* store over a few days: the counting machine agrees with WorkStep; steps    *)
(* compose; from a working day they can be undone; nothing is skipped.        *)
EXTENDS Holidays
CONSTANTS First, Span, Special
VARIABLES recs, start, at, dir, count
vars == <<recs, start, at, dir, count>>
Init == /\ recs \in UNION {[D -> {<<0, TRUE, 20200101>>, <<0, FALSE, 20200101>>}] : D \in SUBSET {Code(DateOf(First + i)) : i \in Special}}
        /\ start \in First..(First + Span) /\ at = start /\ dir \in {1, 0 - 1} /\ count = 0
Next == /\ at \in (First - 3)..(First + Span + 3)
        /\ at' = at + dir
        /\ count' = IF Works(recs, at') THEN count + 1 ELSE count
        /\ UNCHANGED <<recs, start, dir>>
Spec == Init /\ [][Next]_vars
Landing == Works(recs, at) /\ count > 0 => WorkStep(recs, start, dir * count) = at
Composes == \A k \in 0..count : WorkStep(recs, WorkStep(recs, start, dir * k), dir * (count - k)) = WorkStep(recs, start, dir * count)
Undone == Works(recs, start) => WorkStep(recs, WorkStep(recs, start, dir * count), 0 - dir * count) = start
Exact == LET r == WorkStep(recs, start, dir * count)
         IN count > 0 => /\ Works(recs, r)
                         /\ Cardinality({d \in (IF dir = 1 THEN (start + 1)..r ELSE r..(start - 1)) : Works(recs, d)}) = count
=============================================================================
