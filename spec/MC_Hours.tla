------------------------------ MODULE MC_Hours ------------------------------
(* A minute clock over a few days: the periods tile it.                      *)
EXTENDS Hours, Chart
CONSTANTS Start, Days
VARIABLES n, t
vars == <<n, t>>
Init == n = Start /\ t = 0
Next == n < Start + Days /\ IF t < 1439 THEN t' = t + 1 /\ n' = n ELSE t' = 0 /\ n' = n + 1
Spec == Init /\ [][Next]_vars
InOne == {i \in 0..12 : Lower(i) <= t /\ t <= Upper(i)} = {PeriodOf(t)}
Steps == [][n' = n => PeriodOf(t') = IF t' = Lower(PeriodOf(t')) THEN PeriodOf(t) + 1 ELSE PeriodOf(t)]_vars
\* the clock's branch and the pillar's branch are the same, and the pillar
\* turns once per branch, the day pillar's early form at 23:00
SameBranch == HourBranch(t * 60) = BranchIn(PeriodOf(t)) /\ Branch(HourPillar(n, t * 60)) = HourBranch(t * 60)
PillarRuns == [][LET a == HourPillar(n, t * 60)
                     b == HourPillar(n', t' * 60)
                 IN b = IF n' = n /\ t' = Lower(PeriodOf(t')) THEN (a + 1) % 60 ELSE a]_vars
=============================================================================
