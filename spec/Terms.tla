------------------------------- MODULE Terms -------------------------------
(* The solar terms as one sequence, and the queries around a moment (C08).   *)
EXTENDS Almanac, Names

\* the term in force at a moment seen by whole days: the latest one on or
\* before the day
TermOnOrBefore(n) == TermAt(n, DAY - 1)
PrevOf(kind, k) == CASE kind = "all" -> k
                     [] kind = "jie" -> IF IsJie(k) THEN k ELSE k - 1
                     [] kind = "qi" -> IF IsJie(k) THEN k - 1 ELSE k
NextOf(kind, k) == CASE kind = "all" -> k + 1
                     [] kind = "jie" -> IF IsJie(k) THEN k + 2 ELSE k + 1
                     [] kind = "qi" -> IF IsJie(k) THEN k + 1 ELSE k + 2
\* the term that falls on a day, 0 when none does
TermOn(n) == LET k == TermOnOrBefore(n) IN IF TermN[k] = n THEN k ELSE 0

\* an observed instant that is within two seconds of term k stands for it
NearTerm(o, k) == /\ o[1] - TermN[k] \in -1..1
                  /\ (o[1] - TermN[k]) * DAY + o[2] - TermS[k] \in -2..2
At(o, k) == IF NearTerm(o, k) THEN o ELSE <<TermN[k], TermS[k]>>
=============================================================================
