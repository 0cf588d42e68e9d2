------------------------------ MODULE MC_Search ------------------------------
(* The periods of time one after another; the pillars at the beginning and at *)
(* the end of each must find it, and what they find must carry them.          *)
EXTENDS Search
CONSTANTS Starts, Span
VARIABLES n0, n, w, sect
vars == <<n0, n, w, sect>>
Init == n0 \in Starts /\ n = n0 /\ w = 0 /\ sect \in {1, 2}
Next == n < n0 + Span /\ w' = (w + 1) % 13 /\ n' = (IF w = 12 THEN n + 1 ELSE n) /\ UNCHANGED <<n0, sect>>
Spec == Init /\ [][Next]_vars
Y == DateOf(n)[1]
Own(s) == LET kk == TermAt(n, s)
          IN <<YearPillar(SpringYear(kk)), MonthPillar(kk), IF sect = 1 THEN DayEarly(n, s) ELSE DayPillar(n), HourPillar(n, s)>>
Finds(s) == LET p == Own(s) IN <<n, w>> \in Matches(p, sect, Y, Y, 0)
FindsItself == Finds(PeriodFrom(w)) /\ Finds(PeriodTo(w))
\* within one year at most one period (one pair of rat-hour halves) carries four pillars, and every moment found carries them
OneEach == LET p == Own(PeriodFrom(w))
               f == Matches(p, sect, Y - 1, Y + 1, 0)
           IN /\ Cardinality({PeriodId(sect, x[1], x[2]) : x \in f}) = 1
              /\ \A x \in f : \E s \in {PeriodFrom(x[2]), PeriodTo(x[2])} : FourAt(x[1], s, sect) = p
Tiles == PeriodOfSecond(PeriodFrom(w)) = w /\ PeriodOfSecond(PeriodTo(w)) = w /\ (w = 12 \/ PeriodTo(w) + 1 = PeriodFrom(w + 1))
=============================================================================
