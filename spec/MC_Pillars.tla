----------------------------- MODULE MC_Pillars -----------------------------
(* The pillars as counters that step at their own boundaries, explored hour   *)
(* by hour over whole years; at every moment they equal the closed forms.     *)
EXTENDS Pillars
CONSTANTS Starts, Hours             \* first days; hours to explore
VARIABLES n0, n, h, day, hour, m, my, yl, ye
vars == <<n0, n, h, day, hour, m, my, yl, ye>>
\* (the moment is hh:00:00; boundaries within the hour are crossed by its end)
S == h * 3600
KK == TermAt(n, S)
KD == TermOnOrBefore(n)
Init == /\ n0 \in Starts
        /\ n = n0 /\ h = 0
        /\ day = DayPillar(n0) /\ hour = HourPillar(n0, 0)
        /\ m = MonthPillar(TermAt(n0, 0)) /\ my = SpringYear(TermAt(n0, 0))
        /\ yl = LunarOf(n0)[1] /\ ye = SpringYear(TermOnOrBefore(n0))
Next == /\ (n - n0) * 24 + h < Hours
        /\ n0' = n0
        /\ h' = (h + 1) % 24
        /\ n' = IF h = 23 THEN n + 1 ELSE n
        /\ day' = IF h = 23 THEN (day + 1) % 60 ELSE day
        /\ hour' = IF (h + 1) % 2 = 1 THEN (hour + 1) % 60 ELSE hour
        \* counting section terms crossed during this hour
        /\ LET k == TermAt(n, S)
               passed == IF k + 1 <= Len(TermN) /\ TermLe(k + 1, n', h' * 3600) THEN k + 1 ELSE 0
           IN /\ m' = IF passed # 0 /\ IsJie(passed) THEN (m + 1) % 60 ELSE m
              /\ my' = IF passed # 0 /\ TermNo(passed) = 4 THEN my + 1 ELSE my
        \* the new year is the first day of the first month
        /\ yl' = IF h = 23 /\ LunarOf(n')[2] = 1 /\ LunarOf(n')[3] = 1 THEN yl + 1 ELSE yl
        /\ ye' = IF h = 23 /\ TermOn(n') # 0 /\ TermNo(TermOn(n')) = 4 THEN ye + 1 ELSE ye
Spec == Init /\ [][Next]_vars
P == PillarsAt(n, S, KK, KD)
Counters == P = <<YearPillar(yl), YearPillar(ye), YearPillar(my), P[4], m, day, IF h = 23 THEN (day + 1) % 60 ELSE day, day, hour>>
FirstMonthStem == LET first == MonthPillar(TermIx(my, 4))
                  IN first % 12 = 2 /\ first % 10 = (((YearPillar(my) % 10) % 5) * 2 + 2) % 10
FiveRats == P[9] % 10 = (((P[7] % 10) % 5) * 2 + (P[9] % 12)) % 10
Parity == \A i \in 1..9 : P[i] \in 0..59 /\ (P[i] % 10) % 2 = (P[i] % 12) % 2
\* by-day and by-instant forms differ only on the day of a section term
DayVsInstant == P[4] # P[5] => TermOn(n) # 0 /\ IsJie(TermOn(n))
YearVsInstant == P[2] # P[3] => TermOn(n) # 0 /\ TermNo(TermOn(n)) = 4
=============================================================================
