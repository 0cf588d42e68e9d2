------------------------------- MODULE MC_Luck -------------------------------
(* A life lived year by year through the cycles: every year belongs to one    *)
(* cycle, cycles follow each other, pillars step by one; and the offset rules *)
(* as counters over the distance, minute by minute and period by period.      *)
EXTENDS Luck
CONSTANTS Births, Starts, MaxMinutes
VARIABLES phase, by, sy, year, cyc, pil, min, off
vars == <<phase, by, sy, year, cyc, pil, min, off>>
M0 == 37
Init == \/ phase = "life" /\ by \in Births /\ sy \in {by + k : k \in Starts} /\ year = by
           /\ cyc = (IF by = sy THEN 1 ELSE 0) /\ pil = (IF by = sy THEN M0 + 1 ELSE M0) /\ min = 0 /\ off = <<0, 0, 0, 0>>
        \/ phase = "distance" /\ by = 0 /\ sy = 0 /\ year = 0 /\ cyc = 0 /\ pil = 0 /\ min = 0 /\ off = <<0, 0, 0, 0>>
Live == /\ phase = "life" /\ year < by + 130
        /\ year' = year + 1
        /\ LET into == year + 1 >= sy /\ (year + 1 - sy) % 10 = 0
           IN /\ cyc' = IF into THEN cyc + 1 ELSE cyc
              /\ pil' = IF into THEN (pil + 1) % 60 ELSE pil
        /\ UNCHANGED <<phase, by, sy, min, off>>
\* one more minute of distance is one twelfth of a day of offset
Further == /\ phase = "distance" /\ min < MaxMinutes
           /\ min' = min + 1
           /\ off' = LET h == off[4] + 2
                         d == off[3] + (IF h = 24 THEN 1 ELSE 0)
                         m == off[2] + (IF d = 30 THEN 1 ELSE 0)
                     IN <<off[1] + (IF m = 12 THEN 1 ELSE 0), m % 12, d % 30, h % 24>>
           /\ UNCHANGED <<phase, by, sy, year, cyc, pil>>
Next == Live \/ Further
Spec == Init /\ [][Next]_vars
InCycle == phase = "life" => /\ CycleStart(by, sy, cyc) <= year /\ year <= CycleEnd(by, sy, cyc)
                             /\ \A i \in 0..14 : CycleStart(by, sy, i) <= year /\ year <= CycleEnd(by, sy, i) => i = cyc
Tiling == phase = "life" => CycleEnd(by, sy, cyc) + 1 = CycleStart(by, sy, cyc + 1)
Pillars12 == phase = "life" => pil = CyclePillar(M0, TRUE, cyc) /\ CyclePillar(CyclePillar(M0, TRUE, cyc), FALSE, cyc) = M0
Minutes == phase = "distance" => off = OffsetByMinutes(min)
\* the two conventions agree to within one period's worth (10 days) when the distance is whole periods
Periods == phase = "distance" /\ min % 120 = 0 =>
             LET a == OffsetByMinutes(min)
                 b == OffsetByPeriods(min \div 1440, (min % 1440) \div 120)
             IN a[1] * 360 + a[2] * 30 + a[3] = b[1] * 360 + b[2] * 30 + b[3]
Borrow == phase = "distance" /\ min % 120 = 0 /\ min >= 1440 =>
             \A p \in 0..11 : OffsetByPeriods(min \div 1440, p - 12) = OffsetByPeriods(min \div 1440 - 1, p)
=============================================================================
