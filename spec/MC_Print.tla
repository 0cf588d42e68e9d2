------------------------------ MODULE MC_Print ------------------------------
(* Days and hours go by; every printed form is read back to the fields it     *)
(* was made from, so no two dates share one.                                 *)
EXTENDS Print
CONSTANTS Starts, Length
VARIABLES n, s, end
vars == <<n, s, end>>
Init == \E b \in Starts : n = b /\ s = 0 /\ end = (IF b + Length > LAST THEN LAST ELSE b + Length)
\* a clock that visits every minute and second value over the days
Next == /\ n < end
        /\ n' = n + 1
        /\ s' = (s + 24671) % DAY
        /\ end' = end
Spec == Init /\ [][Next]_vars
SolarBack == ReadClock(Clock(Full(n, s))) = Full(n, s)
LunarBack == ReadLunar(LunarText(LunarOf(n))) = LunarOf(n)
EraBack == \A e \in {544, 2697} : LET l == LunarOf(n)
                                      f == <<l[1] + e, l[2], l[3]>>
                                  IN ReadLunar(LunarText(f)) = f
\* the next day prints otherwise
Differ == [][LunarText(LunarOf(n')) # LunarText(LunarOf(n)) /\ Clock(Full(n', s')) # Clock(Full(n, s))]_vars
=============================================================================
