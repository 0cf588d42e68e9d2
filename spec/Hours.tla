------------------------------- MODULE Hours -------------------------------
(* The two-hour periods of a day (C22): thirteen, the zi period being split   *)
(* by midnight.                                                               *)
EXTENDS Pillars
TwoD(x) == ToString(x \div 10) \o ToString(x % 10)
HM(t) == TwoD(t \div 60) \o ":" \o TwoD(t % 60)             \* minute of the day as HH:MM
\* period 0 is the early zi hour, 12 the late one; minutes of its bounds
Lower(i) == IF i = 0 THEN 0 ELSE 120 * i - 60
Upper(i) == IF i = 0 THEN 59 ELSE IF i = 12 THEN 1439 ELSE 120 * i + 59
PeriodOf(t) == (t + 60) \div 120                            \* of a minute
BranchIn(i) == i % 12
=============================================================================
