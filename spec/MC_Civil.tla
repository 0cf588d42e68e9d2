------------------------------ MODULE MC_Civil ------------------------------
(* Exhaustive exploration of the calendar machine: from each 1 January of a  *)
(* set of years the days are stepped one at a time to the first day of the   *)
(* next year; the closed forms, weekdays and week cells are checked in every *)
(* state and on every step.                                                  *)
EXTENDS Civil
CONSTANTS YearLo, YearHi
VARIABLES dt, n, wd, y0

vars == <<dt, n, wd, y0>>
Init == /\ y0 \in YearLo..YearHi
        /\ dt = <<y0, 1, 1>>
        /\ n = DN(y0, 1, 1)
        /\ wd = Weekday(n)
Tick == /\ dt[1] = y0
        /\ dt' = Succ(dt)
        /\ n' = n + 1
        /\ wd' = (wd + 1) % 7
        /\ y0' = y0
Next == Tick
Spec == Init /\ [][Next]_vars

Exists == DateExists(dt[1], dt[2], dt[3])
ClosedForm == DN(dt[1], dt[2], dt[3]) = n /\ DateOf(n) = dt
BackForth == Pred(Succ(dt)) = dt
WeekdayOk == Weekday(n) = wd
YearLength == dt[1] # y0 => n - DN(y0, 1, 1) = YearDays(y0)
MonthLength == dt[3] = LastDay(dt[1], dt[2]) => n - DN(dt[1], dt[2], 1) + 1 = MonthDays(dt[1], dt[2])
MonthShiftInverse == \A k \in {1, 2, 11, 12, 13, 25} : MonthShift(MonthShift(dt[1], dt[2], k)[1], MonthShift(dt[1], dt[2], k)[2], -k) = <<dt[1], dt[2]>>
ClampExists == \A k \in {-13, -12, -1, 1, 12, 13} :
    LET t == NextMonthOf(dt, k)
        u == NextYearOf(dt, k)
    IN /\ DateExists(t[1], t[2], t[3])
       /\ DateExists(u[1], u[2], u[3])
\* a week has seven days and starts on its weekday; splitting weeks at month
\* borders yields the cells in sequence
WeekOk == \A st \in 0..6 :
    /\ WeekFirst(n, st) \in (n - 6)..n
    /\ Weekday(WeekFirst(n, st)) = st
    /\ WeekOfMonth(n, st) \in 1..WeeksInMonth(dt[1], dt[2], st)
CellStep == [][\A st \in 0..6 :
    /\ CellOf(n', st) \in {CellOf(n, st), CellSucc(CellOf(n, st), st)}
    /\ (CellOf(n', st) # CellOf(n, st)) <=> (Weekday(n') = st \/ dt'[3] = 1)
    /\ CellPred(CellSucc(CellOf(n, st), st), st) = CellOf(n, st)]_vars
=============================================================================
