------------------------------ MODULE MC_Lunar ------------------------------
(* The lunar calendar as a machine stepping from day to day, explored for    *)
(* whole lunar years, against the rule that names the months.                *)
EXTENDS Almanac
CONSTANTS Years                     \* the lunar years to explore
VARIABLES y0, i, d, n
vars == <<y0, i, d, n>>
Init == /\ y0 \in Years
        /\ i = FirstMoon(y0)
        /\ d = 1
        /\ n = Moons[i]
Next == /\ i < FirstMoon(y0 + 1)
        /\ LET t == LunarSucc(i, d) IN i' = t[1] /\ d' = t[2]
        /\ n' = n + 1
        /\ y0' = y0
Spec == Init /\ [][Next]_vars

First == d = 1
\* month by month: the facts are asked on the first day of each month
MonthLengths == First => MoonLen(i) \in {29, 30} \/ Moons[i] = 1807637
Numbering == First => LET a == Label(i - 1)
                          b == Label(i)
                      IN \/ b = <<a[1], a[2] + 1>> /\ a[2] > 0
                         \/ b = <<a[1], -a[2]>> /\ a[2] > 0              \* leap month follows its month
                         \/ b = <<a[1], 1 - a[2]>> /\ a[2] < 0
                         \/ b = <<a[1] + 1, 1>> /\ a[2] \in {12, -12}
                         \/ a = <<8, 11>> /\ b = <<9, 1>>                \* reform: the year 8 had no twelfth month
                         \/ a = <<237, 2>> /\ b = <<237, 4>>             \* reform: the year 237 had no third month
LeapLacksTerm == First /\ Label(i)[2] < 0 /\ ~EndsReform(Moons[i]) =>
                     ~HasZhongqi(SuiOf(i), i - SuiFirst(SuiOf(i)))
OneLeap == First => Cardinality({j \in MonthsOf(y0) : Label(j)[2] < 0}) <= 1
Counts == First => MonthCount(y0) \in {12, 13} \/ y0 \in {8, 237}
YearDays2 == First => YearDayCount(y0) \in {353, 354, 355, 383, 384, 385} \/ y0 \in {8, 236, 237}
Unique == First => \A a, b \in MonthsOf(y0) : a # b => Label(a)[2] # Label(b)[2]
\* the machine's day is the day the closed forms name, and back
Coordinates == i < FirstMoon(y0 + 1) =>
                  /\ LunarOf(n) = Label(i) \o <<d>>
                  /\ LunarExists(Label(i)[1], Label(i)[2], d)
                  /\ DayOfLunar(Label(i)[1], Label(i)[2], d) = n
YearBorder == i = FirstMoon(y0 + 1) => d = 1 /\ n = Moons[i] /\ Label(i)[1] = y0 + 1 /\ n - Moons[FirstMoon(y0)] = YearDayCount(y0)
=============================================================================
