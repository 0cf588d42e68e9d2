------------------------------ MODULE Almanac ------------------------------
(* The astronomical data of the release, taken as given, and the rules that  *)
(* turn it into lunar months and solar terms.                                *)
(*   Moons[i]   the day (day number) of the i-th new moon                    *)
(*   Zq[j]      the civil day of the j-th principal term (zhongqi) used for  *)
(*              month naming; j = 12 y + 1 is the winter solstice that opens *)
(*              the solar year y (it falls in December of y - 1)             *)
(*   TermN, TermS  day number and second of the day of the k-th solar term;  *)
(*              term k = 24 y + i + 1 - 24 is number i of the table of year  *)
(*              y, number 0 being Great Snow (December of y - 1)             *)
EXTENDS Civil, Json

Data == JsonDeserialize("data/almanac.json")
Moons == Data.moon
Zq == Data.zq
TermN == Data.tn
TermS == Data.ts

\* ------------------------------------------------------------ searching
\* (mean lunation 29.5306 days, within five of the right one over 10000 years)
MoonGuess(n) == ((n - Moons[1]) * 100) \div 2953 + 1
MoonAt(n) == CHOOSE i \in (MoonGuess(n) - 5)..(MoonGuess(n) + 3) :
                 /\ i >= 1
                 /\ Moons[i] <= n
                 /\ n < Moons[i + 1]
MoonLen(i) == Moons[i + 1] - Moons[i]

\* ---------------------------------------------------- naming the months
\* a sui y runs from the month of the winter solstice that opens y to the one
\* before the next winter solstice month
SuiFirst(y) == MoonAt(Zq[12 * y + 1])
SuiLen(y) == SuiFirst(y + 1) - SuiFirst(y)
\* does the p-th month (0..12) of sui y contain a principal term?
HasZhongqi(y, p) == LET i == SuiFirst(y) + p
                    IN \E j \in (12 * y + 1)..(12 * y + 14) : Moons[i] <= Zq[j] /\ Zq[j] < Moons[i + 1]
\* position of the leap month of sui y (99 when there is none): thirteen
\* months, and the first of them without a principal term
SuiLeap(y) == IF SuiLen(y) = 13
              THEN CHOOSE p \in 1..12 : ~HasZhongqi(y, p) /\ \A q \in 1..(p - 1) : HasZhongqi(y, q)
              ELSE 99
\* which sui a new moon belongs to
SuiOf(i) == LET g == DateOf(Moons[i])[1]
            IN IF i >= SuiFirst(g + 1) THEN g + 1 ELSE IF i >= SuiFirst(g) THEN g ELSE g - 1
\* <<year, month>> by the rule; a leap month is negative
RuleLabel(i) ==
    LET y == SuiOf(i)
        p == i - SuiFirst(y)
        lp == SuiLeap(y)
        q == IF p >= lp THEN p - 1 ELSE p          \* ordinal among the twelve
        m == ((q + 10) % 12) + 1
    IN <<IF q < 2 THEN y - 1 ELSE y, IF p = lp THEN -m ELSE m>>

\* ------------------------------------------- recorded calendar reforms
\* Wang Mang's (years 9-23) and the Wei (237-239) reforms moved the start of
\* the year one month ahead; the month in which each ended is the second of
\* its number, recorded as a repeated (leap) eleventh month.
Reform == {<<1724360, 1729794>>, <<1807724, 1808699>>}
InReform(n) == \E r \in Reform : r[1] <= n /\ n < r[2]
EndsReform(n) == \E r \in Reform : n = r[2]
Label(i) ==
    LET n == Moons[i]
        l == RuleLabel(i)
        m == IF l[2] < 0 THEN -l[2] ELSE l[2]
    IN IF InReform(n)
       THEN LET mm == (m % 12) + 1
            IN <<IF m = 12 THEN l[1] + 1 ELSE l[1], IF l[2] < 0 THEN -mm ELSE mm>>
       ELSE IF EndsReform(n) THEN <<l[1], -11>>
       ELSE l

\* the first new moon of lunar year y, and its months
FirstMoon(y) == CHOOSE i \in SuiFirst(y)..(SuiFirst(y) + 4) : Label(i)[1] = y /\ Label(i - 1)[1] = y - 1
MonthsOf(y) == FirstMoon(y)..(FirstMoon(y + 1) - 1)
MonthCount(y) == FirstMoon(y + 1) - FirstMoon(y)
\* the new moon of a month of a year, 0 when there is no such month
FindMonth(y, m) == IF \E i \in MonthsOf(y) : Label(i)[2] = m
                   THEN CHOOSE i \in MonthsOf(y) : Label(i)[2] = m
                   ELSE 0
LeapMonth(y) == IF \E i \in MonthsOf(y) : Label(i)[2] < 0
                THEN -(Label(CHOOSE i \in MonthsOf(y) : Label(i)[2] < 0)[2])
                ELSE 0
YearDayCount(y) == Moons[FirstMoon(y + 1)] - Moons[FirstMoon(y)]

\* day n as <<lunar year, month, day>>
LunarOf(n) == LET i == MoonAt(n) IN Label(i) \o <<n - Moons[i] + 1>>
LunarExists(y, m, d) == LET i == FindMonth(y, m) IN i # 0 /\ d \in 1..MoonLen(i)
DayOfLunar(y, m, d) == Moons[FindMonth(y, m)] + d - 1
\* days that share with day n all but one of the things an answer may rest on:
\* the same day of the leap month's ordinary namesake (or the other way round),
\* of the same month sixty years on, and of the same day pillar
Kin(n) ==
    LET l == LunarOf(n)
        days == {IF LunarExists(x[1], x[2], l[3]) THEN DayOfLunar(x[1], x[2], l[3]) ELSE n : x \in {<<l[1], -l[2]>>, <<IF l[1] < 9930 THEN l[1] + 60 ELSE l[1] - 60, l[2]>>}}
    IN (days \cup {n + 60}) \ {n}

\* the lunar calendar as a machine: the day after <<y, m, d>>, given the
\* month's place i in the sequence of new moons
LunarSucc(i, d) == IF d < MoonLen(i) THEN <<i, d + 1>> ELSE <<i + 1, 1>>

\* ----------------------------------------------------------- solar terms
\* index into TermN / TermS of number i (0..30) of the table of year y
TermIx(y, i) == 24 * (y - 1) + i + 1
TermNo(k) == (k - 1) % 24                    \* 0 Great Snow, 1 Winter Solstice, ...
IsJie(k) == (k - 1) % 2 = 0                  \* section term; otherwise principal
TermLe(k, n, s) == TermN[k] < n \/ (TermN[k] = n /\ TermS[k] <= s)
TermGuess(n) == LET y == DateOf(n)[1]
                IN TermIx(y, 1) + (DayOfYear(n) * 24) \div 366
\* the latest term not after the moment
TermAt(n, s) == CHOOSE k \in (TermGuess(n) - 3)..(TermGuess(n) + 4) :
                    /\ k >= 1
                    /\ TermLe(k, n, s)
                    /\ ~TermLe(k + 1, n, s)
=============================================================================
