------------------------------- MODULE Stars -------------------------------
(* The nine stars, numbered 0..8 (C18).                                      *)
EXTENDS Pillars

\* the star of year y goes back by one each year; year 1 has the first
YearStar(y) == (1 - y) % 9
\* the yin month of a rat, horse, rabbit or rooster year has the eighth star
MonthStar(yz, mz) == LET first == <<7, 4, 1>>[(yz % 3) + 1]
                     IN (first - ((mz - 2) % 12)) % 9

\* ---------------------------------------------------- the star of a day
\* the turning day of a solstice is the jiazi day nearest to it (the later one
\* when two are equally near)
Nearest(n) == LET i == DayPillar(n) IN IF i >= 30 THEN n + 60 - i ELSE n - i
Turn(j) == Nearest(TermN[j])                       \* j: the term index of a solstice
IsSolstice(j) == TermNo(j) \in {1, 13}
\* the solstice whose run day n belongs to
RunOf(n) == LET k == TermOnOrBefore(n)
                j == k - ((TermNo(k) - 1) % 12)
            IN IF j + 12 <= Len(TermN) /\ Turn(j + 12) <= n THEN j + 12 ELSE IF Turn(j) <= n THEN j ELSE j - 12
DayStar(n) == LET j == RunOf(n)
                  d == n - Turn(j)
              IN IF TermNo(j) = 1 THEN d % 9 ELSE (8 - d) % 9

\* --------------------------------------------------- the star of an hour
Rising(n) == (TermNo(TermOnOrBefore(n)) - 1) % 24 < 12       \* from Winter to Summer Solstice
HourStart(n) == LET c == (DayPillar(n) % 12) % 3
                IN IF Rising(n) THEN <<0, 3, 6>>[c + 1] ELSE <<8, 5, 2>>[c + 1]
HourStar(n, z) == IF Rising(n) THEN (HourStart(n) + z) % 9 ELSE (HourStart(n) - z) % 9

\* -------------------------------------------- what a star carries with it
StarRec(i) ==
    LET N == Names.ninestar
        x(t) == t[i + 1]
        gate == IF x(N.BA_MEN_QI_MEN) = "" THEN "" ELSE " " \o x(N.BA_MEN_QI_MEN) \o "门"
    IN [index |-> i, number |-> x(N.NUMBER), color |-> x(N.COLOR), wuxing |-> x(N.WU_XING), position |-> x(N.POSITION), posdesc |-> Names.desc[x(N.POSITION)],
        beidou |-> x(N.NAME_BEI_DOU), xuankong |-> x(N.NAME_XUAN_KONG), qimen |-> x(N.NAME_QI_MEN), taiyi |-> x(N.NAME_TAI_YI),
        luckqimen |-> x(N.LUCK_QI_MEN), luckxuankong |-> x(N.LUCK_XUAN_KONG), yinyang |-> x(N.YIN_YANG_QI_MEN), typetaiyi |-> x(N.TYPE_TAI_YI),
        bamen |-> x(N.BA_MEN_QI_MEN), song |-> x(N.SONG_TAI_YI),
        text |-> x(N.NUMBER) \o x(N.COLOR) \o x(N.WU_XING) \o x(N.NAME_BEI_DOU),
        full |-> x(N.NUMBER) \o x(N.COLOR) \o x(N.WU_XING) \o " " \o x(N.POSITION) \o "(" \o Names.desc[x(N.POSITION)] \o ") " \o x(N.NAME_BEI_DOU)
                 \o " 玄空[" \o x(N.NAME_XUAN_KONG) \o " " \o x(N.LUCK_XUAN_KONG) \o "] 奇门[" \o x(N.NAME_QI_MEN) \o " " \o x(N.LUCK_QI_MEN) \o gate
                 \o " " \o x(N.YIN_YANG_QI_MEN) \o "] 太乙[" \o x(N.NAME_TAI_YI) \o " " \o x(N.TYPE_TAI_YI) \o "]"]
=============================================================================
