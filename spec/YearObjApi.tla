---------------------------- MODULE YearObjApi ----------------------------
(* What lunar year and lunar month objects report about themselves (C25).    *)
EXTENDS Stars, Attrs

Dirs(g) == <<Both(Xi(g)), Both(YangGui(g)), Both(YinGui(g)), Both(Fu(g, 2)), Both(Fu(g, 1)), Both(Fu(g, 2)), Both(Cai(g))>>

\* the omens: on which day of the new year the first day with that stem or
\* branch falls
FirstStem(y, g) == ((g - DayPillar(Moons[FindMonth(y, 1)])) % 10) + 1
FirstBranch(y, z) == ((z - DayPillar(Moons[FindMonth(y, 1)])) % 12) + 1
Count(i) == Names.number[i + 1]
Omens(y) ==
    LET g(i) == Count(FirstStem(y, i))
        z(i) == Count(FirstBranch(y, i))
    IN <<z(0) \o "鼠偷粮", "草子" \o z(0) \o "分", z(1) \o "牛耕田", "花收" \o z(3) \o "分", z(4) \o "龙治水", z(6) \o "马驮谷",
         z(9) \o "鸡抢米", z(9) \o "姑看蚕", z(11) \o "屠共猪", "甲田" \o g(0) \o "分", g(2) \o "人分饼", g(7) \o "日得金",
         z(2) \o "人" \o g(2) \o "丙", z(2) \o "人" \o g(3) \o "锄">>
\* three ages of sixty years and nine periods of twenty, the upper age of the
\* first period beginning in 1864
Age(y) == <<"上", "中", "下">>[(((y - 1864) \div 60) % 3) + 1] \o "元"
Period(y) == <<"一", "二", "三", "四", "五", "六", "七", "八", "九">>[(((y - 1864) \div 20) % 9) + 1] \o "运"

YearFacts(y) ==
    LET p == YearPillar(y)
    IN [year |-> y, pillar |-> PillarName(p), gan |-> GanName(Stem(p)), zhi |-> ZhiName(Branch(p)), gi |-> Stem(p), zi |-> Branch(p),
        dirs |-> Dirs(Stem(p)), duke |-> Both(DukeYear(Branch(p))), star |-> YearStar(y), age |-> Age(y), period |-> Period(y),
        omens |-> Omens(y), text |-> ToString(y), full |-> ToString(y) \o "年"]

\* month i (1, 2, ...) of year y in order
PlacePillar(y, i) == Pillar(TigerStem(YearPillar(y), i), (i + 1) % 12)
MonthFacts(i) ==
    LET l == Label(i)
        p == PlacePillar(l[1], i - FirstMoon(l[1]) + 1)
        m == IF l[2] < 0 THEN -l[2] ELSE l[2]
        mz == (m + 1) % 12
        k == TermOnOrBefore(Moons[i])
    IN [label |-> l, pillar |-> PillarName(p), gan |-> GanName(Stem(p)), zhi |-> ZhiName(Branch(p)), gi |-> Stem(p), zi |-> Branch(p),
        dirs |-> Dirs(Stem(p)), duke |-> Both(DukeMonth(Stem(MonthPillar(k)), mz)), star |-> MonthStar(YearPillar(l[1]) % 12, mz),
        text |-> ToString(l[1]) \o "年" \o (IF l[2] < 0 THEN "闰" ELSE "") \o Names.month[m + 1] \o "月(" \o ToString(MoonLen(i)) \o "天)"]

\* A year object and a month object in hand; other years may be used between
\* questions ("touch").
W0 == [y |-> 0, i |-> 0]
WApply(st, ev) == CASE ev.op = "year" -> [st EXCEPT !.y = ev.y]
                    [] ev.op = "nextyear" -> [st EXCEPT !.y = st.y + ev.k]
                    [] ev.op = "month" -> [st EXCEPT !.i = FindMonth(ev.y, ev.m)]
                    [] ev.op = "nextmonth" -> [st EXCEPT !.i = st.i + ev.k]
                    [] OTHER -> st
WExpect(st, ev) == LET t == WApply(st, ev)
                   IN CASE ev.op \in {"year", "nextyear", "askyear"} -> YearFacts(t.y)
                        [] ev.op \in {"month", "nextmonth", "askmonth"} -> MonthFacts(t.i)
                        [] OTHER -> [ok |-> TRUE]
Facts(ev) == CASE ev.op = "lyear" -> YearFacts(ev.y)
               [] ev.op = "lmonth" -> MonthFacts(FindMonth(ev.y, ev.m))
=============================================================================
