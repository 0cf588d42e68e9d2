------------------------------ MODULE ChartApi ------------------------------
(* What the calls on a chart must return (C10).                              *)
EXTENDS Pillars, Chart
\* the pillars of a chart under convention 1 (late evening belongs to the next
\* day) or 2
Four(n, s, kk, sect) == <<YearPillar(SpringYear(kk)), MonthPillar(kk), IF sect = 1 THEN DayEarly(n, s) ELSE DayPillar(n), HourPillar(n, s)>>

ChartFacts(p, sect) ==
    LET g == Stem(p[3])
        god(i) == IF i = 3 THEN "日主" ELSE TenGod(g, Stem(p[i]))
        each(f(_)) == <<f(p[1]), f(p[2]), f(p[3]), f(p[4])>>
        pal == <<TaiYuan(p[2]), TaiXi(p[3]), MingGong(p[1], p[2], p[4]), ShenGong(p[1], p[2], p[4])>>
        hidden(x) == Hidden(Branch(x))
        gods(x) == HiddenGods(g, Branch(x))
        stage(x) == Stage(g, Branch(x))
        gan(x) == GanName(Stem(x))
        zhi(x) == ZhiName(Branch(x))
    IN [sect |-> sect, pillars |-> each(PillarName), gan |-> each(gan), zhi |-> each(zhi),
        hide |-> each(hidden), wuxing |-> each(WuXing), nayin |-> each(NaYin),
        gods |-> [i \in 1..4 |-> god(i)], zhigods |-> each(gods), stage |-> each(stage),
        xun |-> each(Xun), void |-> each(XunKong), di |-> <<Stem(p[3]), Branch(p[3])>>,
        palaces |-> [i \in 1..4 |-> PillarName(pal[i])], palacenayin |-> [i \in 1..4 |-> NaYin(pal[i])],
        text |-> PillarName(p[1]) \o " " \o PillarName(p[2]) \o " " \o PillarName(p[3]) \o " " \o PillarName(p[4])]
\* the same through the date's own shortcuts
LunarChartFacts(p) ==
    LET c == ChartFacts(p, 2)
    IN [pillars |-> c.pillars, wuxing |-> c.wuxing, nayin |-> c.nayin, gods |-> c.gods,
        first |-> [i \in 1..4 |-> c.zhigods[i][1]], zhigods |-> c.zhigods]

\* A date in hand with the chart it hands out (whose convention can be
\* switched) and a second, separate chart of the same date.
W0 == [n |-> FIRST, s |-> 0, own |-> 2, other |-> 2]
WApply(st, ev) == CASE ev.op = "reset" -> [n |-> ev.n, s |-> ev.s, own |-> 2, other |-> 2]
                    [] ev.op = "sect" -> IF ev.which = "own" THEN [st EXCEPT !.own = ev.v] ELSE [st EXCEPT !.other = ev.v]
                    [] OTHER -> st
WExpect(st, ev) ==
    LET t == WApply(st, ev)
        four(x) == Four(t.n, t.s, TermAt(t.n, t.s), x)
    IN CASE ev.op = "reset" -> [ok |-> TRUE]
         [] ev.op = "sect" -> [ok |-> TRUE]
         [] ev.op = "own" -> ChartFacts(four(t.own), t.own)
         [] ev.op = "other" -> ChartFacts(four(t.other), t.other)
         [] ev.op = "lunar" -> LunarChartFacts(four(t.own))
         [] ev.op = "fresh" -> ChartFacts(four(2), 2)
Facts(ev) == CASE ev.op = "chart" -> ChartFacts(Four(ev.n, ev.s, TermAt(ev.n, ev.s), ev.sect), ev.sect)
               [] ev.op = "lchart" -> LunarChartFacts(Four(ev.n, ev.s, TermAt(ev.n, ev.s), ev.sect))
=============================================================================
