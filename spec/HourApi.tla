------------------------------ MODULE HourApi ------------------------------
(* What period objects and the hour queries of a date must return (C22).     *)
EXTENDS DateMachine, Attrs, Hours, Stars

\* everything the period of a moment reports; day: number, s: second of it
PeriodFacts(n, s) ==
    LET p == HourPillar(n, s)
        i == PeriodOf(s \div 60)
    IN [attr |-> Attr(p), pillar |-> PillarName(p), gan |-> GanName(Stem(p)), zhi |-> ZhiName(Branch(p)), gi |-> Stem(p), zi |-> Branch(p),
        animal |-> Animal(Branch(p)), spirit |-> SpiritFacts(Branch(p), Branch(DayEarly(n, s))), xun |-> Xun(p), void |-> XunKong(p),
        star |-> HourStar(n, Branch(p)), bounds |-> <<HM(Lower(i)), HM(Upper(i))>>, text |-> PillarName(p)]
\* what the date itself says about its hour
DateHourFacts(n, s) ==
    LET f == PeriodFacts(n, s)
    IN [attr |-> f.attr, pillar |-> f.pillar, gan |-> f.gan, zhi |-> f.zhi, gi |-> f.gi, zi |-> f.zi, animal |-> f.animal, spirit |-> f.spirit,
        xun |-> f.xun, void |-> f.void, star |-> f.star]
\* the list of the day's periods
ListFacts(n) == [count |-> 13, bounds |-> [j \in 1..13 |-> <<HM(Lower(j - 1)), HM(Upper(j - 1))>>],
                 pillars |-> [j \in 1..13 |-> PillarName(HourPillar(n, Lower(j - 1) * 60))]]
Both2(n, s) == [period |-> PeriodFacts(n, s), own |-> PeriodFacts(n, s), date |-> DateHourFacts(n, s)]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == LET t == DApply(st, ev) IN Both2(t.n, t.s)
Facts(ev) == CASE ev.op = "hour" -> Both2(ev.n, ev.s)
               [] ev.op = "list" -> ListFacts(ev.n)
               [] ev.op = "item" -> PeriodFacts(ev.n, Lower(ev.i) * 60)
               [] ev.op = "clock" -> [index |-> BranchIn(PeriodOf(ev.t)), zhi |-> ZhiName(BranchIn(PeriodOf(ev.t)))]
=============================================================================
