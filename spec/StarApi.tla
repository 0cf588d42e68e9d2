------------------------------ MODULE StarApi ------------------------------
(* What the nine-star queries must return (C18).                             *)
EXTENDS DateMachine, Stars
StarFacts(n, s) ==
    LET kd == TermOnOrBefore(n)
        kk == TermAt(n, s)
        ny == LunarOf(n)[1]
        P == PillarsAt(n, s, kk, kd)
        z(i) == P[i] % 12
        y1 == YearStar(ny)
        y2 == YearStar(SpringYear(kd))
        y3 == YearStar(SpringYear(kk))
        m1 == MonthStar(z(1), z(4))
        m2 == MonthStar(z(2), z(4))
        m3 == MonthStar(z(3), z(5))
        h == HourStar(n, z(9))
    IN [year |-> <<y2, y1, y2, y3>>, month |-> <<m2, m1, m2, m3>>, day |-> StarRec(DayStar(n)), hour |-> h, hourobject |-> h, lunaryear |-> y1]
W0 == D0
WApply(st, ev) == DApply(st, ev)
WExpect(st, ev) == LET t == DApply(st, ev) IN StarFacts(t.n, t.s)
Facts(ev) == CASE ev.op = "star" -> StarFacts(ev.n, ev.s)
               [] ev.op = "nine" -> StarRec(ev.i)
               [] ev.op = "yearstar" -> [star |-> YearStar(ev.y)]
               [] ev.op = "monthstar" -> [star |-> MonthStar((ev.y - 4) % 12, ((IF ev.m < 0 THEN -ev.m ELSE ev.m) + 1) % 12)]
=============================================================================
