------------------------------- MODULE Search -------------------------------
(* Finding the two-hour periods that carry four given pillars (C11).         *)
(* A period is <<n, w>>: w = 0 the early rat hour 00:00-00:59, 1..11 the two- *)
(* hour periods, 12 the late rat hour 23:00-23:59.                            *)
EXTENDS Pillars

PeriodFrom(w) == IF w = 0 THEN 0 ELSE (2 * w - 1) * 3600
PeriodTo(w) == IF w = 12 THEN DAY - 1 ELSE (2 * w + 1) * 3600 - 1
PeriodOfSecond(s) == ((s \div 3600) + 1) \div 2
\* under convention 1 the late rat hour is the beginning of the next day
PeriodId(sect, n, w) == IF sect = 1 /\ w = 12 THEN <<n + 1, 0>> ELSE <<n, w>>
DayOf(sect, n, w) == IF sect = 1 /\ w = 12 THEN DayPillar(n + 1) ELSE DayPillar(n)

\* the section term that opens month pillar m in the year of pillar y that
\* begins in calendar year yy; 0 when the month does not belong to the year
Opens(yy, m) == LET k == TermIx(yy, 4 + 2 * (((m % 12) - 2) % 12)) IN IF MonthPillar(k) = m THEN k ELSE 0
\* does the period, less g seconds at its borders, overlap the month opened by k?
Overlaps(k, n, w, g) ==
    /\ LET a == MAdd(n, PeriodTo(w), -g) IN TermLe(k, a[1], a[2])
    /\ LET b == MAdd(n, PeriodFrom(w), g) IN ~TermLe(k + 2, b[1], b[2])
YearsOf(y, from, to) == {yy \in from..to : YearPillar(yy) = y}
MatchesIn(yy, p, sect, g) ==
    LET k == Opens(yy, p[2])
    IN IF k = 0 THEN {}
       ELSE {x \in (TermN[k]..TermN[k + 2]) \X {w \in 0..12 : w % 12 = p[4] % 12} :
                /\ DayOf(sect, x[1], x[2]) = p[3]
                /\ HourPillar(x[1], PeriodFrom(x[2])) = p[4]
                /\ Overlaps(k, x[1], x[2], g)}
\* all periods from the base year to the end of the year `now'
Matches(p, sect, base, now, g) ==
    LET all == UNION {MatchesIn(yy, p, sect, g) : yy \in YearsOf(p[1], base - 1, now)}
    IN {x \in all : DateOf(x[1])[1] >= base /\ DateOf(x[1])[1] <= now}
\* the pillars of a moment (an instant within two seconds before a term is
\* taken for the release's instant of that term)
InForce(n, s) == LET k == TermAt(n, s) IN IF NearTerm(<<n, s>>, k + 1) THEN k + 1 ELSE k
FourAt(n, s, sect) == LET kk == InForce(n, s)
                      IN <<YearPillar(SpringYear(kk)), MonthPillar(kk), IF sect = 1 THEN DayEarly(n, s) ELSE DayPillar(n), HourPillar(n, s)>>
=============================================================================
