------------------------------ MODULE MC_Stars ------------------------------
(* Two-hour periods go by; the stars of hour, day, month and year must run    *)
(* in their directions without breaks.                                        *)
EXTENDS Stars
CONSTANTS Starts, Length
VARIABLES n, z, end
vars == <<n, z, end>>
Init == \E s \in Starts : n = s /\ end = s + Length /\ z = 0
Next == /\ n < end /\ end' = end
        /\ IF z < 11 THEN z' = z + 1 /\ n' = n ELSE z' = 0 /\ n' = n + 1
Spec == Init /\ [][Next]_vars
NewDay == n' = n + 1
IsTurn(d) == LET j == RunOf(d) IN Turn(j) = d
DayStep == [][NewDay => IF IsTurn(n') THEN DayStar(n') = (IF TermNo(RunOf(n')) = 1 THEN 0 ELSE 8)
                        ELSE DayStar(n') = (IF TermNo(RunOf(n')) = 1 THEN (DayStar(n) + 1) % 9 ELSE (DayStar(n) - 1) % 9)]_vars
\* every turning day is a jiazi day within thirty days of its solstice
TurnNear == LET j == RunOf(n) IN IsSolstice(j) /\ DayPillar(Turn(j)) = 0 /\ Turn(j) - TermN[j] \in -29..30 /\ Turn(j) <= n
RunsAlternate == [][NewDay /\ RunOf(n') # RunOf(n) => RunOf(n') = RunOf(n) + 12]_vars
\* hours of a day: a run in the day's direction; from day to day the run goes
\* on, except at the solstices
HourStep == [][~NewDay => HourStar(n, z') = (IF Rising(n) THEN (HourStar(n, z) + 1) % 9 ELSE (HourStar(n, z) - 1) % 9)]_vars
HourJoin == [][NewDay /\ Rising(n) = Rising(n') => HourStar(n', 0) = (IF Rising(n) THEN (HourStar(n, 11) + 1) % 9 ELSE (HourStar(n, 11) - 1) % 9)]_vars
\* months and years by the day of the term: back by one at each section term,
\* the year at Start of Spring
M(d) == LET k == TermOnOrBefore(d) IN MonthStar(YearPillar(SpringYear(k)) % 12, MonthPillar(k) % 12)
Y(d) == YearStar(SpringYear(TermOnOrBefore(d)))
MonthStep == [][NewDay => LET k == TermOnOrBefore(n)
                              c == TermOnOrBefore(n')
                          IN M(n') = IF c # k /\ IsJie(c) THEN (M(n) - 1) % 9 ELSE M(n)]_vars
YearStep == [][NewDay => LET c == TermOnOrBefore(n')
                             k == TermOnOrBefore(n)
                         IN Y(n') = IF c # k /\ TermNo(c) = 4 THEN (Y(n) - 1) % 9 ELSE Y(n)]_vars
=============================================================================
