----------------------------- MODULE SearchApi -----------------------------
(* What the search by eight characters must return (C11).  ev.four are the    *)
(* pillar numbers asked for; the results are moments <<n, s>>.                *)
EXTENDS Search
GUARD == 3
After(a, b) == b[1] > a[1] \/ (b[1] = a[1] /\ b[2] > a[2])
SearchFacts(ev) ==
    LET found == ev.res.found
        ids == {PeriodId(ev.sect, found[i][1], PeriodOfSecond(found[i][2])) : i \in 1..Len(found)}
        must == {PeriodId(ev.sect, x[1], x[2]) : x \in Matches(ev.four, ev.sect, ev.base, ev.now, GUARD)}
        sound == {i \in 1..Len(found) : FourAt(found[i][1], found[i][2], ev.sect) = ev.four /\ DateOf(found[i][1])[1] >= ev.base}
    IN [found |-> found,
        wrong |-> (1..Len(found)) \ sound,
        missing |-> must \ ids,
        ordered |-> \A i \in 1..(Len(found) - 1) : After(found[i], found[i + 1])]
\* a record is right when nothing is wrong or missing
Facts(ev) == LET f == SearchFacts(ev)
             IN [found |-> f.found, ok |-> f.wrong = {} /\ f.missing = {} /\ f.ordered]
\* pillar names that are not of the sixty, or break a stem rule, find nothing
=============================================================================
