---------------------------- MODULE MC_Festivals ----------------------------
(* Days go by; the festivals each year must bring, once each.  seen holds the *)
(* names met in the civil year so far, lseen those of the lunar year.         *)
EXTENDS Festivals
CONSTANTS Starts, Length
VARIABLES n, end, seen, lseen, twice
vars == <<n, end, seen, lseen, twice>>
Elems(q) == {q[i] : i \in 1..Len(q)}
Civ(d) == Elems(SolarFestivals(d)) \cup (Elems(LunarOther(d)) \cap {"寒食节", "春社", "秋社"})
Lun(d) == Elems(LunarFestivals(d))
Init == \E s \in Starts : n = s /\ end = s + Length /\ seen = Civ(s) /\ lseen = {} /\ twice = FALSE
Next == /\ n < end
        /\ n' = n + 1
        /\ end' = end
        /\ LET ny == DateOf(n + 1)[2] = 1 /\ DateOf(n + 1)[3] = 1
               nl == LunarOf(n + 1)[1] # LunarOf(n)[1]
               c == Civ(n + 1)
               l == Lun(n + 1)
               old == IF ny THEN {} ELSE seen
               lold == IF nl THEN {} ELSE lseen
           IN /\ seen' = old \cup c
              /\ lseen' = lold \cup l
              /\ twice' = (twice \/ old \cap c # {} \/ lold \cap l # {})
Spec == Init /\ [][Next]_vars
\* no festival twice in a year
Once == ~twice
\* at the end of a whole civil year all have been seen; Starts are 1 January
AllSeen == (DateOf(n)[2] = 12 /\ DateOf(n)[3] = 31) =>
              seen = {Names.sfestival[k] : k \in DOMAIN Names.sfestival} \cup {Names.sweek[k] : k \in DOMAIN Names.sweek} \cup {"寒食节", "春社", "秋社"}
LunarSeen == (LastDayOfLunarYear(n) /\ n - 300 > end - Length) =>
              /\ "除夕" \in lseen
              /\ FirstMoon(LunarOf(n)[1]) < MoonAt(end - Length) \/ lseen = {Names.festival[k] : k \in DOMAIN Names.festival} \cup {"除夕"}
\* weekday rules
WeekRule == LET d == DateOf(n) IN
    /\ "母亲节" \in Elems(SolarFestivals(n)) <=> d[2] = 5 /\ Weekday(n) = 0 /\ d[3] \in 8..14
    /\ "感恩节" \in Elems(SolarFestivals(n)) <=> d[2] = 11 /\ Weekday(n) = 4 /\ d[3] \in 22..28
    /\ "全国中小学生安全教育日" \in Elems(SolarFestivals(n)) <=> d[2] = 3 /\ Weekday(n) = 1 /\ d[3] \in 25..31
\* the community days are the fifth wu day counted from the term's own day
FifthIs == \A no \in {SPRING, AUTUMN_START} :
    SheDay(no, n) => Cardinality({d \in TermN[LastTerm(no, n)]..n : DayPillar(d) % 10 = 4}) = 5 /\ DayPillar(n) % 10 = 4
\* signs follow one another and turn on their fixed dates only
SignStep == [][LET a == ZodiacSign(n)
                   b == ZodiacSign(n')
                   d == DateOf(n')
               IN b = IF \E i \in 1..12 : Signs[i] = <<d[2], d[3]>> THEN (a + 1) % 12 ELSE a]_vars
\* New Year's Eve is the day before the lunar new year
EveStep == [][("除夕" \in Lun(n)) <=> (LunarOf(n')[2] = 1 /\ LunarOf(n')[3] = 1)]_vars
=============================================================================
