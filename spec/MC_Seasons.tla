----------------------------- MODULE MC_Seasons -----------------------------
(* Days go by; the counts must advance like counters.                        *)
EXTENDS Seasons
CONSTANTS Starts, Length
VARIABLES n, end
vars == <<n, end>>
Init == \E s \in Starts : n = s /\ end = s + Length
Next == n < end /\ n' = n + 1 /\ end' = end
Spec == Init /\ [][Next]_vars
T == TermOnOrBefore(n)
\* the nines: start at the solstice, step day by day, end after nine nines
NinesStep == [][LET a == Nines(n)
                    b == Nines(n')
                IN IF TermOn(n') # 0 /\ TermNo(TermOn(n')) = SOLSTICE_W THEN b = <<1, 1>>
                   ELSE IF a = <<>> \/ a = <<9, 9>> THEN b = <<>>
                   ELSE b = IF a[2] = 9 THEN <<a[1] + 1, 1>> ELSE <<a[1], a[2] + 1>>]_vars
\* the dog days: three parts in order, each starting on a geng day, the first
\* and the last of ten days, the middle of ten or twenty
DogStep == [][LET a == Dog(n)
                  b == Dog(n')
              IN CASE b = <<>> -> a = <<>> \/ a = <<3, 10>>
                   [] b # <<>> /\ b[2] = 1 -> /\ DayPillar(n') % 10 = 6
                                            /\ CASE b[1] = 1 -> a = <<>> [] b[1] = 2 -> a = <<1, 10>> [] OTHER -> a \in {<<2, 10>>, <<2, 20>>}
                   [] OTHER -> a = <<b[1], b[2] - 1>>]_vars
\* no dog days before the solstice or long after the start of autumn
DogSeason == Dog(n) # <<>> => TermNo(T) \in {14, 15, 16, 17, 18}
DogStart == Dog(n) = <<1, 1>> => Cardinality({d \in TermN[LastTerm(SOLSTICE_S, n)]..n : DayPillar(d) % 10 = 6}) = 3
DogLast == Dog(n) = <<3, 1>> => Cardinality({d \in TermN[LastTerm(AUTUMN, n)]..n : DayPillar(d) % 10 = 6}) = 1
\* pentads: three per term, five days each, the third until the next term
PentadStep == [][LET a == PentadNo(n)
                     b == PentadNo(n')
                 IN IF TermOn(n') # 0 THEN b % 3 = 0 /\ (b - a) % 72 = 1
                    ELSE b \in {a, a + 1} /\ b \div 3 = a \div 3]_vars
PentadFive == TermOn(n) # 0 => {Pentad(n + i) : i \in 0..4} = {0} /\ {Pentad(n + i) : i \in 5..9} = {1} /\ {Pentad(n + i) : i \in 10..13} = {2}
\* the six-day cycle steps by one within a month
SixStep == [][LET a == LunarOf(n)
                  b == LunarOf(n')
              IN IF a[2] = b[2] THEN SixDay(b[2], b[3]) = (SixDay(a[2], a[3]) + 1) % 6 ELSE SixDay(b[2], b[3]) = (Abs(b[2]) - 1) % 6]_vars
=============================================================================
