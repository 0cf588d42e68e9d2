------------------------------ MODULE Seasons ------------------------------
(* Seasonal counts of days (C17): the nine nines of winter, the dog days, the *)
(* pentads of a term, and the counts of the lunar month.                      *)
EXTENDS Pillars

SOLSTICE_W == 1
SOLSTICE_S == 13
AUTUMN == 16
\* the latest term with number no on or before day n (0 or less: none known)
LastTerm(no, n) == LET k == TermOnOrBefore(n) IN k - ((TermNo(k) - no) % 24)
\* the first day on or after n whose stem is geng
Geng(n) == n + ((6 - DayPillar(n)) % 10)

\* <<which nine, which day of it>>, <<>> outside
Nines(n) == LET d == n - TermN[LastTerm(SOLSTICE_W, n)]
            IN IF d < 81 THEN <<d \div 9 + 1, (d % 9) + 1>> ELSE <<>>
\* <<"first" 1 | "middle" 2 | "last" 3, day of it>>
Dog(n) == LET j == LastTerm(SOLSTICE_S, n)
          IN IF j < 1 THEN <<>>
             ELSE LET g == Geng(TermN[j]) + 20                \* the third geng day
                      e == Geng(TermN[j + 3])                 \* the first geng day of autumn
                  IN CASE n < g -> <<>>
                       [] g <= n /\ n < g + 10 -> <<1, n - g + 1>>
                       [] g + 10 <= n /\ n < e -> <<2, n - g - 9>>
                       [] e <= n /\ n < e + 10 -> <<3, n - e + 1>>
                       [] OTHER -> <<>>
\* pentad 0..2 of the term in force
Pentad(n) == LET d == (n - TermN[TermOnOrBefore(n)]) \div 5 IN IF d > 2 THEN 2 ELSE d
PentadNo(n) == (((TermNo(TermOnOrBefore(n)) - 1) % 24) * 3 + Pentad(n)) % 72
Abs(m) == IF m < 0 THEN -m ELSE m
SixDay(m, d) == (Abs(m) + d - 2) % 6
=============================================================================
