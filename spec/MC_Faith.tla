------------------------------ MODULE MC_Faith ------------------------------
(* Days go by; the observances of each month, season and cycle are counted.  *)
(* six, ten: fast days so far in the lunar month; wu: days since an open wu;  *)
(* nodes: eight-node days so far in the civil year; am: amnesty days since    *)
(* the last spring began.                                                    *)
EXTENDS Faith
CONSTANTS Starts, Length
VARIABLES n, end, six, ten, wu, nodes, whole
vars == <<n, end, six, ten, wu, nodes, whole>>
B(x) == IF x THEN 1 ELSE 0
L(d) == LunarOf(d)
SixOn(d) == B(Six(L(d)[3], MoonLen(MoonAt(d))))
Init == \E s \in Starts : n = s /\ end = s + Length /\ six = 0 /\ ten = 0 /\ wu = 99 /\ nodes = B(EightNode(s)) /\ whole = FALSE
Next == /\ n < end
        /\ n' = n + 1
        /\ end' = end
        /\ LET new == L(n + 1)[3] = 1
               ny == DateOf(n + 1)[2] = 1 /\ DateOf(n + 1)[3] = 1
           IN /\ six' = (IF new THEN 0 ELSE six) + SixOn(n + 1)
              /\ ten' = (IF new THEN 0 ELSE ten) + B(Ten(L(n + 1)[3]))
              /\ whole' = (whole \/ new)
              /\ wu' = IF OpenWu(n + 1) THEN 0 ELSE IF wu = 99 THEN 99 ELSE wu + 1
              /\ nodes' = (IF ny THEN 0 ELSE nodes) + B(EightNode(n + 1))
Spec == Init /\ [][Next]_vars
LastOfMonth == MoonAt(n + 1) # MoonAt(n)
Fasts == (whole /\ LastOfMonth) => six = 6 /\ ten = MoonLen(MoonAt(n)) - 20
WuTen == wu \in 0..9 \/ wu = 99
WuStep == [][wu # 99 => (wu' = 0 <=> wu = 9)]_vars
Nodes == (DateOf(n)[2] = 12 /\ DateOf(n)[3] = 31) => nodes = 8
\* the lodge of the moon moves on by one within a month, and the full moon's
\* lodge moves on by the months
LodgeStep == [][LET a == L(n)
                    b == L(n')
                IN b[3] # 1 => LodgeIx(b[2], b[3]) = (LodgeIx(a[2], a[3]) + 1) % 27]_vars
\* a leap month shares rules and lodges with its month, but no fixed feast
LeapShares == L(n)[2] < 0 => /\ FotoFest(L(n)[2], L(n)[3]) = FotoFest(-(L(n)[2]), L(n)[3])
                             /\ LodgeIx(L(n)[2], L(n)[3]) = LodgeIx(-(L(n)[2]), L(n)[3])
                             /\ FotoOther(L(n)[2], L(n)[3]) = <<>> /\ TaoFest(L(n)[2], L(n)[3]) = <<>>
                             /\ ~MonthFast(L(n)[2]) /\ ~ThreeMeet(L(n)[2], L(n)[3]) /\ ~ThreePrime(L(n)[2], L(n)[3]) /\ ~FiveLa(L(n)[2], L(n)[3])
\* the merit day (yang-gong) falls on odd days, two days earlier each month
YangGongs == YangGong(L(n)[2], L(n)[3]) => L(n)[3] % 2 = 1
\* eight meetings: eight of every sixty days
Meet == Cardinality({d \in n..(n + 59) : EightMeet(d)}) = 8
=============================================================================
