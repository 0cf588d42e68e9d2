------------------------------ MODULE MC_Terms ------------------------------
(* A clock that jumps forward and backward over the terms; k follows by      *)
(* counting crossings, and must always be what the queries say.              *)
EXTENDS Terms
CONSTANTS Ks, Span                  \* the terms to start from; how many to pass
VARIABLES k0, k, n, s
vars == <<k0, k, n, s>>
Init == k0 \in Ks /\ k = k0 /\ n = TermN[k0] /\ s = TermS[k0]
\* one second before the next term; exactly at it; some days later
ToBefore == /\ ~(n = MAdd(TermN[k + 1], TermS[k + 1], -1)[1] /\ s = MAdd(TermN[k + 1], TermS[k + 1], -1)[2])
            /\ LET t == MAdd(TermN[k + 1], TermS[k + 1], -1) IN n' = t[1] /\ s' = t[2]
            /\ k' = k
ToTerm == n' = TermN[k + 1] /\ s' = TermS[k + 1] /\ k' = k + 1
Midnight == /\ ~(TermN[k + 1] = n + 1) /\ ~(TermN[k + 1] = n)
            /\ n' = n + 1 /\ s' = 0 /\ k' = k
Next == k < k0 + Span /\ k0' = k0 /\ (ToBefore \/ ToTerm \/ Midnight)
Spec == Init /\ [][Next]_vars
Counted == TermAt(n, s) = k
Latest == TermLe(k, n, s) /\ ~TermLe(k + 1, n, s)
Spacing == TermN[k + 1] - TermN[k] \in 14..17
Cyclic == TermNo(k + 1) = (TermNo(k) + 1) % 24
KindsAlternate == IsJie(k) # IsJie(k + 1)
NearestPrev == \A kind \in {"all", "jie", "qi"} :
    LET p == PrevOf(kind, k)
        q == NextOf(kind, k)
        has(j) == kind = "all" \/ (kind = "jie") = IsJie(j)
    IN /\ has(p) /\ has(q) /\ p <= k /\ q > k
       /\ \A j \in (p + 1)..(q - 1) : ~has(j)
DayView == /\ TermN[TermOnOrBefore(n)] <= n /\ TermN[TermOnOrBefore(n) + 1] > n
           /\ (TermOn(n) # 0) = (\E j \in (k - 1)..(k + 2) : TermN[j] = n)
\* the principal terms used for naming months are these terms' days in modern times
=============================================================================
