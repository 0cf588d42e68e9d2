----------------------------- MODULE MC_Accept -----------------------------
(* A session of accepted and refused constructions over a few years, with the *)
(* library's one-entry year cache and its lock made explicit: a refusal may   *)
(* fill the cache but must release the lock, and what is shown of the held    *)
(* dates depends on the accepted calls only.                                  *)
EXTENDS AcceptApi
CONSTANTS Years, MaxCalls
VARIABLES held, ghost, cache, lock, calls
vars == <<held, ghost, cache, lock, calls>>
Fields == {<<y, m, d, h, 0, 0>> : y \in Years, m \in {0 - 4, 0, 1, 4, 12, 13}, d \in {0, 1, 29, 30, 31}, h \in {0, 23, 24}}
Init == held = <<>> /\ ghost = <<>> /\ cache = 0 /\ lock = "free" /\ calls = 0
\* asking for the year takes the lock, fills the cache, and always gives the lock back
Try == \E f \in Fields :
         /\ calls < MaxCalls /\ lock = "free"
         /\ calls' = calls + 1
         /\ cache' = f[1]
         /\ lock' = "free"
         /\ IF Accepts("lunar", f)
            THEN held' = [i \in 1..1 |-> Seen("lunar", f)] /\ ghost' = [i \in 1..1 |-> f]
            ELSE UNCHANGED <<held, ghost>>
Next == Try
Spec == Init /\ [][Next]_vars
Unlocked == lock = "free"
HeldIsAccepted == Len(held) = Len(ghost) /\ \A i \in 1..Len(ghost) : held[i] = Seen("lunar", ghost[i]) /\ LunarExists(ghost[i][1], ghost[i][2], ghost[i][3])
\* accepted dates are exactly the days between the first and last day of a month
Exactly == \A y \in Years, m \in 0 - 12..13 : Cardinality({d \in 0..32 : LunarExists(y, m, d)}) = (IF FindMonth(y, m) = 0 THEN 0 ELSE MoonLen(FindMonth(y, m)))
=============================================================================
