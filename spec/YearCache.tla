----------------------------- MODULE YearCache -----------------------------
(* The shared one-entry cache of lunar years as a concurrent design: a        *)
(* request takes the lock, looks at the cached year, builds a new one when it *)
(* is another year's (the build may fail), publishes it, gives the lock back  *)
(* in every case, and answers.  A year under construction has parts; only the *)
(* whole may be seen.  The abstract machine each request must look like to    *)
(* its caller is a single step: ask for y, get y (or your own failure).       *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Threads, Years, Requests, Parts, ReleaseOnFailure, PublishWhole, Locked
(* the three switches describe broken designs; the checks run them to see     *)
(* TLC reject each (the model is able to fail)                                *)
VARIABLES pc, want, left, lock, cache, mine, answers
vars == <<pc, want, left, lock, cache, mine, answers>>
None == [year |-> 0, parts |-> 0]
Init == /\ pc = [t \in Threads |-> "idle"] /\ want = [t \in Threads |-> 0]
        /\ left = [t \in Threads |-> Requests] /\ lock = 0 /\ cache = None
        /\ mine = [t \in Threads |-> None] /\ answers = {}
Call(t) == /\ pc[t] = "idle" /\ left[t] > 0
           /\ \E y \in Years : want' = [want EXCEPT ![t] = y]
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ pc' = [pc EXCEPT ![t] = "wait"]
           /\ UNCHANGED <<lock, cache, mine, answers>>
Acquire(t) == /\ pc[t] = "wait" /\ (lock = 0 \/ ~Locked)
              /\ lock' = t
              /\ pc' = [pc EXCEPT ![t] = "look"]
              /\ UNCHANGED <<want, left, cache, mine, answers>>
Look(t) == /\ pc[t] = "look"
           /\ IF cache.year = want[t]
              THEN pc' = [pc EXCEPT ![t] = "take"] /\ mine' = mine
              ELSE pc' = [pc EXCEPT ![t] = "build"] /\ mine' = [mine EXCEPT ![t] = [year |-> want[t], parts |-> 0]]
           /\ UNCHANGED <<want, left, lock, cache, answers>>
Build(t) == /\ pc[t] = "build"
            /\ mine' = [mine EXCEPT ![t].parts = @ + 1]
            /\ cache' = IF PublishWhole THEN cache ELSE mine'[t]
            /\ pc' = [pc EXCEPT ![t] = IF mine[t].parts + 1 = Parts THEN "store" ELSE "build"]
            /\ UNCHANGED <<want, left, lock, answers>>
Fail(t) == /\ pc[t] = "build"
           /\ mine' = [mine EXCEPT ![t] = None]
           /\ lock' = IF ReleaseOnFailure THEN 0 ELSE lock
           /\ answers' = answers \cup {<<"raised", want[t], want[t], Parts>>}
           /\ pc' = [pc EXCEPT ![t] = "idle"]
           /\ UNCHANGED <<want, left, cache>>
Store(t) == /\ pc[t] = "store"
            /\ cache' = mine[t]
            /\ pc' = [pc EXCEPT ![t] = "leave"]
            /\ UNCHANGED <<want, left, lock, mine, answers>>
Take(t) == /\ pc[t] = "take"
           /\ mine' = [mine EXCEPT ![t] = cache]
           /\ pc' = [pc EXCEPT ![t] = "leave"]
           /\ UNCHANGED <<want, left, lock, cache, answers>>
Leave(t) == /\ pc[t] = "leave"
            /\ lock' = 0
            /\ answers' = answers \cup {<<"returned", want[t], mine[t].year, mine[t].parts>>}
            /\ mine' = [mine EXCEPT ![t] = None]
            /\ pc' = [pc EXCEPT ![t] = "idle"]
            /\ UNCHANGED <<want, left, cache>>
Step(t) == Call(t) \/ Acquire(t) \/ Look(t) \/ Build(t) \/ Fail(t) \/ Store(t) \/ Take(t) \/ Leave(t)
Finished == \A t \in Threads : pc[t] = "idle" /\ left[t] = 0
Next == (\E t \in Threads : Step(t)) \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : WF_vars(Step(t))
\* every answer is to the question asked, and whole
OwnYear == \A a \in answers : a[2] = a[3] /\ a[4] = Parts
Exclusive == Cardinality({t \in Threads : pc[t] \in {"look", "build", "store", "take", "leave"}}) <= 1
HolderKnown == lock # 0 => pc[lock] \in {"look", "build", "store", "take", "leave"}
CacheWhole == cache = None \/ cache.parts = Parts
\* every request is answered
Answered == \A t \in Threads : pc[t] = "wait" ~> pc[t] = "idle"
=============================================================================
