------------------------------ MODULE CacheSim ------------------------------
(* Behaviours of the cache design, written out as schedules <<thread, action, *)
(* year>> for replay on the real code.                                        *)
EXTENDS YearCache
VARIABLE plan
Did(t, a, y) == plan' = Append(plan, <<t, a, y>>)
SimInit == Init /\ plan = <<>>
SimNext == \E t \in Threads :
             \/ Call(t) /\ Did(t, "call", want'[t])
             \/ Acquire(t) /\ Did(t, "acquire", 0)
             \/ Look(t) /\ Did(t, "look", 0)
             \/ Build(t) /\ Did(t, "build", 0)
             \/ Fail(t) /\ mine[t].parts = 0 /\ Did(t, "fail", 0)
             \/ Store(t) /\ Did(t, "store", 0)
             \/ Take(t) /\ Did(t, "take", 0)
             \/ Leave(t) /\ Did(t, "leave", 0)
SimSpec == SimInit /\ [][SimNext]_<<vars, plan>>
Printed == Finished => PrintT(<<"PLAN", ToString(plan)>>)
=============================================================================
