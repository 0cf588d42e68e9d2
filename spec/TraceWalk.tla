----------------------------- MODULE TraceWalk -----------------------------
(* Trace validation of recorded walks: the specification keeps the state of  *)
(* the walk; every event must return what that state demands.  Each chunk    *)
(* starts from the initial state.                                            *)
EXTENDS TraceIO
CONSTANTS InitialState, ExpectOf(_, _), ApplyTo(_, _)
VARIABLES lo, l, st, bad
tvars == <<lo, l, st, bad>>
TraceInit == lo \in ChunkStarts /\ l = lo /\ st = InitialState /\ bad = {}
TraceNext == /\ bad = {}
             /\ l <= ChunkEnd(lo)
             /\ LET ev == Trace[l]
                IN /\ bad' = Mismatch(ExpectOf(st, ev), ev.res)
                   /\ st' = ApplyTo(st, ev)
             /\ l' = l + 1
             /\ lo' = lo
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceOk == bad = {}
TraceAccepted == TLCGet("stats").distinct = Len(Trace) + Cardinality(ChunkStarts)
=============================================================================
