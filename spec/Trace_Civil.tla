---------------------------- MODULE Trace_Civil ----------------------------
(* Trace validation of recorded walks (C01, C04). Each chunk starts with a    *)
(* "reset" event.                                                            *)
EXTENDS CivilApi, TraceIO
VARIABLES lo, l, st, bad
tvars == <<lo, l, st, bad>>
TraceInit == lo \in ChunkStarts /\ l = lo /\ st = St0 /\ bad = {}
TraceNext == /\ bad = {}
             /\ l <= ChunkEnd(lo)
             /\ LET ev == Trace[l]
                IN /\ bad' = Mismatch(Expect(st, ev), ev.res)
                   /\ st' = Apply(st, ev)
             /\ l' = l + 1
             /\ lo' = lo
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceOk == bad = {}
TraceAccepted == TLCGet("stats").distinct = Len(Trace) + Cardinality(ChunkStarts)
=============================================================================
