----------------------------- MODULE TraceFacts -----------------------------
(* Trace validation of recorded single calls.  FactsOf(ev) is the record the *)
(* specification expects for the call ev; a trace module instantiates it.    *)
EXTENDS TraceIO
CONSTANT FactsOf(_)
VARIABLES lo, l, bad
tvars == <<lo, l, bad>>
TraceInit == lo \in ChunkStarts /\ l = lo /\ bad = {}
TraceNext == /\ bad = {}
             /\ l <= ChunkEnd(lo)
             /\ bad' = Mismatch(FactsOf(Trace[l]), Trace[l].res)
             /\ l' = l + 1
             /\ lo' = lo
TraceSpec == TraceInit /\ [][TraceNext]_tvars
TraceOk == bad = {}
TraceAccepted == TLCGet("stats").distinct = Len(Trace) + Cardinality(ChunkStarts)
=============================================================================
