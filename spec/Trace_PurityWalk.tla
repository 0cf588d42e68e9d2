-------------------------- MODULE Trace_PurityWalk --------------------------
(* recorded sessions over many objects *)
EXTENDS Purity, TraceWalk
=============================================================================
