---------------------------- MODULE Trace_TermWalk ----------------------------
(* recorded solar-term queries *)
EXTENDS TermApi, TraceWalk
=============================================================================
