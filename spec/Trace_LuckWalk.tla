---------------------------- MODULE Trace_LuckWalk ----------------------------
(* recorded fortune cycles *)
EXTENDS LuckApi, TraceWalk
=============================================================================
