---------------------------- MODULE Trace_AttrWalk ----------------------------
(* recorded pillar queries *)
EXTENDS AttrApi, TraceWalk
=============================================================================
