---------------------------- MODULE Trace_PillarWalk ----------------------------
(* recorded pillar queries *)
EXTENDS PillarApi, TraceWalk
=============================================================================
