---------------------------- MODULE Trace_ChartWalk ----------------------------
(* recorded charts *)
EXTENDS ChartApi, TraceWalk
=============================================================================
