---------------------------- MODULE Trace_Chart ----------------------------
(* recorded charts *)
EXTENDS ChartApi, TraceFacts
=============================================================================
