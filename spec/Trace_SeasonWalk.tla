-------------------------- MODULE Trace_SeasonWalk --------------------------
(* recorded walks of a date *)
EXTENDS SeasonApi, TraceWalk
=============================================================================
