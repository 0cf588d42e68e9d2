-------------------------- MODULE Trace_StarWalk --------------------------
(* recorded walks of a date *)
EXTENDS StarApi, TraceWalk
=============================================================================
