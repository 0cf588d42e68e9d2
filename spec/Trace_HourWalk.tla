-------------------------- MODULE Trace_HourWalk --------------------------
(* recorded walks of a date *)
EXTENDS HourApi, TraceWalk
=============================================================================
