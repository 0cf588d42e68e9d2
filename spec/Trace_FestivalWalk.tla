---- MODULE Trace_FestivalWalk ----
(* recorded walks of a date *)
EXTENDS FestivalApi, TraceWalk
====
