---- MODULE Trace_PrintWalk ----
(* recorded walks of a date *)
EXTENDS PrintApi, TraceWalk
====
