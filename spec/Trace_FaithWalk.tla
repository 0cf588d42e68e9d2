---- MODULE Trace_FaithWalk ----
(* recorded walks of a date *)
EXTENDS FaithApi, TraceWalk
====
