---- MODULE Trace_AdviceWalk ----
(* recorded walks of a date *)
EXTENDS AdviceApi, TraceWalk
====
