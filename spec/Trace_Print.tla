---- MODULE Trace_Print ----
(* recorded printing *)
EXTENDS PrintApi, TraceFacts
====
