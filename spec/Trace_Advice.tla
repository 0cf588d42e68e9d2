---- MODULE Trace_Advice ----
(* recorded queries *)
EXTENDS AdviceApi, TraceFacts
====
