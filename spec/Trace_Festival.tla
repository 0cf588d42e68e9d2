---- MODULE Trace_Festival ----
(* recorded queries *)
EXTENDS FestivalApi, TraceFacts
====
