---- MODULE Trace_Faith ----
(* recorded queries *)
EXTENDS FaithApi, TraceFacts
====
