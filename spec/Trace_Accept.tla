------ MODULE Trace_Accept ------
(* recorded constructions *)
EXTENDS AcceptApi, TraceFacts
=============
