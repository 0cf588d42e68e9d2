---------------------------- MODULE Trace_Star ----------------------------
(* recorded queries *)
EXTENDS StarApi, TraceFacts
=============================================================================
