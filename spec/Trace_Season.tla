---------------------------- MODULE Trace_Season ----------------------------
(* recorded queries *)
EXTENDS SeasonApi, TraceFacts
=============================================================================
