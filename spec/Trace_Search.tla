---------------------------- MODULE Trace_Search ----------------------------
(* recorded searches *)
EXTENDS SearchApi, TraceFacts
=============================================================================
