---------------------------- MODULE Trace_Luck ----------------------------
(* recorded fortune cycles *)
EXTENDS LuckApi, TraceFacts
=============================================================================
