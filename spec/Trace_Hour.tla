---------------------------- MODULE Trace_Hour ----------------------------
(* recorded queries *)
EXTENDS HourApi, TraceFacts
=============================================================================
