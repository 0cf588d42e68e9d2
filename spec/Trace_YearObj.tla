---------------------------- MODULE Trace_YearObj ----------------------------
(* recorded queries *)
EXTENDS YearObjApi, TraceFacts
=============================================================================
