---------------------------- MODULE Trace_Attr ----------------------------
(* recorded almanac attributes *)
EXTENDS AttrApi, TraceFacts
=============================================================================
