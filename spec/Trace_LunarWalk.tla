-------------------------- MODULE Trace_LunarWalk --------------------------
(* recorded walks of a lunar date object *)
EXTENDS LunarApi, TraceWalk
=============================================================================
