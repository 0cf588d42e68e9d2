-------------------------- MODULE Trace_LMonthWalk -------------------------
(* recorded walks of a lunar month object *)
EXTENDS LunarApi, TraceWalk
=============================================================================
