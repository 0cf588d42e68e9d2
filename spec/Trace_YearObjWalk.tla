-------------------------- MODULE Trace_YearObjWalk --------------------------
(* recorded walks of year and month objects *)
EXTENDS YearObjApi, TraceWalk
=============================================================================
