---------------------------- MODULE Trace_Lunar ----------------------------
(* recorded conversions and year tables *)
EXTENDS LunarApi, TraceFacts
=============================================================================
