---------------------------- MODULE Trace_Pillar ----------------------------
(* recorded pillar queries *)
EXTENDS PillarApi, TraceFacts
=============================================================================
