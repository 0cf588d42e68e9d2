---------------------------- MODULE Trace_Term ----------------------------
(* recorded solar-term queries *)
EXTENDS TermApi, TraceFacts
=============================================================================
