------ MODULE Trace_AcceptWalk ------
(* recorded sessions of accepted and refused constructions *)
EXTENDS AcceptApi, TraceWalk
=============
