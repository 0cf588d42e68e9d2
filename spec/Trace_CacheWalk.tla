------ MODULE Trace_CacheWalk ------
(* recorded histories of concurrent requests *)
EXTENDS CacheApi, TraceWalk
=============
