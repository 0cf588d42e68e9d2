---- MODULE Trace_HolidayWalk ----
EXTENDS HolidayApi, TraceWalk
====
