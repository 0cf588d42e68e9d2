---- MODULE Trace_Holiday ----
EXTENDS HolidayApi, TraceFacts
====
