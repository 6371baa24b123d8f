---- MODULE C05_trace ----
EXTENDS ThreadIds, TraceDriver
====
