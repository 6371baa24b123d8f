---- MODULE C04_trace ----
EXTENDS Workers, TraceDriver
====
