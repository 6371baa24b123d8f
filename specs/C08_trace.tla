---- MODULE C08_trace ----
EXTENDS Reclaim, TraceDriver
====
