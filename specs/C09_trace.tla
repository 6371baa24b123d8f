---- MODULE C09_trace ----
EXTENDS BlockAlloc, TraceDriver
====
