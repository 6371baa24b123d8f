---- MODULE C11_trace ----
EXTENDS HashSet, TraceDriver
====
