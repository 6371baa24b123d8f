---- MODULE C12_trace ----
EXTENDS WriteMin, TraceDriver
====
