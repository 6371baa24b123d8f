---- MODULE C01_trace ----
EXTENDS ForkJoin, TraceDriver
====
