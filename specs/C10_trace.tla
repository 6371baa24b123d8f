---- MODULE C10_trace ----
EXTENDS Malloc, TraceDriver
====
