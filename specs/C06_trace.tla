---- MODULE C06_trace ----
EXTENDS ThreadLocal, TraceDriver
====
