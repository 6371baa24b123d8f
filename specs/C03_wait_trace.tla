---- MODULE C03_wait_trace ----
EXTENDS AtomicWait, TraceDriver
====
