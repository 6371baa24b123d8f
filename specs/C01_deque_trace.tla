---- MODULE C01_deque_trace ----
EXTENDS WorkDeque, TraceDriver
====
