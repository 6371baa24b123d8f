---- MODULE C03_sleep_trace ----
EXTENDS SleepWake, TraceDriver
====
