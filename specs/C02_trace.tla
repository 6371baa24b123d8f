---- MODULE C02_trace ----
EXTENDS ParLoop, TraceDriver
====
