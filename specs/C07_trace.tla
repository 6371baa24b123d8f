---- MODULE C07_trace ----
EXTENDS LifoStack, TraceDriver
====
