---- MODULE DistTrace ----
EXTENDS TraceBase, Dist
====
