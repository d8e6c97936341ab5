---- MODULE StreamTrace ----
EXTENDS TraceBase, Stream
====
