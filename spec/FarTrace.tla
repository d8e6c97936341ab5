---- MODULE FarTrace ----
EXTENDS TraceBase, Far
====
