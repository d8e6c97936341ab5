---- MODULE GroupTrace ----
EXTENDS TraceBase, Group
====
