---- MODULE ZoneTrace ----
EXTENDS TraceBase, Zone
====
