---- MODULE TextTrace ----
EXTENDS TraceBase, Text
====
