---- MODULE RangeTrace ----
EXTENDS TraceBase, Range
====
