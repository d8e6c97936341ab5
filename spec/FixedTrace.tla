---- MODULE FixedTrace ----
EXTENDS TraceBase, Fixed
====
