---- MODULE DeprecTrace ----
EXTENDS TraceBase, Deprec
====
