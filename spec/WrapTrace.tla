---- MODULE WrapTrace ----
EXTENDS TraceBase, Wrap
====
