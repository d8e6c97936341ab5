---- MODULE ProfileTrace ----
EXTENDS TraceBase, Profile
====
