---- MODULE StreamMCq ----
EXTENDS StreamMC
MCVals == {"a", "b"}
====
