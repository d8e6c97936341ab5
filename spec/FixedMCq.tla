---- MODULE FixedMCq ----
EXTENDS FixedMC
MCVals == {"a", "b"}
====
