---- MODULE MemoMCq ----
EXTENDS MemoMC
MCSeeds == {"1", "2"}
MCSeedsT == {"1", "-1", "2"}
MCSets == {"A", "B"}
MCToks == {"one"}
MCOuts == {"x", "ValueError"}
MCSetsT == {"A", "B"}
MCToksT == {"one", "many:2"}
====
