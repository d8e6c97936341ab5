---- MODULE TreeMCq ----
EXTENDS TreeMC
McVs == {"a", "int:1", "None"}
McTargets == {<<1>>, <<3>>, <<4>>, <<6>>}
McCalls == {1, 3, 6}
GrTargets == {<<1>>, <<2>>, <<3>>, <<6>>}
====
