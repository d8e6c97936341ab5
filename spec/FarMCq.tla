---- MODULE FarMCq ----
EXTENDS FarMC
St == {0, 1, 3}
StE == {0, 3}
Sp == {1, 2, -1, -3}
Ln == {0, 1, 2, 3, 4}
LnE == {0, 1, 2, 3}
Ag == {0, 1, 4, -1, -3}
Kk == {1, 2, -1, -2}
F1 == {"get"}
F2 == {"index"}
F3 == {"eq"}
====
