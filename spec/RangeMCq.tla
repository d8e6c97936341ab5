---- MODULE RangeMCq ----
EXTENDS RangeMC
B == {TRUE, FALSE}
St == {0, 2, 3}
Sp == {1, 2, -1, -3}
Ln == {0, 1, 3, 6}
Ag == {0, 1, 4, -1, -3}
Kk == {0, 1, 2, -1, -2}
AgG == {0, 2, -2}
KkG == {0, 2, -1}
StG == {0, 3}
SpG == {1, -2}
LnG == {0, 1, 4}
Li == {-2}
F1 == {"get", "in"}
F2 == {"index"}
F3 == {"eq"}
FG == {"get", "in", "index", "eq"}
====
