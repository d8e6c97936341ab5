---- MODULE ZoneMCq ----
EXTENDS ZoneMC
St == {2, 5, 8, 9, 11}
Sp == {1, -2}
Ln == {0, 1, 4}
Lk == 1..11
So == 0..12
F1 == {"in", "index"}
StE == {2, 3, 5, 6, 7, 9}
SpE == {1, 2, -1}
LnE == {0, 1, 2, 4}
F3 == {"eq"}
LkG == {3, 5, 6, 10}
StG == {3, 8}
SpG == {1, -2}
LnG == {0, 1, 5}
SoG == {2, 6}
Li == {-2, 1}
FG == {"in", "index", "eq"}
====
