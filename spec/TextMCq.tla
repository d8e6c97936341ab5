---- MODULE TextMCq ----
EXTENDS TextMC
MCNums == {<<1>>, <<0, 2>>, <<2, 1, 0>>}
MCToks == {<<"a">>, <<"a", "b">>, <<"b", "a", "c">>}
MCSeps == {<<"-">>, <<"-", "+">>}
====
