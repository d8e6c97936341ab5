---- MODULE ChoiceMCq ----
EXTENDS ChoiceMC
MCItems == {<<"a">>, <<"a", "b">>, <<"a", "a", "b">>}
MCWeights == {<<1, 2>>, <<0, 1>>, <<1, 0, 3>>}
====
