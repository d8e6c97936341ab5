---- MODULE WrapMCq ----
EXTENDS WrapMC
MCSrc == {<<"u">>, <<"u", "v">>, <<"v", "w", "u">>}
====
