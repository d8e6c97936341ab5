---- MODULE ProfileMCq ----
EXTENDS ProfileMC
Gates == {<<T>>, <<T, F>>, <<F, T, T>>}
Reps == {<<N>>, <<"int:2", "int:0">>}
Ems == {Copy(<<1>>, FALSE, FALSE), Copy(<<1, 2>>, TRUE, FALSE), Copy(<<2, 1>>, TRUE, TRUE),
        Based(<<1>>, FALSE), Based(<<1, 2>>, TRUE)}
McCfgs == {Start3(g, r, r2, m) : g \in Gates, r \in Reps, r2 \in {<<N>>, <<"int:1">>}, m \in Ems}
GrCfgs == {Start3(g, r, <<N>>, m) : g \in {<<T, F>>}, r \in Reps, m \in Ems}
====
