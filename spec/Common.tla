------------------------------- MODULE Common -------------------------------
(* Operators shared by all modules.  Values of the implementation are        *)
(* represented by strings (type and repr), so that they can be compared      *)
(* freely; lists by sequences; weights and counts by integers.               *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Elems(s) == {s[x] : x \in DOMAIN s}
Count(s, v) == Cardinality({x \in DOMAIN s : s[x] = v})
Bag(s) == [v \in Elems(s) |-> Count(s, v)]
IsSubBag(s, b) == \A v \in Elems(s) : v \in DOMAIN b /\ Count(s, v) <= b[v]
BagMinus(b, s) == [v \in DOMAIN b |-> b[v] - Count(s, v)]
Min(a, b) == IF a <= b THEN a ELSE b
Max(a, b) == IF a >= b THEN a ELSE b

RECURSIVE SumFrom(_, _)
SumFrom(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumFrom(s, n - 1)
Sum(s) == SumFrom(s, Len(s))

RECURSIVE SumSet(_, _)
SumSet(f, S) == IF S = {} THEN 0
                ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + SumSet(f, S \ {x})
BagSize(b) == SumSet(b, DOMAIN b)

RECURSIVE Pow(_, _)
Pow(a, n) == IF n = 0 THEN 1 ELSE a * Pow(a, n - 1)

(* The concatenation of a sequence of strings.                               *)
RECURSIVE CatFrom(_, _)
CatFrom(s, n) == IF n = 0 THEN "" ELSE CatFrom(s, n - 1) \o s[n]
Cat(s) == CatFrom(s, Len(s))

(* The concatenation of a sequence of sequences.                             *)
RECURSIVE FlatFrom(_, _)
FlatFrom(s, n) == IF n = 0 THEN <<>> ELSE FlatFrom(s, n - 1) \o s[n]
Flat(s) == FlatFrom(s, Len(s))

(* Values number p, p+1, ..., p+n-1 (from 0) of the endless cycle of s.      *)
Cyc(s, p, n) == [x \in 1..n |-> s[((p + x - 1) % Len(s)) + 1]]

Rep(v, n) == [x \in 1..n |-> v]
Take(s, n) == SubSeq(s, 1, Min(n, Len(s)))
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
Distinct(s) == Cardinality(Elems(s)) = Len(s)

(* Clauses are <<property, name, holds>>; an event fails those that do not   *)
(* hold.                                                                     *)
Failing(clauses) == {<<c[1], c[2]>> : c \in {x \in Elems(clauses) : ~x[3]}}
=============================================================================
