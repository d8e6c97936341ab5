-------------------------------- MODULE Freq --------------------------------
(* How often choice emitters choose what: C07.                               *)
(*                                                                           *)
(* An event has the outputs of many calls (or of many restarts), as          *)
(* sequences of item numbers.  Each next value among what is left is to be   *)
(* in proportion to the weights.  The counts are compared with a bound that  *)
(* a right implementation exceeds with a probability under 1e-9 for any      *)
(* count (Bernstein's inequality), in integers.                              *)
EXTENDS Common, SequencesExt

FqStart(c) == [n |-> 0]
FqApply(s, e) == [s EXCEPT !.n = @ + 1]

Abs(x) == IF x < 0 THEN -x ELSE x

(* c out of n values, where w out of W are expected.                         *)
Fits(c, n, w, W) ==
  LET dev == Abs(c * W - n * w)
  IN IF w = 0 THEN c = 0
     ELSE IF w = W THEN c = n
     ELSE dev <= 46000 /\ dev * dev <= 44 * n * w * (W - w) + 15 * dev * W

WeightOf(e, v) == Sum([x \in DOMAIN e.w |-> IF e.vals[x] = v THEN e.w[x] ELSE 0])
Vals(e) == Elems(e.vals)

(* With replacement: each value on its own, and pairs of successive values.  *)
RepFits(e) ==
  LET flat == Flat(e.outs)
      W == Sum(e.w)
  IN \A v \in Vals(e) : Fits(Count(flat, v), Len(flat), WeightOf(e, v), W)
PairFits(e) ==
  LET flat == Flat(e.outs)
      W == Sum(e.w)
      P == Len(flat) \div 2
      N(u, v) == Cardinality({x \in 1..P : flat[2*x - 1] = u /\ flat[2*x] = v})
  IN \A u, v \in Vals(e) :
       Fits(N(u, v), P, WeightOf(e, u) * WeightOf(e, v), W * W)

(* Without replacement (all different values): the values that come after    *)
(* the ones in S, in any order.                                              *)
After(e, S) == {x \in DOMAIN e.outs :
                  /\ Len(e.outs[x]) > Cardinality(S)
                  /\ {e.outs[x][y] : y \in 1..Cardinality(S)} = S}
NextFits(e, S) ==
  LET A == After(e, S)
      k == Cardinality(S) + 1
      rest == Vals(e) \ S
      W == SumSet([v \in rest |-> WeightOf(e, v)], rest)
  IN W > 0 =>
     \A v \in rest : Fits(Cardinality({x \in A : e.outs[x][k] = v}),
                          Cardinality(A), WeightOf(e, v), W)
Begun(e) == {{e.outs[x][y] : y \in 1..d} :
                  x \in DOMAIN e.outs, d \in 0..Min(e.k - 1, e.depth)}
LeftFits(e) == \A S \in Begun(e) : NextFits(e, S)

(* Calls do not know of each other: the first value of a call, after calls   *)
(* that ended with (or began with, or had) v.                                *)
Firsts(e) == {x \in DOMAIN e.outs : x > 1 /\ e.outs[x] # <<>> /\ e.outs[x - 1] # <<>>}
FirstFits(e, A, v) ==
  Fits(Cardinality({x \in A : e.outs[x][1] = v}), Cardinality(A), WeightOf(e, v), Sum(e.w))
ApartFits(e) ==
  \A v \in Vals(e) :
    /\ FirstFits(e, {x \in Firsts(e) : e.outs[x - 1][Len(e.outs[x - 1])] = v}, v)
    /\ FirstFits(e, {x \in Firsts(e) : e.outs[x - 1][1] = v}, v)
    /\ FirstFits(e, {x \in Firsts(e) : v \in Elems(e.outs[x - 1])}, v)
    /\ FirstFits(e, {x \in Firsts(e) : v \notin Elems(e.outs[x - 1])}, v)

(* Many items (numbered 1, 2, ...), in groups: e.group says which is in      *)
(* which.  The expected number of values of a group is the sum, over all     *)
(* values drawn, of the part that the group has in the weight that was left  *)
(* (Freedman's inequality, which is Bernstein's for such sums).  Unit is the *)
(* unit of probabilities; sums of them are up to one unit per value too low. *)
Unit == 1000
GroupWeight(e, g) == Sum([x \in DOMAIN e.w |-> IF e.group[x] = g THEN e.w[x] ELSE 0])
Drawn(e, g, a, v) ==
  IF a.left = 0 THEN a
  ELSE LET p == (Unit * a.mine) \div a.left
           gone == IF e.mode = "rep" THEN 0 ELSE e.w[v]
           hit == e.group[v] = g
       IN [left |-> a.left - gone, mine |-> a.mine - (IF hit THEN gone ELSE 0),
           hits |-> a.hits + (IF hit THEN 1 ELSE 0), exp |-> a.exp + p,
           var |-> a.var + (p * (Unit - p)) \div Unit + 2, n |-> a.n + 1]
Group(e, g) ==
  LET W == Sum(e.w)
      G == GroupWeight(e, g)
      Call(a, o) == FoldLeft(LAMBDA b, v : Drawn(e, g, b, v), [a EXCEPT !.left = W, !.mine = G],
                             Take(o, e.depth))
  IN FoldLeft(Call, [left |-> W, mine |-> G, hits |-> 0, exp |-> 0, var |-> 0, n |-> 0], e.outs)
GroupFits(e, g) ==
  LET a == Group(e, g)
      dev == (10 * Max(0, Abs(Unit * a.hits - a.exp) - a.n)) \div Unit     (* in tenths *)
  IN dev <= 46000 /\ dev * dev <= 4400 * (a.var \div Unit + 1) + 150 * dev
GroupsFit(e) == \A g \in Elems(e.group) : GroupFits(e, g)

(* chance(p / q).                                                            *)
ChanceW(p, q) == IF p <= 0 THEN 0 ELSE IF p >= q THEN q ELSE p
ChanceFits(e) ==
  LET flat == Flat(e.outs)
      c == Count(flat, 1)
  IN /\ Elems(flat) \subseteq {1, 2}
     /\ Fits(c, Len(flat), ChanceW(e.p, e.q), e.q)

Known(e) == \A x \in DOMAIN e.outs : Elems(e.outs[x]) \subseteq Vals(e)

FqClauses(s, e) ==
  << <<"C07", "sampling works", e.err = "">> >> \o
  (IF e.err # "" THEN <<>>
   ELSE IF e.mode = "chance"
   THEN << <<"C07", "True with the given probability", ChanceFits(e)>> >>
   ELSE << <<"C07", "only items of the emitter", Known(e)>> >> \o
     (IF ~Known(e) THEN <<>>
      ELSE IF e.group # <<>>
      THEN << <<"C07", "groups of items in proportion to their weights", GroupsFit(e)>> >>
      ELSE IF e.mode = "rep"
      THEN << <<"C07", "values in proportion to their weights", RepFits(e)>>,
              <<"C07", "successive values are independent",
                ~e.pairs \/ PairFits(e)>> >>
      ELSE << <<"C07", "what is left in proportion to its weights", LeftFits(e)>>,
              <<IF e.mode = "uniq" THEN "C04" ELSE "C07", "calls do not know of the calls before",
                ApartFits(e)>> >>))
FqFails(s, e) == Failing(FqClauses(s, e))

FqTag(s, e) ==
  (IF e.mode # "chance" /\ e.group # <<>> THEN "many " ELSE "") \o e.mode \o "/" \o e.via \o "/" \o e.how \o
  (IF e.mode = "chance" THEN (IF e.p <= 0 \/ e.p >= e.q THEN "/always the same"
                             ELSE IF e.q # 100 THEN "/fraction" ELSE "")
   ELSE (IF 0 \in Elems(e.w) THEN "/zero weights"
         ELSE IF Cardinality(Elems(e.w)) = 1 THEN "/equal" ELSE "/weights"))
=============================================================================
